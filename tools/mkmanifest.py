#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
TV = 'TLA+ (TLC): '
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks = []
for i in range(1, 19):
    p = 'C%02d' % i
    if hasattr(props, p):
        tech, note = NOTE[p]
        checks.append({'property': p, 'quick_cmd': 'python3 tools/check.py %s quick' % p, 'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': TV + tech, 'level': 'model_checking', 'level_note': note})
na = [{'property': 'C%02d' % i, 'reason': 'check still being built'} for i in range(1, 19) if not hasattr(props, 'C%02d' % i)]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks drive the public API from a crate in /verif/driver that depends on /repo by path.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
