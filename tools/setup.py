#!/usr/bin/env python3
"""Parses every specification module and builds the driver once: a broken sandbox shows here and not in a check."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hw
mods = sorted(f for f in os.listdir(hw.SPEC) if f.endswith('.tla'))
p = subprocess.run(['java', '-cp', hw.TLAJARS, 'tla2sany.SANY'] + mods, cwd=hw.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
out = p.stdout.decode()
if p.returncode or '*** Errors' in out or 'Could not parse' in out:
    sys.exit(out[-3000:])
hw.build('x64')
print('ok: %d modules' % len(mods))
