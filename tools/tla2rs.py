#!/usr/bin/env python3
"""Turns HighwayHash.tla into straight-line Rust, by symbolic evaluation of its operators (SANY's XML of the module).
The Rust is nothing but the specification's arithmetic with the loops unrolled; C01 compares it with TLC on every run."""
import os, subprocess, sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)

class Sym:
    __slots__ = ('i',)
    def __init__(self, i): self.i = i

class Module:
    def __init__(self, path):
        import hw
        p = subprocess.run(['java', '-cp', hw.TLAJARS, 'tla2sany.xml.XMLExporter', '-o', os.path.basename(path)], cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        root = ET.fromstring(p.stdout)
        self.n = {}
        self.by_name = {}
        mods = {}
        for e in root.find('context'):
            uid, node = e.find('UID').text, e[1]
            self.n[uid] = node
        for uid, node in self.n.items():
            if node.tag == 'UserDefinedOpKind':
                name = node.findtext('uniquename')
                if node.find('location/filename').text in ('HighwayHash', 'Words') and node.find('location/column/begin').text == '1':
                    self.by_name[name] = node

class Closure:
    def __init__(self, params, body, env): self.params, self.body, self.env = params, body, env

class Fn:
    """One Rust function under construction."""
    def __init__(self):
        self.nodes, self.memo = [], {}
    def emit(self, expr, width=None):
        if expr in self.memo: return self.memo[expr]
        s = Sym(len(self.nodes))
        self.nodes.append((expr, width))
        self.memo[expr] = s
        return s

def ref(x):
    return '%du32' % x if isinstance(x, int) else ('t%d' % x.i)

class Eval:
    def __init__(self, mod, opaque):
        self.m, self.opaque, self.f = mod, opaque, None
    def arith(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return {'+': a + b, '-': a - b, '*': a * b, '/': a // b if b else 0, '%': a % b if b else 0, '^': a ^ b}[op]
        if op in '+^' and a == 0: return b
        if op in '+-^' and b == 0: return a
        if op == '*' and a == 1: return b
        if op in '*/' and b == 1: return a
        if op == '*' and (a == 0 or b == 0): return 0
        if op == '%' and b == 1: return 0
        return self.f.emit('%s %s %s' % (ref(a), op, ref(b)))
    def params(self, node):
        return [p.find('FormalParamNodeRef/UID').text for p in node.findall('params/leibnizparam')]
    def call(self, node, args):
        name = node.findtext('uniquename')
        if name in self.opaque and self.f is not None and self.cur != name:
            return self.opaque[name](self, args)
        ps = self.params(node)
        return self.ev(node.find('body')[0], dict(zip(ps, args)))
    def apply(self, c, args):
        if isinstance(c, Closure):
            return self.ev(c.body, dict(c.env, **dict(zip(c.params, args))))
        return self.call(c, args)
    def ev(self, e, env):
        t = e.tag
        if t == 'NumeralNode': return int(e.findtext('IntValue'))
        if t == 'LetInNode':
            env = dict(env)
            for r in e.find('opDefs'):
                node = self.m.n[r.find('UID').text]
                env['let' + r.find('UID').text] = ('lazy', node, env)
            return self.ev(e.find('body')[0], env)
        if t == 'OpArgNode':
            r = e.find('argument')[0]
            node = self.m.n[r.find('UID').text]
            if node.findtext('uniquename') == 'LAMBDA':
                return Closure(self.params(node), node.find('body')[0], env)
            return node
        assert t == 'OpApplNode', t
        r = e.find('operator')[0]
        uid = r.find('UID').text
        ops = list(e.find('operands'))
        if r.tag == 'FormalParamNodeRef':
            v = env[uid]
            return self.apply(v, [self.ev(o, env) for o in ops]) if ops else v
        node = self.m.n[uid]
        name = node.findtext('uniquename')
        if r.tag == 'UserDefinedOpKindRef':
            if 'let' + uid in env:
                v = env['let' + uid]
                if isinstance(v, tuple) and v[0] == 'lazy':
                    assert not ops
                    x = self.ev(v[1].find('body')[0], v[2])
                    v[2]['let' + uid] = env['let' + uid] = ('val', x)
                    return x
                return v[1]
            if name == 'FoldLeft':
                f, acc, seq = [self.ev(o, env) for o in ops]
                for x in seq: acc = self.apply(f, [acc, x])
                return acc
            args = [self.ev(o, env) for o in ops]
            if name in ('+', '-', '*', '%'): return self.arith(name, *args)
            if name == '\\div': return self.arith('/', *args)
            if name == '^': return args[0] ** args[1]
            if name == '^^': return self.arith('^', *args)
            if name == 'Len': return len(args[0])
            if name == '\\o': return args[0] + args[1]
            if name == 'SubSeq': return args[0][args[1] - 1:args[2]]
            if name == '>=' or name == '\\geq': return args[0] >= args[1]
            if name == '>': return args[0] > args[1]
            if name == '<=' or name == '\\leq': return args[0] <= args[1]
            if name == '<': return args[0] < args[1]
            return self.call(node, args)
        if name == '$Tuple': return [self.ev(o, env) for o in ops]
        if name == '$FcnApply':
            f, i = self.ev(ops[0], env), self.ev(ops[1], env)
            return f[i - 1]
        if name == '$IfThenElse':
            c = self.ev(ops[0], env)
            assert isinstance(c, bool)
            return self.ev(ops[1] if c else ops[2], env)
        if name == '$Case':
            for p in ops:
                a, b = list(p.find('operands'))
                if self.ev(a, env): return self.ev(b, env)
            raise ValueError
        if name == '=':
            a, b = [self.ev(o, env) for o in ops]
            assert isinstance(a, int) and isinstance(b, int)
            return a == b
        raise NotImplementedError(name)

def flat(v):
    return [v] if not isinstance(v, list) else [x for y in v for x in flat(y)]
def shape(v, xs):
    """xs (an iterator) in the shape of v, where v is nested lengths"""
    return next(xs) if v == 0 else [shape(v[1], xs) for _ in range(v[0])]
STATE = (4, (4, (8, 0)))
LANES4 = (4, (8, 0))

def function(ev, name, rust, args, ret, cur=None):
    """args: [(name, shape)]"""
    ev.f, ev.cur = Fn(), cur or name
    vals = []
    for a, sh in args:
        n = 1
        s = sh
        while s: n *= s[0]; s = s[1]
        vals.append(shape(sh, iter([ev.f.emit('%s[%d]' % (a, i)) for i in range(n)])))
    out = ev.call(ev.m.by_name[name], vals)
    res = flat(out)
    lens = []
    for a, sh in args:
        n = 1; s = sh
        while s: n *= s[0]; s = s[1]
        lens.append(n)
    src = 'pub fn %s(%s) -> [u32; %d] {\n' % (rust, ', '.join('%s: &[u32; %d]' % (a, n) for (a, _), n in zip(args, lens)), len(res))
    for i, (x, w) in enumerate(ev.f.nodes):
        src += '    let t%d = %s;\n' % (i, x)
    src += '    [%s]\n}\n' % ', '.join(ref(x) for x in res)
    return src, out

def generate(path):
    m = Module(path)
    def op_update(ev, args):
        a, b = flat(args[0]), flat(args[1])
        t = ev.f.emit('update(&[%s], &[%s])' % (', '.join(map(ref, a)), ', '.join(map(ref, b))))
        return shape(STATE, iter([ev.f.emit('t%d[%d]' % (t.i, i)) for i in range(128)]))
    ev = Eval(m, {'Update': op_update})
    out = ['// Generated from HighwayHash.tla. Do not edit.\n']
    out.append(function(ev, 'InitState', 'init_state', [('k', LANES4)], None)[0])
    out.append(function(ev, 'Update', 'update', [('s', STATE), ('p', LANES4)], None)[0])
    arms = ''
    for n in range(1, 32):
        out.append(function(ev, 'WithRemainder', 'rem%d' % n, [('s', STATE), ('b', (n, 0))], None)[0])
        arms += '        %d => rem%d(s, b.try_into().unwrap()),\n' % (n, n)
    out.append('pub fn with_remainder(s: &[u32; 128], b: &[u32]) -> [u32; 128] {\n    match b.len() {\n        0 => *s,\n%s        _ => unreachable!(),\n    }\n}\n' % arms)
    # Final without a remainder is the rounds and the result; with one, WithRemainder comes first
    for w in (64, 128, 256):
        class Bound: pass
        src, _ = function(ev, 'Final%d' % w, 'final%d' % w, [('s', STATE), ('b', (0, 0))], None)
        out.append(src.replace(', b: &[u32; 0]', ''))
    return ''.join(out)

if __name__ == '__main__':
    import hw
    print(generate(os.path.join(hw.SPEC, 'HighwayHash.tla')))
