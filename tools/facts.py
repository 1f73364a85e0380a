"""What the operations compile to, as facts: one node per function or global of the optimised, linked program
(LLVM IR after fat LTO, as in /repo's own release profile), an edge for every mention. Reach.tla decides on them."""
import json, os, re, shutil, subprocess
import hw
from hw import BuildFailed, ToolError, log

# name -> (target, rustflags, features)
CONFIGS = {
    'x64': ('x86_64-unknown-linux-gnu', '', 'hw_std'),
    'x64nostd': ('x86_64-unknown-linux-gnu', '', ''),
    'x64sse': ('x86_64-unknown-linux-gnu', '-Ctarget-feature=+sse4.1', 'hw_std'),
    'x64avx': ('x86_64-unknown-linux-gnu', '-Ctarget-feature=+avx2', 'hw_std'),
    'x64native': ('x86_64-unknown-linux-gnu', '-Ctarget-cpu=native', 'hw_std'),
    'x64avxnostd': ('x86_64-unknown-linux-gnu', '-Ctarget-feature=+avx2', ''),
    'x64ssenostd': ('x86_64-unknown-linux-gnu', '-Ctarget-feature=+sse4.1', ''),
    'arm': ('aarch64-unknown-linux-gnu', '', 'hw_std'),
    'armnostd': ('aarch64-unknown-linux-gnu', '', ''),
    'i686': ('i686-unknown-linux-gnu', '', 'hw_std'),
    'i686nostd': ('i686-unknown-linux-gnu', '', ''),
    'wasm': ('wasm32-unknown-unknown', '-Ctarget-feature=+simd128', 'hw_std'),
    'wasmnosimd': ('wasm32-unknown-unknown', '-Ctarget-feature=-simd128', 'hw_std'),
}

def probe(name):
    """Builds the probe crate; returns the path of its IR."""
    target, flags, feats = CONFIGS[name]
    md = crate('probe')
    td = os.path.join(hw.workdir(), 'p-' + name)
    env = {'RUSTUP_TOOLCHAIN': '1.99.1', 'CARGO_NET_OFFLINE': 'true', 'RUSTC_WRAPPER': '', 'RUSTFLAGS': flags,
           'CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER': 'aarch64-linux-gnu-gcc', 'CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER': 'i686-linux-gnu-gcc'}
    cmd = ['cargo', 'rustc', '--release', '--offline', '--quiet', '--manifest-path', os.path.join(md, 'Cargo.toml'), '--target-dir', td, '--target', target,
           '--no-default-features'] + (['--features', feats] if feats else []) + ['--', '--emit=llvm-ir']
    rc, out, err = hw.sh(cmd, timeout=600, env=env, ok=None)
    if rc != 0:
        raise BuildFailed('probe %s does not build:\n%s' % (name, err[-3000:]))
    d = os.path.join(td, target, 'release', 'deps')
    ll = [os.path.join(d, f) for f in os.listdir(d) if f.endswith('.ll')]
    if len(ll) != 1:
        raise ToolError('probe %s: IR %r' % (name, ll))
    return ll[0]

def crate(name):
    """A copy of a crate of /verif whose path dependency is the tree under test."""
    md = os.path.join(hw.workdir(), name)
    with hw._lock:
        os.makedirs(os.path.join(md, 'src'), exist_ok=True)
        for f in ('Cargo.toml', 'src/lib.rs'):
            text = open(os.path.join(hw.VERIF, name, f)).read().replace('path = "/repo"', 'path = "%s"' % hw.REPO)
            p = os.path.join(md, f)
            if not os.path.exists(p) or open(p).read() != text:
                open(p, 'w').write(text)
    return md

def links_without_allocator(target, flags=''):
    """Links a program that has neither std nor an allocator. None, or what stops it."""
    td = os.path.join(hw.workdir(), 'na-' + target)
    env = {'RUSTUP_TOOLCHAIN': '1.99.1', 'CARGO_NET_OFFLINE': 'true', 'RUSTC_WRAPPER': '', 'RUSTFLAGS': flags}
    rc, out, err = hw.sh(['cargo', 'build', '--release', '--offline', '--quiet', '--manifest-path', os.path.join(crate('noalloc'), 'Cargo.toml'), '--target-dir', td, '--target', target],
                         timeout=300, env=env, ok=None)
    if rc == 0: return None
    m = re.search(r'no global memory allocator found|found duplicate lang item|unable to find library|undefined symbol: \S*alloc\S*', err)
    if m: return m.group(0)
    raise BuildFailed('noalloc for %s:\n%s' % (target, err[-2500:]))

NAME = re.compile(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)')
def parse(path):
    """{name: dict(kind, refs, calls, stores, indirect)}"""
    g, cur, feats = {}, None, {}
    for line in open(path):
        if cur is None:
            if line.startswith('attributes #'):
                m = re.match(r'attributes #(\d+) = .*"target-features"="([^"]*)"', line)
                if m: feats[m.group(1)] = set(x[1:] for x in m.group(2).split(',') if x[0] == '+')
            elif line.startswith('define '):
                m = NAME.search(line)
                a = re.search(r'\) .*?#(\d+)', line[m.end():])
                cur = g[m.group(1)] = dict(kind='fn', refs=set(), writes=set(), indirect=0, attr=a and a.group(1))
            elif line.startswith('declare '):
                m = NAME.search(line)
                g[m.group(1)] = dict(kind='extern', refs=set(), writes=set(), indirect=0)
            elif line.startswith('@'):
                m = NAME.match(line)
                rest = line[m.end():]
                head = rest.split('{')[0]
                if re.search(r'\balias\b|\bifunc\b', head): kind = 'alias'
                elif re.search(r'\bconstant\b', head): kind = 'const'
                else: kind = 'var'
                g[m.group(1)] = dict(kind=kind, refs=set(NAME.findall(re.sub(r'\bc"[^"]*"', '', rest))), writes=set(), indirect=0)
        elif line.startswith('}'):
            cur = None
        elif line.startswith(';'):
            pass
        else:
            s = line.split(', !', 1)[0].split(' #', 1)[0] if ', !' in line or ' #' in line else line
            names = NAME.findall(s)
            cur['refs'].update(names)
            t = s.strip()
            if re.search(r'\b(call|invoke)\b', t) and not re.search(r'\b(call|invoke)\b.*?@', t) and ' asm ' not in t:
                cur['indirect'] += 1
            m = re.match(r'(?:%\S+ = )?(?:tail |musttail |notail )?(?:store|atomicrmw|cmpxchg)\b', t)
            if m and names:
                cur['writes'].update(names)
    for v in g.values():
        v['feats'] = feats.get(v.get('attr'), set())
    return g

def reach(g, roots):
    seen, todo = {r: None for r in roots}, list(roots)
    while todo:
        x = todo.pop()
        for y in sorted(g.get(x, {}).get('refs', ())):
            if y not in seen:
                seen[y] = x
                todo.append(y)
    return seen

PANIC = re.compile(r'9panicking|rust_panic|rust_begin_unwind|_Unwind_|18handle_alloc_error|^llvm\.(u?bsan)?(debug)?trap$|^abort$|^__assert')
ALLOC = re.compile(r'__rust_(no_)?alloc|__rdl_|__rg_|^(malloc|calloc|realloc|reallocarray|aligned_alloc|posix_memalign|memalign|valloc|mmap|mmap64|brk|sbrk|strdup)$|5alloc5alloc')

def facts(name, g, roots, bad, cut=None):
    """The part of the graph the roots reach, for Reach.tla; nodes matching cut keep no edges."""
    rs = sorted(n for n in g if re.match(roots, n))
    seen = reach({n: (dict(v, refs=()) if cut and cut(n) else v) for n, v in g.items()}, rs)
    return {'name': name, 'roots': rs, 'edges': {n: sorted(g[n]['refs']) for n in seen if n in g and g[n]['refs'] and not (cut and cut(n))},
            'bad': sorted(n for n in seen if bad(n))}

# ---------------------------------------------------------------- unsafe code
ANCHORS = ['src/' + f for f in ('lib.rs', 'portable.rs', 'internal.rs', 'key.rs', 'traits.rs', 'macros.rs', 'hash.rs')]
# modules that may not be exempted from the lint
PORTABLE_MODS = {'portable', 'internal', 'key', 'traits', 'macros', 'hash', '-'}
AUTO = re.compile(r'(?<![A-Za-z_])HighwayHasher(?![A-Za-z_])')

class Source:
    """The items of the crate, over all configurations (scan/)."""
    def __init__(self):
        md = os.path.join(hw.VERIF, 'scan')
        td = os.path.join(hw.workdir(), 'scan')
        rc, out, err = hw.sh(['cargo', 'run', '--offline', '--quiet', '--locked', '--manifest-path', os.path.join(md, 'Cargo.toml'), '--target-dir', td, '--', os.path.join(hw.REPO, 'src')],
                             timeout=300, env={'CARGO_NET_OFFLINE': 'true', 'RUSTC_WRAPPER': ''}, ok=None)
        if rc != 0: raise BuildFailed('scan: ' + err[-2500:])
        self.items, self.edges, self.unsafe, self.lints, self.fns = {}, {}, [], [], {}
        for l in out.splitlines():
            p = l.split('\t')
            if p[0] == 'item': self.items[p[1]] = p[2:]
            elif p[0] == 'edge': self.edges.setdefault(p[1], set()).add(p[2])
            elif p[0] == 'unsafe': self.unsafe.append((p[1], p[2], int(p[3]), p[4]))
            elif p[0] == 'lint': self.lints.append((p[1], int(p[2]), p[3], p[4]))
            elif p[0] == 'fn': self.fns.setdefault(p[1], []).append((int(p[2]), int(p[3])))
    def named(self, *names):
        return sorted(i for i in self.items if i.split('::')[-1] in names)
    def fn_at(self, file, line):
        """The innermost function around a line."""
        best = [x for x in self.fns.get(file, ()) if x[0] <= line <= x[1]]
        return (file, max(best)[0]) if best else None
    def graph(self, name, roots, cut=None):
        bad = {}
        for i, f, l, w in self.unsafe: bad.setdefault(i, '%s:%d %s' % (f, l, w))
        seen, todo = set(roots), list(roots)
        edges = {}
        while todo:
            x = todo.pop()
            e = set() if cut and cut(x) else set(self.edges.get(x, ()))
            if x in bad and not (cut and cut(x)): e.add(bad[x])
            if e: edges[x] = sorted(e)
            for y in e - seen: seen.add(y); todo.append(y)
        return {'name': name, 'roots': sorted(roots), 'edges': edges, 'bad': sorted(set(bad.values()) & seen)}
    def facts(self):
        out = [self.graph('source: portable hasher, key, trait', self.named('PortableHash', 'Key', 'HighwayHash')),
               self.graph('source: collection builder type', self.named('HighwayBuildHasher'), cut=lambda x: x.split('::')[-1] == 'HighwayHasher')]
        # the modules of the portable path themselves; a macro that only others use is none of it
        e = {}
        idle = self.idle()
        for i, f, l, w in self.unsafe:
            if f in ANCHORS and i not in idle: e.setdefault(f, set()).add('%s:%d %s' % (f, l, w))
        for f, l, w, m in self.lints:
            if f in ANCHORS and m in PORTABLE_MODS and not any(self.within(i, f, l) for i in idle): e.setdefault(f, set()).add('%s:%d %s' % (f, l, w))
        out.append({'name': 'source: modules of the portable path', 'roots': [f for f in ANCHORS if os.path.exists(os.path.join(hw.REPO, f))],
                    'edges': {f: sorted(x) for f, x in e.items()}, 'bad': sorted(set().union(*e.values()) if e else [])})
        return out
    def idle(self):
        """The macros that nothing of the portable path mentions."""
        seen = set(reach({i: {'refs': self.edges.get(i, ())} for i in self.items if i.split('::')[-1] != 'HighwayHasher'}, self.named('PortableHash', 'Key', 'HighwayHash', 'HighwayBuildHasher')))
        return set(i for i in self.items if i.endswith('!') and i not in seen)
    def within(self, i, f, l):
        return self.items[i][0] == f and int(self.items[i][1]) <= l <= int(self.items[i][2])
    def control(self):
        """The auto-selecting hasher and the SIMD hashers do use unsafe code: it has to be found."""
        return self.graph('control', self.named('HighwayHasher'))

def unsafe_facts(name, src):
    """One configuration as the compiler sees it: where unsafe code is (its own lint), and what calls what (unoptimised IR)."""
    target, flags, feats = CONFIGS[name]
    md = crate('probe')
    td = os.path.join(hw.workdir(), 'u-' + name)
    env = {'RUSTUP_TOOLCHAIN': '1.99.1', 'CARGO_NET_OFFLINE': 'true', 'RUSTC_WRAPPER': '', 'CARGO_INCREMENTAL': '0',
           'RUSTFLAGS': flags + ' --emit=llvm-ir,link -Cno-prepopulate-passes -Cdebuginfo=1 -Ccodegen-units=1 --force-warn=unsafe_code',
           'CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER': 'aarch64-linux-gnu-gcc', 'CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER': 'i686-linux-gnu-gcc'}
    shutil.rmtree(td, ignore_errors=True)
    rc, out, err = hw.sh(['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(md, 'Cargo.toml'), '--target-dir', td, '--target', target, '--no-default-features',
                          '--message-format=json'] + (['--features', feats] if feats else []), timeout=600, env=env, ok=None)
    if rc != 0: raise BuildFailed('probe %s does not build:\n%s' % (name, err[-1500:] + out[-1500:]))
    # where
    spots = set()
    def rel(f):
        f = os.path.join(hw.REPO, f) if not f.startswith('/') else f
        return os.path.relpath(os.path.realpath(f), os.path.realpath(hw.REPO))
    for l in out.splitlines():
        m = json.loads(l) if l.startswith('{') else {}
        d = m.get('message') or {}
        if m.get('reason') != 'compiler-message' or (d.get('code') or {}).get('code') != 'unsafe_code': continue
        if m['target']['name'] != 'highway': continue
        for s in d['spans']:
            while s:
                spots.add((rel(s['file_name']), s['line_start']))
                s = (s.get('expansion') or {}).get('span')
    # what calls what
    g, at = {}, {}
    d = os.path.join(td, target, 'debug', 'deps')
    lls = [os.path.join(d, f) for f in os.listdir(d) if f.endswith('.ll')]
    if not any('highway' in f for f in lls): raise ToolError('no IR of the crate for ' + name)
    for ll in lls:
        text = open(ll).read()
        # names of this file only
        own = set(NAME.findall(' '.join(re.findall(r'^(@\S+) = (?:private|internal)\b', text, re.M) + re.findall(r'^define (?:private|internal) .*?(@[^(]*)\(', text, re.M))))
        tag = os.path.basename(ll).split('-')[0] + ':'
        ren = lambda n: tag + n if n in own else n
        for n, v in parse(ll).items():
            n = ren(n)
            v['refs'] = set(map(ren, v['refs']))
            if n not in g or g[n]['kind'] == 'extern': g[n] = v
            elif v['kind'] != 'extern': g[n]['refs'] |= v['refs']
        files, subs, defs = {}, {}, {}
        for l in open(ll):
            if l.startswith('define '):
                m = re.search(r'!dbg !(\d+)', l)
                if m: defs[ren(NAME.search(l).group(1))] = m.group(1)
            elif l.startswith('!') and 'DIFile(' in l:
                m = re.match(r'!(\d+) = .*filename: "([^"]*)", directory: "([^"]*)"', l)
                if m: files[m.group(1)] = os.path.join(m.group(3), m.group(2))
            elif l.startswith('!') and 'DISubprogram(' in l:
                i = re.match(r'!(\d+) =', l); f = re.search(r'\bfile: !(\d+)', l); ln = re.search(r'\bline: (\d+)', l)
                if i and f and ln: subs[i.group(1)] = (f.group(1), int(ln.group(1)))
        for fn, i in defs.items():
            if i in subs and subs[i][0] in files: at[fn] = (rel(re.sub(r'/@/.*$', '', files[subs[i][0]])), subs[i][1])
    where = {n: src.fn_at(*x) or x for n, x in at.items() if x[0].startswith('src/')}
    bad = {}
    for f, l in spots:
        k = src.fn_at(f, l)
        if k: bad.setdefault(k, '%s:%d unsafe code' % (f, l))
    out = []
    def graph(title, pick, cut=None):
        roots = sorted(n for n in g if g[n]['kind'] == 'fn' and pick(n))
        seen, todo, edges, hit = set(roots), list(roots), {}, set()
        while todo:
            x = todo.pop()
            if x not in g or (cut and cut(x)): continue
            e = set(y for y in g[x]['refs'] if y in g)
            if where.get(x) in bad: e.add(bad[where[x]]); hit.add(bad[where[x]])
            if e: edges[x] = sorted(e)
            for y in e - seen: seen.add(y); todo.append(y)
        return {'name': '%s: %s' % (name, title), 'roots': roots, 'edges': edges, 'bad': sorted(hit)}
    inkey = lambda n: at.get(n, ('', 0))[0] in ('src/key.rs', 'src/internal.rs', 'src/portable.rs')
    out.append(graph('portable operations', lambda n: re.match(r'hw[pf]_portable_', n) or (inkey(n) and not AUTO.search(n))))
    out.append(graph('builder type', lambda n: re.match(r'hw[pf]_builder_', n), cut=lambda n: re.search(r'HighwayHasher', n)))
    # unsafe code outside functions (impls, statics, attributes) of the modules of the portable path
    e = {}
    idle = src.idle()
    for f, l in sorted(spots):
        if f in ANCHORS and not any(src.within(i, f, l) for i in idle): e.setdefault(f, []).append('%s:%d unsafe code' % (f, l))
    out.append({'name': name + ': modules', 'roots': ANCHORS[:1], 'edges': {ANCHORS[0]: sorted(sum(e.values(), []))} if e else {}, 'bad': sorted(sum(e.values(), []))})
    control = graph('control', lambda n: re.match(r'hwp_auto_new', n))
    return out, control, {'spots': len(spots), 'functions': len(where)}
