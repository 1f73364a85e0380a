"""Building the driver from /repo's working tree, running scripts on it, running TLC, deciding."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HW_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
QUICK = TIER != 'thorough'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0 = time.time()

class ToolError(Exception):
    """Neither held nor broken: the check itself could not run."""

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

def sh(cmd, timeout=600, env=None, cwd=None, ok=(0,), input=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=input)
    out, err = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    if ok is not None and p.returncode not in ok:
        raise ToolError('%s: exit %s\n%s\n%s' % (' '.join(map(str, cmd))[:300], p.returncode, out[-1500:], err[-3000:]))
    return p.returncode, out, err

# ---------------------------------------------------------------- source identity
def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'target', 'benches', 'tests', 'fuzz', 'compare', 'assets'))
        for f in sorted(fs):
            if f.endswith('.rs') or f in ('Cargo.toml', 'build.rs') or d.endswith('.cargo'):
                out.append(os.path.join(d, f))
    return out

def repo_hash():
    h = hashlib.sha256(REPO.encode())
    for f in repo_files():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:12]

_wd = None
def workdir():
    """A build directory of its own for every content of the source tree: nothing stale can be used."""
    global _wd
    if _wd is None:
        _wd = os.path.join(BUILD, 'w-' + repo_hash())
        if os.path.isdir(BUILD) and REPO == '/repo':
            old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith('w-')), key=os.path.getmtime)
            for x in old[:-4]:
                if x != _wd and time.time() - os.path.getmtime(x) > 3600:
                    shutil.rmtree(x, ignore_errors=True)
        os.makedirs(_wd, exist_ok=True)
        os.utime(_wd)
    return _wd

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='hwcheck-')
    return _tmp

def cleanup():
    if _tmp:
        shutil.rmtree(_tmp, ignore_errors=True)

# ---------------------------------------------------------------- lanes
class Lane:
    def __init__(self, name, profile='release', feats='std,hw_std', rustflags='', target=None, toolchain='1.99.1',
                 runner=None, types='PDSA', wasm=False, extra=(), kind='bin', word=8, env=None, base=None):
        self.base = base
        self.name, self.profile, self.feats, self.rustflags, self.target = name, profile, feats, rustflags, target
        self.toolchain, self.runner, self.types, self.wasm, self.extra, self.kind = toolchain, runner or [], types, wasm, list(extra), kind
        self.word, self.env = word, env or {}

QA = ['qemu-aarch64', '-L', '/usr/aarch64-linux-gnu']
QI = ['qemu-i386', '-L', '/usr/i686-linux-gnu']
I6 = '/usr/i686-linux-gnu/lib'
try:
    # many times faster than the emulator, where the kernel has 32-bit system calls
    if subprocess.run([I6 + '/ld-linux.so.2', '--version'], capture_output=True, timeout=20).returncode == 0:
        QI = [I6 + '/ld-linux.so.2', '--library-path', I6]
except (OSError, subprocess.SubprocessError): pass
X86 = 'x86_64-unknown-linux-gnu'
LANES = {l.name: l for l in [
    Lane('x64'),
    Lane('x64dev', profile='dev'),
    Lane('x64checked', profile='checked'),
    Lane('x64nostd', feats='std'),
    Lane('x64nostddev', feats='std', profile='dev'),
    Lane('x64sse', rustflags='-Ctarget-feature=+sse4.1', target=X86),
    Lane('x64avx', rustflags='-Ctarget-feature=+avx2', target=X86),
    Lane('x64sseonly', rustflags='-Ctarget-feature=+sse4.1,-avx2', target=X86),
    Lane('x64avx1', rustflags='-Ctarget-feature=+avx', target=X86),
    Lane('x64v3', rustflags='-Ctarget-cpu=x86-64-v3', target=X86),
    Lane('x64native', rustflags='-Ctarget-cpu=native', target=X86),
    Lane('x64asan', rustflags='-Zsanitizer=address -Copt-level=1', target=X86, toolchain='nightly'),
    Lane('x64asandev', rustflags='-Zsanitizer=address', target=X86, toolchain='nightly', profile='dev'),
    Lane('x64tsan', rustflags='-Zsanitizer=thread -Copt-level=1', target=X86, toolchain='nightly', extra=['-Zbuild-std=std,panic_abort,panic_unwind']),
    Lane('arm', target='aarch64-unknown-linux-gnu', runner=QA, types='PDN'),
    Lane('armdev', target='aarch64-unknown-linux-gnu', runner=QA, types='PDN', profile='dev'),
    Lane('armnostd', target='aarch64-unknown-linux-gnu', runner=QA, types='PDN', feats='std'),
    Lane('i686', target='i686-unknown-linux-gnu', runner=QI, types='PD', word=4),
    Lane('i686dev', target='i686-unknown-linux-gnu', runner=QI, types='PD', word=4, profile='dev'),
    Lane('wasm', target='wasm32-unknown-unknown', rustflags='-Ctarget-feature=+simd128', types='PDW', wasm=True, word=4),
    Lane('wasmdev', target='wasm32-unknown-unknown', rustflags='-Ctarget-feature=+simd128', types='PDW', wasm=True, word=4, profile='dev'),
    Lane('wasmnosimd', target='wasm32-unknown-unknown', rustflags='-Ctarget-feature=-simd128', types='PD', wasm=True, word=4),
]}
for _b in ('arm', 'i686', 'wasm', 'wasmnosimd'):
    b = LANES[_b]
    for _s, _f, _p in (('nostd', 'std', 'release'), ('nostddev', 'std', 'dev'), ('dev', 'std,hw_std', 'dev')):
        LANES.setdefault(_b + _s, Lane(_b + _s, profile=_p, feats=_f, rustflags=b.rustflags, target=b.target, runner=b.runner, types=b.types, wasm=b.wasm, word=b.word))
LANES['i686checked'] = Lane('i686checked', profile='checked', target=LANES['i686'].target, runner=QI, types='PD', word=4)
LANES['wasmchecked'] = Lane('wasmchecked', profile='checked', target=LANES['wasm'].target, rustflags=LANES['wasm'].rustflags, types='PDW', wasm=True, word=4)
# targets of which only the compiler is installed: no std, linked by lld (driver/src/bare.rs)
for _n, _t, _q, _w, _y in [('ppc', 'powerpc-unknown-linux-gnu', 'ppc', 4, 'PD'), ('s390x', 's390x-unknown-linux-gnu', 's390x', 8, 'PD'), ('ppc64', 'powerpc64-unknown-linux-musl', 'ppc64', 8, 'PD'),
                           ('armeb', 'armeb-unknown-linux-gnueabi', 'armeb', 4, 'PD'), ('riscv32', 'riscv32gc-unknown-linux-gnu', 'riscv32', 4, 'PD'), ('armbe', 'aarch64_be-unknown-linux-gnu', 'aarch64_be', 8, 'PDN')]:
    LANES[_n] = Lane(_n, profile='bare', feats='bare', target=_t, toolchain='nightly', runner=['qemu-' + _q], kind='bare', word=_w, types=_y,
                     rustflags='-Clinker=rust-lld -Clinker-flavor=ld.lld -Crelocation-model=static -Ctarget-feature=+crt-static -Clink-self-contained=no',
                     extra=['-Zbuild-std=core,alloc,compiler_builtins', '-Zbuild-std-features=compiler-builtins-mem'])

for a in ('sse', 'avx', 'sseonly', 'avx1', 'v3', 'native'):
    b = LANES['x64' + a]
    LANES['x64%sdev' % a] = Lane('x64%sdev' % a, profile='dev', rustflags=b.rustflags, target=X86)
    LANES['x64%snostd' % a] = Lane('x64%snostd' % a, feats='std', rustflags=b.rustflags, target=X86)
    LANES['x64%snostddev' % a] = Lane('x64%snostddev' % a, feats='std', profile='dev', rustflags=b.rustflags, target=X86)

# other CPUs, by emulation
CPUS = {'conroe': 'Conroe', 'nehalem': 'Nehalem', 'haswell': 'Haswell', 'opteron': 'Opteron_G1', 'penryn': 'Penryn', 'sandy': 'SandyBridge', 'g5': 'Opteron_G5', 'noavx2': 'max,-avx2', 'neither': 'max,-avx2,-sse4.1'}
CPUFEATS = {'conroe': set(), 'opteron': set(), 'nehalem': {'sse4.1'}, 'haswell': {'sse4.1', 'avx2'}, 'penryn': {'sse4.1'}, 'sandy': {'sse4.1'}, 'g5': {'sse4.1'}, 'noavx2': {'sse4.1'}, 'neither': set()}
for _b in [n for n in LANES if n.startswith('x64')]:
    for _c in CPUS:
        _f = CPUFEATS[_c]
        LANES['%s@%s' % (_b, _c)] = Lane('%s@%s' % (_b, _c), base=_b, runner=['qemu-x86_64', '-cpu', CPUS[_c]], profile=LANES[_b].profile, feats=LANES[_b].feats,
                                         types='PD' + ('S' if 'sse4.1' in _f else '') + ('A' if 'avx2' in _f else ''))

def manifest_dir():
    """The driver crate as committed, its path dependency pointing at the tree under test."""
    d = os.path.join(workdir(), 'drv')
    with _lock:
        if not os.path.exists(os.path.join(d, 'Cargo.toml')) or True:
            os.makedirs(d, exist_ok=True)
            src = open(os.path.join(VERIF, 'driver', 'Cargo.toml')).read().replace('path = "/repo"', 'path = "%s"' % REPO)
            p = os.path.join(d, 'Cargo.toml')
            if not os.path.exists(p) or open(p).read() != src:
                open(p, 'w').write(src)
            link = os.path.join(d, 'src')
            if not os.path.islink(link):
                os.symlink(os.path.join(VERIF, 'driver', 'src'), link)
    return d

_lock = threading.RLock()
_buildlocks = {}

def cargo_env(lane):
    env = {'RUSTUP_TOOLCHAIN': lane.toolchain, 'CARGO_NET_OFFLINE': 'true', 'RUSTC_WRAPPER': '', 'CARGO_INCREMENTAL': '0',
           'CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER': 'aarch64-linux-gnu-gcc',
           'CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER': 'i686-linux-gnu-gcc',
           'RUSTFLAGS': lane.rustflags, 'CARGO_TERM_COLOR': 'never'}
    env.update(lane.env)
    return env

class BuildFailed(Exception):
    pass

def build(name, oracle=None):
    """Builds the driver for a lane; returns the artefact's path."""
    name = LANES[name].base or name
    lane = LANES[name]
    with _lock:
        lk = _buildlocks.setdefault(name + str(bool(oracle)), threading.Lock())
    with lk:
        md = manifest_dir()
        td = os.path.join(workdir(), 't-' + name + ('-o' if oracle else ''))
        feats = lane.feats + (',oracle' if oracle else '')
        cmd = ['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(md, 'Cargo.toml'), '--target-dir', td,
               '--profile', lane.profile, '--no-default-features', '--features', feats]
        cmd += ['--lib'] if lane.wasm else ['--bin', 'hwbare' if lane.kind == 'bare' else 'hwdrv']
        if lane.target:
            cmd += ['--target', lane.target]
        cmd += lane.extra
        env = cargo_env(lane)
        if oracle:
            env['HW_ORACLE'] = oracle
        t = time.time()
        rc, out, err = sh(cmd, timeout=800, env=env, ok=None)
        if rc != 0:
            raise BuildFailed('lane %s does not build:\n%s' % (name, err[-3000:]))
        log('built %s in %.1fs' % (name, time.time() - t))
        d = os.path.join(td, lane.target or '', 'debug' if lane.profile == 'dev' else lane.profile)
        return os.path.join(d, 'hwdrv.wasm' if lane.wasm else 'hwbare' if lane.kind == 'bare' else 'hwdrv')

def build_all(names, oracle=None, workers=4):
    with cf.ThreadPoolExecutor(workers) as ex:
        return dict(zip(names, ex.map(lambda n: build(n, oracle), names)))

def caps(name, exe):
    """What the build and the CPU of a lane are: a configuration of Dispatch.tla."""
    lane = LANES[name]
    if lane.wasm:
        return {'arch': 'wasm_simd' if '+simd128' in lane.rustflags else 'other', 'std': 'hw_std' in lane.feats, 'ct': [], 'cpu': []}
    out = dict(l.split() for l in sh(lane.runner + [exe, 'caps'], timeout=60)[1].splitlines())
    a = {'x86_64': 'x86_64', 'aarch64': 'aarch64'}.get(out['arch'], 'other')
    fs = ['sse4.1', 'avx2'] if a == 'x86_64' else []
    return {'arch': a, 'std': out['hw_std'] == 'true', 'ct': [f for f in fs if out['ct_' + f] == 'true'], 'cpu': [f for f in fs if out[f] == 'true']}

# ---------------------------------------------------------------- scripts
# A behaviour is (id, [op, ..]); an op is a tuple of the fields of the driver's text form.
def script_text(behs):
    out = []
    for bid, ops in behs:
        out.append('B %s: %s' % (bid, '; '.join(' '.join(map(str, o)) for o in ops)))
    return '\n'.join(out) + '\n'

def parse_out(path):
    res, ended = {}, False
    with open(path) as f:
        for line in f:
            line = line.rstrip('\n')
            if line == 'END':
                ended = True
                continue
            p = line.split(' ')
            res[p[0]] = p[1:]
    return res, ended

_seq = [0]
def fresh(suffix):
    with _lock:
        _seq[0] += 1
        return os.path.join(tmpdir(), '%04d%s' % (_seq[0], suffix))

def run_lane(name, exe, behs, guard=False, timeout=300, pre=()):
    """Runs behaviours on a lane: id -> tokens, one per op. A crash is the token 'X', a panic '!', a missing op '-'."""
    lane = LANES[name] if isinstance(name, str) else name
    if lane.wasm:
        return _run_wasm(lane, exe, behs, timeout)
    if lane.kind == 'bare':
        return _run_bare(lane, exe, behs, timeout)
    sc = fresh('.txt')
    open(sc, 'w').write(script_text(behs))
    result, start, crashes = {}, 0, 0
    while start < len(behs):
        out = fresh('.out')
        open(out, 'w').close()
        base = list(pre) + lane.runner + [exe, 'run', sc, out] + (['guard'] if guard else [])
        try:
            p = subprocess.run(base + ['from=%d' % start], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        res, ended = parse_out(out)
        if ended and rc == 0:
            result.update(res)
            break
        # it died somewhere: again, with every operation written out at once
        out2 = fresh('.out')
        open(out2, 'w').close()
        base[base.index(out)] = out2
        try:
            p = subprocess.run(base + ['from=%d' % start, 'sync'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
            rc2 = p.returncode
        except subprocess.TimeoutExpired:
            rc2 = 'timeout'
        res, ended = parse_out(out2)
        if ended and rc2 == 0:
            # not reproducible: the emulator, not the code
            crashes += 1
            if crashes > 20:
                raise ToolError('lane %s dies irreproducibly' % lane.name)
            result.update(res)
            break
        done = [i for i in range(start, len(behs)) if behs[i][0] in res]
        result.update(res)
        if not done:
            raise ToolError('lane %s does not start: %r\n%s' % (lane.name, rc2, p.stderr[-800:]))
        last = done[-1]
        result[behs[last][0]] = res[behs[last][0]] + ['X' if rc2 != 'timeout' else 'H']
        log('lane %s: behaviour %s ends in %r' % (lane.name, behs[last][0], rc2))
        start = last + 1
        crashes += 1
        if crashes > 20:
            for i in range(start, len(behs)):
                result.setdefault(behs[i][0], ['X'])
            break
    return result

def _run_wasm(lane, exe, behs, timeout):
    sc, out = fresh('.txt'), fresh('.out')
    open(sc, 'w').write(script_text(behs))
    rc, o, e = sh(['node', os.path.join(VERIF, 'tools', 'wasmrun.js'), exe, sc, out], timeout=timeout, ok=None)
    res, ended = parse_out(out)
    if rc != 0 or not ended:
        raise ToolError('node: %s %s' % (rc, e[-2000:]))
    return res

def _run_bare(lane, exe, behs, timeout):
    res, start, ends = {}, 0, 0
    while start < len(behs):
        text = script_text(behs[start:])
        def go(t):
            try:
                p = subprocess.run(lane.runner + [exe], input=t.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
                lines, rc = p.stdout.decode().split('\n'), p.returncode
            except subprocess.TimeoutExpired as e:
                lines, rc = (e.stdout or b'').decode().split('\n'), 'timeout'
            return [l.split(' ') for l in lines if l], rc
        out, rc = go(text)
        if rc not in (0, 101):
            out, rc = go('SYNC\n' + text)
            if rc not in (0, 101) and not out: raise ToolError('lane %s does not start: %r' % (lane.name, rc))
        out = [l for l in out if l != ['END']]
        for l in out: res[l[0]] = l[1:]
        if rc == 0: break
        # the last behaviour ended the process
        last = out[-1]
        toks = [t for t in last[1:] if t]
        if rc != 101: toks = toks + [{'timeout': 'H'}.get(rc, 'X')]
        res[last[0]] = toks
        start = 1 + next(i for i in range(start, len(behs)) if behs[i][0] == last[0])
        ends += 1
        if ends > 60:
            for i in range(start, len(behs)): res.setdefault(behs[i][0], ['!'])
            break
    return res

def explore(name, exe, prof, types, seed, ms, n=0, threads=6, pre=()):
    """Native search: (stats, mismatching behaviours)."""
    lane = LANES[name]
    rc, out, err = sh(list(pre) + lane.runner + [exe, 'explore', prof, types, str(seed), str(ms), str(n), str(threads)],
                      timeout=ms / 1000 + 240, ok=None)
    st, behs, cur = None, [], None
    for line in out.splitlines():
        if line.startswith('STATS '):
            st = json.loads(line[6:])
        elif line.startswith('MISMATCH'):
            cur = []
            behs.append(('m%d' % len(behs), cur, []))
        elif line.startswith('='):
            behs[-1][2].extend(line.split()[1:])
        elif line.startswith('B '):
            pass
        elif cur is not None and line.strip():
            cur.append(tuple(line.split()))
    return st, behs, rc

# ---------------------------------------------------------------- events for the trace specifications
def token(toks, i):
    t = toks[i] if i < len(toks) else '-'
    if '+' in t:
        v, al = t.split('+')
        return v, int(al)
    return t, 0

SEG = 1 << 30
def ident_ranges(op, word=8):
    """The ranges an operation consumes."""
    c = op[0]
    if c == 'A':
        p, a, e = int(op[2]), int(op[3]), int(op[4])
        if e < SEG: return [[p, a, e]]
        # TLC's integers have 32 bits: the far parts of a pool are pools of their own
        out = []
        while a < e:
            n = min(e, (a // SEG + 1) * SEG)
            out.append([p if a < SEG else 300000 + 100 * p + a // SEG, a % SEG, n - a + a % SEG])
            a = n
        return out
    if c in 'Tt': return typed_ranges(int(op[2]), word)
    if c == 'j': p, a, e = op[2:5]
    elif c == 'J': p, a, e = op[2:5]
    elif c == 'O': return [[int(op[3]), int(op[4]), int(op[5])]]
    p, a, e = int(p), int(a), int(e)
    return [[100000 + e - a, 0, word], [p, a, e]]

TYPED = 26
def typed_ranges(v, word):
    """What a value of the driver's list writes: bytes of pools where that is fixed, else a name of its own."""
    known = {0: [], 1: [[0, 0, 6]], 2: [[100000, 0, word]], 3: [[100000, 0, word]], 4: [[0, 0, 40]], 5: [[0, 0, 33]], 6: [[0, 0, 50]], 7: [], 9: [], 13: [[100007, 0, 1]],
             19: [], 22: [[100000, 0, word]]}
    return known.get(v, [[400000 + v, 0, 1]])

def event(op, vals, al=0, word=8):
    """op: driver operation; vals: the distinct values observed."""
    c = op[0]
    e = {'c': c, 'v': vals, 'al': al}
    def root(k, how):
        return ['k', '0' if how in ('d', 'D', 'o') else str(k)]
    if c == 'N':
        e.update(s=int(op[1]) + 1, ty=op[2], root=root(op[3], op[4]), how=op[4])
    elif c == 'b':
        e.update(t=int(op[1]) + 1, root=root(op[2], op[3]))
    elif c == 'Q':
        e.update(s=int(op[1]) + 1, t=int(op[2]) + 1)
    elif c == 't':
        e.update(c='A', s=int(op[1]) + 1, r=ident_ranges(op, word), how='t', full='-')
    elif c == 'T':
        e.update(c='J', t=int(op[1]) + 1, r=ident_ranges(op, word), how='t')
    elif c in 'Aj':
        e.update(c='A', s=int(op[1]) + 1, r=ident_ranges(op, word), how=op[5] if c == 'A' else 'j',
                 full='n%d' % (int(op[4]) - int(op[3])))
    elif c == 'J':
        e.update(t=int(op[1]) + 1, r=ident_ranges(op, word), how='j')
    elif c in 'FGDf':
        e.update(c='F' if c == 'f' else c, s=int(op[1]) + 1)
    elif c == 'Z':
        e.update(s=int(op[1]) + 1, w=int(op[2]))
    elif c == 'O':
        e.update(s=int(op[1]) + 1, w=int(op[2]), r=ident_ranges(op), how='a')
    elif c in 'CcMK':
        e.update(s=int(op[1]) + 1, t=int(op[2]) + 1)
        if c == 'c': e['c'] = 'C'
    elif c == 'R':
        e.update(s=int(op[1]) + 1, ty=op[2], t=int(op[3]) + 1, how=op[4])
    elif c == 'Y':
        e.update(c='R', s=int(op[1]) + 1, ty=op[2], t=int(op[5]) + 1, how=op[4])
    elif c == 'X':
        e.update(s=int(op[1]) + 1, ty=op[2], root=['r', str(op[3])], how=op[4])
    else:
        raise ToolError('op %r' % (op,))
    return e

# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated, self.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        self.violated = re.findall(r'(?:Invariant|Action property|Temporal property|Property) (\w+) (?:is|was) violated|property (\w+) is violated', out)
        self.ok = rc == 0 and 'No error has been found' in out

def tlc(module, cfg, env=None, workers=4, timeout=600, heap='3g', args=(), spec=SPEC):
    """cfg: text of the configuration. Runs in a scratch copy of the specification."""
    d = tempfile.mkdtemp(prefix='tlc-', dir=tmpdir())
    for f in os.listdir(spec):
        if f.endswith('.tla'):
            os.symlink(os.path.join(spec, f), os.path.join(d, f))
    open(os.path.join(d, module + '.cfg'), 'w').write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss32m', '-cp', TLAJARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', os.path.join(d, 'meta'),
           '-workers', str(workers), '-config', module + '.cfg'] + list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    out = p.stdout.decode('utf8', 'replace')
    return Tlc(p.returncode, out)

def cfg(consts=None, spec=None, invs=(), props=(), extra=''):
    s = ('SPECIFICATION %s\n' % spec) if spec else 'INIT Init\nNEXT Next\n'
    if consts:
        s += 'CONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in consts.items())
    s += ''.join('INVARIANT %s\n' % i for i in invs) + ''.join('PROPERTY %s\n' % p for p in props)
    return s + 'CHECK_DEADLOCK FALSE\n' + extra

def tla(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, (set, frozenset, range)): return '{%s}' % ', '.join(tla(x) for x in sorted(v))
    if isinstance(v, str): return '"%s"' % v
    return str(v)

def validate(traces, concat=True, shared=True, ckpt=False, tail=False, alloc=False, values=True, timeout=500, workers=6):
    """traces: [{'id','ev'}]. TLC decides. Returns (Tlc, reason or None, index of the rejected trace)."""
    f = fresh('.json')
    json.dump(traces, open(f, 'w'))
    c = cfg({'CONCAT': tla(concat), 'SHARED': tla(shared), 'CKPT': tla(ckpt), 'TAIL': tla(tail), 'ALLOC': tla(alloc), 'VALUES': tla(values)}, invs=['Accepted'], extra='VIEW View\n')
    r = tlc('TraceHasher', c, env={'TRACE': f}, workers=workers, timeout=timeout, heap='6g')
    os.unlink(f)
    return (r,) + verdict(r)

def validate_bytes(traces, timeout=500, workers=8):
    f = fresh('.json')
    json.dump(traces, open(f, 'w'))
    r = tlc('TraceHash', cfg(spec='Spec', invs=['Accepted', 'PendingShort']), env={'TRACE': f}, workers=workers, timeout=timeout, heap='6g')
    os.unlink(f)
    return (r,) + verdict(r)

def verdict(r):
    if r.ok:
        return None, None
    m = re.search(r'/\\ bad = "([^"]+)"', r.out)
    if 'Invariant Accepted is violated' in r.out and m:
        bs = re.findall(r'/\\ b = (\d+)', r.out)
        return m.group(1) if m.group(1) else 'rejected', int(bs[-1]) - 1
    # the bad value appears in the last state only
    ms = re.findall(r'bad = "([^"]*)"', r.out)
    if 'is violated' in r.out and ms and ms[-1]:
        bs = re.findall(r'/\\ b = (\d+)', r.out)
        return ms[-1], int(bs[-1]) - 1
    raise ToolError('TLC: exit %s\n%s' % (r.rc, r.out[-3000:]))
