"""One function per property."""
import json, os, random, re, subprocess, sys
import hw
from check import *
from hw import QUICK, SEED, ToolError, log

HOWS = 'aaawixqcyvufh12468smnz'
POOLS = [0, 0, 0, 1, 2, 5, 100, 101, 102, 103, 104]
KEYS = [16, 0, 1, 2, 17, 4, 7, 8]
LENS = list(range(0, 36)) + [47, 48, 49, 63, 64, 65, 66, 95, 96, 97]
def q(quick, thorough): return quick if QUICK else thorough

def conv(c, i=0, **kw):
    kw.setdefault('pool', POOLS[i % len(POOLS)])
    kw.setdefault('keys', [0, KEYS[i % len(KEYS)]])
    return Conv(rng=c.rng, **kw)

def behaviours(c, hists, limit=None, run=None, **kw):
    out = [conv(c, i, **kw).run(h, **(run or {})) for i, h in enumerate(hists)]
    c.rng.shuffle(out)
    return out[:limit] if limit else out

def structured(c, n, types=('T',), hows='a', maxlen=300):
    """Single streams over every key and data pattern."""
    out = []
    for i in range(n):
        k = c.rng.choice(list(range(0, 60)) + [1000 + c.rng.randrange(256) for _ in range(20)])
        p = c.rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9] + list(range(100, 109)) + [1000 + c.rng.randrange(512) for _ in range(4)])
        L = i % 131 if i % 3 else c.rng.randrange(maxlen)
        ops = [('N', 0, c.rng.choice(types), k, 'f')]
        at = 0
        for k2 in ([L] if c.rng.random() < .5 else random_chunks(c.rng, L)):
            ops.append(('A', 0, p, at, at + k2, c.rng.choice(hows))); at += k2
        ops.append(('Z', 0, [64, 128, 256][i % 3]) if c.rng.random() < .8 else ('O', 0, [64, 128, 256][i % 3], p, at, at + c.rng.randrange(70)))
        out.append(ops)
    return out

def long_streams(c, sizes):
    out = []
    for i, n in enumerate(sizes):
        out.append([('N', 0, 'T', KEYS[i % len(KEYS)], 'f'), ('A', 0, i % 3, 0, n, 'a'), ('Z', 0, 256)])
        out.append([('N', 0, 'T', KEYS[i % len(KEYS)], 'f')] + [('A', 0, i % 3, a, min(n, a + n // 3 + 1), 'a') for a in range(0, n, n // 3 + 1)] + [('Z', 0, 256)])
    return out
SIZES = [1000, 1023, 1024, 1025, 2048, 4095, 4096, 4100, 8192, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 200001, 262144 + 31, 1048576, 1048576 + 17, 3 * 1048576 + 5]

SINGLE = dict(PACKET='32', Slots='{1}', Keys='{0}', CkSlots='{1}', MaxLen='70', RawCounts='{}', Lens=S(range(0, 71)), Widths='{64}', ops='NdAFZ')

# ---------------------------------------------------------------- the function
import data
def crafted(c, n, types=('T',)):
    """Streams that drive the state to boundary values."""
    out = []
    for i in range(n):
        p = data.CRAFT + c.rng.randrange(1 << 26)
        L = c.rng.choice([0, 32, 32, 64, 64, 96, 128, 192, 256]) + c.rng.choice([0, 0, 0, 1, 2, 3, 4, 8, 15, 16, 17, 28, 31])
        ops, at = [('N', 0, c.rng.choice(types), p, 'f')], 0
        for x in ([L] if c.rng.random() < .6 else random_chunks(c.rng, L)):
            ops.append(('A', 0, p, at, at + x, 'a')); at += x
        out.append(ops + [('Z', 0, [64, 128, 256][i % 3])])
    return out

def C01(c):
    """The portable hasher is HighwayHash."""
    c.model('official vectors (0..64 bytes, all widths)', 'HighwayVectors', hw.cfg())
    c.model('packet-32, one object, all chunkings up to 70 bytes', 'PacketImpl', packet_cfg(['TypeOK', 'Represents', 'ResultIsHash'], **SINGLE))
    lanes = ['x64', 'x64dev', 'i686', 'arm', 'wasmnosimd'] + q([], ['x64nostd', 'i686dev', 'armdev', 'x64native'])
    of = c.pool.submit(lambda: hw.build('x64', c.oracle()))
    fut = c.pool.submit(hw.build_all, lanes, None, 6)
    cover = gen_cover(c, ['N', 'A'], depth=4, Lens=S(LENS), MaxLen='400')
    behs = behaviours(c, cover, q(2000, 6000), types='P', run=dict(ref=False)) + structured(c, q(2000, 10000), types='P') + crafted(c, q(2500, 15000), types='P')
    # every length, every width, one key and one pattern per length
    for L in range(0, q(131, 300)):
        for w in (64, 128, 256):
            behs.append([('N', 0, 'P', KEYS[(L + w) % len(KEYS)], 'f'), ('O', 0, w, POOLS[L % len(POOLS)], 0, L)])
    # every single key bit, and every single data bit
    bits = c.rng.sample(range(256), q(64, 256))
    behs += [[('N', 0, 'P', 1000 + b, 'f'), ('A', 0, 0, 0, 33 + b % 31, 'a'), ('Z', 0, [64, 128, 256][b % 3])] for b in bits]
    behs += [[('N', 0, 'P', 16, 'f'), ('O', 0, [64, 128, 256][b % 3], 1000 + b, 0, 32 + b % 31)] for b in bits]
    behs += [[('N', 0, 'P', 200000 + 64 * (b % 7) + b, 'f'), ('A', 0, 0, 0, b % 40, 'a'), ('Z', 0, [64, 128, 256][b % 3])] for b in range(64)]
    exes = fut.result()
    big = [c.pool.submit(c.bytewise, [('big%d' % n, b)], [(l, {}) for l in ls], exes, 'large', False, 600) for n, ls, b in large('P', q(LARGE[:2], LARGE))]
    c.bytewise([('b%d' % i, b) for i, b in enumerate(behs)], [(l, {}) for l in lanes], exes, what='portable', timeout=600)
    # a pure function of (key, bytes, width): the same bytes in one call, in three calls, and in calls of other sizes
    c.relational(grouped(long_streams(c, SIZES) + many('nz'), 8, 'long'), [(l, {'T': 'P'}) for l in lanes if not hw.LANES[l].wasm], exes, merge=True, alike=True, concat=True, shared=True, what='long streams')
    huge(c, exes, [('x64', {'T': 'P'})])
    huge(c, exes, [(l, {'T': 'P'}) for l in ['x64', 'wasmnosimd'] + q([], ['i686', 'arm'])], merge=True, alike=True)
    for f in big: f.result()
    exe = of.result()
    c.oracle_search('x64', exe, 'P', 'pure', q(20000, 600000))

# more than 2^16 packets in one call; a megabyte takes TLC 15 s
LARGE = [(2 * 1048576 + 32 * 5 + 7, ['x64', 'i686']), (1048576 + 32 + 17, ['arm', 'wasmnosimd']), (4 * 1048576 + 31, ['x64', 'arm', 'i686', 'x64dev'])]
def large(ty, which):
    return [(n, ls, [('N', 0, ty, 16 + i, 'f'), ('A', 0, i, 0, i * 5, 'a'), ('A', 0, i, i * 5, n, 'a'), ('K', 0, 0), ('Z', 0, [256, 64, 128][i])]) for i, (n, ls) in enumerate(which)]

# ---------------------------------------------------------------- backends
def simd(backends, **kw):
    d = dict(Backends=hw.tla(set(backends)), Seeds=S(range(q(2, 12))), Lengths=S(range(32)), Packets=q('2', '4'), SwappedZipper='FALSE', ShortMask='FALSE', CountedOnce='FALSE', NoSignMask='FALSE')
    d.update(kw)
    return hw.cfg(d, spec='Spec', invs=['Follows', 'Moves', 'Remainders', 'Results'])

def simd_models(c, backends):
    c.model('vector instructions of %s' % ', '.join(backends), 'Simd', simd(backends))
    for flag, inv in (('SwappedZipper', 'Moves'), ('ShortMask', 'Moves'), ('CountedOnce', 'Remainders'), ('NoSignMask', 'Moves')):
        if (flag == 'ShortMask') <= ('avx' in backends) and (flag == 'SwappedZipper') <= (backends != ['wasm']):
            c.model('negative: ' + flag, 'Simd', simd(backends, **{flag: 'TRUE'}), expect=inv)

def backend(c, lanes, vectors, searches, cross=None, after=None):
    """All lanes and types must give one and the same value."""
    simd_models(c, vectors)
    c.model('packet-32, one object, all chunkings up to 70 bytes', 'PacketImpl', packet_cfg(['TypeOK', 'Represents', 'ResultIsHash'], **SINGLE))
    fut = c.pool.submit(hw.build_all, lanes + (['x64'] if cross and 'x64' not in lanes else []), None, 6)
    hists = gen_cover(c, ['N', 'd', 'A'], depth=4, Lens=S(LENS), MaxLen='400')
    behs = behaviours(c, hists, q(1500, 6000)) + structured(c, q(2500, 20000)) + crafted(c, q(1500, 10000))
    exes = fut.result()
    insts = instances(lanes)
    c.relational(grouped(behs, 8), insts, exes, merge=True, alike=True, concat=True, shared=True, what='backends', timeout=600)
    fast = [i for i in insts if not hw.LANES[i[0]].wasm and 'dev' not in i[0]]
    c.relational(grouped(long_streams(c, SIZES) + many('nz'), 8, 'long'), fast if QUICK else insts, exes, merge=True, alike=True, concat=True, shared=True, what='long streams')
    big = c.pool.submit(after, exes) if after else None
    if cross:
        c.chains(make_chains(c, q(600, 4000), cross), exes, what='carried checkpoints', concat=True, shared=True)
    for lane, prof, ms, n in searches:
        c.search(lane, exes[lane], prof, hw.LANES[lane].types, q(ms, ms * 15), n=n, threads=1 if lane.startswith('arm') else 6, concat=True, shared=True, ckpt=prof in ('raw', 'canon', 'craft'))
    if big: big.result()

def make_chains(c, n, ends, hops=None):
    """Streams whose checkpoints wander over (lane, type) pairs."""
    out = []
    for i in range(n):
        k, p = c.rng.choice(KEYS + list(range(18, 40))), c.rng.choice(POOLS)
        h = hops or c.rng.choice([1, 1, 1, 2, 3, 5])
        pos, segs = 0, []
        for j in range(h + 1):
            lane, ty = c.rng.choice(ends)
            # i walks through all cut points; the rest is random
            L = i % 100 if j == 0 else c.rng.choice([0, 1, 3, 5, 31, 32, 33, 64, c.rng.randrange(80)])
            ops = [('N', 0, ty, k, 'f')] if j == 0 else []
            for x in ([L] if c.rng.random() < .6 else random_chunks(c.rng, L)):
                ops.append(('A', 0, p, pos, pos + x, 'a')); pos += x
            if c.rng.random() < .3: ops.append(('F', 0))
            segs.append((lane, ty, ops))
        w = [64, 128, 256][i % 3]
        ty = segs[-1][1]
        ref = [('Z', 0, w), ('N', 9, ty, k, 'f'), ('A', 9, p, 0, pos, 'a'), ('Z', 9, w)]
        out.append(('chain%d' % i, segs, ref))
    return out

def C02(c):
    """x86_64: SSE4.1, AVX2 and the dispatcher give the portable result, in every build configuration."""
    lanes = ['x64', 'x64dev', 'x64nostd', 'x64sse', 'x64avx', 'x64native', 'x64avxnostd', 'x64ssenostd', 'x64@nehalem', 'x64@conroe'] + q([], ['x64checked', 'x64nostddev', 'x64sseonly', 'x64ssedev',
            'x64avxdev', 'x64sseonlynostd', 'x64nativenostd', 'x64avxnostddev', 'x64ssenostddev', 'x64nativedev', 'x64@haswell'])
    backend(c, lanes, ['sse', 'avx'], [('x64', 'pure', 8000, 0), ('x64dev', 'pure', 3000, 0), ('x64avx', 'pure', 2000, 0), ('x64sse', 'pure', 2000, 0),
            ('x64native', 'pure', 2000, 0), ('x64nostd', 'pure', 2000, 0)], after=lambda exes: huge(c, exes, instances(['x64']), merge=True, alike=True, shared=True))

def C03(c):
    """NEON (emulated) equals portable."""
    lanes = ['arm', 'armdev', 'x64'] + q([], ['armnostd', 'x64dev'])
    be = c.pool.submit(hw.build, 'armbe')
    backend(c, lanes, ['neon'], [('arm', 'pure', 8000, 0), ('arm', 'ckpt', 5000, 0), ('armdev', 'craft', 6000, 0)],
            cross=[('arm', 'N'), ('arm', 'N'), ('arm', 'P'), ('arm', 'D'), ('x64', 'P'), ('x64', 'S'), ('x64', 'A'), ('x64', 'D')],
            after=lambda exes: huge(c, exes, [('arm', {'T': 'N'})] + q([], [('arm', {'T': 'D'})]) + [('x64', {'T': 'P'})], merge=True, alike=True, shared=True))
    # the same module on big-endian aarch64
    grid = [[('N', 0, 'T', KEYS[L % len(KEYS)], 'f'), ('O', 0, [64, 128, 256][L % 3], POOLS[L % len(POOLS)], 0, L)] for L in range(131)]
    c.relational(grouped(grid, 1), [('armbe', {'T': t}) for t in 'PN'], {'armbe': be.result()}, merge=True, alike=True, concat=True, shared=True, what='big-endian', key='aarch64_be')

def C04(c):
    """wasm simd128 equals portable."""
    lanes = ['wasm', 'wasmdev', 'x64', 'wasmnosimd']
    backend(c, lanes, ['wasm'], [('wasm', 'pure', 8000, q(400000, 3000000)), ('wasm', 'ckpt', 6000, q(200000, 2000000)), ('wasmdev', 'craft', 6000, q(40000, 300000))],
            cross=[('wasm', 'W'), ('wasm', 'W'), ('wasm', 'P'), ('wasm', 'D'), ('x64', 'P'), ('x64', 'S'), ('x64', 'A'), ('x64', 'D')],
            after=lambda exes: huge(c, exes, [('wasm', {'T': t}) for t in 'WD'] + [('x64', {'T': 'P'})], merge=True, alike=True, shared=True))

# ---------------------------------------------------------------- streams
def C05(c):
    """Streaming invariance."""
    inv = ['TypeOK', 'PendingShort', 'Represents', 'ResultIsHash']
    c.model('packet-32, one object, all chunkings up to 70 bytes', 'PacketImpl', packet_cfg(inv, **SINGLE))
    c.model('refinement of Hasher (PACKET=3)', 'MCPacket', packet_cfg(inv, ['Refines'], PACKET='3', MaxLen=q('4', '5'), Lens='{0,1,2,3,4}', CkSlots='{1}', RawCounts='{4}', Keys='{1}', ops='NAFZCKRDX'))
    c.model('negative: fill off by one', 'PacketImpl', packet_cfg(['ResultIsHash'], FillOffByOne='TRUE', ops='NAFZ'), expect='ResultIsHash')
    lanes = ['x64', 'x64dev', 'arm', 'wasm', 'i686'] + q([], ['armdev', 'wasmdev', 'x64nostd', 'x64avx', 'x64sse'])
    fut = c.pool.submit(hw.build_all, lanes)
    cover = gen_cover(c, ['N', 'd', 'A'], depth=5, Lens=S(LENS), MaxLen='400')
    behs = behaviours(c, cover, q(4000, None), hows=HOWS)
    exes = fut.result()
    big = c.pool.submit(huge, c, exes, instances(['x64']))
    c.relational(grouped(behs, 8), instances(lanes), exes, concat=True, shared=False, what='cover')
    c.relational(grouped(many('nzm1', hops=(), w0=1), 4, 'many'), instances(lanes), exes, concat=True, shared=False, what='many calls')
    c.relational(grouped(long_streams(c, SIZES), 8, 'long'), instances([l for l in lanes if l in ('x64', 'arm')]), exes, concat=True, shared=False, what='long streams')
    for lane in ['x64', 'x64dev', 'arm', 'wasm']:
        c.search(lane, exes[lane], 'stream', hw.LANES[lane].types, q(5000, 120000), n=q(20000, 400000) if hw.LANES[lane].wasm else 0,
                 threads=1 if lane == 'arm' else 6, concat=True, shared=False)

    big.result()
    half(c, exes, instances(['i686']))

def many(hows='nz1m', sizes=(300, 5000, 70001), hops=(300,), observe=(), w0=0, u='T'):
    """Very many calls on one object: the lengths of histories instead of the lengths of streams."""
    W, out = [64, 128, 256], []
    for i, n in enumerate(sizes):
        for j, h in enumerate(hows):
            k, w = 16 + i, W[(i + j + w0) % 3]
            out.append([('N', 0, 'T', k, 'f'), ('A', 0, j % 3, 0, n, h), ('Z', 0, w), ('N', 9, 'T', k, 'f'), ('A', 9, j % 3, 0, n, 'a'), ('Z', 9, w)])
    for i, n in enumerate(hops):
        w, ops, at = W[(i + w0) % 3], [('N', 0, 'T', 17, 'f')], 0
        for j in range(n):
            m = (0, 1, 5, 31, 32, 33)[(j + i) % 6]
            ops += [('A', 0, 0, at, at + m, 'a'), ('K', 0, 0), ('R', 0, ('T', u)[j % 2], 0, 'f')]; at += m
        out.append(ops + [('Z', 0, w), ('N', 9, 'T', 17, 'f'), ('A', 9, 0, 0, at, 'a'), ('Z', 9, w)])
    for i, n in enumerate(observe):
        w, k = W[(i + w0) % 3], 18 + i
        ap = [('A', 0, 0, 0, 13 + i, 'a'), ('A', 0, 0, 13 + i, 60, 'a'), ('A', 0, 0, 60, 96, 'a')]
        new = ('N', 0, 'T', k, 'f')
        out.append([new, ap[0], ('f', 0, n), ap[1], ('f', 0, n // 7), ap[2], ('f', 0, n // 3), ('K', 0, 0), ('Z', 0, w), new, ap[0], ('F', 0), ap[1], ('F', 0), ap[2], ('F', 0), ('K', 0, 0), ('Z', 0, w)])
    return out

def huge(c, exes, insts, **kw):
    """More than 2^32 bytes in one call."""
    n = 1 << 32
    if any(hw.LANES[l].word == 4 for l, _ in insts):
        # one address space less: 72 calls of 60 million bytes
        cuts = list(range(5, n + 34, 60000011)) + [n + 34]
        one = [('N', 0, 'T', 16, 'f'), ('A', 0, 100, 0, 5, 'a')] + [('A', 0, 100, a, b, 'a') for a, b in zip(cuts, cuts[1:])] + [('F', 0), ('K', 0, 0), ('Z', 0, 128)]
        half(c, exes, insts, **kw)
        return c.relational([('huge', one)], insts, exes, **dict(dict(concat=True, shared=False, what='2^32 bytes in pieces'), **kw))
    one = [('N', 0, 'T', 16, 'f'), ('A', 0, 100, 0, 5, 'a'), ('A', 0, 100, 5, n + 34, 'a'), ('Z', 0, 128)]
    cut = [('N', 0, 'T', 16, 'f')] + [('A', 0, 100, a, min(a + (1 << 30) + 3, n + 34), 'a') for a in range(0, n + 34, (1 << 30) + 3)] + [('Z', 0, 128)]
    c.relational([('huge', one + cut)], insts, exes, concat=True, what='2^32 bytes', **dict(dict(shared=False), **kw))

def half(c, exes, insts, how='a', **kw):
    """The largest slice of a 32-bit address space, in one call, and in two."""
    n = (1 << 31) - 40
    insts = [(l, t) for l, t in insts if not hw.LANES[l].runner or l.startswith('i686') and hw.QI[0].endswith('ld-linux.so.2')]
    new = [('N', 0, 'T', 16, 'f'), ('A', 0, 100, 0, 5, 'a')]
    beh = new + [('A', 0, 100, 5, n, how), ('F', 0), ('K', 0, 0), ('Z', 0, 128)] + new + [('A', 0, 100, 5, 1 << 30, 'a'), ('A', 0, 100, 1 << 30, n, how), ('F', 0), ('K', 0, 0), ('Z', 0, 128)]
    if insts: c.relational([('half', beh)], insts, exes, **dict(dict(concat=True, shared=False, what='2^31 bytes in one call'), **kw))

def C06(c):
    """Checkpoints are transparent, at every cut point, over any hops."""
    inv = ['TypeOK', 'PendingShort', 'Represents', 'ResultIsHash', 'CkptIdempotent']
    c.model('packet-8, checkpoints of one object at every cut', 'PacketImpl', packet_cfg(inv, ops='NAFZKR', PACKET=q('8', '16'), Slots='{1}', Keys='{0}', CkSlots='{1}', MaxLen=q('18', '34'), RawCounts='{}', Lens=S(range(0, q(19, 35))), Widths='{64}'))
    c.model('two objects, two checkpoints (PACKET=3)', 'PacketImpl', packet_cfg(inv, ops='NAFZKRV', PACKET='3', MaxLen='4', Lens='{1,2,3,4}', RawCounts='{}', Keys='{1}', CkSlots='{1}'))
    lanes = ['x64', 'x64dev', 'arm', 'wasm', 'i686'] + q([], ['armdev', 'wasmdev', 'x64nostd', 'x64avx', 'x64sse', 'wasmnosimd'])
    fut = c.pool.submit(hw.build_all, lanes)
    cover = gen_cover(c, ['N', 'A', 'H'], depth=5, Lens=S(LENS[:36] + [64, 65]), MaxLen='300')
    behs = behaviours(c, cover, q(3000, None), types=('T', 'U'), reftypes=('T', 'U'))
    walks = gen_walk(c, ['N', 'A', 'A', 'K', 'R', 'H', 'C', 'F', 'D'], q(500, 3000), 24, Slots='{1,2,3}', CkSlots='{1,2}', Lens='{0,1,5,16,31,32,33,64,70}', MaxLen='4000', Keys='{0,1}')
    behs += behaviours(c, walks, types=('T', 'U'))
    exes = fut.result()
    pairs = [(l, {'T': t, 'U': u}) for l in lanes for t in hw.LANES[l].types for u in hw.LANES[l].types if t != u or t in 'PN']
    c.relational(grouped(behs, 8), pairs, exes, concat=True, shared=True, what='hops')
    c.relational(grouped(many('', (), (q(257, 2000), 300), u='U'), 1, 'many'), pairs, exes, concat=True, shared=True, what='many hops')
    ends = [(l, t) for l in ['x64', 'x64', 'arm', 'wasm', 'i686'] for t in hw.LANES[l].types]
    c.chains(make_chains(c, q(2500, 20000), ends), exes, what='hops between architectures', concat=True, shared=True)
    for lane in ['x64', 'x64dev', 'arm', 'wasm']:
        c.search(lane, exes[lane], 'ckpt', hw.LANES[lane].types, q(5000, 120000), n=q(20000, 400000) if hw.LANES[lane].wasm else 0,
                 threads=1 if lane == 'arm' else 6, concat=True, shared=True)

def C07(c):
    """Default is the zero key."""
    c.model('roots are keys', 'PacketImpl', packet_cfg(['RootsKeyed', 'ResultIsHash'], PACKET='4', Slots='{1,2}', CkSlots='{1}', MaxLen='5', RawCounts='{}', ops='NdAFZCKR', Lens='{1,4,5}', Keys='{0}'))
    c.model('negative: default without the key schedule', 'PacketImpl', packet_cfg(['RootsKeyed'], UnkeyedDefault='TRUE', ops='NdAF'), expect='RootsKeyed')
    lanes = ['x64', 'x64dev', 'arm', 'wasm', 'x64nostd', 'i686', 'x64avx', 'x64sse', 'x64@nehalem', 'x64@conroe', 'wasmnosimd'] + q([], ['armdev', 'wasmdev', 'x64ssenostd', 'x64avxnostd'])
    fut = c.pool.submit(hw.build_all, lanes)
    behs = []
    for L in list(range(0, 100)) + [127, 128, 129, 255, 256, 1000, 1024, 1031]:
        for how in 'dDob':
            for w in (64, 128, 256):
                p = c.rng.choice(POOLS)
                cut = c.rng.randrange(L + 1)
                new = ('N', 0, 'D' if how in 'ob' else 'T', 0, how)
                tail = [('Z', 0, w)] if L % 2 else [('F', 0), ('O', 0, w, p, L, L + L % 37)]
                behs.append([new, ('A', 0, p, 0, cut, 'a'), ('A', 0, p, cut, L, c.rng.choice('aaw'))] + ([('K', 0, 0), ('C', 0, 1), ('R', 0, 'U', 0, 'f')] if L % 3 == 0 else []) + tail +
                            [('N', 2, 'U', 0, 'f'), ('A', 2, p, 0, L, 'a')] + [(t[0], 2) + t[2:] for t in tail])
        # one-shot helpers on the default value itself
        for w in (64, 128, 256):
            behs.append([('N', 0, 'T', 0, 'd'), ('O', 0, w, 0, 0, L), ('N', 0, 'U', 0, 'f'), ('O', 0, w, 0, 0, L), ('N', 0, 'P', 0, 'f'), ('A', 0, 0, 0, L, 'a'), ('Z', 0, w)])
    # builders
    for L in range(0, 70, 3):
        behs.append([('b', 0, 5, 'd'), ('b', 1, 0, 'n'), ('Q', 0, 0), ('A', 0, 0, 0, L, 'w'), ('F', 0), ('Z', 0, 128), ('Q', 0, 1), ('A', 0, 0, 0, L, 'a'), ('Z', 0, 128),
                     ('N', 1, 'T', 0, 'f'), ('A', 1, 0, 0, L, 'a'), ('F', 1), ('Z', 1, 128), ('N', 1, 'T', 0, 'D'), ('A', 1, 0, 0, L, 'a'), ('Z', 1, 128)])
    exes = fut.result()
    pairs = [(l, {'T': t, 'U': u}) for l in lanes for t in hw.LANES[l].types for u in ('P', 'D', t) if u == t or u < t or t == 'P']
    c.relational(grouped(behs, 8), pairs, exes, merge=True, alike=True, concat=True, shared=True, what='defaults')
    cover = gen_cover(c, ['d', 'A'], depth=3, Lens=S(LENS), MaxLen='200')
    c.relational(grouped(behaviours(c, cover, q(800, None)), 8, 'c'), instances(lanes), exes, merge=True, alike=True, concat=True, shared=True, what='streams from Default')

def C11(c):
    """Raw restores are total and backend-independent."""
    inv = ['TypeOK', 'PendingShort', 'Represents', 'ResultIsHash', 'CkptIdempotent', 'NoPanic']
    c.model('packet-8, raw restores', 'PacketImpl', packet_cfg(inv, ops='XAFZKRC', PACKET='8', Slots='{1}', CkSlots='{1}', MaxLen='18', RawCounts='{0,1,5,7,8,9,20}', Lens=S(range(0, 12)), Widths='{64}'))
    c.model('negative: restore keeps a full buffer', 'PacketImpl', packet_cfg(['PendingShort'], FullRestore='TRUE', ops='XAFZ'), expect='PendingShort')
    c.model('negative: restore keeps a full buffer (panic)', 'PacketImpl', packet_cfg(['NoPanic'], FullRestore='TRUE', ops='XAFZ'), expect='NoPanic')
    import data
    lanes = ['x64', 'x64dev', 'arm', 'armdev', 'wasm', 'wasmdev', 'i686'] + q([], ['x64nostd', 'x64avx', 'x64sse', 'i686dev', 'x64checked'])
    fut = c.pool.submit(hw.build_all, lanes)
    raws = S(sorted(set(data.RAW_COUNTS)))
    small = S([n for n in data.RAW_COUNTS if n < 2**31])
    cover = gen_cover(c, ['X', 'A', 'H', 'F'], depth=4, Lens=S([0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 64]), MaxLen='400', RawCounts=small)
    behs = []
    for i, h in enumerate(cover):
        behs.append(conv(c, i, types=('T', 'U'), raw=i % 12).run(h, ckpt=i % 2 == 0))
    c.rng.shuffle(behs)
    behs = behs[:q(2500, None)]
    # every count, several contents, every width, nothing / an empty append / something appended
    for r in range(64 * q(6, 12)):
        w = [64, 128, 256][r % 3]
        n = c.rng.choice([1, 3, 8, 27, 31, 32, 33, 40])
        behs.append([('X', 0, 'T', r, 'f'), ('G', 0), ('F', 0), ('K', 0, 0), ('C', 0, 1), ('A', 1, 0, 0, 0, 'a'), ('F', 1), ('K', 1, 1), ('R', 2, 'U', 1, 'f'),
                     ('F', 2), ('A', 2, 0, 0, n, 'a'), ('A', 1, 0, 0, n, 'a'), ('F', 1), ('Z', 2, w), ('Z', 1, w),
                     ('X', 3, 'U', r, 'f'), ('Z', 3, w), ('Z', 0, w), ('X', 3, 'T', r, 'f'), ('O', 3, w, 0, 0, n)])
    exes = fut.result()
    pairs = [(l, {'T': t, 'U': u}) for l in lanes for t in hw.LANES[l].types for u in hw.LANES[l].types if t != u or t in 'PN']
    lots = [[('X', o[1], o[2], 64 * i + 7 * i, 'f') if o[0] == 'N' else o for o in b] for i, b in enumerate(many('nz', (300, 5000), (257,), u='U'))]
    c.relational(grouped(strip_debug(behs) + lots, 8), pairs, exes, merge=True, concat=True, shared=True, ckpt=True, what='raw restores')
    for lane in ['x64', 'x64dev', 'arm', 'wasm', 'wasmdev']:
        c.search(lane, exes[lane], 'raw', hw.LANES[lane].types, q(5000, 120000), n=q(6000, 400000) if hw.LANES[lane].wasm else 0,
                 threads=1 if lane == 'arm' else 6, concat=True, shared=True, ckpt=True)

def strip_debug(behs):
    """Debug texts name the type: not comparable between types."""
    return [[o for o in b if o[0] != 'G'] for b in behs]

def C12(c):
    """The std adapters."""
    c.model('finish between writes', 'PacketImpl', packet_cfg(['ResultIsHash'], ['ObserversPure'], ops='NAFZC', PACKET='4', Slots='{1,2}', MaxLen='6', Lens='{0,1,3,4,5}', Keys='{1}', CkSlots='{1}'))
    c.model('negative: finish consumes the pending bytes', 'PacketImpl', packet_cfg(['ResultIsHash'], ObserverMutates='TRUE', ops='NAFZ'), expect='ResultIsHash')
    lanes = ['x64', 'x64dev', 'arm', 'wasm', 'i686', 'x64nostd'] + q([], ['armdev', 'x64avx', 'x64sse', 'x64@nehalem', 'x64@conroe'])
    fut = c.pool.submit(hw.build_all, lanes)
    cover = gen_cover(c, ['N', 'A', 'F'], depth=4, Lens=S(LENS), MaxLen='300')
    behs = behaviours(c, cover, q(2500, None), hows='wixqcyvufh12468smnz')
    walks = gen_walk(c, ['N', 'd', 'A', 'F', 'C', 'Z'], q(400, 3000), 20, Slots='{1,2}', Lens='{0,1,5,16,31,32,33,64,70}', MaxLen='4000', Keys='{0,1}')
    behs += behaviours(c, walks, hows='wixqcyvufh12468sm') + bulk(c)
    # builders: every handed-out hasher is the dispatcher with that key, whoever handed out before
    b2 = []
    for i in range(q(400, 4000)):
        k = c.rng.choice(KEYS + list(range(18, 40))); k2 = c.rng.choice([k, 0, 19])
        if i % 2:
            fam = 200000 + 64 * c.rng.randrange(900)
            k, k2 = [fam + x for x in c.rng.sample(range(24 if i % 4 == 1 else 64), 2)]
        ops = [('b', 0, k, 'n'), ('b', 1, k, 'n'), ('b', 2, k2, c.rng.choice('nd'))]
        for _ in range(c.rng.randrange(1, 5)):
            t, s = c.rng.randrange(3), c.rng.randrange(3)
            L = c.rng.randrange(90)
            z = c.rng.randrange(5)
            if z == 0: ops += [('J', t, 0, 0, L)]
            elif z == 1: ops += [('Q', s, t), ('j', s, 0, 0, L), ('F', s)]
            else:
                ops += [('Q', s, t)]
                at = 0
                for x in random_chunks(c.rng, L):
                    ops.append(('A', s, 0, at, at + x, c.rng.choice('wix12468sha'))); at += x
                    if c.rng.random() < .3: ops.append(('F', s))
                ops += [('F', s)] + ([('Z', s, 64)] if z % 2 else [('F', s), ('A', s, 0, at, at + 9, 'w'), ('F', s)])
                ops += [('N', 8, 'DP'[z % 2], [k, k, k2][t], 'f'), ('A', 8, 0, 0, L, 'a'), ('Z', 8, 64)] if ops[3][0] != 'd' else []
        # the same value hashed by other builders and by the dispatcher
        ops += [('J', 0, 1, 0, 20), ('J', 1, 1, 0, 20), ('N', 8, 'D', k, 'b'), ('j', 8, 1, 0, 20), ('F', 8), ('N', 8, 'D', k, 'n'), ('j', 8, 1, 0, 20), ('Z', 8, 64)]
        b2.append(ops)
    for b in b2:
        for i, o in enumerate(b):
            if o[0] == 'b' and o[3] == 'd': b[i] = ('b', o[1], 0, 'd')
    b2 = [fix_builder(b) for b in b2]
    exes = fut.result()
    c.relational(grouped(behs, 8), instances(lanes), exes, concat=True, shared=False, what='adapters')
    c.relational(grouped(many('1mwi', observe=(70000, 300)), 4, 'many'), instances(lanes), exes, concat=True, shared=False, what='many calls')
    l64 = [l for l in lanes if hw.LANES[l].word == 8]
    c.relational(grouped(b2, 8, 'b'), [(l, {}) for l in l64], exes, merge=True, concat=True, shared=True, what='builders')
    c.relational(grouped(b2, 8, 'b'), [(l, {}) for l in lanes if l not in l64], exes, merge=True, concat=True, shared=True, what='builders (32 bit)')
    c.relational(grouped(typed(c, q(150, 1500)), 6, 't'), [(l, {}) for l in l64], exes, merge=True, concat=True, shared=True, what='values of many types')
    c.relational(grouped(typed(c, q(150, 1500)), 6, 't'), [(l, {}) for l in lanes if l not in l64], exes, merge=True, concat=True, shared=True, what='values of many types (32 bit)')
    n = 1 << 32
    far = [x for how in 'wixqcvy' for x in [('N', 0, 'T', 16, 'f'), ('A', 0, 100, 0, 5, 'a'), ('A', 0, 100, 5, n + 34, how), ('F', 0)]]
    c.relational([('huge', far)], instances(['x64']), exes, concat=True, shared=False, what='2^32 bytes in one write')
    for how in 'wi': half(c, exes, instances(['i686'] + q([], ['wasm'])), how=how)
    for lane in ['x64', 'x64dev', 'arm', 'wasm']:
        c.search(lane, exes[lane], 'adapter', hw.LANES[lane].types, q(5000, 100000), n=q(15000, 300000) if hw.LANES[lane].wasm else 0,
                 threads=1 if lane == 'arm' else 6, concat=True, shared=False)

def bulk(c, hows='wixqcyvufh12468smnz', sizes=(100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16400, 65535, 65536, 65537, 131073)):
    """Every way of writing, much at a time, of plain text (which can be formatted) and of other bytes."""
    out = []
    for i, n in enumerate(sizes):
        for j, h in enumerate(hows):
            a, p = c.rng.choice([0, 0, 1, 5, 31, 32]), (104, 104, 0)[(i + j) % 3] if h != 'f' else 104
            k, w = KEYS[(i + j) % len(KEYS)], [64, 128, 256][(i + j) % 3]
            ops = [('N', 0, 'T', k, 'f'), ('A', 0, p, 0, a, 'w'), ('A', 0, p, a, a + n, h), ('F', 0), ('A', 0, p, a + n, a + n + j, 'w'), ('F', 0), ('Z', 0, w)]
            out.append(ops + [('N', 0, 'T', k, 'f'), ('A', 0, p, 0, a + n + j, 'a'), ('Z', 0, w)])
    return out

def typed(c, n):
    """Values of all kinds of types: by hash_one, into handed-out hashers, into hashers made otherwise."""
    out = []
    for i in range(n):
        k = c.rng.choice(KEYS[:20])
        ops = [('b', 0, k, 'n'), ('b', 1, k, 'n')]
        vs = [(i * 3 + j) % hw.TYPED if j < 3 else c.rng.randrange(hw.TYPED) for j in range(c.rng.randrange(3, 7))]
        for v in vs[:4]:
            ops += [('T', c.rng.randrange(2), v), ('Q', 0, c.rng.randrange(2)), ('t', 0, v), ('F', 0)]
            ops += [('N', 1, 'DP'[(v + i) % 2], k, 'f'), ('t', 1, v), ('Z', 1, 64)]
        # several into one, among bytes
        ops += [('Q', 2, 0)] + [x for v in vs for x in (('t', 2, v), ('A', 2, 0, 0, v % 5, 'w'), ('F', 2))[:2 + v % 2]] + [('F', 2)]
        ops += [('N', 3, 'P', k, 'f')] + [x for v in vs for x in (('t', 3, v), ('A', 3, 0, 0, v % 5, 'a'))] + [('Z', 3, 64)]
        out.append(ops)
    return out

def fix_builder(ops):
    """The reference after builder t uses the key that builder really has."""
    key, last, out = {}, None, []
    for o in ops:
        if o[0] == 'b': key[o[1]] = o[2]
        if o[0] == 'Q': last = key[o[2]]
        if o[0] == 'N' and o[1] == 8 and o[4] == 'f': o = o[:3] + (last,) + o[4:]
        out.append(o)
    return out

# ---------------------------------------------------------------- observers, clones, isolation
def C13(c):
    """Observers and clones."""
    c.model('observers (PACKET=3)', 'PacketImpl', packet_cfg(['ResultIsHash', 'Represents'], ['ObserversPure', 'Isolation'], ops='NAFZCKV', PACKET='3', MaxLen='5', Lens=S(range(0, 6)), Keys='{1}', CkSlots='{1}', RawCounts='{}'))
    c.model('negative: an observer writes', 'PacketImpl', packet_cfg([], ['ObserversPure'], ObserverMutates='TRUE', ops='NAFZ'), expect='ObserversPure')
    lanes = ['x64', 'x64dev', 'arm', 'wasm', 'i686'] + q([], ['armdev', 'wasmdev', 'x64nostd', 'x64avx', 'x64sse'])
    fut = c.pool.submit(hw.build_all, lanes)
    cover = gen_cover(c, ['N', 'A', 'F', 'K', 'G', 'C'], depth=4, Slots='{1,2}', CkSlots='{1}', Lens='{0,1,3,4,15,16,17,31,32,33,64}', MaxLen='200')
    walks = gen_walk(c, ['N', 'd', 'A', 'F', 'K', 'G', 'C', 'V', 'Z', 'X'], q(1200, 10000), 24, Slots='{1,2,3}', CkSlots='{1,2}', RawCounts='{0,5,31,33}', Lens='{0,1,5,16,31,32,33,64,70}', MaxLen='4000', Keys='{0,1}')
    behs = behaviours(c, cover, q(2500, None), exact=True, pool=0) + behaviours(c, walks, exact=True, pool=0, hows='aaw')
    # the observer in every pending count, before every following append length
    for f in range(0, 40):
        for g in [0, 1, 31 - f % 32, 32 - f % 32, 33 - f % 32, 64]:
            if g < 0: continue
            obs = [('F', 0), ('K', 0, 0), ('G', 0), ('C', 0, 1), ('F', 1), ('A', 1, 3, 0, 7, 'a'), ('F', 1), ('c', 0, 2), ('D', 1), ('F', 0)]
            c.rng.shuffle(obs)
            ap = [('A', 0, 0, 0, f, 'a'), ('A', 0, 0, f, f + g, 'a')]
            w = c.rng.choice([64, 128, 256])
            behs.append([('N', 0, 'T', 16, 'f'), ap[0]] + obs + [ap[1], ('F', 0), ('K', 0, 0), ('Z', 0, w)] + [('N', 9, 'T', 16, 'f')] + [(a[0], 9) + a[2:] for a in ap] + [('Z', 9, w)])
    # what an observer remembers: checkpoints and results after every packet of one object, against those of clones that
    # have been asked only once
    often = []
    for i in range(q(10, 60)):
        new = [('N', 0, 'T', 16 + i, 'f'), ('A', 0, 0, 0, (0, 5, 31, 16)[i % 4], 'a')]
        at, a, b = new[1][4], [], []
        for j in range(q(120, 400)):
            n = (32, 32, 64, 27)[j % 4 if i % 2 else 0]
            ap = ('A', 0, 0, at, at + n, 'a'); at += n
            a += [ap, ('K', 0, 0), ('F', 0), ('R', 2, 'T', 0, 'f'), ('F', 2)]
            b += [ap, ('C', 0, 1), ('K', 1, 0), ('C', 0, 1), ('F', 1), ('R', 2, 'T', 0, 'f'), ('F', 2)]
        often.append(new + a + new + b)
    exes = fut.result()
    c.relational([('often%d' % i, o) for i, o in enumerate(often)], instances(lanes), exes, concat=False, shared=False, what='observed after every packet')
    c.relational(grouped(behs, 8), instances(lanes), exes, concat=False, shared=False, what='observers')
    c.relational(grouped(many('', (), (), [70000] + list(range(300, 319))), 4, 'many'), instances(lanes), exes, concat=False, shared=False, what='many observations')
    for lane in ['x64', 'x64dev', 'arm', 'wasm']:
        c.search(lane, exes[lane], 'observe', hw.LANES[lane].types, q(5000, 100000), n=q(15000, 300000) if hw.LANES[lane].wasm else 0,
                 threads=1 if lane == 'arm' else 6, concat=False, shared=False)

def C14(c):
    """Checkpoints are canonical."""
    inv = ['TypeOK', 'Represents', 'CkptCanonical', 'CkptNoStale', 'CkptIdempotent']
    c.model('packet-8 checkpoints', 'PacketImpl', packet_cfg(inv, ops='NdAKRXF', PACKET=q('8', '12'), Slots='{1}', Keys='{0}', CkSlots='{1}', MaxLen='26', RawCounts='{0,3,8,11}', Lens=S(range(0, 20)), Widths='{64}'))
    c.model('negative: stale bytes in the checkpoint', 'PacketImpl', packet_cfg(['CkptCanonical'], StaleCheckpoint='TRUE', ops='NAK'), expect='CkptCanonical')
    c.model('negative: stale bytes in the checkpoint (leak)', 'PacketImpl', packet_cfg(['CkptNoStale'], StaleCheckpoint='TRUE', ops='NAK'), expect='CkptNoStale')
    lanes = ['x64', 'x64dev', 'arm', 'wasm', 'i686', 'x64nostd'] + q([], ['armdev', 'wasmdev', 'x64avx', 'x64sse', 'i686dev'])
    fut = c.pool.submit(hw.build_all, lanes)
    cover = gen_cover(c, ['N', 'd', 'A', 'H'], depth=5, Lens=S(LENS), MaxLen='300')
    behs = behaviours(c, cover, q(2500, None), types=('T', 'U'), run=dict(ckpt=True))
    walks = gen_walk(c, ['N', 'd', 'A', 'K', 'R', 'H', 'C', 'F', 'V'], q(500, 5000), 24, Slots='{1,2,3}', CkSlots='{1,2}', Lens='{0,1,5,16,31,32,33,64,70}', MaxLen='4000', Keys='{0,1}')
    behs += behaviours(c, walks, types=('T', 'U'), pool=0, run=dict(ckpt=True))
    exes = fut.result()
    pairs = [(l, {'T': t, 'U': u}) for l in lanes for t in hw.LANES[l].types for u in hw.LANES[l].types if t != u or t in 'PN']
    c.relational(grouped(behs, 8), pairs, exes, merge=True, concat=True, shared=True, ckpt=True, tail=True, what='canonical checkpoints')
    raws = []
    for r in range(64 * 4):
        raws.append([('X', 0, 'T', r, 'f'), ('K', 0, 0), ('R', 1, 'U', 0, 'f'), ('K', 1, 1), ('A', 1, 0, 0, 5, 'a'), ('A', 1, 0, 5, 40, 'a'), ('K', 1, 1), ('A', 0, 0, 0, 40, 'a'), ('K', 0, 0)])
    lots = [[x for o in b for x in ([('K', o[1], 5), o] if o[0] == 'Z' else [o])] for b in many('nz1', w0=2, u='U')]
    c.relational(grouped(lots, 4, 'many'), pairs, exes, merge=True, concat=True, shared=True, ckpt=True, tail=True, what='many calls')
    c.relational(grouped(raws, 8, 'raw'), pairs, exes, merge=True, concat=True, shared=True, ckpt=True, what='checkpoints of raw restores')
    for lane in ['x64', 'x64dev', 'arm', 'wasm']:
        c.search(lane, exes[lane], 'canon', hw.LANES[lane].types, q(5000, 100000), n=q(15000, 300000) if hw.LANES[lane].wasm else 0,
                 threads=1 if lane == 'arm' else 6, concat=True, shared=True, ckpt=True, tail=True)

def compiled(c, names, roots, bad, what, control, cut=None):
    """The optimised operations of every configuration reach nothing of a kind."""
    import facts
    gs = dict(zip(names, c.pool.map(lambda n: facts.parse(facts.probe(n)), names)))
    fs = [facts.facts(n, gs[n], roots, bad, cut) for n in names]
    for f in fs:
        if len(f['roots']) < 40: raise ToolError('%s: only %d operations found in the compiled probe' % (f['name'], len(f['roots'])))
    r = c.reach(fs, what)
    if r:
        c.violation('compiled for %s: %s' % (r[0], ' > '.join(r[1])), {'kind': 'reach', 'configuration': r[0], 'path': r[1]})
    # the extraction sees such a thing where there is one
    if c.reach([facts.facts('control', gs[names[0]], control, bad, cut)], 'control') is None:
        raise ToolError('the control reaches nothing')
    c.count('compiled_operations', sum(len(f['roots']) for f in fs))
    c.sample({'configuration': fs[0]['name'], 'roots': len(fs[0]['roots']), 'reached': sorted(facts.reach(gs[names[0]], fs[0]['roots']))[-12:]})

def C08(c):
    """Nothing panics."""
    inv = ['TypeOK', 'PendingShort', 'NoPanic']
    c.model('packet-8, every operation, raw restores', 'PacketImpl', packet_cfg(inv, ops='NdXAFZKRC', PACKET='8', Slots='{1}', CkSlots='{1}', Keys='{0}', MaxLen='18', RawCounts='{0,1,5,7,8,9,20}', Lens=S(range(0, 12)), Widths='{64}'))
    c.model('negative: restore keeps a full buffer (panic)', 'PacketImpl', packet_cfg(['NoPanic'], FullRestore='TRUE', ops='XAFZ'), expect='NoPanic')
    import data, facts
    lanes = ['x64dev', 'x64checked', 'x64', 'armdev', 'wasmdev', 'wasmchecked', 'i686dev', 'i686checked', 'x64nostddev'] + q([], ['arm', 'wasm', 'i686', 'x64nostd', 'x64avxdev', 'x64ssedev'])
    fut = c.pool.submit(hw.build_all, lanes, None, 3)
    compiled(c, list(facts.CONFIGS), 'hwp_', lambda n: bool(facts.PANIC.search(n)), 'compiled operations', 'hwc_panic')
    small = S([n for n in data.RAW_COUNTS if n < 2**31])
    cover = gen_cover(c, ['N', 'd', 'X', 'A', 'H', 'F', 'G', 'C'], depth=4, Lens=S([0, 1, 2, 3, 4, 5, 15, 16, 17, 28, 31, 32, 33, 64]), MaxLen='400', RawCounts=small, Widths='{64,128,256}')
    walks = gen_walk(c, ['N', 'd', 'A', 'F', 'K', 'G', 'C', 'V', 'Z', 'R', 'X'], q(600, 6000), 24, Slots='{1,2,3}', CkSlots='{1,2}', RawCounts='{0,1,5,31,32,33,255}', Lens='{0,1,5,16,31,32,33,64,70}', MaxLen='4000', Keys='{0,1}', Widths='{64,128,256}')
    behs = []
    for i, h in enumerate(cover): behs.append(conv(c, i, types=('T', 'U'), raw=i % 12, hows=HOWS).run(h, ref=False))
    c.rng.shuffle(behs)
    behs = behs[:q(2000, None)] + behaviours(c, walks, types=('T', 'U'), hows=HOWS, run=dict(ref=False)) + crafted(c, q(700, 8000), types='T') + structured(c, q(500, 5000))
    behs += many('nz1m', observe=(3000,))
    # every count of a raw checkpoint, then everything
    for r in range(64 * q(4, 12)):
        behs.append([('X', 0, 'T', r, 'f'), ('G', 0), ('F', 0), ('K', 0, 0), ('C', 0, 1), ('R', 2, 'U', 0, 'f'), ('A', 1, 0, 0, c.rng.randrange(40), 'a'), ('Z', 1, 256), ('Z', 0, 128), ('O', 2, 64, 0, 0, c.rng.randrange(40))])
    behs += [[('b', 0, 16, h), ('Q', 0, 0), ('A', 0, 0, 0, n, 'w'), ('F', 0), ('J', 0, 0, 0, n), ('j', 0, 0, 0, n), ('G', 0), ('Z', 0, 64)] for n in range(0, 70, 3) for h in 'nd']
    exes = fut.result()
    def others(l, t):
        ts = hw.LANES[l].types
        return [ts[(ts.index(t) + 1) % len(ts)]] if QUICK and hw.LANES[l].runner else [u for u in ts if u != t or t == 'P']
    pairs = [(l, {'T': t, 'U': u}) for l in lanes for t in hw.LANES[l].types for u in others(l, t)]
    c.relational(grouped(behs, 8), pairs, exes, values=False, what='every operation')
    big = [('N', 0, 'T', 16, 'f'), ('A', 0, 100, 0, 5, 'a'), ('A', 0, 100, 5, (1 << 32) + 34, 'a'), ('F', 0), ('K', 0, 0), ('Z', 0, 128)]
    c.relational([('huge', big)], instances(['x64checked']), exes, values=False, what='2^32 bytes')
    huge(c, exes, instances(['wasmchecked']), values=False)
    half(c, exes, instances(['i686checked'] + q([], ['i686dev'])), values=False)
    for lane, ms in [('x64dev', 6000), ('x64checked', 8000), ('armdev', 4000), ('wasmdev', 4000), ('i686dev', 4000)]:
        c.search(lane, exes[lane], 'panic', hw.LANES[lane].types, q(ms, ms * 15), n=q(20000, 400000) if hw.LANES[lane].wasm else 0, threads=1 if hw.LANES[lane].runner else 7, values=False)

def C18(c):
    """No operation allocates."""
    import facts
    lanes = ['x64', 'x64dev', 'arm', 'armdev', 'i686', 'i686dev', 'x64nostd'] + q([], ['x64avx', 'x64sse', 'x64checked', 'x64nostddev', 'i686checked'])
    fut = c.pool.submit(hw.build_all, lanes)
    for t, f in [('x86_64-unknown-linux-gnu', ''), ('aarch64-unknown-linux-gnu', ''), ('i686-unknown-linux-gnu', ''), ('wasm32-unknown-unknown', '-Ctarget-feature=+simd128')]:
        why = facts.links_without_allocator(t, f)
        if why: c.violation('a program without std and without an allocator does not link for %s: %s' % (t, why), {'kind': 'noalloc', 'target': t})
        c.count('programs_linked_without_allocator', 1)
    compiled(c, [n for n in facts.CONFIGS if 'wasm' not in n], 'hw[pf]_', lambda n: bool(facts.ALLOC.search(n)), 'compiled operations', 'hwc_alloc', cut=lambda n: bool(facts.PANIC.search(n)))
    cover = gen_cover(c, ['N', 'd', 'X', 'A', 'F', 'K', 'G', 'C', 'R', 'Z', 'D', 'H'], depth=4, Slots='{1}', CkSlots='{1}', RawCounts='{0,5,31,32,33,255}', Lens='{0,1,3,4,15,16,17,31,32,33,64,100}', MaxLen='300', Widths='{64,128,256}')
    walks = gen_walk(c, ['N', 'd', 'A', 'F', 'K', 'G', 'C', 'V', 'Z', 'R', 'X'], q(600, 6000), 24, Slots='{1,2,3}', CkSlots='{1,2}', RawCounts='{0,5,31,33}', Lens='{0,1,5,16,31,32,33,64,70}', MaxLen='4000', Keys='{0,1}', Widths='{64,128,256}')
    behs = behaviours(c, cover, q(2500, None), hows='awixqvyf12468shmn', run=dict(ref=False)) + behaviours(c, walks, pool=0, hows='awixqvyf12468shmn', run=dict(ref=False))
    behs += [[('N', 0, 'T', 16, h), ('A', 0, 0, 0, n, w), ('G', 0), ('F', 0), ('K', 0, 0), ('C', 0, 1), ('c', 1, 0), ('R', 1, 'T', 0, h2), ('O', 1, wd, 0, n, n + m), ('Z', 0, wd)]
             for n in [0, 1, 31, 32, 33, 255, 256, 4096, 65536, 1 << 20] for m in [0, 7, 100] for w in 'awixqvy' for h in 'fnd' for h2 in 'fn' for wd in (64, 128, 256)]
    behs += [[('b', 0, 16, h), ('Q', 0, 0), ('A', 0, 0, 0, n, 'w'), ('F', 0), ('J', 0, 0, 0, n), ('j', 0, 0, 0, n), ('Z', 0, 64)] for n in range(0, 70) for h in 'nd']
    behs += typed(c, q(30, 200))
    behs += many('nzm1', observe=(70000,))
    exes = fut.result()
    slow = [l for l in lanes if QUICK and l in ('armdev', 'i686dev')]
    c.relational(grouped(behs, 8), instances([l for l in lanes if l not in slow]), exes, concat=True, shared=True, alloc=True, what='allocations')
    if slow:
        c.rng.shuffle(behs)
        some = [b for b in behs if not any(o[0] in 'Aj' and o[4] - o[3] > 5000 or o[0] == 'f' for o in b if o[0] in 'Ajf' and len(o) > 4 or o[0] == 'f')][:1200]
        c.relational(grouped(some, 8, 'd'), instances(slow), exes, concat=True, shared=True, alloc=True, what='allocations, debug builds of other targets')
    for lane in ['x64', 'x64dev', 'arm']:
        c.search(lane, exes[lane], 'all', hw.LANES[lane].types, q(4000, 60000), threads=1 if lane == 'arm' else 6, concat=True, shared=True, alloc=True)

def C15(c):
    """Isolation: interleavings in one thread, several threads, one shared builder."""
    thr = lambda **kw: hw.cfg(dict(dict(Threads='{1,2,3}', Rounds=q('3', '5'), SharedPacket='FALSE', SharedLanes='FALSE', BuilderCaches='FALSE'), **kw), spec='Spec', invs=['OwnBytesOnly', 'Distinct'])
    c.model('three threads, calls not atomic', 'Threads', thr())
    c.model('negative: a static packet buffer', 'Threads', thr(SharedPacket='TRUE'), expect='OwnBytesOnly')
    c.model('negative: shared lanes', 'Threads', thr(SharedLanes='TRUE'), expect='OwnBytesOnly')
    c.model('negative: the builder hands out one hasher', 'Threads', thr(BuilderCaches='TRUE'), expect='*')
    c.model('interleavings of two objects (PACKET=3)', 'PacketImpl', packet_cfg(['ResultIsHash', 'Represents'], ['Isolation'], ops='NdAFZCKV', PACKET=q('2', '3'), MaxLen=q('3', '4'), Lens='{1,2,3,4}', Keys='{0,1}', CkSlots='{1}', RawCounts='{}'))
    c.model('negative: scratch shared by all objects', 'PacketImpl', packet_cfg(['ResultIsHash'], SharedScratch='TRUE', ops='NAFV'), expect='ResultIsHash')
    lanes = ['x64', 'x64dev', 'arm', 'wasm'] + q([], ['armdev', 'i686', 'x64nostd'])
    fut = c.pool.submit(hw.build_all, lanes)
    walks = gen_walk(c, ['N', 'd', 'A', 'F', 'K', 'C', 'V', 'Z'], q(900, 6000), 30, Slots='{1,2,3,4}', CkSlots='{1}', Lens='{0,1,5,16,31,32,33,64,70}', MaxLen='4000', Keys='{0,1,2}')
    whole, alone = [], []
    for i, h in enumerate(walks):
        fam = 200000 + 64 * c.rng.randrange(900)
        v = Conv(rng=c.rng, types=('T', 'T', 'U'), pool=0, keys=[0] + (c.rng.sample(KEYS + list(range(18, 40)), 2) if i % 2 else [fam + x for x in c.rng.sample(range(64), 2)]), exact=True, hows='aaaw')
        ops = v.run(h)
        # the references are at the end, on slot 9: they run elsewhere, in another order
        k = next((j for j, o in enumerate(ops) if o[0] in 'NX' and o[1] == 9), len(ops))
        solos, cur = [], None
        for o in ops[k:]:
            if o[0] in 'NX': cur = []; solos.append(cur)
            cur.append(o)
        solos.reverse()
        whole.append(('w%d' % i, ops[:k]))
        alone.append(('w%d' % i, solos))
    # builders whose keys are close relatives, one after another and at the same time
    for i in range(q(150, 1500)):
        fam = 200000 + 64 * c.rng.randrange(900)
        ks = [fam + x for x in (c.rng.sample(range(24), 4) if i % 3 == 0 else c.rng.sample(range(64), 4))]
        n = [c.rng.choice(LENS) for _ in ks]
        one = lambda s, k, m, t: [('b', t, k, 'n'), ('Q', s, t), ('A', s, 0, 0, m, 'w'), ('F', s), ('Z', s, [64, 128, 256][i % 3])]
        parts = [one(s, k, m, s % 3) for s, (k, m) in enumerate(zip(ks, n))]
        whole.append(('k%d' % i, sum(parts, []) if i % 2 else [o for z in zip(*parts) for o in z] if i % 4 else [p[0] for p in parts[:3]] + sum([p[1:] for p in parts[:3]], []) + parts[3]))
        alone.append(('k%d' % i, parts[::-1]))
    exes = fut.result()
    def judge(lane, tm, nproc):
        chains = run_isolated(c, lane, tm, exes[lane], whole, alone, nproc)
        return chains
    for lane, tms, nproc in [('x64', [{'T': t, 'U': u} for t, u in ('PD', 'SA', 'AP', 'DS')], 60), ('arm', [{'T': 'N', 'U': 'P'}], 6), ('wasm', [{'T': 'W', 'U': 'P'}], 6), ('x64dev', [{'T': 'P', 'U': 'D'}], 12)]:
        for tm in tms:
            judge(lane, tm, nproc)
    # threads
    n = q(24, 200)
    for lane, types in [('x64', 'PDSA'), ('x64dev', 'PD')]:
        for g in range(n):
            ty = types[g % len(types)]
            behs = []
            for t in range(8):
                h = c.rng.choice(walks)
                v = Conv(rng=c.rng, types=(ty,), pool=c.rng.choice([0, 0, 1, 2]), keys=[0] + c.rng.sample(KEYS, 2), exact=True, hows='aaaw')
                behs.append(('t%d' % t, v.run(h, ref=False)))
            threads_round(c, lane, exes[lane], behs, 60, g)
    flush_threads(c)
    log('threads done')
    # what is shared is looked for in the compiled code; where anything is, much longer and under the thread sanitizer
    suspects = shared_state(c)
    more = 6 if suspects else 1
    for lane, types, ms in [('x64', 'PDSA', 5000), ('x64dev', 'PDSA', 5000), ('arm', 'NPD', 4000)]: hammer(c, lane, exes[lane], types, q(ms, 60000) * more)
    if suspects or not QUICK:
        exe = hw.build_all(['x64tsan'])['x64tsan']
        hammer(c, 'x64tsan', exe, 'PDSA', q(30000, 120000))
    for lane in ['x64', 'x64dev']:
        shared_builder(c, lane, exes[lane], q(4000, 60000))
    for lane in ['x64', 'x64dev', 'arm', 'wasm']:
        c.search(lane, exes[lane], 'inter', hw.LANES[lane].types, q(4000, 100000), n=q(10000, 300000) if hw.LANES[lane].wasm else 0,
                 threads=1 if lane == 'arm' else 8, concat=False, shared=False)

def shared_state(c):
    """Writable globals the compiled operations reach, other than what the standard library keeps. Not wrong as such (a cache
    may be harmless): it only decides how hard concurrent executions are tried."""
    import facts
    out = []
    names = ['x64', 'arm']
    gs = dict(zip(names, c.pool.map(lambda n: facts.parse(facts.probe(n)), names)))
    std = re.compile(r'std_detect|_ZN(3std|4core|5alloc)|^_R\w*?Cs\w+_(3std|4core|5alloc|10std_detect)|^(environ|__rust|_Unwind|__aarch64_have_lse)')
    for n in names:
        g = gs[n]
        var = lambda x: g.get(x, {}).get('kind') == 'var' and not std.search(x)
        f = facts.facts(n, g, 'hwp_', var)
        r = c.reach([f], 'shared writable state, ' + n)
        if r: out.append((n, r[1])); log('%s: writable and reached: %s' % (n, ' > '.join(r[1])))
        c.count('compiled_operations', len(f['roots']))
    return out

def run_isolated(c, lane, tm, exe, whole, alone, nproc):
    """Interleaved in one process; every object's history alone in other processes; one trace each."""
    sub = lambda ops: [retype(o, tm) for o in ops]
    res = hw.run_lane(lane, exe, [(i, sub(o)) for i, o in whole])
    parts = [alone[j::nproc] for j in range(nproc)]
    solo = {}
    def one(part):
        b = [('%s.%d' % (i, j), sub(s)) for i, ss in reversed(part) for j, s in enumerate(ss)]
        return hw.run_lane(lane, exe, b) if b else {}
    for r in c.pool.map(one, parts): solo.update(r)
    traces, reps = [], []
    for (i, ops), (_, ss) in zip(whole, alone):
        ops = sub(ops)
        ev = c._events(ops, [res[i]], [8])
        for j, s in enumerate(ss):
            ev += c._events(sub(s), [solo['%s.%d' % (i, j)]], [8])
        traces.append({'id': i, 'ev': ev}); reps.append((ops, [sub(s) for s in ss]))
    r, reason, idx = hw.validate(traces, concat=False, shared=False)
    c.states += r.distinct; c.transitions += r.generated; c.traces += len(traces)
    c.count('processes', nproc + 1)
    c.count('events', sum(len(t['ev']) for t in traces))
    log('interleaved/alone on %s %s: %d traces' % (lane, tm, len(traces)))
    c.sample({'trace': traces[0]['id'], 'events': [compact(e) for e in traces[0]['ev'][:8]]})
    if reason:
        c.violation('%s [%s %s]' % (reason, lane, tm), {'kind': 'isolation', 'lane': lane, 'types': tm, 'interleaved': reps[idx][0], 'alone': reps[idx][1], 'trace': traces[idx]})

def threads_round(c, lane, exe, behs, reps, g):
    sc, out = hw.fresh('.txt'), hw.fresh('.out')
    open(sc, 'w').write(hw.script_text(behs))
    rc, o, e = hw.sh([exe, 'threads', sc, out, str(reps)], timeout=120, ok=None)
    solo = hw.run_lane(lane, exe, behs)
    outs = {}
    for line in open(out):
        p = line.split()
        if p != ['END'] and p: outs.setdefault(p[0], []).append(p[1:])
    traces = []
    for b, ops in behs:
        ev = c._events(ops, [solo[b]], [8])
        for toks in outs.get(b, [['X']]):
            ev += c._events(ops, [toks], [8])
        traces.append({'id': '%s/%d' % (b, g), 'ev': ev})
    c.count('threads_run', len(behs) * reps)
    c.pending = getattr(c, 'pending', []) + [(lane, behs, t) for t in traces]
    if len(c.pending) >= 150:
        flush_threads(c)

def flush_threads(c):
    if not getattr(c, 'pending', None): return
    r, reason, idx = hw.validate([t for _, _, t in c.pending], concat=False, shared=False)
    c.states += r.distinct; c.transitions += r.generated; c.traces += len(c.pending)
    if reason:
        lane, behs, t = c.pending[idx]
        c.violation('%s [threads, %s]' % (reason, lane), {'kind': 'threads', 'lane': lane, 'behaviours': behs, 'trace': t})
    c.pending = []

def shared_builder(c, lane, exe, ms):
    rc, out, err = hw.sh([exe, 'shared', str(SEED), str(ms), '8'], timeout=ms / 1000 + 120, ok=None)
    flush_threads(c)
    bad = [l.split() for l in out.splitlines() if l.startswith('BAD ')]
    st = [json.loads(l[6:]) for l in out.splitlines() if l.startswith('STATS ')]
    if not st:
        c.violation('threads sharing a builder end the process (exit %s) [%s]' % (rc, lane), {'kind': 'shared', 'lane': lane, 'seed': SEED, 'stderr': err[-1000:]})
        return
    c.count('shared_builder_hashers', st[0]['evaluations'])
    log('shared builder on %s: %s' % (lane, st[0]))
    if bad:
        _, k, p, n, f, f0, g, g0 = bad[0][:8]
        def run(x, y, mk): return [mk, hw.event(('A', 0, p, 0, n, 'a'), ['ok']), hw.event(('F', 0), [x]), hw.event(('Z', 0, 256), [y])]
        ev = run(f0, g0, hw.event(('N', 0, 'D', k, 'f'), ['ok'])) + [hw.event(('b', 0, k, 'n'), ['ok'])] + run(f, g, hw.event(('Q', 0, 0), ['ok']))
        r, reason, _ = hw.validate([{'id': 'shared', 'ev': ev}], concat=True, shared=False)
        if not reason: raise ToolError('TLC accepts %r' % bad[0])
        c.violation('%s [shared builder, %s]' % (reason, lane), {'kind': 'shared', 'lane': lane, 'seed': SEED, 'line': bad[0]})

def hammer(c, lane, exe, types, ms):
    rc, out, err = hw.sh(hw.LANES[lane].runner + [exe, 'hammer', types, str(SEED), str(ms), '8'], timeout=ms / 1000 + 120, ok=None)
    st = [json.loads(l[6:]) for l in out.splitlines() if l.startswith('STATS ')]
    if 'ThreadSanitizer: data race' in err:
        c.violation('concurrent hashers touch the same memory unsynchronised [%s]' % lane, {'kind': 'hammer', 'lane': lane, 'types': types, 'seed': SEED, 'report': err[:4000]})
    if not st: c.violation('concurrent hashers end the process (exit %s) [%s]' % (rc, lane), {'kind': 'hammer', 'lane': lane, 'types': types, 'seed': SEED, 'stderr': err[-1000:]})
    c.count('concurrent_histories', st[0]['evaluations'])
    log('hammer on %s: %s' % (lane, st[0]))
    if 'MISMATCH' in out:
        body = out.split('MISMATCH\n')[1].splitlines()
        ops = [tuple(l.split()) for l in body if l and l[0] != '=']
        ev = sum([c._events(ops, [l.split()[1:]], [8]) for l in body if l.startswith('=')], [])
        r, reason, _ = hw.validate([{'id': 'hammer', 'ev': ev}], concat=False, shared=False)
        if not reason: raise ToolError('TLC accepts %r' % body)
        c.violation('%s [concurrent, %s]' % (reason, lane), {'kind': 'hammer', 'lane': lane, 'types': types, 'seed': SEED, 'ops': ops, 'trace': {'id': 'hammer', 'ev': ev}})

# ---------------------------------------------------------------- memory
def placements(rng, ops, v, i):
    """The same calls with the data somewhere else: v = 0 on the heap, 1 / 2 ending / starting at an inaccessible page, 3 across a multiple of 2^33 (2^28), else at offset v + i mod 64 among other bytes."""
    out = []
    for o in ops:
        if o[0] in 'AO' and v:
            o = o + ('@e0' if v == 1 else '@s0' if v == 2 else '@b%d' % ((i * 5 + len(out)) % 32 + (rng.choice([0, 0xff]) << 8)) if v == 3 else '@o%d' % ((i + 21 * v) % 64 + (rng.choice([0, 0x55, 0x80, 0xff]) << 8)),)
        out.append(o)
    return out

def placed(c, behs, lanes, exes, variants=5, what=''):
    """Every behaviour in several placements: TLC judges all of them together, so that equal calls must give equal values."""
    rng = random.Random(SEED)
    runs = [(i, v, placements(rng, ops, v, i)) for i, ops in enumerate(behs) for v in range(variants)]
    insts = instances(lanes)
    def go(inst):
        l, tm = inst
        return hw.run_lane(l, exes[l], [('%d.%d' % (i, v), [retype(o, tm) for o in ops]) for i, v, ops in runs], guard=True, timeout=600)
    traces, who, index = [], [], {}
    for inst, res in zip(insts, c.pool.map(go, insts)):
        for i, ops in enumerate(behs):
            toks = [res['%d.%d' % (i, v)] for v in range(variants)]
            # a panic wherever the data lies is another property's business
            n = min(j for t in toks for j in range(len(t) + 1) if j == len(t) or t[j] == '!')
            if all(len(t) > n and t[n] == '!' for t in toks): toks = [t[:n] for t in toks]
            ev = []
            for t in toks: ev += c._events(ops, [t], [hw.LANES[inst[0]].word])
            k = json.dumps(ev)
            if k not in index:
                index[k] = 1; traces.append({'id': str(i), 'ev': ev}); who.append((i, inst))
    c.count('implementation_runs', len(runs) * len(insts)); c.count('events', sum(len(t['ev']) for t in traces))
    log('%s: %d behaviours x %d placements x %d: %d distinct traces' % (what, len(behs), variants, len(insts), len(traces)))
    r, reason, idx = hw.validate(traces, concat=False, shared=False)
    c.states += r.distinct; c.transitions += r.generated; c.traces += len(behs) * len(insts)
    if reason:
        i, inst = who[idx]
        c.violation('%s [%s]' % (reason, inst_name(inst)), {'kind': 'placed', 'instance': inst, 'ops': [[retype(o, inst[1]) for o in ops] for j, _, ops in runs if j == i], 'trace': traces[idx]})
    c.sample({'trace': traces[0]['id'], 'events': [compact(e) for e in traces[0]['ev'][:8]]})

def objects_at_edges(c, lane, exe):
    """Hashers that end or start where mapped memory does."""
    rc, out, err = hw.sh(hw.LANES[lane].runner + [exe, 'guardobj'], timeout=300, ok=None)
    lines = [l.split() for l in out.splitlines() if l.startswith('OBJ ')]
    if not out.endswith('END\n'):
        last = lines[-1] if lines else ['?']
        c.violation('a hasher next to an inaccessible page faults after %s [%s]' % (' '.join(last[1:5]), lane), {'kind': 'guardobj', 'lane': lane, 'exit': rc, 'last': last, 'stderr': err[-1000:]})
    groups = {}
    for l in lines: groups.setdefault((l[1], l[3], l[4]), []).append(l)
    traces = []
    for (ty, f, x), ls in groups.items():
        f, x = int(f), int(x)
        ev, seen = [], set()
        for l in ls:
            if tuple(l[5:]) in seen: continue
            seen.add(tuple(l[5:]))
            vals = dict(zip('FKQZ', l[5:]))
            for o, v in [(('N', 0, ty, 17, 'f'), 'ok'), (('A', 0, 0, 0, f, 'a'), 'ok'), (('A', 0, 0, f, f + x, 'a'), 'ok'), (('F', 0), vals['F']), (('K', 0, 0), vals['K']),
                         (('C', 0, 1), 'ok'), (('Z', 1, 128), vals['Q']), (('Z', 0, 256), vals['Z'])]:
                ev.append(hw.event(o, [v]))
        traces.append({'id': '%s.%d.%d' % (ty, f, x), 'ev': ev})
    r, reason, idx = hw.validate(traces, concat=False, shared=False)
    c.states += r.distinct; c.transitions += r.generated; c.traces += len(traces)
    c.count('objects_next_to_inaccessible_pages', len(lines))
    if reason:
        c.violation('%s [hasher next to an inaccessible page, %s]' % (reason, lane), {'kind': 'guardobj', 'lane': lane, 'trace': traces[idx]})

def span(o): return o[5] - o[4] if o[0] == 'O' else o[4] - o[3]

def accesses(c, lane, exe, behs, parts=8):
    """Every memory access of every operation, judged by TLC."""
    import accesses as A
    behs = [('%d' % i, b) for i, b in enumerate(behs) if all(o[0] not in 'AO' or span(o) < 70000 for o in b)]
    res = list(c.pool.map(lambda p: (A.record(exe, p), p), [behs[i::parts] for i in range(parts)]))
    traces, seen = [], set()
    for (tr, err), p in res:
        if tr is None:
            # the same without the tracer; if that works, it is the tracer
            plain = hw.run_lane(lane, exe, p)
            bad = [i for i, t in plain.items() if t and t[-1] == 'X']
            if bad: c.violation('the process ends in behaviour %s [%s]' % (dict(p)[bad[0]], lane), {'kind': 'accesses', 'lane': lane, 'ops': dict(p)[bad[0]]})
            if any('!' in t for t in plain.values()): continue
            raise ToolError(err)
        for t in tr:
            k = json.dumps(t['ev'])
            if k not in seen: seen.add(k); traces.append(t)
    n = sum(len(e['acc']) for t in traces for e in t['ev'])
    c.count('memory_accesses_judged', n); c.count('operations_traced', sum(len(t['ev']) for t in traces))
    f = hw.fresh('.json')
    json.dump(traces, open(f, 'w'))
    r = hw.tlc('TraceMemory', hw.cfg(spec='Spec', invs=['Accepted']), env={'TRACE': f}, workers=6, heap='4g')
    c.states += r.distinct; c.transitions += r.generated; c.traces += len(traces)
    reason, idx = hw.verdict(r)
    log('accesses on %s: %d distinct traces, %d accesses' % (lane, len(traces), n))
    if reason:
        c.violation('%s [%s]' % (reason, lane), {'kind': 'accesses', 'lane': lane, 'ops': dict(behs)[traces[idx]['id']], 'trace': traces[idx]})
    c.sample({'trace': traces[0]['id'], 'events': [compact(e) for e in traces[0]['ev'][:3]]})

def C09(c):
    """Memory safety, address independence."""
    mem = lambda **kw: hw.cfg(dict(dict(MaxLen=q('66', '100'), Bases='{0,1,16}', Backends='{"bytes","lanes"}', TailBlock='FALSE', TailBack16='FALSE', AlignedBlocks='FALSE', UnmaskedLoad='FALSE'), **kw),
                              spec='Spec', invs=['TypeOK', 'InBounds', 'Aligned', 'LiveOnly', 'AllRead'])
    c.model('accesses of appends and remainders', 'Memory', mem())
    for flag, inv in [('TailBlock', 'InBounds'), ('TailBack16', 'InBounds'), ('AlignedBlocks', 'Aligned'), ('UnmaskedLoad', 'LiveOnly')]:
        c.model('negative: ' + flag, 'Memory', mem(**{flag: 'TRUE'}), expect=inv)
    native = ['x64', 'x64dev', 'x64avx', 'x64nostd'] + q([], ['x64native', 'x64sse', 'x64avxdev', 'x64checked', 'i686'])
    lanes = native + ['arm', 'armdev', 'wasm'] + q([], ['wasmdev', 'i686dev'])
    fut = c.pool.submit(hw.build_all, lanes + ['x64asan'] + q([], ['x64asandev']), None, 6)
    cover = gen_cover(c, ['N', 'A', 'F'], depth=4, Lens=S(LENS), MaxLen='300')
    behs = behaviours(c, cover, q(1200, 8000), pool=0, hows='aaaw', run=dict(ref=False))
    for i in range(q(600, 4000)):
        L = i % 200
        ops, at = [('N', 0, 'T', 16, 'f')], 0
        for x in random_chunks(c.rng, L): ops.append(('A', 0, i % 3, at, at + x, 'a')); at += x
        behs.append(ops + [('O', 0, [64, 128, 256][i % 3], i % 3, at, at + c.rng.randrange(70))])
    grid = []
    for L in list(range(0, 131)):
        for k in range(q(4, 64)):
            grid.append([('N', 0, 'T', 16, 'f'), ('O', 0, [64, 128, 256][L % 3], 0, 0, L)] if k % 2 else [('N', 0, 'T', 16, 'f'), ('A', 0, 0, 0, L % 37, 'a'), ('A', 0, 0, L % 37, L % 37 + L, 'a'), ('Z', 0, 64)])
    # long appends and one-shots, alone and on top of pending bytes: whatever is done only to many packets at once
    long = list(range(131, q(420, 1100))) + [511, 512, 513, 544, 640, 767, 768, 1000, 1023, 1024, 1025, 1056, 2047, 2048, 2049, 4064, 4095, 4096, 4097, 8192, 8195, 16384, 16416, 32768, 32801, 65536, 65600, 131072, 131103, 200001, 261000]
    for L in long:
        for k in range(q(1, 4)):
            f = c.rng.randrange(1, 32)
            grid.append([[('N', 0, 'T', 16, 'f'), ('A', 0, 0, 0, L, 'a'), ('Z', 0, [64, 128, 256][L % 3])],
                         [('N', 0, 'T', 16, 'f'), ('A', 0, 0, 0, f, 'a'), ('A', 0, 0, f, f + L, 'a'), ('F', 0), ('Z', 0, 128)],
                         [('N', 0, 'T', 16, 'f'), ('O', 0, [64, 128, 256][L % 3], 0, 0, L)]][(L + k) % 3])
            if L % 32 == 0: grid += [[('N', 0, 'T', 16, 'f'), ('A', 0, 0, 0, L, 'a'), ('Z', 0, 64)], [('N', 0, 'T', 16, 'f'), ('A', 0, 0, 0, 7, 'a'), ('A', 0, 0, 7, L + 32, 'a'), ('Z', 0, 64)]]
    c.rng.shuffle(grid)
    exes = fut.result()
    placed(c, behs + grid, native, exes, 7, what='placements')
    placed(c, behs[:q(900, None)] + grid[:q(400, None)], [l for l in lanes if l not in native], exes, 5, what='placements, emulated')
    for lane in ['x64', 'x64dev', 'x64avx', 'arm', 'armdev']: objects_at_edges(c, lane, exes[lane])
    # the address sanitizer: slices of exactly their size on the heap, locals and objects between red zones
    for lane in [l for l in exes if 'asan' in l]:
        objects_at_edges(c, lane, exes[lane])
        placed(c, behs + grid, [lane], {lane: exes[lane]}, 1, what='address sanitizer')
    # every access
    for lane in ['x64', 'x64dev'] + q([], ['x64avx', 'x64sse', 'x64native']):
        n = q(500, 4000) if 'dev' not in lane else q(160, 1200)
        sub = c.rng.sample(behs, min(n, len(behs))) + c.rng.sample(grid, min(n // 3, len(grid)))
        rng = random.Random(SEED)
        # four behaviours, one of each type, make up one trace
        sub = [[retype(o, {'T': 'PDSA'[(i + j) % 4]}) for j, b in enumerate(sub[i:i + 4]) for o in placements(rng, b, [1, 2, 4][(i + j) % 3], i + j)] for i in range(0, len(sub), 4)]
        accesses(c, lane, exes[lane], sub)

# ---------------------------------------------------------------- byte order and word size
def C17(c):
    """The portable hasher on targets of either byte order and word size."""
    neutral = lambda **kw: hw.cfg(dict(dict(BASE=q('4', '5'), MaxOps=q('7', '9'), NativeLoad='FALSE', NativeTail='FALSE', NativeStore='FALSE', UsizeCount='FALSE', UsizeMul='FALSE'), **kw), spec='Spec', invs=['Same', 'SameCheckpoint'])
    c.model('four targets in lockstep', 'Neutral', neutral())
    for flag, inv in [('NativeLoad', 'Same'), ('NativeTail', 'Same'), ('NativeStore', 'SameCheckpoint'), ('UsizeCount', 'SameCheckpoint'), ('UsizeMul', 'Same')]:
        c.model('negative: ' + flag, 'Neutral', neutral(**{flag: 'TRUE'}), expect=inv)
    lanes = ['x64', 'i686', 'wasmnosimd', 'ppc', 's390x'] + q([], ['x64dev', 'i686dev', 'arm', 'ppc64', 'armeb', 'riscv32', 'armbe'])
    fut = c.pool.submit(hw.build_all, lanes, None, 8)
    import data
    small = S([n for n in data.RAW_COUNTS if n < 2**31])
    cover = gen_cover(c, ['N', 'd', 'A', 'H', 'F', 'K'], depth=4, Lens=S(LENS), MaxLen='300', RawCounts='{0}', Widths='{64,128,256}')
    raw = gen_cover(c, ['X', 'A', 'H', 'F'], depth=3, Lens=S([0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 64]), MaxLen='400', RawCounts=small)
    behs = behaviours(c, cover, q(3000, None), hows='aaw', run=dict(ckpt=True)) + [conv(c, i, raw=i % 12).run(h, ckpt=True) for i, h in enumerate(c.rng.sample(raw, min(len(raw), q(1000, 6000))))]
    behs += structured(c, q(3000, 20000)) + crafted(c, q(3000, 20000))
    for L in range(0, q(131, 300)):
        for w in (64, 128, 256):
            behs.append([('N', 0, 'T', KEYS[(L + w) % len(KEYS)], 'f'), ('O', 0, w, POOLS[L % len(POOLS)], 0, L)])
    for r in range(64 * q(4, 12)):
        behs.append([('X', 0, 'T', r, 'f'), ('F', 0), ('K', 0, 0), ('R', 1, 'T', 0, 'f'), ('K', 1, 1), ('A', 1, 0, 0, r % 41, 'a'), ('K', 1, 1), ('Z', 1, [64, 128, 256][r % 3]), ('Z', 0, 64)])
    for b in range(256):
        behs.append([('N', 0, 'T', 1000 + b, 'f'), ('A', 0, 0, 0, 33 + b % 31, 'a'), ('K', 0, 0), ('Z', 0, [64, 128, 256][b % 3])])
        behs.append([('N', 0, 'T', 16, 'f'), ('O', 0, [64, 128, 256][b % 3], 1000 + b, 0, 32 + b % 31)])
    for n in SIZES[:q(14, 22)]: behs.append([('N', 0, 'T', 16, 'f'), ('A', 0, 0, 0, n, 'a'), ('K', 0, 0), ('Z', 0, 256)])
    exes = fut.result()
    c.relational(grouped(behs, 8), [(l, {'T': 'P'}) for l in lanes], exes, merge=True, alike=True, concat=True, shared=True, ckpt=True, what='portable on every target')
    c.relational(grouped(many('nz', u='U'), 8, 'many'), [(l, {'T': 'P', 'U': 'P'}) for l in lanes], exes, merge=True, alike=True, concat=True, shared=True, ckpt=True, what='many calls')
    huge(c, exes, [(l, {'T': 'P'}) for l in ['x64', 'wasmnosimd'] + q([], ['i686', 'ppc', 's390x'])], merge=True, alike=True, shared=True, ckpt=True)
    half(c, exes, [(l, {'T': 'P'}) for l in ['x64', 'i686', 'wasmnosimd']], merge=True, alike=True, shared=True, ckpt=True)
    c.chains(make_chains(c, q(1500, 10000), [(l, 'P') for l in lanes]), exes, what='checkpoints between targets', concat=True, shared=True)

# ---------------------------------------------------------------- no unsafe code
def C16(c):
    """The portable path uses no unsafe code, whatever the configuration."""
    import facts
    src = facts.Source()
    fs = src.facts()
    for f in fs:
        if not f['roots']: raise ToolError('nothing of the portable path found: ' + f['name'])
    if not src.control()['bad']: raise ToolError('the scan does not see the unsafe code of the SIMD hashers')
    ctl = [src.control()]
    stats = {}
    def one(n): return n, facts.unsafe_facts(n, src)
    for n, (out, control, st) in c.pool.map(one, list(facts.CONFIGS)):
        fs += out; stats[n] = st
        if not control['roots'] or (n.startswith('x64') and n != 'x64native' and not control['bad']): raise ToolError('%s: the IR shows no unsafe code of the auto-selecting hasher' % n)
        if control['bad']: ctl.append(control)
    c.cov['configurations'] = stats
    c.count('source_items', len(src.items)); c.count('unsafe_occurrences_seen', len(src.unsafe))
    # the same module finds the unsafe code of the hashers that have some
    for x in ctl:
        if not c.reach([x], 'negative: ' + x['name']): raise ToolError('Reach misses the unsafe code of ' + x['name'])
    bad = c.reach(fs, 'unsafe code')
    if bad:
        name, path = bad
        c.violation('%s: the portable path gets to unsafe code: %s' % (name, ' -> '.join(path[-6:])), {'kind': 'unsafe', 'configuration': name, 'path': path})
    c.sample({'configuration': fs[0]['name'], 'roots': fs[0]['roots'], 'edges': {k: v for k, v in list(fs[0]['edges'].items())[:6]}})
    c.traces += len(fs)
    c.cov['traces_are'] = 'graphs extracted from the source (3) and from the compiled code (3 per configuration), explored completely'
    c.assume.append('unsafe code inside core, alloc and std is not counted')

# ---------------------------------------------------------------- selection
# every way to come by an auto-selecting hasher, and what is done to it before one looks
def selections(c, n):
    out = []
    ways = [lambda k: [('N', 0, 'D', k, 'n')], lambda k: [('N', 0, 'D', k, 'd')], lambda k: [('N', 0, 'D', k, 'D')], lambda k: [('N', 0, 'D', k, 'b')], lambda k: [('N', 0, 'D', k, 'o')],
            lambda k: [('b', 0, k, 'n'), ('Q', 0, 0)], lambda k: [('X', 0, 'D', k % 24, 'n')], lambda k: [('N', 5, 'P', k, 'n'), ('A', 5, 0, 0, k % 70, 'a'), ('K', 5, 0), ('R', 0, 'D', 0, 'n')]]
    for i in range(n):
        rng = c.rng
        k = KEYS[i % len(KEYS)] if i % 3 else rng.randrange(60)
        ops = list(ways[i % len(ways)](k)) + [('G', 0)]
        # then everything a hasher can go through
        for _ in range(rng.randrange(5)):
            x = rng.randrange(7)
            if x == 0: ops += [('A', 0, rng.choice(POOLS), 0, rng.choice(LENS), rng.choice('a' + HOWS)), ('G', 0)]
            elif x == 1: ops += [('C', 0, 1), ('G', 1), ('C', 1, 0), ('G', 0)]
            elif x == 2: ops += [('K', 0, 1), ('R', 1, 'D', 1, 'n'), ('G', 1), ('C', 1, 0), ('G', 0)]
            elif x == 3: ops += [('F', 0), ('G', 0)]
            elif x == 4: ops += [('N', 2, 'D', rng.choice(KEYS), 'n'), ('c', 0, 2), ('G', 2)]
            elif x == 5: ops += [('K', 0, 1), ('N', 3, 'P', 0, 'n'), ('R', 3, 'P', 1, 'n'), ('F', 3), ('F', 0)]
            else: ops += [('M', 0, 4), ('G', 4), ('C', 4, 0)]
        w = [64, 128, 256][(i // len(ways)) % 3]
        ops += [('K', 0, 2), ('Z', 0, w) if rng.random() < .7 else ('O', 0, w, rng.choice(POOLS), 3, 3 + rng.choice(LENS))]
        out.append(ops)
    return out

def C10(c):
    """The selected backend, in every build configuration and on every CPU."""
    import facts
    F = ['RestoreSse', 'RestoreDetects', 'BuilderPortable', 'CloneRetags', 'ExplicitUnchecked']
    disp = lambda **kw: hw.cfg(dict({f: 'FALSE' for f in F}, **kw), spec='Spec', invs=['OnlyPermitted', 'OneSelection', 'TagTells', 'Executable', 'SameResults', 'OnlyDetected'] + ([] if kw else ['Best']))
    c.model('selection over all configurations', 'Dispatch', disp())
    for f, inv in [('RestoreSse', 'OnlyPermitted'), ('RestoreDetects', 'OnlyPermitted'), ('BuilderPortable', 'OneSelection'), ('CloneRetags', 'OneSelection'), ('ExplicitUnchecked', 'OnlyDetected')]:
        c.model('negative: ' + f, 'Dispatch', disp(**{f: 'TRUE'}), expect=inv)
    base = ['x64' + a + b + d for a in ('', 'sse', 'avx', 'sseonly', 'avx1', 'v3', 'native') for b in ('', 'nostd') for d in ('', 'dev')]
    other = ['arm', 'armdev', 'armnostd', 'armnostddev', 'wasm', 'wasmdev', 'wasmnosimd', 'wasmnosimddev', 'i686', 'i686dev', 'i686nostd', 'i686nostddev', 'wasmnostd', 'wasmnosimdnostd']
    # CPUs that can run what the build assumes
    def cpus(l):
        if 'native' in l: return []
        if 'avx1' in l: return ['sandy', 'haswell']
        if 'avx' in l or 'v3' in l: return ['haswell']
        if 'sse' in l: return ['nehalem', 'noavx2', 'haswell'] + q([], ['penryn', 'sandy', 'g5'])
        return list(hw.CPUS)
    fut = c.pool.submit(hw.build_all, base + other, None, 8)
    # the static part: what the constructors can get to without std
    static = ['x64nostd', 'x64ssenostd', 'i686', 'i686nostd']
    irs = dict(zip(static, c.pool.map(lambda n: facts.parse(facts.probe(n)), static)))
    fs = []
    for n, g in irs.items():
        allowed = {'sse4.1', 'sse4.2', 'ssse3', 'sse3'} if 'sse' in n else set()
        bad = lambda x: bool(({'avx2', 'avx', 'sse4.1'} - allowed) & g.get(x, {}).get('feats', set()))
        f = facts.facts(n, g, r'hwp_(auto_(new|default|restore)|builder_(build|hashone)|(sse|avx)_(new|restore))$' if 'sse' not in n else r'hwp_(auto_(new|default|restore)|builder_build|(sse|avx)_(new|restore))$', bad, cut=lambda x: bool(facts.PANIC.search(x)))
        f['roots'] = [r for r in f['roots'] if r != 'hwp_builder_hashone']
        fs.append(f)
    ctl = facts.facts('control', irs['x64nostd'], r'hwp_avx_forcenew', lambda x: 'avx2' in irs['x64nostd'].get(x, {}).get('feats', ()))
    if not c.reach([ctl], 'negative: the AVX constructor itself'): raise ToolError('the IR does not tell AVX code')
    hit = c.reach(fs, 'constructors without std')
    if hit: c.violation('%s: a constructor gets to code for a feature this configuration does not permit: %s' % (hit[0], ' -> '.join(hit[1][-4:])), {'kind': 'selection', 'configuration': hit[0], 'path': hit[1]})
    exes = fut.result()
    sel = selections(c, q(1200, 6000))
    opt = []
    for ty in 'SA':
        for k in (16, 0, 1, 5): opt += [[('N', 0, ty, k, 'n')], [('X', 0, ty, k, 'n')], [('N', 1, 'P', k, 'n'), ('A', 1, 0, 0, 3 * k, 'a'), ('K', 1, 0), ('R', 0, ty, 0, 'n')]]
    lanes = base + other
    emul = ['%s@%s' % (l, u) for l in base if q(not l.endswith('dev'), True) for u in cpus(l)]
    some = q(240, 1200)
    run, traces, who = [], [], []
    def go(l):
        exe = exes[hw.LANES[l].base or l]
        cap = hw.caps(l, exe)
        mine = sel if '@' not in l else sel[:some]
        x86 = cap['arch'] == 'x86_64'
        behs = [('s%d' % i, o) for i, o in enumerate(mine)] + ([('o%d' % i, o) for i, o in enumerate(opt)] if x86 else [])
        res = hw.run_lane(l, exe, behs)
        # every way again as the first thing a process does: what was detected or cached by others is not there yet
        first = []
        if cap['std'] and not hw.LANES[l].wasm and not l.startswith('i686'):
            for b in [x for i, x in enumerate(behs) if i < 8 or x[0] in ('o0', 'o1', 'o2', 'o12', 'o13', 'o14')]:
                first.append((b[1], hw.run_lane(l, exe, [b])[b[0]]))
        return l, cap, mine, res, first
    for l, cap, mine, res, first in c.pool.map(go, lanes + emul):
        ev = []
        c.count('processes_of_one_behaviour', len(first))
        for ops, out in first:
            for j, o in enumerate(ops):
                v = hw.token(out, j)[0]
                if o[0] == 'G' and len(v) == 2: ev.append({'c': 'sel', 'tag': v[0], 'b': v[1]})
            if ops[-1][0] in 'NXR': ev.append({'c': 'opt', 'b': ops[-1][2], 'some': v != 'none' and v != '!'})
        for i, ops in enumerate(mine):
            for j, o in enumerate(ops):
                v = hw.token(res['s%d' % i], j)[0]
                if o[0] == 'G' and len(v) == 2: ev.append({'c': 'sel', 'tag': v[0], 'b': v[1]})
        if cap['arch'] == 'x86_64':
            for i, ops in enumerate(opt):
                v = hw.token(res['o%d' % i], len(ops) - 1)[0]
                # a process that ends in an explicit constructor has tried to build the hasher
                ev.append({'c': 'opt', 'b': ops[-1][2], 'some': v != 'none' and v != '!'})
        seen, short = set(), []
        for e in ev:
            k = json.dumps(e)
            if k not in seen: seen.add(k); short.append(e)
        c.count('selections_observed', len(ev))
        traces.append(dict(cap, id=l, ev=short))
    f = hw.fresh('.json')
    json.dump(traces, open(f, 'w'))
    r = hw.tlc('TraceDispatch', hw.cfg(spec='Spec', invs=['Accepted']), env={'TRACE': f})
    c.states += r.distinct; c.transitions += r.generated; c.traces += len(traces)
    c.cov['configurations'] = {t['id']: '%s std=%s ct=%s cpu=%s -> %s' % (t['arch'], t['std'], '+'.join(t['ct']), '+'.join(t['cpu']), ' '.join(e['tag'] + e['b'] for e in t['ev'] if e['c'] == 'sel')) for t in traces}
    log('selections: %d configurations' % len(traces))
    reason, idx = hw.verdict(r)
    if reason:
        t = traces[idx]
        c.violation('%s [%s: %s]' % (reason, t['id'], json.dumps({k: t[k] for k in ('arch', 'std', 'ct', 'cpu')})), {'kind': 'selection', 'lane': t['id'], 'trace': t})
    c.sample(traces[0])
    # and the results are those of the portable hasher, whatever was selected
    def cmp(lanes, behs, what):
        c.relational([('s%d' % i, [x if len(x) < 3 or x[2] != 'D' else (x[0], x[1], 'T') + tuple(x[3:]) for x in o if x[0] not in 'G']) for i, o in enumerate(behs) if not any(x[0] in 'bQ' for x in o)],
                     [(l, {'T': 'D'}) for l in lanes] + [(l, {'T': 'P', 'zero': 'new'}) for l in lanes], {l: exes[hw.LANES[l].base or l] for l in lanes}, merge=True, alike=True, concat=True, shared=True, what=what)
        # a builder has only hashers of its own: the portable one with the same key follows in the same trace
        def ref(o):
            o = [x for x in o if x[0] != 'G']
            port = [('N', 0, 'P', o[0][2], 'f')] + [x if len(x) < 3 or x[2] != 'D' else (x[0], x[1], 'P') + tuple(x[3:]) for x in o[2:]]
            return o + port
        c.relational([('q%d' % i, ref(o)) for i, o in enumerate(behs) if any(x[0] in 'bQ' for x in o)],
                     [(l, {}) for l in lanes], {l: exes[hw.LANES[l].base or l] for l in lanes}, merge=True, alike=True, concat=True, shared=True, what=what)
    cmp([l for l in lanes], sel, 'results')
    cmp(emul, sel[:some], 'results, other CPUs')
