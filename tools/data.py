"""The same deterministic inputs as driver/src/data.rs."""
M = (1 << 64) - 1

def mix(x):
    z = (x + 0x9E3779B97F4A7C15) & M
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
    return z ^ (z >> 31)

POOL_LEN8 = 100000

def pool_byte(p, i):
    if p <= 99:
        return (mix((p << 40) ^ (i >> 3)) >> (8 * (i & 7))) & 255
    if p == 100: return 0
    if p == 101: return 255
    if p == 102: return 0x80
    if p == 103: return i & 255
    if p == 104: return 97 + i % 26
    if p == 105: return 1
    if p == 106: return 0x7f
    if p == 107: return 255 if i % 8 >= 4 else 0
    if p == 108: return 255 if i % 8 < 4 else 0
    if 1000 <= p <= 99999:
        j = p - 1000
        return pool_byte(0, i) ^ ((1 << (j % 8)) if i == j // 8 else 0)
    return ((p - POOL_LEN8) >> (8 * i)) & 255 if i < 8 else 0

CRAFT, CRAFT_LEN = 0x40000000, 2048
class Rng:
    def __init__(self, s): self.s = s & M
    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & M
        return mix(self.s)
    def below(self, n): return (self.next() >> 16) % n
def special(r):
    c = r.below(16)
    if c < 8: return [0, M, 0xffffffff, 0xffffffff00000000, 0x80000000, 1 << 63, 0x8000000080000000, 0x7fffffff7fffffff][c]
    if c == 8: return 1 << r.below(64)
    if c == 9: return M ^ (1 << r.below(64))
    if c == 10: return (M << r.below(64)) & M
    if c == 11: return M >> r.below(64)
    if c == 12: return 0xff << (8 * r.below(8))
    if c == 13: return 0x0101010101010101 * r.below(256)
    if c == 14:
        x = r.next() >> 32
        return x | (0xffffffff00000000 if r.below(2) == 0 else 0)
    return r.next()
def le(x): return x.to_bytes(8, 'little')
def word(b): return int.from_bytes(bytes(b), 'little')
def rot(x): return ((x << 32) | (x >> 32)) & M
def zipper(x):
    out = [0] * 4
    for p in (0, 2):
        l, h = le(x[p]), le(x[p + 1])
        out[p] = word([l[3], h[4], l[2], l[5], h[6], l[1], h[7], l[0]])
        out[p + 1] = word([h[3], l[4], h[2], h[5], h[1], l[6], h[0], l[7]])
    return out
def unzipper(x):
    out = [0] * 4
    for p in (0, 2):
        a, b = le(x[p]), le(x[p + 1])
        out[p] = word([a[7], a[5], a[2], a[0], b[1], a[3], b[5], b[7]])
        out[p + 1] = word([b[6], b[4], b[2], b[0], a[1], b[3], a[4], a[6]])
    return out
M0 = [0xdbe6d5d5fe4cce2f, 0xa4093822299f31d0, 0x13198a2e03707344, 0x243f6a8885a308d3]
M1 = [0x3bd39e10cb0ef593, 0xc0acf169b5f18a8c, 0xbe5466cf34e90c6c, 0x452821e638d01377]
def craft_key(c):
    r = Rng((c << 24) ^ 0xc4a)
    t = [special(r) for _ in range(4)]
    m = r.below(3)
    if m == 0: return [a ^ b for a, b in zip(t, M0)]
    if m == 1: return [rot(a ^ b) for a, b in zip(t, M1)]
    return t
def craft_pool(c):
    k = craft_key(c)
    v0, v1, m0, m1 = [a ^ b for a, b in zip(k, M0)], [rot(a) ^ b for a, b in zip(k, M1)], list(M0), list(M1)
    r, out = Rng((c << 24) ^ 0xda7a), bytearray()
    while len(out) < CRAFT_LEN:
        mode, same, x = r.below(3), r.below(3) == 0, 0
        x = special(r)
        p = [x] * 4 if same else [x] + [special(r) for _ in range(3)]
        if mode == 1: p = unzipper([(p[i] - v0[i] - m1[i]) & M for i in range(4)])
        if mode < 2: p = [(p[i] - v1[i] - m0[i]) & M for i in range(4)]
        for i in range(4):
            v1[i] = (v1[i] + m0[i] + p[i]) & M
            m0[i] ^= (v1[i] & 0xffffffff) * (v0[i] >> 32)
            v0[i] = (v0[i] + m1[i]) & M
            m1[i] ^= (v0[i] & 0xffffffff) * (v1[i] >> 32)
        v0 = [(a + b) & M for a, b in zip(v0, zipper(v1))]
        v1 = [(a + b) & M for a, b in zip(v1, zipper(v0))]
        for w in p: out += le(w)
    return out

_pools = {}
def pool(p, a, e):
    if p >= CRAFT and p not in _pools: _pools[p] = craft_pool(p - CRAFT)
    while p >= CRAFT and len(_pools[p]) < e: _pools[p] += _pools[p][:CRAFT_LEN]
    v = _pools.setdefault(p, bytearray())
    while len(v) < e:
        v.append(pool_byte(p, len(v)))
    return bytes(v[a:e])

R8 = lambda x: [x] * 4
_KEYS = {0: R8(0), 1: R8(M), 2: [0x0706050403020100, 0x0F0E0D0C0B0A0908, 0x1716151413121110, 0x1F1E1D1C1B1A1918],
         3: [1, 2, 3, 4], 4: R8(1 << 63), 5: R8(0xffffffff00000000), 6: R8(0xffffffff),
         7: [0xdbe6d5d5fe4cce2f, 0xa4093822299f31d0, 0x13198a2e03707344, 0x243f6a8885a308d3],
         8: [0xcb0ef5933bd39e10, 0xb5f18a8cc0acf169, 0x34e90c6cbe5466cf, 0x38d01377452821e6],
         9: [1, 0, 0, 0], 10: [0, 1, 0, 0], 11: [0, 0, 1, 0], 12: [0, 0, 0, 1],
         13: R8(0x8080808080808080), 14: R8(0x7fffffff7fffffff), 15: R8(0x8000000080000000)}

PAIRS = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
def kin_key(i):
    b, v = key(16 + i // 64), i % 64
    d = mix(0x6b10000 + i)
    k = list(b)
    if v < 24:
        left, c = [0, 1, 2, 3], v
        for j, f in enumerate([6, 2, 1, 1]):
            k[j] = b[left.pop(c // f)]; c %= f
    elif v < 30:
        for x in PAIRS[v - 24]: k[x] ^= d
    elif v < 36:
        x, y = PAIRS[v - 30]
        k[x] = (k[x] + d) & M; k[y] = (k[y] - d) & M
    elif v < 40: k = [b[j] if j == v - 36 else mix((d + j) & M) for j in range(4)]
    elif v < 44: k[v - 40] = d
    elif v == 44: k = [x ^ (d << 32 & M) for x in b]
    elif v == 45: k = [x ^ (d >> 32) for x in b]
    elif v == 46: k = [rot(x) for x in b]
    elif v == 47: k = [int.from_bytes(le(x), 'big') for x in b]
    elif v == 48: k = [x ^ M for x in b]
    elif v == 49: k = [b[0], b[1] ^ M, b[2], b[3] ^ M]
    elif v == 50: k = [x & 0xffffffff for x in b]
    elif v == 51: k = [b[0]] * 4
    elif v == 52: k = [b[0], b[0], b[1], b[1]]
    elif v == 53: k = [b[1], b[0] ^ 1, b[3], b[2] ^ (1 << 63)]
    elif v == 54: k = [x ^ 1 for x in b]
    elif v == 55: k = [x ^ (1 << 63) for x in b]
    else: k[v % 4] ^= 0xff << (8 * (v - 56))
    return k

def key(i):
    if i in _KEYS: return list(_KEYS[i])
    if i >= CRAFT: return craft_key(i - CRAFT)
    if 200000 <= i < 400000: return kin_key(i - 200000)
    if i < 1000:
        b = i << 32
        return [mix(b), mix(b + 1), mix(b + 2), mix(b + 3)]
    j = i - 1000
    k = key(16 + j // 256)
    k[j % 256 // 64] ^= 1 << (j % 64)
    return k

RAW_COUNTS = list(range(36)) + [47, 48, 63, 64, 65, 127, 128, 255, 256, 257, 260, 288, 0xffff, 0x10000, 0x10005,
    0x05000000, 0x1f000000, 0x20000000, 0x00100011, 0x7fffffff, 0x80000000, 0x80000001, 0x80000020, 0xffffffe0,
    0xffffffe1, 0xfffffff0, 0xfffffffe, 0xffffffff]
assert len(RAW_COUNTS) == 64

def raw(r):
    v = r // 64
    if v >= 100:
        g = Rng((r << 24) ^ 0x4a3)
        ws = [special(g) for _ in range(20)]
        if v % 2 == 1:
            for i in range(4): ws[4 + i] = (special(g) - ws[8 + i] - rot(ws[(i + 2) % 4])) & M
        return b''.join(map(le, ws)) + RAW_COUNTS[r % 64].to_bytes(4, 'little')
    if v == 0: out = bytearray(164)
    elif v == 1: out = bytearray(b'\xff' * 164)
    else: out = bytearray((mix((r << 33) ^ (1 << 63) ^ (i >> 3)) >> (8 * (i & 7))) & 255 for i in range(164))
    out[160:164] = RAW_COUNTS[r % 64].to_bytes(4, 'little')
    return bytes(out)

def lanes(ws):
    return [list(w.to_bytes(8, 'little')) for w in ws]
