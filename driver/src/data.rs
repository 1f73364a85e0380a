//! Deterministic inputs, named by small numbers; `tools/data.py` computes the same ones.
use alloc::collections::BTreeMap;
use alloc::vec::Vec;

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 16) % (n as u64)) as usize
    }
}

pub const POOL_LEN8: u32 = 100_000;

pub fn pool_byte(p: u32, i: usize) -> u8 {
    match p {
        0..=99 => (mix(((p as u64) << 40) ^ ((i as u64) >> 3)) >> (8 * (i as u64 & 7))) as u8,
        100 => 0,
        101 => 0xff,
        102 => 0x80,
        103 => i as u8,
        104 => b'a' + (i % 26) as u8,
        105 => 1,
        106 => 0x7f,
        107 => if i % 8 >= 4 { 0xff } else { 0 },
        108 => if i % 8 < 4 { 0xff } else { 0 },
        // near copies of pool 0: bit (p-1000)%8 of byte (p-1000)/8 flipped
        1000..=99_999 => {
            let j = (p - 1000) as usize;
            pool_byte(0, i) ^ if i == j / 8 { 1 << (j % 8) } else { 0 }
        }
        // length prefixes, as usize::to_ne_bytes
        _ => {
            let n = (p - POOL_LEN8) as usize;
            *n.to_ne_bytes().get(i).unwrap_or(&0)
        }
    }
}

/// Crafted inputs: key CRAFT+c and pool CRAFT+c belong together. Under that key every packet of the pool drives the
/// state's words to boundary values (all zeros, all ones, carries, signs). This arithmetic only chooses inputs.
pub const CRAFT: u32 = 0x4000_0000;
pub const CRAFT_LEN: usize = 2048;
pub fn special(r: &mut Rng) -> u64 {
    match r.below(16) {
        0 => 0,
        1 => u64::MAX,
        2 => 0xffff_ffff,
        3 => 0xffff_ffff_0000_0000,
        4 => 0x8000_0000,
        5 => 0x8000_0000_0000_0000,
        6 => 0x8000_0000_8000_0000,
        7 => 0x7fff_ffff_7fff_ffff,
        8 => 1 << r.below(64),
        9 => !(1 << r.below(64)),
        10 => u64::MAX << r.below(64),
        11 => u64::MAX >> r.below(64),
        12 => 0xff << (8 * r.below(8)),
        13 => 0x0101_0101_0101_0101 * r.below(256) as u64,
        14 => (r.next() >> 32) | if r.below(2) == 0 { 0xffff_ffff_0000_0000 } else { 0 },
        _ => r.next(),
    }
}
fn zipper(x: [u64; 4]) -> [u64; 4] {
    let mut out = [0u64; 4];
    for p in [0, 2] {
        let (l, h) = (x[p].to_le_bytes(), x[p + 1].to_le_bytes());
        out[p] = u64::from_le_bytes([l[3], h[4], l[2], l[5], h[6], l[1], h[7], l[0]]);
        out[p + 1] = u64::from_le_bytes([h[3], l[4], h[2], h[5], h[1], l[6], h[0], l[7]]);
    }
    out
}
fn unzipper(x: [u64; 4]) -> [u64; 4] {
    let mut out = [0u64; 4];
    for p in [0, 2] {
        let (a, b) = (x[p].to_le_bytes(), x[p + 1].to_le_bytes());
        out[p] = u64::from_le_bytes([a[7], a[5], a[2], a[0], b[1], a[3], b[5], b[7]]);
        out[p + 1] = u64::from_le_bytes([b[6], b[4], b[2], b[0], a[1], b[3], a[4], a[6]]);
    }
    out
}
const M0: [u64; 4] = [0xdbe6_d5d5_fe4c_ce2f, 0xa409_3822_299f_31d0, 0x1319_8a2e_0370_7344, 0x243f_6a88_85a3_08d3];
const M1: [u64; 4] = [0x3bd3_9e10_cb0e_f593, 0xc0ac_f169_b5f1_8a8c, 0xbe54_66cf_34e9_0c6c, 0x4528_21e6_38d0_1377];
pub struct Aim {
    v0: [u64; 4],
    v1: [u64; 4],
    m0: [u64; 4],
    m1: [u64; 4],
}
impl Aim {
    pub fn new(k: [u64; 4]) -> Aim {
        let mut a = Aim { v0: M0, v1: M1, m0: M0, m1: M1 };
        for i in 0..4 {
            a.v0[i] ^= k[i];
            a.v1[i] ^= k[i].rotate_left(32);
        }
        a
    }
    pub fn absorb(&mut self, p: [u64; 4]) {
        for i in 0..4 {
            self.v1[i] = self.v1[i].wrapping_add(self.m0[i]).wrapping_add(p[i]);
            self.m0[i] ^= (self.v1[i] & 0xffff_ffff).wrapping_mul(self.v0[i] >> 32);
            self.v0[i] = self.v0[i].wrapping_add(self.m1[i]);
            self.m1[i] ^= (self.v0[i] & 0xffff_ffff).wrapping_mul(self.v1[i] >> 32);
        }
        let z = zipper(self.v1);
        for i in 0..4 {
            self.v0[i] = self.v0[i].wrapping_add(z[i]);
        }
        let z = zipper(self.v0);
        for i in 0..4 {
            self.v1[i] = self.v1[i].wrapping_add(z[i]);
        }
    }
    /// The packet that makes v1 (mode 0) or v0 (mode 1) the target, or is the target itself (mode 2).
    pub fn packet(&self, mode: usize, t: [u64; 4]) -> [u64; 4] {
        let mut p = t;
        if mode == 1 {
            for i in 0..4 {
                p[i] = t[i].wrapping_sub(self.v0[i].wrapping_add(self.m1[i]));
            }
            p = unzipper(p);
        }
        if mode < 2 {
            for i in 0..4 {
                p[i] = p[i].wrapping_sub(self.v1[i]).wrapping_sub(self.m0[i]);
            }
        }
        p
    }
}
fn craft_key(c: u32) -> [u64; 4] {
    let mut r = Rng(((c as u64) << 24) ^ 0xc4a);
    let t = [special(&mut r), special(&mut r), special(&mut r), special(&mut r)];
    let mut k = t;
    match r.below(3) {
        0 => for i in 0..4 { k[i] = t[i] ^ M0[i] },
        1 => for i in 0..4 { k[i] = (t[i] ^ M1[i]).rotate_left(32) },
        _ => {}
    }
    k
}
fn craft_pool(c: u32) -> Vec<u8> {
    let mut a = Aim::new(craft_key(c));
    let mut r = Rng(((c as u64) << 24) ^ 0xda7a);
    let mut out = Vec::with_capacity(CRAFT_LEN);
    while out.len() < CRAFT_LEN {
        let mode = r.below(3);
        let same = r.below(3) == 0;
        let x = special(&mut r);
        let t = if same { [x; 4] } else { [x, special(&mut r), special(&mut r), special(&mut r)] };
        let p = a.packet(mode, t);
        a.absorb(p);
        for w in p {
            out.extend_from_slice(&w.to_le_bytes());
        }
    }
    out
}

#[derive(Default)]
pub struct Pools(BTreeMap<u32, Vec<u8>>);
impl Pools {
    pub fn ensure(&mut self, p: u32, end: usize) {
        if self.0.len() > 200 && p >= CRAFT && !self.0.contains_key(&p) {
            self.0.retain(|&k, _| k < CRAFT);
        }
        let v = self.0.entry(p).or_default();
        if p >= CRAFT {
            if v.is_empty() {
                *v = craft_pool(p - CRAFT);
            }
            while v.len() < end {
                v.extend_from_within(..CRAFT_LEN);
            }
        } else if p == 100 && v.len() < end && end > 1 << 20 {
            // untouched zero pages
            *v = alloc::vec![0u8; end];
        } else if v.len() < end {
            let from = v.len();
            v.reserve(end - from);
            for i in from..end {
                v.push(pool_byte(p, i));
            }
        }
    }
    pub fn get(&mut self, p: u32, a: usize, e: usize) -> &[u8] {
        self.ensure(p, e);
        &self.0[&p][a..e]
    }
}

/// Keys that have much in common with key 16 + i / 64: what a careless summary of a key would take for the same.
pub const KIN: u32 = 200_000;
fn kin_key(i: u32) -> [u64; 4] {
    let (b, v) = (key(16 + i / 64), (i % 64) as usize);
    let d = mix(0x6b1_0000 + i as u64);
    const PAIRS: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
    let mut k = b;
    match v {
        // permutations of the words
        0..=23 => {
            let mut left = [0usize, 1, 2, 3];
            let mut c = v;
            for (j, f) in [6, 2, 1, 1].into_iter().enumerate() {
                let n = c / f;
                c %= f;
                k[j] = b[left[n]];
                left.copy_within(n + 1.., n);
            }
        }
        // the same exclusive or
        24..=29 => {
            let (x, y) = PAIRS[v - 24];
            k[x] ^= d;
            k[y] ^= d;
        }
        // the same sum
        30..=35 => {
            let (x, y) = PAIRS[v - 30];
            k[x] = k[x].wrapping_add(d);
            k[y] = k[y].wrapping_sub(d);
        }
        // one word in common
        36..=39 => {
            for j in 0..4 {
                if j != v - 36 {
                    k[j] = mix(d + j as u64);
                }
            }
        }
        // one word different
        40..=43 => k[v - 40] = d,
        // the same low or high halves
        44 => k = [0, 1, 2, 3].map(|j| b[j] ^ (d << 32)),
        45 => k = [0, 1, 2, 3].map(|j| b[j] ^ (d >> 32)),
        46 => k = b.map(|x| x.rotate_left(32)),
        47 => k = b.map(u64::swap_bytes),
        48 => k = b.map(|x| !x),
        49 => k = [b[0], !b[1], b[2], !b[3]],
        50 => k = [b[0] & 0xffff_ffff, b[1] & 0xffff_ffff, b[2] & 0xffff_ffff, b[3] & 0xffff_ffff],
        51 => k = [b[0], b[0], b[0], b[0]],
        52 => k = [b[0], b[0], b[1], b[1]],
        // words swapped in all but a little
        53 => k = [b[1], b[0] ^ 1, b[3], b[2] ^ (1 << 63)],
        54 => k = [b[0] ^ 1, b[1] ^ 1, b[2] ^ 1, b[3] ^ 1],
        55 => k = [b[0] ^ 1 << 63, b[1] ^ 1 << 63, b[2] ^ 1 << 63, b[3] ^ 1 << 63],
        _ => k[v % 4] ^= 0xff << (8 * (v - 56)),
    }
    k
}

pub fn key(i: u32) -> [u64; 4] {
    match i {
        0 => [0; 4],
        1 => [u64::MAX; 4],
        2 => [0x0706050403020100, 0x0F0E0D0C0B0A0908, 0x1716151413121110, 0x1F1E1D1C1B1A1918],
        3 => [1, 2, 3, 4],
        4 => [0x8000_0000_0000_0000; 4],
        5 => [0xffff_ffff_0000_0000; 4],
        6 => [0x0000_0000_ffff_ffff; 4],
        // v0 == 0 after the key schedule
        7 => [0xdbe6_d5d5_fe4c_ce2f, 0xa409_3822_299f_31d0, 0x1319_8a2e_0370_7344, 0x243f_6a88_85a3_08d3],
        // v1 == 0 after the key schedule
        8 => [0xcb0e_f593_3bd3_9e10, 0xb5f1_8a8c_c0ac_f169, 0x34e9_0c6c_be54_66cf, 0x38d0_1377_4528_21e6],
        9 => [1, 0, 0, 0],
        10 => [0, 1, 0, 0],
        11 => [0, 0, 1, 0],
        12 => [0, 0, 0, 1],
        13 => [0x8080_8080_8080_8080; 4],
        14 => [0x7fff_ffff_7fff_ffff; 4],
        15 => [0x8000_0000_8000_0000; 4],
        16..=999 => {
            let b = (i as u64) << 32;
            [mix(b), mix(b + 1), mix(b + 2), mix(b + 3)]
        }
        CRAFT.. => craft_key(i - CRAFT),
        KIN..=399_999 => kin_key(i - KIN),
        _ => {
            let j = i - 1000;
            let mut k = key(16 + j / 256);
            k[(j % 256 / 64) as usize] ^= 1u64 << (j % 64);
            k
        }
    }
}

/// Pending counts of the raw checkpoints: raw(r) has RAW_COUNTS[r % NCOUNTS].
pub const RAW_COUNTS: [u32; 64] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,
    26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 47, 48, 63, 64, 65, 127, 128, 255, 256, 257, 260, 288,
    0x0000_ffff, 0x0001_0000, 0x0001_0005, 0x0500_0000, 0x1f00_0000, 0x2000_0000, 0x0010_0011,
    0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x8000_0020, 0xffff_ffe0, 0xffff_ffe1, 0xffff_fff0,
    0xffff_fffe, 0xffff_ffff,
];

pub fn raw(r: u32) -> [u8; 164] {
    let n = RAW_COUNTS.len() as u32;
    let variant = r / n;
    let mut out = [0u8; 164];
    if variant >= 100 {
        let mut rng = Rng(((r as u64) << 24) ^ 0x4a3);
        for i in 0..20 {
            out[8 * i..8 * i + 8].copy_from_slice(&special(&mut rng).to_le_bytes());
        }
        // half of them: the first round of finalisation starts from boundary values
        if variant % 2 == 1 {
            let w = |o: &[u8; 164], i: usize| u64::from_le_bytes(o[8 * i..8 * i + 8].try_into().unwrap());
            for i in 0..4 {
                let x = special(&mut rng).wrapping_sub(w(&out, 8 + i)).wrapping_sub(w(&out, (i + 2) % 4).rotate_left(32));
                out[32 + 8 * i..40 + 8 * i].copy_from_slice(&x.to_le_bytes());
            }
        }
        out[160..].copy_from_slice(&RAW_COUNTS[(r % n) as usize].to_le_bytes());
        return out;
    }
    for (i, o) in out.iter_mut().enumerate() {
        *o = match variant {
            0 => 0,
            1 => 0xff,
            _ => (mix(((r as u64) << 33) ^ (1 << 63) ^ (i as u64 >> 3)) >> (8 * (i & 7))) as u8,
        };
    }
    out[160..].copy_from_slice(&RAW_COUNTS[(r % n) as usize].to_le_bytes());
    out
}
