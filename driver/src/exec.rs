//! Scripts (behaviours of the specification) executed on the real hashers.
use crate::data::{self, Pools};
use alloc::string::String;
use alloc::vec::Vec;
use core::fmt::Write as _;
use core::hash::{BuildHasher, Hash, Hasher};
use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, Key, PortableHash};

#[cfg(target_arch = "aarch64")]
use highway::NeonHash;
#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
use highway::WasmHash;
#[cfg(target_arch = "x86_64")]
use highway::{AvxHash, SseHash};

/// NeonHash does not implement the standard traits; for the driver it gets the obvious ones.
#[cfg(target_arch = "aarch64")]
#[derive(Clone, Debug)]
pub struct Neon(pub NeonHash);
#[cfg(target_arch = "aarch64")]
impl Default for Neon {
    fn default() -> Self {
        Neon(NeonHash::default())
    }
}
#[cfg(target_arch = "aarch64")]
impl HighwayHash for Neon {
    fn hash64(self, d: &[u8]) -> u64 { self.0.hash64(d) }
    fn hash128(self, d: &[u8]) -> [u64; 2] { self.0.hash128(d) }
    fn hash256(self, d: &[u8]) -> [u64; 4] { self.0.hash256(d) }
    fn append(&mut self, d: &[u8]) { HighwayHash::append(&mut self.0, d) }
    fn finalize64(self) -> u64 { HighwayHash::finalize64(self.0) }
    fn finalize128(self) -> [u64; 2] { HighwayHash::finalize128(self.0) }
    fn finalize256(self) -> [u64; 4] { HighwayHash::finalize256(self.0) }
    fn checkpoint(&self) -> [u8; 164] { HighwayHash::checkpoint(&self.0) }
}
#[cfg(target_arch = "aarch64")]
impl Hasher for Neon {
    fn write(&mut self, d: &[u8]) { HighwayHash::append(&mut self.0, d) }
    fn finish(&self) -> u64 { HighwayHash::finalize64(self.0.clone()) }
}
#[cfg(all(target_arch = "aarch64", feature = "hw_std"))]
impl std::io::Write for Neon {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> { HighwayHash::append(&mut self.0, d); Ok(d.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// What the surroundings provide: panic containment, allocation counts, memory placement.
pub trait Plat {
    /// Runs f; Err means it panicked. Ok carries the heap allocations f made.
    fn run(&mut self, f: &mut dyn FnMut()) -> Result<u64, ()>;
    /// Copies the bytes to a place of the requested kind and returns it.
    fn place<'a>(&'a mut self, bytes: &'a [u8], _kind: u8, _off: usize) -> &'a [u8] {
        bytes
    }
}

/// No containment at all.
pub struct Bare;
impl Plat for Bare {
    fn run(&mut self, f: &mut dyn FnMut()) -> Result<u64, ()> {
        f();
        Ok(0)
    }
}

#[allow(clippy::large_enum_variant)]
pub enum H {
    P(PortableHash),
    D(HighwayHasher),
    #[cfg(target_arch = "x86_64")]
    S(SseHash),
    #[cfg(target_arch = "x86_64")]
    A(AvxHash),
    #[cfg(target_arch = "aarch64")]
    N(Neon),
    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
    W(WasmHash),
}

macro_rules! each {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            H::P($x) => $e,
            H::D($x) => $e,
            #[cfg(target_arch = "x86_64")]
            H::S($x) => $e,
            #[cfg(target_arch = "x86_64")]
            H::A($x) => $e,
            #[cfg(target_arch = "aarch64")]
            H::N($x) => $e,
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            H::W($x) => $e,
        }
    };
}
macro_rules! each_map {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            H::P($x) => H::P($e),
            H::D($x) => H::D($e),
            #[cfg(target_arch = "x86_64")]
            H::S($x) => H::S($e),
            #[cfg(target_arch = "x86_64")]
            H::A($x) => H::A($e),
            #[cfg(target_arch = "aarch64")]
            H::N($x) => H::N($e),
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            H::W($x) => H::W($e),
        }
    };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op {
    pub code: u8,
    pub s: usize,
    pub t: usize,
    pub ty: u8,
    pub how: u8,
    pub p: u32,
    pub a: usize,
    pub e: usize,
    /// placement kind and offset
    pub pk: u8,
    pub po: usize,
    /// a checkpoint given literally
    pub lit: Option<&'static [u8; 164]>,
}

impl Op {
    pub const NONE: Op = Op { code: 0, s: 0, t: 0, ty: 0, how: 0, p: 0, a: 0, e: 0, pk: 0, po: 0, lit: None };

    /// One operation per line; see `show` for the forms.
    pub fn parse(line: &str) -> Option<Op> {
        let mut o = Op::NONE;
        let mut it = line.split_ascii_whitespace();
        o.code = it.next()?.as_bytes()[0];
        fn num<'a>(it: &mut impl Iterator<Item = &'a str>) -> Option<usize> {
            it.next()?.parse().ok()
        }
        fn chr<'a>(it: &mut impl Iterator<Item = &'a str>) -> Option<u8> {
            Some(it.next()?.as_bytes()[0])
        }
        match o.code {
            b'N' => { o.s = num(&mut it)?; o.ty = chr(&mut it)?; o.p = num(&mut it)? as u32; o.how = chr(&mut it)?; }
            b'b' => { o.t = num(&mut it)?; o.p = num(&mut it)? as u32; o.how = chr(&mut it)?; }
            b'Q' => { o.s = num(&mut it)?; o.t = num(&mut it)?; }
            b'A' => {
                o.s = num(&mut it)?;
                o.p = num(&mut it)? as u32;
                let (a, e): (u64, u64) = (it.next()?.parse().ok()?, it.next()?.parse().ok()?);
                // a pool of nothing but zeros is the same everywhere
                let (a, e) = if o.p == 100 && e >= 1 << 30 { (0, e - a) } else { (a, e) };
                (o.a, o.e) = (a as usize, e as usize);
                o.how = chr(&mut it)?;
            }
            b'j' => { o.s = num(&mut it)?; o.p = num(&mut it)? as u32; o.a = num(&mut it)?; o.e = num(&mut it)?; }
            b'J' => { o.t = num(&mut it)?; o.p = num(&mut it)? as u32; o.a = num(&mut it)?; o.e = num(&mut it)?; }
            b'F' | b'G' | b'D' => { o.s = num(&mut it)?; }
            b'T' => { o.t = num(&mut it)?; o.a = num(&mut it)?; }
            b't' => { o.s = num(&mut it)?; o.a = num(&mut it)?; }
            b'f' => { o.s = num(&mut it)?; o.t = num(&mut it)?; }
            b'Z' => { o.s = num(&mut it)?; o.t = num(&mut it)?; }
            b'O' => { o.s = num(&mut it)?; o.t = num(&mut it)?; o.p = num(&mut it)? as u32; o.a = num(&mut it)?; o.e = num(&mut it)?; }
            b'C' | b'c' | b'M' | b'K' => { o.s = num(&mut it)?; o.t = num(&mut it)?; }
            b'R' | b'X' => { o.s = num(&mut it)?; o.ty = chr(&mut it)?; o.t = num(&mut it)?; o.how = chr(&mut it)?; }
            b'Y' => {
                o.s = num(&mut it)?;
                o.ty = chr(&mut it)?;
                let h = it.next()?.as_bytes();
                let mut c = [0u8; 164];
                for (i, x) in c.iter_mut().enumerate() {
                    let d = |b: u8| (b as char).to_digit(16).map(|x| x as u8);
                    *x = d(*h.get(2 * i)?)? << 4 | d(*h.get(2 * i + 1)?)?;
                }
                o.lit = Some(alloc::boxed::Box::leak(alloc::boxed::Box::new(c)));
                o.how = chr(&mut it)?;
            }
            _ => return None,
        }
        if let Some(pl) = it.next() {
            let b = pl.as_bytes();
            if b[0] == b'@' && b.len() >= 2 {
                o.pk = b[1];
                o.po = pl[2..].parse().unwrap_or(0);
            }
        }
        Some(o)
    }

    pub fn show(&self, w: &mut String) {
        let c = self.code as char;
        let how = self.how as char;
        let ty = self.ty as char;
        let _ = match self.code {
            b'N' => write!(w, "{c} {} {ty} {} {how}", self.s, self.p),
            b'b' => write!(w, "{c} {} {} {how}", self.t, self.p),
            b'Q' => write!(w, "{c} {} {}", self.s, self.t),
            b'A' => write!(w, "{c} {} {} {} {} {how}", self.s, self.p, self.a, self.e),
            b'j' => write!(w, "{c} {} {} {} {}", self.s, self.p, self.a, self.e),
            b'J' => write!(w, "{c} {} {} {} {}", self.t, self.p, self.a, self.e),
            b'F' | b'G' | b'D' => write!(w, "{c} {}", self.s),
            b'T' => write!(w, "{c} {} {}", self.t, self.a),
            b't' => write!(w, "{c} {} {}", self.s, self.a),
            b'Z' => write!(w, "{c} {} {}", self.s, self.t),
            b'O' => write!(w, "{c} {} {} {} {} {}", self.s, self.t, self.p, self.a, self.e),
            b'C' | b'c' | b'M' | b'K' | b'f' => write!(w, "{c} {} {}", self.s, self.t),
            b'R' | b'X' => write!(w, "{c} {} {ty} {} {how}", self.s, self.t),
            _ => Ok(()),
        };
        if self.pk != 0 {
            let _ = write!(w, " @{}{}", self.pk as char, self.po);
        }
    }
}

/// What an operation returned.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Obs {
    None,
    Ok,
    /// a constructor refused
    Refused,
    /// operation on an empty slot: not executed
    Skip,
    Panic,
    Err,
    Count(usize),
    Hash([u64; 4], u8),
    Check([u8; 164]),
    /// tag digit, backend initial, and whether the text looked as documented
    Debug(u8, u8),
}

impl Obs {
    pub fn show(&self, w: &mut String) {
        let _ = match self {
            Obs::None => write!(w, "."),
            Obs::Ok => write!(w, "ok"),
            Obs::Refused => write!(w, "none"),
            Obs::Skip => write!(w, "-"),
            Obs::Panic => write!(w, "!"),
            Obs::Err => write!(w, "err"),
            Obs::Count(n) => write!(w, "n{n}"),
            Obs::Hash(h, n) => {
                for x in &h[..*n as usize] {
                    let _ = write!(w, "{x:016x}");
                }
                Ok(())
            }
            Obs::Check(c) => {
                for x in c {
                    let _ = write!(w, "{x:02x}");
                }
                Ok(())
            }
            Obs::Debug(t, n) => write!(w, "{}{}", *t as char, *n as char),
        };
    }
}

/// A fixed-size text sink: Debug formatting goes here without allocating.
pub struct Sink {
    pub buf: [u8; 4096],
    pub n: usize,
}
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let b = s.as_bytes();
        let k = b.len().min(self.buf.len() - self.n);
        self.buf[self.n..self.n + k].copy_from_slice(&b[..k]);
        self.n += k;
        Ok(())
    }
}
/// A sink that fails once so many bytes were written.
pub struct Narrow(pub usize);
impl core::fmt::Write for Narrow {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if s.len() > self.0 { return Err(core::fmt::Error); }
        self.0 -= s.len();
        Ok(())
    }
}
fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}
/// (tag digit, backend letter) out of a Debug text; '?' where it says nothing recognisable.
pub fn parse_debug(text: &[u8]) -> (u8, u8) {
    let tag = find(text, b"tag: ").and_then(|i| text.get(i + 5)).copied().unwrap_or(b'?');
    let mut best: (usize, u8) = (usize::MAX, b'?');
    let names: [(&[u8], u8); 5] = [
        (b"PortableHash", b'P'), (b"SseHash", b'S'), (b"AvxHash", b'A'), (b"NeonHash", b'N'), (b"WasmHash", b'W'),
    ];
    for (n, c) in names {
        if let Some(i) = find(text, n) {
            if i < best.0 {
                best = (i, c);
            }
        }
    }
    (tag, best.1)
}

pub fn make(ty: u8, k: Key, how: u8) -> Option<H> {
    Some(match ty {
        b'P' => H::P(match how {
            b'd' => PortableHash::default(),
            b'D' => core::hash::BuildHasherDefault::<PortableHash>::default().build_hasher(),
            _ => PortableHash::new(k),
        }),
        b'D' => H::D(match how {
            b'd' => HighwayHasher::default(),
            b'D' => core::hash::BuildHasherDefault::<HighwayHasher>::default().build_hasher(),
            b'b' => HighwayBuildHasher::new(k).build_hasher(),
            b'o' => HighwayBuildHasher::default().build_hasher(),
            _ => HighwayHasher::new(k),
        }),
        #[cfg(target_arch = "x86_64")]
        b'S' => H::S(match how {
            b'd' => SseHash::default(),
            b'D' => core::hash::BuildHasherDefault::<SseHash>::default().build_hasher(),
            b'f' => unsafe { SseHash::force_new(k) },
            _ => SseHash::new(k)?,
        }),
        #[cfg(target_arch = "x86_64")]
        b'A' => H::A(match how {
            b'd' => AvxHash::default(),
            b'D' => core::hash::BuildHasherDefault::<AvxHash>::default().build_hasher(),
            b'f' => unsafe { AvxHash::force_new(k) },
            _ => AvxHash::new(k)?,
        }),
        #[cfg(target_arch = "aarch64")]
        b'N' => H::N(match how {
            b'd' => Neon::default(),
            b'D' => core::hash::BuildHasherDefault::<Neon>::default().build_hasher(),
            _ => Neon(unsafe { NeonHash::force_new(k) }),
        }),
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        b'W' => H::W(match how {
            b'd' => WasmHash::default(),
            b'D' => core::hash::BuildHasherDefault::<WasmHash>::default().build_hasher(),
            _ => WasmHash::new(k),
        }),
        _ => return None,
    })
}

pub fn restore(ty: u8, c: [u8; 164], how: u8) -> Option<H> {
    let _ = how;
    Some(match ty {
        b'P' => H::P(PortableHash::from_checkpoint(c)),
        b'D' => H::D(HighwayHasher::from_checkpoint(c)),
        #[cfg(target_arch = "x86_64")]
        b'S' => H::S(if how == b'f' { unsafe { SseHash::force_from_checkpoint(c) } } else { SseHash::from_checkpoint(c)? }),
        #[cfg(target_arch = "x86_64")]
        b'A' => H::A(if how == b'f' { unsafe { AvxHash::force_from_checkpoint(c) } } else { AvxHash::from_checkpoint(c)? }),
        #[cfg(target_arch = "aarch64")]
        b'N' => H::N(Neon(unsafe { NeonHash::force_from_checkpoint(c) })),
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        b'W' => H::W(WasmHash::from_checkpoint(c)),
        _ => return None,
    })
}

/// Which types this build can construct at all (regardless of the CPU).
pub fn types() -> &'static str {
    if cfg!(target_arch = "x86_64") {
        "PDSA"
    } else if cfg!(target_arch = "aarch64") {
        "PDN"
    } else if cfg!(all(target_family = "wasm", target_feature = "simd128")) {
        "PDW"
    } else {
        "PD"
    }
}

fn append<T: HighwayHash + Hasher + WriteIfStd>(h: &mut T, d: &[u8], how: u8) -> Obs {
    match how {
        b'a' => { HighwayHash::append(h, d); Obs::Ok }
        b'w' => { Hasher::write(h, d); Obs::Ok }
        b'1' => { for &x in d { Hasher::write_u8(h, x); } Obs::Ok }
        b'2' => { let mut c = d.chunks_exact(2); for x in &mut c { h.write_u16(u16::from_ne_bytes(x.try_into().unwrap())); } Hasher::write(h, c.remainder()); Obs::Ok }
        b'4' => { let mut c = d.chunks_exact(4); for x in &mut c { h.write_i32(i32::from_ne_bytes(x.try_into().unwrap())); } Hasher::write(h, c.remainder()); Obs::Ok }
        b'8' => { let mut c = d.chunks_exact(8); for x in &mut c { h.write_u64(u64::from_ne_bytes(x.try_into().unwrap())); } Hasher::write(h, c.remainder()); Obs::Ok }
        b'6' => { let mut c = d.chunks_exact(16); for x in &mut c { h.write_u128(u128::from_ne_bytes(x.try_into().unwrap())); } Hasher::write(h, c.remainder()); Obs::Ok }
        b's' => {
            const N: usize = core::mem::size_of::<usize>();
            let mut c = d.chunks_exact(N);
            for x in &mut c { h.write_usize(usize::from_ne_bytes(x.try_into().unwrap())); }
            Hasher::write(h, c.remainder());
            Obs::Ok
        }
        // every typed write in turn
        b'm' => {
            let (mut d, mut i) = (d, 0);
            macro_rules! put { ($f:ident, $t:ty) => {{
                const N: usize = core::mem::size_of::<$t>();
                if d.len() >= N { h.$f(<$t>::from_ne_bytes(d[..N].try_into().unwrap())); d = &d[N..]; }
            }} }
            while !d.is_empty() {
                match i % 12 {
                    0 => put!(write_u8, u8), 1 => put!(write_i16, i16), 2 => put!(write_u32, u32), 3 => put!(write_i64, i64), 4 => put!(write_i8, i8), 5 => put!(write_isize, isize),
                    6 => put!(write_i128, i128), 7 => put!(write_u16, u16), 8 => put!(write_i32, i32), 9 => put!(write_u64, u64), 10 => put!(write_usize, usize), _ => put!(write_u128, u128),
                }
                i += 1;
            }
            Obs::Ok
        }
        // byte by byte, with nothing in between now and then
        b'n' => { for (i, x) in d.chunks(1).enumerate() { if i % 7 == 6 { HighwayHash::append(h, &[]); } HighwayHash::append(h, x); } Obs::Ok }
        // in pieces of all lengths up to 70
        b'z' => {
            let (mut d, mut i) = (d, d.len() as u64);
            while !d.is_empty() {
                i = i.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
                let k = d.len().min((i >> 40) as usize % 71);
                HighwayHash::append(h, &d[..k]);
                d = &d[k..];
            }
            Obs::Ok
        }
        // derived/std Hash impls that write exactly the bytes: an array of u8 via hash_slice
        b'h' => { u8::hash_slice(d, h); Obs::Ok }
        _ => h.io(d, how),
    }
}

pub trait WriteIfStd: HighwayHash {
    fn io(&mut self, d: &[u8], how: u8) -> Obs;
}
#[cfg(not(feature = "hw_std"))]
impl<T: HighwayHash> WriteIfStd for T {
    fn io(&mut self, d: &[u8], how: u8) -> Obs {
        HighwayHash::append(self, d);
        if how == b'i' || how == b'v' { Obs::Count(d.len()) } else { Obs::Ok }
    }
}
#[cfg(feature = "hw_std")]
impl<T: HighwayHash + std::io::Write> WriteIfStd for T {
    fn io(&mut self, d: &[u8], how: u8) -> Obs {
        use std::io::Write;
        fn done(r: std::io::Result<()>) -> Obs {
            if r.is_ok() { Obs::Ok } else { Obs::Err }
        }
        match how {
            b'i' => match Write::write(self, d) { Ok(n) => Obs::Count(n), Err(_) => Obs::Err },
            b'x' => done(self.write_all(d)),
            b'q' => match Write::write(self, d) { Ok(n) if n == d.len() => done(self.flush()), Ok(n) => Obs::Count(n), Err(_) => Obs::Err },
            b'c' => match std::io::copy(&mut &d[..], self) { Ok(n) => if n == d.len() as u64 { Obs::Ok } else { Obs::Count(n as usize) }, Err(_) => Obs::Err },
            b'y' => done(self.by_ref().write_all(d)),
            b'v' => {
                // io::Write::write_vectored writes some prefix: keep going until everything is taken
                let mut rest = d;
                let mut total = 0;
                while !rest.is_empty() {
                    let (x, y) = rest.split_at(rest.len() / 2);
                    match self.write_vectored(&[std::io::IoSlice::new(x), std::io::IoSlice::new(y)]) {
                        Ok(0) => return Obs::Count(total),
                        Ok(n) if n <= rest.len() => { total += n; rest = &rest[n..]; }
                        Ok(n) => return Obs::Count(total + n),
                        Err(_) => return Obs::Err,
                    }
                }
                Obs::Count(total)
            }
            b'f' => match core::str::from_utf8(d) {
                // one argument; or several, with text between them
                Ok(s) if s.is_ascii() && s.len() >= 4 => {
                    let n = s.len();
                    if n % 3 == 0 { done(write!(self, "{}{}{}", &s[..n / 5], &s[n / 5..n / 2], &s[n / 2..])) }
                    else if n % 3 == 1 { done(write!(self, "{:>1$}", s, n.min(60000))) }
                    else { done(self.write_fmt(format_args!("{}", s))) }
                }
                Ok(s) => done(write!(self, "{s}")),
                Err(_) => done(self.write_all(d)),
            },
            b'u' => {
                // through a BufWriter, as adapters do
                let mut b = std::io::BufWriter::with_capacity(7, &mut *self);
                if b.write_all(d).is_err() { return Obs::Err; }
                done(b.flush())
            }
            _ => { HighwayHash::append(self, d); Obs::Ok }
        }
    }
}

/// Types whose values are hashed: of no size, with a destructor, writing in pieces, asking for the result midway, ...
/// What they write is in tools/hw.py (typed_ranges).
pub mod vals {
    use crate::data::pool_byte;
    use core::hash::{Hash, Hasher};
    fn put<H: Hasher>(h: &mut H, a: usize, e: usize) {
        for i in a..e { h.write(&[pool_byte(0, i)]); }
    }
    pub struct Marker;
    impl Hash for Marker { fn hash<H: Hasher>(&self, h: &mut H) { put(h, 0, 6) } }
    pub struct Dropped;
    impl Drop for Dropped { fn drop(&mut self) { core::hint::black_box(1); } }
    impl Hash for Dropped { fn hash<H: Hasher>(&self, h: &mut H) { put(h, 0, 40) } }
    #[repr(align(64))]
    pub struct Aligned;
    impl Hash for Aligned { fn hash<H: Hasher>(&self, h: &mut H) { put(h, 0, 33) } }
    pub struct Peeks(pub u8);
    impl Hash for Peeks { fn hash<H: Hasher>(&self, h: &mut H) { put(h, 0, 7); core::hint::black_box(h.finish()); put(h, 7, self.0 as usize); core::hint::black_box(h.finish()); } }
    pub struct Silent(pub [u64; 9]);
    impl Hash for Silent { fn hash<H: Hasher>(&self, _: &mut H) {} }
    pub struct Huge(pub [u8; 3000]);
    impl Hash for Huge { fn hash<H: Hasher>(&self, h: &mut H) { h.write(&self.0) } }
    #[derive(Hash)]
    pub enum Only { One }
    #[derive(Hash)]
    pub enum Many { #[allow(dead_code)] A, B(u16), C { x: i8, y: bool } }
    #[derive(Hash)]
    pub struct Rec { pub a: u8, pub b: u64, pub c: &'static str, pub d: (), pub e: [u16; 3] }
}
macro_rules! typed {
    ($n:expr, $x:ident => $e:expr) => {{
        use crate::exec::vals::*;
        match $n {
            0 => { let $x = (); $e }
            1 => { let $x = Marker; $e }
            2 => { let $x = [0u8; 0]; $e }
            3 => { let $x = [0u64; 0]; $e }
            4 => { let $x = Dropped; $e }
            5 => { let $x = Aligned; $e }
            6 => { let $x = Peeks(50); $e }
            7 => { let $x = Silent([3; 9]); $e }
            8 => { let $x = Huge([7; 3000]); $e }
            9 => { let $x = Only::One; $e }
            10 => { let $x = Many::B(77); $e }
            11 => { let $x = Many::C { x: -3, y: true }; $e }
            12 => { let $x = Rec { a: 1, b: 2, c: "three", d: (), e: [4, 5, 6] }; $e }
            13 => { let $x = 7u8; $e }
            14 => { let $x = -1i128; $e }
            15 => { let $x = "text"; $e }
            16 => { let $x = ("", 'x', true); $e }
            17 => { let $x = Some(&[1u32, 2, 3][..]); $e }
            18 => { let $x = None::<&str>; $e }
            19 => { let $x = core::marker::PhantomData::<u64>; $e }
            20 => { let $x = [[9u8; 40]; 3]; $e }
            21 => { let $x = ((), [(); 5], Marker); $e }
            22 => { let $x = 0usize; $e }
            23 => { let $x = core::cmp::Ordering::Less; $e }
            24 => { let $x = 0u128; $e }
            _ => { let $x = [Marker, Marker]; $e }
        }
    }};
}
use typed;

pub const SLOTS: usize = 12;

pub struct Ctx {
    pub objs: [Option<H>; SLOTS],
    pub cks: [Option<[u8; 164]>; SLOTS],
    pub bld: [Option<HighwayBuildHasher>; SLOTS],
    pub pools: Pools,
    pub sink: Sink,
}

impl Default for Ctx {
    fn default() -> Self {
        Ctx {
            objs: Default::default(),
            cks: [None; SLOTS],
            bld: Default::default(),
            pools: Pools::default(),
            sink: Sink { buf: [0; 4096], n: 0 },
        }
    }
}

impl Ctx {
    pub fn reset(&mut self) {
        self.objs = Default::default();
        self.cks = [None; SLOTS];
        self.bld = Default::default();
    }

    /// Where the object of a slot lies, and the slot with its tag.
    pub fn span(&self, s: usize) -> Option<(usize, usize, usize)> {
        self.objs[s].as_ref().map(|h| each!(h, x => (core::ptr::from_ref(x) as usize, core::mem::size_of_val(x), core::ptr::from_ref(&self.objs[s]) as usize)))
    }

    /// Executes one operation. The second result is the number of heap allocations it made.
    pub fn step(&mut self, o: &Op, plat: &mut dyn Plat) -> (Obs, u64) {
        let mut obs = Obs::Skip;
        if matches!(o.code, b'A' | b'j' | b'J' | b'O') {
            self.pools.ensure(o.p, o.e);
        }
        let r: Result<u64, ()> = match o.code {
            b'N' => {
                let (k, mut h) = (Key(data::key(o.p)), None);
                let r = plat.run(&mut || h = make(o.ty, k, o.how));
                obs = if h.is_some() { Obs::Ok } else { Obs::Refused };
                self.objs[o.s] = h;
                r
            }
            b'b' => {
                let (k, mut b) = (Key(data::key(o.p)), None);
                let r = plat.run(&mut || b = Some(if o.how == b'd' { HighwayBuildHasher::default() } else { HighwayBuildHasher::new(k) }));
                self.bld[o.t] = b;
                obs = Obs::Ok;
                r
            }
            b'Q' => match &self.bld[o.t] {
                Some(b) => {
                    let mut h = None;
                    let r = plat.run(&mut || h = Some(H::D(b.build_hasher())));
                    self.objs[o.s] = h;
                    obs = Obs::Ok;
                    r
                }
                None => Ok(0),
            },
            b'A' => match &mut self.objs[o.s] {
                Some(h) => {
                    let src = self.pools.get(o.p, o.a, o.e);
                    if o.pk == 0 {
                        plat.run(&mut || obs = each!(h, x => append(x, src, o.how)))
                    } else {
                        // the placed copy borrows the platform: take a raw slice, it lives until the next placement
                        let d = plat.place(src, o.pk, o.po);
                        let d: &[u8] = unsafe { core::slice::from_raw_parts(d.as_ptr(), d.len()) };
                        plat.run(&mut || obs = each!(h, x => append(x, d, o.how)))
                    }
                }
                None => Ok(0),
            },
            b'j' => match &mut self.objs[o.s] {
                Some(h) => {
                    let src = self.pools.get(o.p, o.a, o.e);
                    plat.run(&mut || { each!(h, x => Hash::hash(src, x)); obs = Obs::Ok })
                }
                None => Ok(0),
            },
            b'J' => match &self.bld[o.t] {
                Some(b) => {
                    let src = self.pools.get(o.p, o.a, o.e);
                    plat.run(&mut || obs = Obs::Hash([b.hash_one(src), 0, 0, 0], 1))
                }
                None => Ok(0),
            },
            // a value of some type (`typed`), by the builder and into a hasher
            b'T' => match &self.bld[o.t] {
                Some(b) => plat.run(&mut || typed!(o.a, x => obs = Obs::Hash([b.hash_one(x), 0, 0, 0], 1))),
                None => Ok(0),
            },
            b't' => match &mut self.objs[o.s] {
                Some(h) => plat.run(&mut || {
                    typed!(o.a, v => match o.a % 3 {
                        0 => each!(h, x => Hash::hash(&v, &mut &mut *x)),
                        1 => each!(h, x => Hash::hash(&&v, x)),
                        _ => each!(h, x => Hash::hash_slice(&[v], x)),
                    });
                    obs = Obs::Ok
                }),
                None => Ok(0),
            },
            b'F' => match &self.objs[o.s] {
                Some(h) => plat.run(&mut || obs = Obs::Hash([each!(h, x => Hasher::finish(x)), 0, 0, 0], 1)),
                None => Ok(0),
            },
            // all observers, many times over
            b'f' => match &self.objs[o.s] {
                Some(h) => {
                    let sink = &mut self.sink;
                    plat.run(&mut || {
                        let (first, ck) = (each!(h, x => Hasher::finish(x)), each!(h, x => HighwayHash::checkpoint(x)));
                        obs = Obs::Hash([first, 0, 0, 0], 1);
                        for i in 0..o.t {
                            sink.n = 0;
                            let same = match i % 4 {
                                0 | 1 => each!(h, x => Hasher::finish(x)) == first,
                                2 => each!(h, x => HighwayHash::checkpoint(x)) == ck,
                                _ => each!(h, x => Hasher::finish(&x.clone())) == first && (i % 64 != 3 || each!(h, x => write!(sink, "{:?}", x)).is_ok()),
                            };
                            if !same { obs = Obs::Err; }
                        }
                    })
                }
                None => Ok(0),
            },
            b'Z' | b'O' => match self.objs[o.s].take() {
                Some(h) => {
                    let mut h = Some(h);
                    let src: &[u8] = if o.code == b'O' { self.pools.get(o.p, o.a, o.e) } else { &[] };
                    let src: &[u8] = if o.pk == 0 { src } else {
                        let d = plat.place(src, o.pk, o.po);
                        unsafe { core::slice::from_raw_parts(d.as_ptr(), d.len()) }
                    };
                    let one = o.code == b'O';
                    plat.run(&mut || {
                        let h = h.take().unwrap();
                        obs = match (o.t, one) {
                            (64, false) => Obs::Hash([each!(h, x => HighwayHash::finalize64(x)), 0, 0, 0], 1),
                            (64, true) => Obs::Hash([each!(h, x => x.hash64(src)), 0, 0, 0], 1),
                            (128, false) => { let r = each!(h, x => HighwayHash::finalize128(x)); Obs::Hash([r[0], r[1], 0, 0], 2) }
                            (128, true) => { let r = each!(h, x => x.hash128(src)); Obs::Hash([r[0], r[1], 0, 0], 2) }
                            (_, false) => Obs::Hash(each!(h, x => HighwayHash::finalize256(x)), 4),
                            (_, true) => Obs::Hash(each!(h, x => x.hash256(src)), 4),
                        }
                    })
                }
                None => Ok(0),
            },
            b'C' => match &self.objs[o.s] {
                Some(h) => {
                    let mut n = None;
                    let r = plat.run(&mut || n = Some(each_map!(h, x => x.clone())));
                    obs = Obs::Ok;
                    self.objs[o.t] = n;
                    r
                }
                None => Ok(0),
            },
            b'c' => {
                if o.s == o.t {
                    Ok(0)
                } else {
                    // clone_from, same type only
                    let dst = self.objs[o.t].take();
                    match (&self.objs[o.s], dst) {
                        (Some(h), Some(mut d)) => {
                            let r = plat.run(&mut || {
                                obs = match (h, &mut d) {
                                    (H::P(x), H::P(y)) => { y.clone_from(x); Obs::Ok }
                                    (H::D(x), H::D(y)) => { y.clone_from(x); Obs::Ok }
                                    #[cfg(target_arch = "x86_64")]
                                    (H::S(x), H::S(y)) => { y.clone_from(x); Obs::Ok }
                                    #[cfg(target_arch = "x86_64")]
                                    (H::A(x), H::A(y)) => { y.clone_from(x); Obs::Ok }
                                    #[cfg(target_arch = "aarch64")]
                                    (H::N(x), H::N(y)) => { y.clone_from(x); Obs::Ok }
                                    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
                                    (H::W(x), H::W(y)) => { y.clone_from(x); Obs::Ok }
                                    _ => Obs::Skip,
                                }
                            });
                            self.objs[o.t] = Some(d);
                            r
                        }
                        (_, d) => {
                            self.objs[o.t] = d;
                            Ok(0)
                        }
                    }
                }
            }
            b'M' => {
                self.objs.swap(o.s, o.t);
                obs = Obs::Ok;
                Ok(0)
            }
            b'K' => match &self.objs[o.s] {
                Some(h) => {
                    let mut c = [0u8; 164];
                    let r = plat.run(&mut || c = each!(h, x => HighwayHash::checkpoint(x)));
                    self.cks[o.t] = Some(c);
                    obs = Obs::Check(c);
                    r
                }
                None => Ok(0),
            },
            b'R' | b'X' | b'Y' => {
                let c = match o.code {
                    b'X' => Some(data::raw(o.t as u32)),
                    b'Y' => o.lit.copied(),
                    _ => self.cks[o.t],
                };
                match c {
                    Some(c) => {
                        let mut h = None;
                        let r = plat.run(&mut || h = restore(o.ty, c, o.how));
                        obs = if h.is_some() { Obs::Ok } else { Obs::Refused };
                        self.objs[o.s] = h;
                        r
                    }
                    None => Ok(0),
                }
            }
            b'G' => match &self.objs[o.s] {
                Some(h) => {
                    let sink = &mut self.sink;
                    sink.n = 0;
                    let r = plat.run(&mut || {
                        // in the pretty form, into a sink that is soon full, and plainly
                        let r = each!(h, x => write!(sink, "{:#?}", x));
                        let _ = each!(h, x => write!(Narrow(o.s * 13), "{:?} {:#?}", x, x));
                        sink.n = 0;
                        // hexadecimal, padded, cut short
                        let _ = each!(h, x => write!(sink, "{:02x?}", x));
                        sink.n = 0;
                        let _ = each!(h, x => write!(sink, "{:#X?}", x));
                        sink.n = 0;
                        let _ = each!(h, x => write!(sink, "{:>+9.2?}", x));
                        sink.n = 0;
                        let r = r.and(each!(h, x => write!(sink, "{:?}", x)));
                        obs = if r.is_ok() { Obs::Ok } else { Obs::Err };
                    });
                    if obs == Obs::Ok {
                        let (t, n) = parse_debug(&sink.buf[..sink.n]);
                        obs = Obs::Debug(t, n);
                    }
                    r
                }
                None => Ok(0),
            },
            b'D' => {
                self.objs[o.s] = None;
                obs = Obs::Ok;
                Ok(0)
            }
            _ => Ok(0),
        };
        match r {
            Ok(n) => (obs, n),
            Err(()) => (Obs::Panic, 0),
        }
    }
}

/// Parses a script: behaviours separated by lines "B <id>", one operation per line or ';'-separated.
pub fn parse_script(text: &str) -> Vec<(String, Vec<Op>)> {
    let mut out: Vec<(String, Vec<Op>)> = Vec::new();
    for line in text.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        if let Some(id) = line.strip_prefix("B ") {
            let (id, ops) = match id.split_once(':') {
                Some((i, o)) => (i, o),
                None => (id, ""),
            };
            out.push((id.trim().into(), Vec::new()));
            let cur = &mut out.last_mut().unwrap().1;
            for o in ops.split(';') {
                if let Some(o) = Op::parse(o) {
                    cur.push(o);
                }
            }
        } else if let (Some(cur), Some(o)) = (out.last_mut(), Op::parse(line)) {
            cur.1.push(o);
        }
    }
    out
}

/// Runs one behaviour; one token per operation. After a panic the rest is not executed.
pub fn run_behaviour(ctx: &mut Ctx, ops: &[Op], plat: &mut dyn Plat, out: &mut String, mut each: impl FnMut(&mut String)) {
    ctx.reset();
    for o in ops {
        out.push(' ');
        let (obs, al) = ctx.step(o, plat);
        obs.show(out);
        if al != 0 {
            let _ = write!(out, "+{al}");
        }
        each(out);
        if obs == Obs::Panic {
            break;
        }
    }
}
