//! One exported function per safe operation of every hasher type: what they compile to is the subject of C08.
//! Exported names are hwp_<type>_<operation>.
use core::hash::{BuildHasher, Hash, Hasher};
use core::mem::MaybeUninit;
use core::ptr::read;
use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, Key, PortableHash};

fn put<T>(o: &mut MaybeUninit<T>, v: Option<T>) -> bool {
    match v {
        Some(x) => {
            o.write(x);
            true
        }
        None => false,
    }
}

macro_rules! f {
    ($m:literal, $t:ty, $o:literal, |$($a:ident: $at:ty),*| -> $r:ty { $b:expr }) => {
        const _: () = {
            #[inline(never)]
            #[export_name = concat!("hwp_", $m, "_", $o)]
            pub extern "C" fn probe($($a: $at),*) -> $r {
                $b
            }
        };
    };
}

macro_rules! core_ops {
    ($m:literal, $t:ty) => {
        f!($m, $t, "default", |o: &mut MaybeUninit<$t>| -> () { { o.write(<$t>::default()); } });
        f!($m, $t, "append", |h: &mut $t, d: &&[u8]| -> () { HighwayHash::append(h, d) });
        f!($m, $t, "finalize64", |h: &mut $t| -> u64 { unsafe { read(h) }.finalize64() });
        f!($m, $t, "finalize128", |h: &mut $t, o: &mut [u64; 2]| -> () { *o = unsafe { read(h) }.finalize128() });
        f!($m, $t, "finalize256", |h: &mut $t, o: &mut [u64; 4]| -> () { *o = unsafe { read(h) }.finalize256() });
        f!($m, $t, "hash64", |h: &mut $t, d: &&[u8]| -> u64 { unsafe { read(h) }.hash64(d) });
        f!($m, $t, "hash128", |h: &mut $t, d: &&[u8], o: &mut [u64; 2]| -> () { *o = unsafe { read(h) }.hash128(d) });
        f!($m, $t, "hash256", |h: &mut $t, d: &&[u8], o: &mut [u64; 4]| -> () { *o = unsafe { read(h) }.hash256(d) });
        f!($m, $t, "checkpoint", |h: &$t, o: &mut [u8; 164]| -> () { *o = HighwayHash::checkpoint(h) });
        f!($m, $t, "clone", |h: &$t, o: &mut MaybeUninit<$t>| -> () { { o.write(h.clone()); } });
        f!($m, $t, "clonefrom", |h: &$t, o: &mut $t| -> () { o.clone_from(h) });
        f!($m, $t, "drop", |h: &mut $t| -> () { drop(unsafe { read(h) }) });
    };
}
macro_rules! fmt_op {
    ($m:literal, $t:ty) => {
        const _: () = {
            #[inline(never)]
            #[export_name = concat!("hwf_", $m, "_debug")]
            pub fn probe(h: &$t, w: &mut dyn core::fmt::Write) -> bool {
                write!(w, "{:?}", h).is_ok()
            }
        };
    };
}
/// With std's own code around, which may have paths of its own to a panic.
#[cfg(feature = "hw_std")]
macro_rules! io_op {
    ($m:literal, $t:ty) => {
        const _: () = {
            #[inline(never)]
            #[export_name = concat!("hwf_", $m, "_iowriteall")]
            pub fn probe(h: &mut $t, d: &&[u8]) -> bool {
                std::io::Write::write_all(h, d).is_ok()
            }
            #[inline(never)]
            #[export_name = concat!("hwf_", $m, "_iowritevec")]
            pub fn probe2(h: &mut $t, d: &[std::io::IoSlice<'static>; 3]) -> bool {
                std::io::Write::write_vectored(h, d).is_ok()
            }
        };
    };
}
#[cfg(not(feature = "hw_std"))]
macro_rules! io_op {
    ($m:literal, $t:ty) => {};
}
macro_rules! std_ops {
    ($m:literal, $t:ty) => {
        f!($m, $t, "finish", |h: &$t| -> u64 { Hasher::finish(h) });
        f!($m, $t, "write", |h: &mut $t, d: &&[u8]| -> () { Hasher::write(h, d) });
        f!($m, $t, "writeu8", |h: &mut $t, d: u8| -> () { h.write_u8(d) });
        f!($m, $t, "writeu16", |h: &mut $t, d: u16| -> () { h.write_u16(d) });
        f!($m, $t, "writeu32", |h: &mut $t, d: u32| -> () { h.write_u32(d) });
        f!($m, $t, "writeu64", |h: &mut $t, d: u64| -> () { h.write_u64(d) });
        f!($m, $t, "writeu128", |h: &mut $t, d: &u128| -> () { h.write_u128(*d) });
        f!($m, $t, "writeusize", |h: &mut $t, d: usize| -> () { h.write_usize(d) });
        f!($m, $t, "hashbytes", |h: &mut $t, d: &&[u8]| -> () { Hash::hash(*d, h) });
        f!($m, $t, "hashstr", |h: &mut $t, d: &&str| -> () { Hash::hash(*d, h) });
        #[cfg(feature = "hw_std")]
        f!($m, $t, "iowrite", |h: &mut $t, d: &&[u8]| -> usize { std::io::Write::write(h, d).unwrap_or(0) });
        #[cfg(feature = "hw_std")]
        f!($m, $t, "ioflush", |h: &mut $t| -> bool { std::io::Write::flush(h).is_ok() });
    };
}

core_ops!("portable", PortableHash);
std_ops!("portable", PortableHash);
fmt_op!("portable", PortableHash);
io_op!("portable", PortableHash);
f!("portable", PortableHash, "new", |o: &mut MaybeUninit<PortableHash>, k: &Key| -> () { { o.write(PortableHash::new(*k)); } });
f!("portable", PortableHash, "restore", |o: &mut MaybeUninit<PortableHash>, c: &[u8; 164]| -> () { { o.write(PortableHash::from_checkpoint(*c)); } });

core_ops!("auto", HighwayHasher);
std_ops!("auto", HighwayHasher);
fmt_op!("auto", HighwayHasher);
io_op!("auto", HighwayHasher);
f!("auto", HighwayHasher, "new", |o: &mut MaybeUninit<HighwayHasher>, k: &Key| -> () { { o.write(HighwayHasher::new(*k)); } });
f!("auto", HighwayHasher, "restore", |o: &mut MaybeUninit<HighwayHasher>, c: &[u8; 164]| -> () { { o.write(HighwayHasher::from_checkpoint(*c)); } });

f!("builder", HighwayBuildHasher, "new", |o: &mut MaybeUninit<HighwayBuildHasher>, k: &Key| -> () { { o.write(HighwayBuildHasher::new(*k)); } });
f!("builder", HighwayBuildHasher, "default", |o: &mut MaybeUninit<HighwayBuildHasher>| -> () { { o.write(HighwayBuildHasher::default()); } });
f!("builder", HighwayBuildHasher, "build", |b: &HighwayBuildHasher, o: &mut MaybeUninit<HighwayHasher>| -> () { { o.write(b.build_hasher()); } });
f!("builder", HighwayBuildHasher, "hashone", |b: &HighwayBuildHasher, d: &&[u8]| -> u64 { b.hash_one(*d) });

#[cfg(target_arch = "x86_64")]
mod x86 {
    use super::*;
    use highway::{AvxHash, SseHash};
    core_ops!("sse", SseHash);
    std_ops!("sse", SseHash);
fmt_op!("sse", SseHash);
io_op!("sse", SseHash);
    f!("sse", SseHash, "new", |o: &mut MaybeUninit<SseHash>, k: &Key| -> bool { put(o, SseHash::new(*k)) });
    f!("sse", SseHash, "forcenew", |o: &mut MaybeUninit<SseHash>, k: &Key| -> () { { o.write(unsafe { SseHash::force_new(*k) }); } });
    f!("sse", SseHash, "restore", |o: &mut MaybeUninit<SseHash>, c: &[u8; 164]| -> bool { put(o, SseHash::from_checkpoint(*c)) });
    f!("sse", SseHash, "forcerestore", |o: &mut MaybeUninit<SseHash>, c: &[u8; 164]| -> () { { o.write(unsafe { SseHash::force_from_checkpoint(*c) }); } });
    core_ops!("avx", AvxHash);
    std_ops!("avx", AvxHash);
fmt_op!("avx", AvxHash);
io_op!("avx", AvxHash);
    f!("avx", AvxHash, "new", |o: &mut MaybeUninit<AvxHash>, k: &Key| -> bool { put(o, AvxHash::new(*k)) });
    f!("avx", AvxHash, "forcenew", |o: &mut MaybeUninit<AvxHash>, k: &Key| -> () { { o.write(unsafe { AvxHash::force_new(*k) }); } });
    f!("avx", AvxHash, "restore", |o: &mut MaybeUninit<AvxHash>, c: &[u8; 164]| -> bool { put(o, AvxHash::from_checkpoint(*c)) });
    f!("avx", AvxHash, "forcerestore", |o: &mut MaybeUninit<AvxHash>, c: &[u8; 164]| -> () { { o.write(unsafe { AvxHash::force_from_checkpoint(*c) }); } });
}
#[cfg(target_arch = "aarch64")]
mod arm {
    use super::*;
    use highway::NeonHash;
    core_ops!("neon", NeonHash);
    fmt_op!("neon", NeonHash);
    f!("neon", NeonHash, "forcenew", |o: &mut MaybeUninit<NeonHash>, k: &Key| -> () { { o.write(unsafe { NeonHash::force_new(*k) }); } });
    f!("neon", NeonHash, "forcerestore", |o: &mut MaybeUninit<NeonHash>, c: &[u8; 164]| -> () { { o.write(unsafe { NeonHash::force_from_checkpoint(*c) }); } });
}
#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
mod wasm {
    use super::*;
    use highway::WasmHash;
    core_ops!("wasm", WasmHash);
    std_ops!("wasm", WasmHash);
fmt_op!("wasm", WasmHash);
io_op!("wasm", WasmHash);
    f!("wasm", WasmHash, "new", |o: &mut MaybeUninit<WasmHash>, k: &Key| -> () { { o.write(WasmHash::new(*k)); } });
    f!("wasm", WasmHash, "restore", |o: &mut MaybeUninit<WasmHash>, c: &[u8; 164]| -> () { { o.write(WasmHash::from_checkpoint(*c)); } });
}

// what the extraction of facts has to find: a panic path, an allocation, a mutable static
#[no_mangle]
pub extern "C" fn hwc_panic(d: &&[u8], i: usize) -> u8 {
    d[i]
}
#[no_mangle]
pub extern "C" fn hwc_alloc(d: &&[u8]) -> usize {
    let v = d.to_vec();
    std::hint::black_box(&v).len()
}
#[no_mangle]
pub extern "C" fn hwc_static(i: usize) -> usize {
    static COUNT: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
    COUNT.fetch_add(i, core::sync::atomic::Ordering::Relaxed)
}
