use hwdrv::data::{self, Rng};
use hwdrv::exec::{self, Ctx, Obs, Op, Plat};
use hwdrv::explore;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::Write;
use std::time::{Duration, Instant};

/// Counts the heap allocations of the current thread.
struct Counting;
thread_local! { static ALLOCS: Cell<u64> = const { Cell::new(0) }; }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

#[cfg(not(miri))]
mod mem {
    extern "C" {
        pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
        pub fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    }
    /// Pages with an inaccessible page on both sides.
    pub struct Arena {
        pub base: *mut u8,
        pub len: usize,
    }
    pub const PAGE: usize = 65536; // large enough for every target's page size
    /// The middle of a mapping: a multiple of 2^33, or of 2^28 where addresses are short. Null if it is not to be had.
    pub fn edge() -> *mut u8 {
        for i in 1..16usize {
            let a = if usize::BITS == 64 { i << (usize::BITS / 2 + 1) } else { (16 - i) << 28 };
            let p = unsafe { mmap((a - PAGE) as *mut u8, 9 * PAGE, 3, 0x22 | 0x10_0000, -1, 0) };
            if p as usize == a - PAGE { return a as *mut u8; }
        }
        core::ptr::null_mut()
    }
    impl Arena {
        pub fn new(pages: usize) -> Arena {
            unsafe {
                let n = (pages + 2) * PAGE;
                let p = mmap(core::ptr::null_mut(), n, 3, 0x22, -1, 0);
                assert!(!p.is_null() && p as isize != -1, "mmap");
                assert_eq!(mprotect(p, PAGE, 0), 0);
                assert_eq!(mprotect(p.add(n - PAGE), PAGE, 0), 0);
                Arena { base: p.add(PAGE), len: pages * PAGE }
            }
        }
        pub fn protect(&self, prot: i32) {
            unsafe { assert_eq!(mprotect(self.base, self.len, prot), 0) }
        }
    }
}

struct Std {
    #[cfg(not(miri))]
    arena: Option<mem::Arena>,
    #[cfg(not(miri))]
    edge: Option<*mut u8>,
    /// the same placements without guard pages, for the tools that do their own watching
    heap: Vec<u8>,
    guard: bool,
}
impl Std {
    fn new(guard: bool) -> Self {
        Std {
            #[cfg(not(miri))]
            arena: None,
            #[cfg(not(miri))]
            edge: None,
            heap: Vec::new(),
            guard,
        }
    }
}
impl Plat for Std {
    fn run(&mut self, f: &mut dyn FnMut()) -> Result<u64, ()> {
        let a0 = ALLOCS.with(|c| c.get());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        let a1 = ALLOCS.with(|c| c.get());
        r.map(|_| a1 - a0).map_err(|_| ())
    }
    fn place<'a>(&'a mut self, bytes: &'a [u8], kind: u8, off: usize) -> &'a [u8] {
        #[cfg(not(miri))]
        if self.guard && bytes.len() <= 4 * mem::PAGE - 256 {
            let ar = self.arena.get_or_insert_with(|| mem::Arena::new(4));
            ar.protect(3);
            let fill = (off >> 8) as u8;
            if kind == b'b' {
                // across an address with many low zero bits
                let n = off & 127;
                let b = *self.edge.get_or_insert_with(|| mem::edge());
                if !b.is_null() && bytes.len() <= mem::PAGE * 7 {
                    unsafe {
                        core::ptr::write_bytes(b.sub(256), fill, bytes.len() + 512);
                        core::ptr::copy_nonoverlapping(bytes.as_ptr(), b.sub(n), bytes.len());
                        return core::slice::from_raw_parts(b.sub(n), bytes.len());
                    }
                }
            }
            let at = match kind {
                b'e' => ar.len - bytes.len(),
                b's' => 0,
                _ => 128 + (off & 127),
            };
            unsafe {
                // what lies next to the data must not matter
                let lo = at.saturating_sub(256);
                let hi = (at + bytes.len() + 256).min(ar.len);
                core::ptr::write_bytes(ar.base.add(lo), fill, hi - lo);
                core::ptr::copy_nonoverlapping(bytes.as_ptr(), ar.base.add(at), bytes.len());
                ar.protect(1);
                return core::slice::from_raw_parts(ar.base.add(at), bytes.len());
            }
        }
        // exact-size heap block: sanitizers, valgrind and Miri watch its ends
        let pad = match kind {
            b'e' | b's' => 0,
            _ => off & 127,
        };
        self.heap = Vec::with_capacity(pad + bytes.len());
        self.heap.resize(pad, (off >> 8) as u8);
        self.heap.extend_from_slice(bytes);
        &self.heap[pad..]
    }
}

fn arg(i: usize) -> String {
    std::env::args().nth(i).unwrap_or_default()
}
fn num(i: usize) -> u64 {
    arg(i).parse().unwrap_or(0)
}

/// run SCRIPT OUT [sync] [guard] [from=N]: one line per behaviour: its id and one token per operation.
fn run() {
    let text = std::fs::read_to_string(arg(2)).expect("script");
    let flags: Vec<String> = std::env::args().skip(4).collect();
    let sync = flags.iter().any(|f| f == "sync");
    let guard = flags.iter().any(|f| f == "guard");
    let from: usize = flags.iter().find_map(|f| f.strip_prefix("from=")).map_or(0, |n| n.parse().unwrap());
    let list = exec::parse_script(&text);
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(arg(3)).expect("out");
    let mut ctx = Ctx::default();
    let mut plat = Std::new(guard);
    let mut buf = String::new();
    for (i, (id, ops)) in list.iter().enumerate() {
        if i < from {
            continue;
        }
        if sync {
            f.write_all(id.as_bytes()).unwrap();
            buf.clear();
            let mut done = 0;
            exec::run_behaviour(&mut ctx, ops, &mut plat, &mut buf, |o| {
                f.write_all(o[done..].as_bytes()).unwrap();
                done = o.len();
            });
            f.write_all(b"\n").unwrap();
        } else {
            buf.push_str(id);
            exec::run_behaviour(&mut ctx, ops, &mut plat, &mut buf, |_| ());
            buf.push('\n');
            if buf.len() > 1 << 16 {
                f.write_all(buf.as_bytes()).unwrap();
                buf.clear();
            }
        }
    }
    if !sync {
        f.write_all(buf.as_bytes()).unwrap();
    }
    f.write_all(b"END\n").unwrap();
}

/// explore PROFILE TYPES SEED MS [MAX] [THREADS]: random behaviours, natively compared.
fn explore_cmd() {
    let (name, types, seed, ms) = (arg(2), arg(3), num(4), num(5));
    let max = if num(6) == 0 { u64::MAX } else { num(6) };
    let threads = num(7).max(1);
    let prof = explore::profile(&name, &types);
    let t0 = Instant::now();
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let prof = prof.clone();
            std::thread::spawn(move || {
                explore::explore(seed.wrapping_add(t << 40), max, &prof, &mut Std::new(false), || t0.elapsed() > Duration::from_millis(ms))
            })
        })
        .collect();
    let mut tot = explore::Stats::default();
    for h in hs {
        let s = h.join().unwrap();
        tot.behaviours += s.behaviours;
        tot.ops += s.ops;
        tot.compared += s.compared;
        tot.distinct += s.distinct;
        tot.allocs += s.allocs;
        tot.digest ^= s.digest;
        tot.mismatch.extend(s.mismatch);
    }
    println!("{}", tot.json());
    for m in &tot.mismatch {
        println!("MISMATCH");
        print!("{m}");
    }
}

fn caps() {
    #[cfg(target_arch = "x86_64")]
    {
        println!("sse4.1 {}", std::is_x86_feature_detected!("sse4.1"));
        println!("avx2 {}", std::is_x86_feature_detected!("avx2"));
    }
    println!("ct_sse4.1 {}", cfg!(target_feature = "sse4.1"));
    println!("ct_avx2 {}", cfg!(target_feature = "avx2"));
    println!("ct_simd128 {}", cfg!(target_feature = "simd128"));
    println!("debug_assertions {}", cfg!(debug_assertions));
    println!("hw_std {}", cfg!(feature = "hw_std"));
    println!("arch {}", std::env::consts::ARCH);
    println!("types {}", exec::types());
}

/// threads SCRIPT OUT REPEAT: every behaviour on its own thread, all at once, repeatedly; one line per
/// distinct outcome of a behaviour.
fn threads() {
    let text = std::fs::read_to_string(arg(2)).expect("script");
    let list = exec::parse_script(&text);
    let reps = num(4).max(1);
    let n = list.len();
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = list
        .into_iter()
        .map(|(id, ops)| {
            let b = barrier.clone();
            std::thread::spawn(move || {
                let mut outs: Vec<String> = Vec::new();
                let mut ctx = Box::<Ctx>::default();
                let mut plat = Std::new(false);
                for o in &ops {
                    ctx.pools.ensure(o.p, o.e);
                }
                b.wait();
                for _ in 0..reps {
                    let mut out = id.clone();
                    exec::run_behaviour(&mut ctx, &ops, &mut plat, &mut out, |_| ());
                    if !outs.contains(&out) {
                        outs.push(out);
                    }
                }
                outs
            })
        })
        .collect();
    let mut f = std::fs::File::create(arg(3)).unwrap();
    for h in hs {
        for o in h.join().unwrap() {
            writeln!(f, "{o}").unwrap();
        }
    }
    writeln!(f, "END").unwrap();
}

/// shared SEED MS THREADS: one HighwayBuildHasher shared by reference among threads, each handing out hashers of its
/// own and hashing its own (near-equal) values; results compared with what a fresh dispatcher gives alone.
fn shared() {
    use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, Key};
    use std::hash::{BuildHasher, Hasher};
    let (seed, ms, nt) = (num(2), num(3), num(4).max(2));
    let t0 = Instant::now();
    let bad = std::sync::Mutex::new(Vec::<String>::new());
    let done = std::sync::atomic::AtomicU64::new(0);
    let mut round = 0u64;
    while t0.elapsed() < Duration::from_millis(ms) {
        let mut r = Rng(seed ^ (round << 20));
        round += 1;
        let k = if round % 3 == 0 { 0 } else { 16 + r.below(50) as u32 };
        let b = HighwayBuildHasher::new(Key(data::key(k)));
        let len = r.below(200);
        // expected, single threaded, before anything else runs
        let inputs: Vec<(u32, usize)> = (0..nt).map(|t| (1000 + (t as u32 * 7) % 64, if round % 2 == 0 { len } else { r.below(200) })).collect();
        let expect: Vec<(u64, [u64; 4])> = inputs
            .iter()
            .map(|&(p, n)| {
                let d: Vec<u8> = (0..n).map(|i| data::pool_byte(p, i)).collect();
                (HighwayHasher::new(Key(data::key(k))).hash64(&d), HighwayHasher::new(Key(data::key(k))).hash256(&d))
            })
            .collect();
        let bar = std::sync::Barrier::new(nt as usize);
        std::thread::scope(|s| {
            for t in 0..nt as usize {
                let (b, bar, inputs, expect, bad, done) = (&b, &bar, &inputs, &expect, &bad, &done);
                s.spawn(move || {
                    let (p, n) = inputs[t];
                    let d: Vec<u8> = (0..n).map(|i| data::pool_byte(p, i)).collect();
                    bar.wait();
                    for i in 0..40usize {
                        let mut h = b.build_hasher();
                        for c in d.chunks(1 + (i * 7 + t) % 40) {
                            Hasher::write(&mut h, c);
                        }
                        let f = h.finish();
                        let g = h.clone().finalize256();
                        done.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if f != expect[t].0 || g != expect[t].1 {
                            let mut v = bad.lock().unwrap();
                            if v.len() < 3 {
                                let w = |g: &[u64; 4]| g.iter().map(|x| format!("{x:016x}")).collect::<String>();
                                v.push(format!("{k} {p} {n} {f:016x} {:016x} {} {} thread {t}/{nt} iteration {i}", expect[t].0, w(&g), w(&expect[t].1)));
                            }
                        }
                    }
                });
            }
        });
        if !bad.lock().unwrap().is_empty() {
            break;
        }
    }
    println!("STATS {{\"rounds\":{round},\"evaluations\":{}}}", done.into_inner());
    for b in bad.into_inner().unwrap() {
        println!("BAD {b}");
    }
}

/// hammer TYPES SEED MS THREADS: short histories over and over, each thread its own, all at once; what they give compared
/// with what the same gave alone before. Printed: the operations, what they returned alone and then.
fn hammer() {
    let (types, seed, ms, nt) = (arg(2).into_bytes(), num(3), num(4), num(5).max(2) as usize);
    let t0 = Instant::now();
    let bad = std::sync::Mutex::new(Vec::<String>::new());
    let done = std::sync::atomic::AtomicU64::new(0);
    let mut round = 0u64;
    while t0.elapsed() < Duration::from_millis(ms) && bad.lock().unwrap().is_empty() {
        let mut r = Rng(seed ^ (round << 20));
        let (ty0, same, len0) = (types[round as usize % types.len()], r.below(3) == 0, r.below(100));
        let mixed = r.below(4) == 0;
        round += 1;
        let jobs: Vec<Vec<Op>> = (0..nt)
            .map(|t| {
                let ty = if mixed { types[r.below(types.len())] } else { ty0 };
                let k = if same { 16 } else { data::KIN + 64 * (round as u32 % 900) + r.below(64) as u32 };
                let longer = if r.below(24) == 0 { 9000 } else { 100 };
                let (p, n) = (1000 + (t as u32 * 7) % 64, if same { len0 } else { r.below(longer) });
                let (h1, h2) = ([b'a', b'w', b'i'][r.below(3)], [b'a', b'w', b'1'][r.below(3)]);
                let cut = r.below(n + 1);
                let w = [64, 128, 256][r.below(3)];
                let mut v = vec![Op { code: b'N', s: 0, ty, p: k, how: b'f', ..Op::NONE }];
                match r.below(5) {
                    4 => v.extend([
                        Op { code: b'X', s: 0, ty, t: 64 * 3 + t + r.below(32), how: b'f', ..Op::NONE },
                        Op { code: b'A', s: 0, p, a: 0, e: cut, how: h2, ..Op::NONE },
                        Op { code: b'G', s: 0, ..Op::NONE },
                        Op { code: b'A', s: 0, p, a: cut, e: n, how: h1, ..Op::NONE },
                        Op { code: b'K', s: 0, t: 0, ..Op::NONE },
                        Op { code: b'Z', s: 0, t: w, ..Op::NONE },
                    ]),
                    0 => v.push(Op { code: b'O', s: 0, t: w, p, a: 0, e: n, ..Op::NONE }),
                    1 => v.extend([Op { code: b'A', s: 0, p, a: 0, e: n, how: b'a', ..Op::NONE }, Op { code: b'F', s: 0, ..Op::NONE }, Op { code: b'Z', s: 0, t: w, ..Op::NONE }]),
                    2 => v.extend([
                        Op { code: b'A', s: 0, p, a: 0, e: cut, how: h1, ..Op::NONE },
                        Op { code: b'A', s: 0, p, a: cut, e: n, how: h2, ..Op::NONE },
                        Op { code: b'C', s: 0, t: 1, ..Op::NONE },
                        Op { code: b'Z', s: 0, t: w, ..Op::NONE },
                        Op { code: b'Z', s: 1, t: w, ..Op::NONE },
                    ]),
                    _ => v.extend([
                        Op { code: b'A', s: 0, p, a: 0, e: cut, how: b'a', ..Op::NONE },
                        Op { code: b'K', s: 0, t: 0, ..Op::NONE },
                        Op { code: b'R', s: 1, ty, t: 0, how: b'f', ..Op::NONE },
                        Op { code: b'A', s: 1, p, a: cut, e: n, how: b'a', ..Op::NONE },
                        Op { code: b'F', s: 0, ..Op::NONE },
                        Op { code: b'Z', s: 1, t: w, ..Op::NONE },
                    ]),
                }
                v
            })
            .collect();
        fn exec_all(ctx: &mut Ctx, ops: &[Op], out: &mut Vec<exec::Obs>) {
            ctx.reset();
            out.clear();
            for o in ops {
                out.push(ctx.step(o, &mut exec::Bare).0);
            }
        }
        let mut ctx = Box::<Ctx>::default();
        let alone: Vec<Vec<exec::Obs>> = jobs
            .iter()
            .map(|ops| {
                let mut v = Vec::new();
                exec_all(&mut ctx, ops, &mut v);
                v
            })
            .collect();
        let bar = std::sync::Barrier::new(nt);
        std::thread::scope(|s| {
            for t in 0..nt {
                let (bar, jobs, alone, bad, done) = (&bar, &jobs, &alone, &bad, &done);
                s.spawn(move || {
                    let mut ctx = Box::<Ctx>::default();
                    let mut v = Vec::new();
                    exec_all(&mut ctx, &jobs[t], &mut v);
                    bar.wait();
                    for _ in 0..300 {
                        exec_all(&mut ctx, &jobs[t], &mut v);
                        if v != alone[t] {
                            let mut m = String::new();
                            for o in &jobs[t] {
                                o.show(&mut m);
                                m.push('\n');
                            }
                            for x in [&alone[t], &v] {
                                m.push('=');
                                for o in x {
                                    m.push(' ');
                                    o.show(&mut m);
                                }
                                m.push('\n');
                            }
                            bad.lock().unwrap().push(m);
                            break;
                        }
                    }
                    done.fetch_add(300, std::sync::atomic::Ordering::Relaxed);
                });
            }
        });
    }
    println!("STATS {{\"rounds\":{round},\"evaluations\":{}}}", done.into_inner());
    if let Some(b) = bad.into_inner().unwrap().first() {
        println!("MISMATCH\n{b}");
    }
}

/// mem SCRIPT: for a tracer of memory accesses. Two volatile stores bracket every operation; printed are the places of
/// the data and of the object, so that the recorded accesses can be told apart.
#[cfg(not(miri))]
mod memtrace {
    use super::*;
    static mut MARK: [u64; 2] = [0; 2];
    struct Traced {
        arena: mem::Arena,
        at: (usize, usize),
        runs: usize,
    }
    impl Plat for Traced {
        fn run(&mut self, f: &mut dyn FnMut()) -> Result<u64, ()> {
            self.runs += 1;
            let m = core::ptr::addr_of_mut!(MARK).cast::<u64>();
            unsafe { m.write_volatile(1) };
            f();
            unsafe { m.add(1).write_volatile(1) };
            Ok(0)
        }
        fn place<'a>(&'a mut self, bytes: &'a [u8], kind: u8, off: usize) -> &'a [u8] {
            let at = match kind {
                b'e' => self.arena.len - bytes.len(),
                b's' => 0,
                _ => 4096 + (off & 127),
            };
            unsafe {
                core::ptr::copy_nonoverlapping(bytes.as_ptr(), self.arena.base.add(at), bytes.len());
                self.at = (self.arena.base as usize + at, bytes.len());
                core::slice::from_raw_parts(self.arena.base.add(at), bytes.len())
            }
        }
    }
    pub fn main() {
        let text = std::fs::read_to_string(arg(2)).expect("script");
        let list = exec::parse_script(&text);
        let mut ctx = Box::<Ctx>::default();
        let mut plat = Traced { arena: mem::Arena::new(2), at: (0, 0), runs: 0 };
        let mut out = String::new();
        use std::fmt::Write;
        let _ = writeln!(out, "MARK {}", core::ptr::addr_of!(MARK) as usize);
        let _ = writeln!(out, "ARENA {} {}", plat.arena.base as usize, plat.arena.len);
        let local = 0u8;
        let _ = writeln!(out, "STACK {}", core::ptr::addr_of!(local) as usize);
        let _ = writeln!(out, "CTX {} {}", core::ptr::from_ref(&*ctx) as usize, core::mem::size_of::<Ctx>());
        for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
            let p: Vec<&str> = l.split_ascii_whitespace().collect();
            if p.len() >= 6 && p[5].starts_with('/') {
                let _ = writeln!(out, "IMAGE {}", p[0]);
            }
        }
        for (id, ops) in &list {
            ctx.reset();
            for o in ops {
                plat.at = (0, 0);
                let obj = ctx.span(o.s).filter(|_| matches!(o.code, b'A' | b'j' | b'F')).unwrap_or((0, 0, 0));
                let runs = plat.runs;
                ctx.step(o, &mut plat);
                if plat.runs == runs {
                    continue;
                }
                let _ = writeln!(out, "OP {id} {} {} {} {} {} {}", o.code as char, plat.at.0, plat.at.1, obj.0, obj.1, obj.2);
            }
        }
        print!("{out}END\n");
    }
}

#[cfg(not(miri))]
/// guardobj: hashers that end exactly where mapped memory ends, or start where it starts, among varying bytes; and the same
/// on the heap. One line each: OBJ name place fill extra, and what append, append, finish, checkpoint, clone and finalise gave.
fn guardobj() {
    use core::hash::Hasher;
    use highway::{HighwayHash, HighwayHasher, Key, PortableHash};
    use std::fmt::Write;
    fn one<T: HighwayHash + Hasher + Clone>(name: &str, mk: impl Fn() -> T) {
        let ar = mem::Arena::new(1);
        let sz = core::mem::size_of::<T>();
        let d: Vec<u8> = (0..256).map(|i| data::pool_byte(0, i)).collect();
        let mut heap = Box::new([0u128; 64]);
        for (place, side, at) in [("heap", 0u8, heap.as_mut_ptr().cast::<u8>()), ("end", 0x55, unsafe { ar.base.add(ar.len - sz) }), ("end", 0xff, unsafe { ar.base.add(ar.len - sz) }), ("start", 0, ar.base), ("start", 0xff, ar.base)] {
            let p = at.cast::<T>();
            let p = if place == "heap" { unsafe { at.add(at.align_offset(core::mem::align_of::<T>())).cast::<T>() } } else { p };
            assert_eq!(p as usize % core::mem::align_of::<T>(), 0);
            for fill in 0..36usize {
                for extra in [0usize, 1, 3, 4, 5, 15, 16, 17, 28, 31, 32, 33, 64] {
                    print!("OBJ {name} {place}{side} {fill} {extra}");
                    let mut line = String::new();
                    unsafe {
                        if place != "heap" {
                            core::ptr::write_bytes(ar.base, side, ar.len);
                        }
                        p.write(mk());
                        (*p).append(&d[..fill]);
                        (*p).append(&d[fill..fill + extra]);
                        let _ = write!(line, " {:016x} ", (*p).finish());
                        for b in (*p).checkpoint() {
                            let _ = write!(line, "{b:02x}");
                        }
                        let q = (*p).clone().finalize128();
                        let z = p.read().finalize256();
                        let _ = write!(line, " {:016x}{:016x} {:016x}{:016x}{:016x}{:016x}", q[0], q[1], z[0], z[1], z[2], z[3]);
                    };
                    println!("{line}");
                }
            }
        }
    }
    let k = || Key(data::key(17));
    one("P", || PortableHash::new(k()));
    one("D", || HighwayHasher::new(k()));
    #[cfg(target_arch = "x86_64")]
    {
        if std::is_x86_feature_detected!("sse4.1") {
            one("S", || unsafe { highway::SseHash::force_new(k()) });
        }
        if std::is_x86_feature_detected!("avx2") {
            one("A", || unsafe { highway::AvxHash::force_new(k()) });
        }
    }
    #[cfg(target_arch = "aarch64")]
    one("N", || exec::Neon(unsafe { highway::NeonHash::force_new(k()) }));
    println!("END");
}

#[cfg(feature = "oracle")]
mod c01;

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    match &arg(1)[..] {
        "run" => run(),
        "explore" => explore_cmd(),
        "caps" => caps(),
        #[cfg(not(miri))]
        "mem" => memtrace::main(),
        "threads" => threads(),
        "shared" => shared(),
        "hammer" => hammer(),
        #[cfg(not(miri))]
        "guardobj" => guardobj(),
        #[cfg(feature = "oracle")]
        "c01" => c01::main(&arg(2), &arg(3), num(4), num(5), num(6).max(1)),
        _ => {
            let _ = (Obs::None, Op::NONE);
            eprintln!("usage");
            std::process::exit(2)
        }
    }
}
