//! The script runner for targets of which nothing is installed but the compiler: no libc, no std. Built by nightly with
//! -Zbuild-std=core,alloc, linked by lld, run by qemu. The script is read from standard input.
#![no_std]
#![no_main]
#![allow(unused_features)]
#![feature(asm_experimental_arch)]
extern crate alloc;
use alloc::string::String;
use alloc::vec::Vec;
use core::alloc::{GlobalAlloc, Layout};
use core::arch::asm;
use hwdrv::exec::{self, Bare, Ctx};

#[cfg(any(target_arch = "powerpc", target_arch = "powerpc64"))]
unsafe fn sys(n: Nr, a: usize, b: usize, c: usize) -> isize {
    let n = match n { Nr::Read => 3, Nr::Write => 4, Nr::Exit => 1usize };
    let mut r = a;
    asm!("sc", inout("r0") n => _, inout("r3") r, inout("r4") b => _, inout("r5") c => _, out("r6") _, out("r7") _, out("r8") _, out("r9") _, out("r10") _, out("r11") _, out("r12") _, out("cr0") _, out("ctr") _, out("xer") _);
    let _ = &mut r;
    r as isize
}
#[cfg(target_arch = "s390x")]
unsafe fn sys(n: Nr, a: usize, b: usize, c: usize) -> isize {
    let n = match n { Nr::Read => 3, Nr::Write => 4, Nr::Exit => 1usize };
    let mut r = a;
    asm!("svc 0", in("r1") n, inout("r2") r, in("r3") b, in("r4") c);
    let _ = &mut r;
    r as isize
}
#[cfg(target_arch = "aarch64")]
unsafe fn sys(n: Nr, a: usize, b: usize, c: usize) -> isize {
    let n = match n { Nr::Read => 63, Nr::Write => 64, Nr::Exit => 93usize };
    let mut r = a;
    asm!("svc #0", in("x8") n, inout("x0") r, in("x1") b, in("x2") c);
    let _ = &mut r;
    r as isize
}
#[cfg(target_arch = "arm")]
unsafe fn sys(n: Nr, a: usize, b: usize, c: usize) -> isize {
    let n = match n { Nr::Read => 3, Nr::Write => 4, Nr::Exit => 1usize };
    let mut r = a;
    asm!("svc #0", in("r7") n, inout("r0") r, in("r1") b, in("r2") c);
    let _ = &mut r;
    r as isize
}
#[cfg(any(target_arch = "riscv32", target_arch = "riscv64"))]
unsafe fn sys(n: Nr, a: usize, b: usize, c: usize) -> isize {
    let n = match n { Nr::Read => 63, Nr::Write => 64, Nr::Exit => 93usize };
    let mut r = a;
    asm!("ecall", in("a7") n, inout("a0") r, in("a1") b, in("a2") c);
    let _ = &mut r;
    r as isize
}
#[derive(Clone, Copy)]
enum Nr { Read, Write, Exit }

#[no_mangle]
extern "C" fn _start() -> ! {
    start()
}

/// Blocks of powers of two, freed into one list per size.
struct Heap;
const SIZE: usize = 256 << 20;
#[repr(align(64))]
struct Space(core::cell::UnsafeCell<[u8; SIZE]>);
unsafe impl Sync for Space {}
static SPACE: Space = Space(core::cell::UnsafeCell::new([0; SIZE]));
static mut NEXT: usize = 0;
static mut FREE: [*mut u8; 32] = [core::ptr::null_mut(); 32];
fn class(l: Layout) -> usize {
    (l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros()) as usize
}
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let k = class(l);
        let f = FREE[k];
        if !f.is_null() {
            FREE[k] = *f.cast::<*mut u8>();
            return f;
        }
        let base = SPACE.0.get().cast::<u8>();
        let n = 1usize << k;
        let at = (NEXT + n.min(64) - 1) & !(n.min(64) - 1);
        if n > SIZE || at > SIZE - n {
            return core::ptr::null_mut();
        }
        NEXT = at + n;
        base.add(at)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let k = class(l);
        *p.cast::<*mut u8>() = FREE[k];
        FREE[k] = p;
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

static mut OUT: String = String::new();
fn out() -> &'static mut String {
    unsafe { &mut *core::ptr::addr_of_mut!(OUT) }
}
fn flush() {
    let o = out();
    let mut b = o.as_bytes();
    while !b.is_empty() {
        let n = unsafe { sys(Nr::Write, 1, b.as_ptr() as usize, b.len()) };
        if n <= 0 { break }
        b = &b[n as usize..];
    }
    o.clear();
}
fn exit(c: usize) -> ! {
    unsafe { sys(Nr::Exit, c, 0, 0) };
    loop {}
}
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    // an operation panicked: the rest is for another process
    out().push_str("!\n");
    flush();
    exit(101)
}

#[no_mangle]
extern "C" fn start() -> ! {
    let mut text: Vec<u8> = Vec::new();
    let mut buf = alloc::vec![0u8; 65536];
    loop {
        let n = unsafe { sys(Nr::Read, 0, buf.as_mut_ptr() as usize, buf.len()) };
        if n <= 0 { break }
        text.extend_from_slice(&buf[..n as usize]);
    }
    let text = String::from_utf8(text).unwrap();
    let (sync, text) = match text.strip_prefix("SYNC\n") { Some(t) => (true, t), None => (false, &text[..]) };
    let list = exec::parse_script(text);
    let mut ctx = alloc::boxed::Box::<Ctx>::default();
    for (id, ops) in &list {
        out().push_str(id);
        ctx.reset();
        for op in ops {
            out().push(' ');
            if sync { flush() }
            let (obs, _) = ctx.step(op, &mut Bare);
            obs.show(out());
        }
        out().push('\n');
        if sync || out().len() > 60000 { flush() }
    }
    out().push_str("END\n");
    flush();
    exit(0)
}
