//! Raw exports for node: no wasm-bindgen. A trap is an observable ("!"): the host re-instantiates.
use crate::exec::{self, Bare, Ctx};
use std::cell::RefCell;

/// Data is placed where linear memory ends: whatever reads beyond it traps.
#[cfg(target_family = "wasm")]
struct Edge;
#[cfg(target_family = "wasm")]
impl exec::Plat for Edge {
    fn run(&mut self, f: &mut dyn FnMut()) -> Result<u64, ()> {
        f();
        Ok(0)
    }
    fn place<'a>(&'a mut self, bytes: &'a [u8], kind: u8, off: usize) -> &'a [u8] {
        use core::arch::wasm32::{memory_grow, memory_size};
        use core::sync::atomic::{AtomicUsize, Ordering};
        // a page of our own, the last one; the allocator may have taken pages since
        static PAGE: AtomicUsize = AtomicUsize::new(0);
        if PAGE.load(Ordering::Relaxed) + 1 != memory_size::<0>() {
            PAGE.store(memory_grow::<0>(1), Ordering::Relaxed);
        }
        let base = (PAGE.load(Ordering::Relaxed) * 65536) as *mut u8;
        let n = bytes.len();
        if n > 60000 {
            return bytes;
        }
        let at = match kind {
            b'e' => 65536 - n,
            b's' => 0,
            _ => 1024 + (off & 127),
        };
        unsafe {
            let lo = at.saturating_sub(256);
            let hi = (at + n + 256).min(65536);
            core::ptr::write_bytes(base.add(lo), (off >> 8) as u8, hi - lo);
            core::ptr::copy_nonoverlapping(bytes.as_ptr(), base.add(at), n);
            core::slice::from_raw_parts(base.add(at), n)
        }
    }
}
#[cfg(not(target_family = "wasm"))]
use Bare as Edge;

thread_local! {
    static IN: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static OUT: RefCell<String> = const { RefCell::new(String::new()) };
    static SCRIPT: RefCell<Vec<(String, Vec<exec::Op>)>> = const { RefCell::new(Vec::new()) };
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

#[no_mangle]
pub extern "C" fn hw_input(n: usize) -> *mut u8 {
    IN.with(|v| {
        let mut v = v.borrow_mut();
        v.resize(n, 0);
        v.as_mut_ptr()
    })
}
/// Parses the input; returns the number of behaviours.
#[no_mangle]
pub extern "C" fn hw_load() -> usize {
    let s = IN.with(|v| exec::parse_script(core::str::from_utf8(&v.borrow()).unwrap()));
    SCRIPT.with(|x| *x.borrow_mut() = s);
    SCRIPT.with(|x| x.borrow().len())
}
#[no_mangle]
pub extern "C" fn hw_run(i: usize) -> usize {
    OUT.with(|o| o.borrow_mut().clear());
    SCRIPT.with(|s| {
        let s = s.borrow();
        let (id, ops) = &s[i];
        OUT.with(|o| o.borrow_mut().push_str(id));
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            // The text so far stays readable for the host when an operation traps.
            c.reset();
            for op in ops {
                OUT.with(|o| o.borrow_mut().push(' '));
                let (obs, _) = c.step(op, &mut Edge);
                OUT.with(|o| obs.show(&mut o.borrow_mut()));
            }
        });
    });
    OUT.with(|o| o.borrow().len())
}
#[no_mangle]
pub extern "C" fn hw_out() -> *const u8 {
    OUT.with(|o| o.borrow().as_ptr())
}
#[no_mangle]
pub extern "C" fn hw_outlen() -> usize {
    OUT.with(|o| o.borrow().len())
}

/// Random behaviours, natively compared; input: "PROFILE TYPES SEED N". The report is in the output.
#[no_mangle]
pub extern "C" fn hw_explore() -> usize {
    use crate::explore;
    use std::fmt::Write;
    let args = IN.with(|v| String::from_utf8(v.borrow().clone()).unwrap());
    let mut it = args.split_ascii_whitespace();
    let (name, types) = (it.next().unwrap(), it.next().unwrap());
    let seed: u64 = it.next().unwrap().parse().unwrap();
    let n: u64 = it.next().unwrap().parse().unwrap();
    let s = explore::explore(seed, n, &explore::profile(name, types), &mut Bare, || false);
    OUT.with(|o| {
        let mut o = o.borrow_mut();
        o.clear();
        let _ = writeln!(o, "{}", s.json());
        for m in &s.mismatch {
            let _ = writeln!(o, "MISMATCH");
            o.push_str(m);
        }
        o.len()
    })
}
