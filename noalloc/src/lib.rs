//! A program without std and without any allocator: it links only if the crate needs none (C18).
#![no_std]
use core::fmt::Write;
use core::hash::{BuildHasher, Hasher};
use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, Key, PortableHash};

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0 = self.0.wrapping_add(s.len() as u64);
        Ok(())
    }
}

fn all<T: HighwayHash + Hasher + Clone + core::fmt::Debug>(mut h: T, d: &[u8]) -> u64 {
    HighwayHash::append(&mut h, d);
    h.write(d);
    let c = h.clone();
    let k = h.checkpoint();
    let mut s = Sink(0);
    let _ = write!(s, "{:?}", h);
    h.finish() ^ c.clone().hash64(d) ^ c.clone().hash128(d)[0] ^ c.finalize256()[3] ^ k[0] as u64 ^ s.0
}

#[no_mangle]
pub extern "C" fn everything(p: *const u8, n: usize) -> u64 {
    let d = unsafe { core::slice::from_raw_parts(p, n) };
    let k = Key([1, 2, 3, 4]);
    let b = HighwayBuildHasher::new(k);
    let c = PortableHash::new(k).checkpoint();
    let mut r = all(PortableHash::new(k), d) ^ all(PortableHash::default(), d) ^ all(PortableHash::from_checkpoint(c), d);
    r ^= all(HighwayHasher::new(k), d) ^ all(HighwayHasher::default(), d) ^ all(HighwayHasher::from_checkpoint(c), d);
    r ^= all(b.build_hasher(), d) ^ b.hash_one(d) ^ HighwayBuildHasher::default().hash_one(d);
    #[cfg(target_arch = "x86_64")]
    {
        use highway::{AvxHash, SseHash};
        if let (Some(x), Some(y)) = (SseHash::new(k), SseHash::from_checkpoint(c)) {
            r ^= all(x, d) ^ all(y, d) ^ all(SseHash::default(), d);
        }
        if let (Some(x), Some(y)) = (AvxHash::new(k), AvxHash::from_checkpoint(c)) {
            r ^= all(x, d) ^ all(y, d) ^ all(AvxHash::default(), d);
        }
    }
    r
}
