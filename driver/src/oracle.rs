//! The specification's HighwayHash as generated straight-line Rust (tools/tla2rs.py), with glue only.
#[allow(clippy::all, unused_variables)]
mod gen {
    include!(env!("HW_ORACLE"));
}
pub type State = [u32; 128];

pub fn words<const N: usize>(w: &[u64]) -> [u32; N] {
    let mut out = [0u32; N];
    for (i, o) in out.iter_mut().enumerate() {
        *o = u32::from(w[i / 8].to_le_bytes()[i % 8]);
    }
    out
}
fn bytes(b: &[u32]) -> Vec<u64> {
    b.chunks(8).map(|c| c.iter().enumerate().fold(0u64, |a, (i, &x)| a | u64::from(x) << (8 * i))).collect()
}

/// An object of TraceHash.tla.
#[derive(Clone)]
pub struct Obj {
    s: State,
    pend: Vec<u8>,
}
impl Obj {
    pub fn new(key: &[u64; 4]) -> Obj {
        Obj { s: gen::init_state(&words(key)), pend: Vec::new() }
    }
    pub fn append(&mut self, d: &[u8]) {
        for &b in d {
            self.pend.push(b);
            if self.pend.len() == 32 {
                let mut p = [0u32; 32];
                for (x, y) in p.iter_mut().zip(&self.pend) {
                    *x = u32::from(*y);
                }
                self.s = gen::update(&self.s, &p);
                self.pend.clear();
            }
        }
    }
    pub fn fin(&self, w: usize) -> Vec<u64> {
        let b: Vec<u32> = self.pend.iter().map(|&x| u32::from(x)).collect();
        let s = gen::with_remainder(&self.s, &b);
        match w {
            64 => bytes(&gen::final64(&s)),
            128 => bytes(&gen::final128(&s)),
            _ => bytes(&gen::final256(&s)),
        }
    }
    pub fn ckpt(&self) -> [u8; 164] {
        let mut c = [0u8; 164];
        for (x, y) in c.iter_mut().zip(&self.s) {
            *x = *y as u8;
        }
        c[128..128 + self.pend.len()].copy_from_slice(&self.pend);
        c[160] = self.pend.len() as u8;
        c
    }
    /// total on every 164 bytes
    pub fn restore(c: &[u8; 164]) -> Obj {
        let mut o = Obj { s: [0; 128], pend: Vec::new() };
        for (x, y) in o.s.iter_mut().zip(c) {
            *x = u32::from(*y);
        }
        let n = if c[161] != 0 || c[162] != 0 || c[163] != 0 || c[160] > 32 { 32 } else { c[160] as usize };
        o.append(&c[128..128 + n]);
        o
    }
}
