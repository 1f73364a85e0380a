//! Random behaviours compared with the specification's own arithmetic.
use crate::Std;
use hwdrv::data::{self, Pools, Rng};
use hwdrv::exec::{Ctx, Obs, Op, SLOTS};
use hwdrv::explore;
use hwdrv::oracle::Obj;
use std::time::{Duration, Instant};

#[derive(Default)]
struct Model {
    objs: [Option<Obj>; SLOTS],
    cks: [Option<Obj>; SLOTS],
}
fn hash(o: &Obj, w: usize) -> Obs {
    let v = o.fin(w);
    let mut h = [0u64; 4];
    h[..v.len()].copy_from_slice(&v);
    Obs::Hash(h, v.len() as u8)
}
impl Model {
    fn step(&mut self, o: &Op, pools: &mut Pools) -> Option<Obs> {
        match o.code {
            b'N' => {
                let zero = matches!(o.how, b'd' | b'D' | b'o');
                self.objs[o.s] = Some(Obj::new(&data::key(if zero { 0 } else { o.p })));
                None
            }
            b'A' => {
                self.objs[o.s].as_mut()?.append(pools.get(o.p, o.a, o.e));
                None
            }
            b'F' => Some(hash(self.objs[o.s].as_ref()?, 64)),
            b'Z' => Some(hash(&self.objs[o.s].take()?, o.t)),
            b'O' => {
                let mut x = self.objs[o.s].take()?;
                x.append(pools.get(o.p, o.a, o.e));
                Some(hash(&x, o.t))
            }
            b'C' | b'c' => {
                self.objs[o.t] = self.objs[o.s].clone();
                None
            }
            b'M' => {
                self.objs.swap(o.s, o.t);
                None
            }
            b'K' => {
                let x = self.objs[o.s].as_ref()?;
                let c = x.ckpt();
                self.cks[o.t] = Some(x.clone());
                Some(Obs::Check(c))
            }
            b'R' => {
                self.objs[o.s] = Some(Obj::restore(&self.cks[o.t].as_ref()?.ckpt()));
                None
            }
            b'X' => {
                self.objs[o.s] = Some(Obj::restore(&data::raw(o.t as u32)));
                None
            }
            b'D' => {
                self.objs[o.s] = None;
                None
            }
            _ => None,
        }
    }
}

pub fn main(types: &str, prof: &str, seed: u64, ms: u64, threads: u64) {
    let t0 = Instant::now();
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let prof = explore::profile(prof, types);
            std::thread::spawn(move || {
                let mut r = Rng(seed.wrapping_add(t << 40) ^ 0xc01);
                let mut ctx = Ctx::default();
                let mut pools = Pools::default();
                let mut plat = Std::new(false);
                let (mut n, mut cmp) = (0u64, 0u64);
                let mut bad = Vec::new();
                while t0.elapsed() < Duration::from_millis(ms) && bad.len() < 2 {
                    let ops = explore::generate(&mut r, &prof);
                    let mut m = Model::default();
                    ctx.reset();
                    n += 1;
                    for o in &ops {
                        let (obs, _) = ctx.step(o, &mut plat);
                        let want = m.step(o, &mut pools);
                        cmp += want.is_some() as u64;
                        if obs == Obs::Panic || want.is_some_and(|w| w != obs) {
                            let mut s = String::new();
                            for o in &ops {
                                o.show(&mut s);
                                s.push('\n');
                            }
                            bad.push(s);
                            break;
                        }
                    }
                }
                (n, cmp, bad)
            })
        })
        .collect();
    let (mut n, mut cmp, mut bad) = (0, 0, Vec::new());
    for h in hs {
        let r = h.join().unwrap();
        n += r.0;
        cmp += r.1;
        bad.extend(r.2);
    }
    println!("STATS {{\"behaviours\":{n},\"ops\":0,\"compared\":{cmp},\"distinct\":{cmp}}}");
    for b in bad {
        println!("MISMATCH\n{b}");
    }
}
