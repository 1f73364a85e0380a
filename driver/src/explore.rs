//! Random behaviours of the specification, executed and compared against the relational memo natively.
//! This only searches: whatever it reports is replayed and judged by TLC on TraceHasher.tla.
use crate::data::{Rng, CRAFT, POOL_LEN8};
use crate::exec::{Ctx, Obs, Op, Plat, SLOTS};
use alloc::collections::BTreeMap;
use alloc::string::String;
use alloc::vec::Vec;
use core::fmt::Write as _;

#[derive(Clone, Debug, Default)]
pub struct Ident {
    ty: u8,
    root: (u8, u32),
    items: Vec<(u32, u32, u32)>,
}

/// The abstract state of TraceHasher.tla.
#[derive(Default)]
pub struct Model {
    pub concat: bool,
    pub shared: bool,
    objs: [Option<Ident>; SLOTS],
    cks: [Option<Ident>; SLOTS],
    bld: [Option<u32>; SLOTS],
}

pub type MemoKey = (u8, u8, (u8, u32), Vec<(u32, u32, u32)>);

impl Model {
    pub fn reset(&mut self) {
        self.objs = Default::default();
        self.cks = Default::default();
        self.bld = Default::default();
    }
    fn push(&self, id: &mut Ident, how: u8, p: u32, a: usize, e: usize) {
        let (a, e) = (a as u32, e as u32);
        if !self.concat {
            id.items.push((p, a, e));
            id.items.push((u32::MAX, how as u32, 0));
        } else if a != e {
            match id.items.last_mut() {
                Some(l) if l.0 == p && l.2 == a => l.2 = e,
                _ => id.items.push((p, a, e)),
            }
        }
    }
    fn root(&self, ty: u8, k: u32, how: u8) -> Ident {
        let zero = matches!(how, b'd' | b'D' | b'o');
        let mut id = Ident { ty, root: (b'k', if zero { 0 } else { k }), items: Vec::new() };
        if !self.concat {
            id.items.push((u32::MAX - 1, how as u32, 0));
        }
        id
    }
    fn len_prefix(&self, id: &mut Ident, o: &Op) {
        let n = (o.e - o.a) as u32;
        self.push(id, b'j', POOL_LEN8 + n, 0, core::mem::size_of::<usize>());
        self.push(id, b'j', o.p, o.a, o.e);
    }
    fn key(&self, id: &Ident, kind: u8) -> MemoKey {
        (if self.shared { 0 } else { id.ty }, kind, id.root, id.items.clone())
    }
    /// The memo key the operation's observation belongs to, if it has one.
    pub fn apply(&mut self, o: &Op, obs: &Obs) -> Option<MemoKey> {
        if matches!(obs, Obs::Skip) {
            return None;
        }
        match o.code {
            b'N' => {
                self.objs[o.s] = if *obs == Obs::Ok { Some(self.root(o.ty, o.p, o.how)) } else { None };
                None
            }
            b'b' => {
                self.bld[o.t] = Some(if o.how == b'd' { 0 } else { o.p });
                None
            }
            b'Q' => {
                let k = self.bld[o.t]?;
                self.objs[o.s] = Some(self.root(b'D', k, b'b'));
                None
            }
            b'A' | b'j' => {
                let mut id = self.objs[o.s].take()?;
                if o.code == b'A' { self.push(&mut id, o.how, o.p, o.a, o.e) } else { self.len_prefix(&mut id, o) }
                self.objs[o.s] = Some(id);
                None
            }
            b'J' => {
                let mut id = self.root(b'D', self.bld[o.t]?, b'b');
                self.len_prefix(&mut id, o);
                Some(self.key(&id, 64))
            }
            b'F' => Some(self.key(self.objs[o.s].as_ref()?, 64)),
            b'Z' => {
                let id = self.objs[o.s].take()?;
                Some(self.key(&id, o.t as u8))
            }
            b'O' => {
                let mut id = self.objs[o.s].take()?;
                self.push(&mut id, b'a', o.p, o.a, o.e);
                Some(self.key(&id, o.t as u8))
            }
            b'C' => {
                self.objs[o.t] = self.objs[o.s].clone();
                None
            }
            b'c' => {
                if o.s != o.t {
                    self.objs[o.t] = self.objs[o.s].clone();
                }
                None
            }
            b'M' => {
                self.objs.swap(o.s, o.t);
                None
            }
            b'K' => {
                let id = self.objs[o.s].clone()?;
                let k = self.key(&id, b'K');
                self.cks[o.t] = Some(id);
                Some(k)
            }
            b'R' => {
                self.objs[o.s] = if *obs == Obs::Ok { self.cks[o.t].clone() } else { None };
                let concat = self.concat;
                if let Some(x) = self.objs[o.s].as_mut() {
                    x.ty = o.ty;
                    if !concat {
                        x.items.push((u32::MAX - 2, o.how as u32, 0));
                    }
                }
                None
            }
            b'X' => {
                self.objs[o.s] = if *obs == Obs::Ok { Some(Ident { ty: o.ty, root: (b'r', o.t as u32), items: Vec::new() }) } else { None };
                None
            }
            b'D' => {
                self.objs[o.s] = None;
                None
            }
            _ => None,
        }
    }
}

#[derive(Clone)]
pub struct Prof {
    pub concat: bool,
    pub shared: bool,
    /// compare checkpoint bytes too
    pub ckpt: bool,
    pub types: Vec<u8>,
    /// letters for append
    pub hows: Vec<u8>,
    pub name: String,
    pub craft: bool,
}

fn chunk_len(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=1 => 0,
        2..=4 => 1 + r.below(4),
        5..=12 => r.below(34),
        13 => 31 + r.below(3),
        14..=15 => 32 * (1 + r.below(4)),
        16..=17 => (32 * (1 + r.below(4)) + 30 + r.below(5)) - 32,
        18 => r.below(140),
        _ => if r.below(60) == 0 { 900 + r.below(3000) } else { r.below(70) },
    }
}

const NEWHOW: [u8; 8] = [b'f', b'f', b'f', b'f', b'n', b'd', b'D', b'f'];

struct Gen<'a> {
    r: &'a mut Rng,
    p: &'a Prof,
    ops: Vec<Op>,
    family: u32,
}

impl Gen<'_> {
    fn ty(&mut self) -> u8 {
        let n = self.p.types.len();
        self.p.types[self.r.below(n)]
    }
    fn how(&mut self) -> u8 {
        let n = self.p.hows.len();
        self.p.hows[self.r.below(n)]
    }
    fn newkey(&mut self) -> u32 {
        // close relatives of one another, a few at a time
        if self.r.below(3) == 0 {
            return crate::data::KIN + 64 * self.family + self.r.below(64) as u32;
        }
        match self.r.below(8) {
            0..=2 => 0,
            3..=4 => 16,
            5 => 1 + self.r.below(15) as u32,
            6 => 17 + self.r.below(40) as u32,
            _ => 1000 + self.r.below(256) as u32,
        }
    }
    fn pool(&mut self) -> u32 {
        match self.r.below(8) {
            0..=4 => 0,
            5 => 100 + self.r.below(9) as u32,
            6 => 1000 + self.r.below(512) as u32,
            _ => 1 + self.r.below(3) as u32,
        }
    }
    fn push(&mut self, o: Op) {
        self.ops.push(o);
    }

    /// Streams with arbitrary chunkings, hops, clones; a reference computation at the end.
    fn concat(&mut self) {
        let panic = self.p.name == "panic";
        let raw = self.p.name == "raw" || (panic && self.r.below(2) == 0);
        let hops = matches!(&self.p.name[..], "ckpt" | "raw" | "cross" | "all" | "panic");
        let observers = matches!(&self.p.name[..], "adapter" | "all" | "raw" | "cross" | "panic");
        let craft = self.p.craft || self.r.below(if self.p.name == "pure" { 2 } else { 4 }) == 0;
        let c = CRAFT + self.r.below(1 << 26) as u32;
        let (k, pool) = if craft { (c, c) } else { (self.newkey(), self.pool()) };
        let rawid = if self.r.below(2) == 0 { self.r.below(64 * 12) } else { 6400 + self.r.below(1 << 24) } as u32;
        // per object: ranges so far (as appended), type
        let mut st: Vec<Option<(u8, Vec<(u32, usize, usize)>)>> = (0..4).map(|_| None).collect();
        let ty0 = self.ty();
        let h = if craft { b'f' } else { NEWHOW[self.r.below(8)] };
        let k = if h == b'd' || h == b'D' { 0 } else { k };
        let mk = |s: usize, ty: u8| {
            if raw {
                Op { code: b'X', s, ty, t: rawid as usize, how: b'f', ..Op::NONE }
            } else {
                Op { code: b'N', s, ty, p: k, how: if h == b'd' || h == b'D' { h } else { b'f' }, ..Op::NONE }
            }
        };
        self.push(mk(0, ty0));
        st[0] = Some((ty0, Vec::new()));
        let steps = 1 + self.r.below(14);
        for _ in 0..steps {
            let live: Vec<usize> = (0..4).filter(|&i| st[i].is_some()).collect();
            if live.is_empty() {
                break;
            }
            let s = live[self.r.below(live.len())];
            match self.r.below(16) {
                0 if hops || observers => {
                    let t = self.r.below(4);
                    if t != s {
                        self.push(Op { code: b'C', s, t, ..Op::NONE });
                        st[t] = st[s].clone();
                    }
                }
                1..=3 if hops => {
                    let t = self.r.below(4);
                    let ty = self.ty();
                    self.push(Op { code: b'K', s, t: 0, ..Op::NONE });
                    self.push(Op { code: b'R', s: t, ty, t: 0, how: b'f', ..Op::NONE });
                    let items = st[s].as_ref().unwrap().1.clone();
                    st[t] = Some((ty, items));
                }
                4 if observers => self.push(Op { code: b'F', s, ..Op::NONE }),
                5 if panic => self.push(Op { code: b'G', s, ..Op::NONE }),
                _ => {
                    let n = chunk_len(self.r);
                    let how = self.how();
                    let o = st[s].as_mut().unwrap();
                    let (p, a) = match o.1.last() {
                        Some(&(p, _, e)) if self.r.below(10) != 0 => (p, e),
                        None => (pool, 0),
                        _ => (self.r.below(3) as u32, self.r.below(40)),
                    };
                    o.1.push((p, a, a + n));
                    self.push(Op { code: b'A', s, p, a, e: a + n, how, ..Op::NONE });
                }
            }
        }
        for s in 0..4 {
            if let Some((ty, items)) = st[s].take() {
                let w = [64, 128, 256][self.r.below(3)];
                if self.p.ckpt {
                    self.push(Op { code: b'K', s, t: 5, ..Op::NONE });
                }
                if self.r.below(3) == 0 && self.p.name != "stream" && self.p.name != "pure" {
                    self.push(Op { code: b'F', s, ..Op::NONE });
                }
                if self.r.below(5) == 0 {
                    // one-shot helper for the last piece
                    let (p, a) = items.last().map_or((0, 0), |l| (l.0, l.2));
                    let n = chunk_len(self.r);
                    let mut items = items;
                    items.push((p, a, a + n));
                    self.push(Op { code: b'O', s, t: w, p, a, e: a + n, ..Op::NONE });
                    if !panic {
                        self.reference(&mk, ty, &items, w);
                    }
                } else {
                    self.push(Op { code: b'Z', s, t: w, ..Op::NONE });
                    if !panic {
                        self.reference(&mk, ty, &items, w);
                    }
                }
            }
        }
    }
    fn reference(&mut self, mk: &dyn Fn(usize, u8) -> Op, ty: u8, items: &[(u32, usize, usize)], w: usize) {
        let rty = if self.p.shared { self.ty() } else { ty };
        self.push(mk(7, rty));
        let mut norm: Vec<(u32, usize, usize)> = Vec::new();
        for &(p, a, e) in items {
            match norm.last_mut() {
                Some(l) if l.0 == p && l.2 == a => l.2 = e,
                _ if a == e => {}
                _ => norm.push((p, a, e)),
            }
        }
        for &(p, a, e) in &norm {
            self.push(Op { code: b'A', s: 7, p, a, e, how: b'a', ..Op::NONE });
        }
        if self.p.ckpt {
            self.push(Op { code: b'K', s: 7, t: 6, ..Op::NONE });
        }
        self.push(Op { code: b'Z', s: 7, t: w, ..Op::NONE });
    }

    /// A few histories first in isolation, then interleaved, with observers and diverging clones.
    fn chunked(&mut self) {
        let n = if self.p.name == "observe" { 1 } else { 2 + self.r.below(3) };
        let ty0 = self.ty();
        let samekey = self.r.below(2) == 0;
        let k0 = self.newkey();
        let mut hist: Vec<(Op, Vec<Op>)> = Vec::new();
        for i in 0..n {
            let ty = if self.r.below(3) == 0 { self.ty() } else { ty0 };
            let k = if samekey { k0 } else { self.newkey() };
            let how = if self.r.below(12) == 0 { b'd' } else { b'f' };
            let mk = Op { code: b'N', s: i, ty, p: if how == b'd' { 0 } else { k }, how, ..Op::NONE };
            let mut v = Vec::new();
            let pool = self.pool();
            let mut at = if self.r.below(3) == 0 { self.r.below(9) } else { 0 };
            for _ in 0..1 + self.r.below(7) {
                let len = chunk_len(self.r);
                let how = self.how();
                v.push(Op { code: b'A', s: i, p: pool, a: at, e: at + len, how, ..Op::NONE });
                at += len;
            }
            hist.push((mk, v));
        }
        let w: Vec<usize> = (0..n).map(|_| [64, 128, 256][self.r.below(3)]).collect();
        // isolated
        for (i, (mk, v)) in hist.iter().enumerate() {
            self.ops.push(*mk);
            self.ops.extend(v.iter().copied());
            self.push(Op { code: b'Z', s: i, t: w[i], ..Op::NONE });
        }
        // interleaved / observed
        let mut pos: Vec<usize> = (0..n).map(|_| 0).collect();
        let mut clones: Vec<Option<(usize, usize)>> = (0..SLOTS).map(|_| None).collect();
        for (mk, _) in &hist {
            self.ops.push(*mk);
        }
        let observe = self.p.name != "inter" || self.r.below(2) == 0;
        loop {
            let todo: Vec<usize> = (0..n).filter(|&i| pos[i] < hist[i].1.len()).collect();
            if todo.is_empty() {
                break;
            }
            let i = todo[self.r.below(todo.len())];
            if observe {
                for _ in 0..self.r.below(3) {
                    let s = self.r.below(n);
                    match self.r.below(9) {
                        0 => self.push(Op { code: b'F', s, ..Op::NONE }),
                        1 => { let t = 1 + self.r.below(4); self.push(Op { code: b'K', s, t, ..Op::NONE }) }
                        2 => self.push(Op { code: b'G', s, ..Op::NONE }),
                        3 | 4 => {
                            let t = 5 + self.r.below(3);
                            self.push(Op { code: b'C', s, t, ..Op::NONE });
                            clones[t] = Some((s, pos[s]));
                        }
                        5 => {
                            // clone the object, drop the original, go on with the clone
                            self.push(Op { code: b'C', s, t: 11, ..Op::NONE });
                            self.push(Op { code: b'M', s, t: 11, ..Op::NONE });
                            if self.r.below(2) == 0 {
                                let len = chunk_len(self.r);
                                self.push(Op { code: b'A', s: 11, p: 2, a: 3, e: 3 + len, how: b'a', ..Op::NONE });
                            }
                            if self.r.below(2) == 0 {
                                self.push(Op { code: b'Z', s: 11, t: 128, ..Op::NONE });
                            } else {
                                self.push(Op { code: b'D', s: 11, ..Op::NONE });
                            }
                        }
                        _ => {
                            // a clone diverges, or catches up with its original's history
                            let t = 5 + self.r.below(3);
                            if let Some((src, at)) = clones[t] {
                                match self.r.below(3) {
                                    0 => {
                                        let len = chunk_len(self.r);
                                        self.push(Op { code: b'A', s: t, p: 3, a: 0, e: len, how: b'a', ..Op::NONE });
                                        self.push(Op { code: b'F', s: t, ..Op::NONE });
                                        clones[t] = None;
                                    }
                                    1 => {
                                        let rest: Vec<Op> = hist[src].1[at..].to_vec();
                                        for mut o in rest {
                                            o.s = t;
                                            self.push(o);
                                        }
                                        self.push(Op { code: b'Z', s: t, t: w[src], ..Op::NONE });
                                        clones[t] = None;
                                    }
                                    _ => {
                                        self.push(Op { code: b'D', s: t, ..Op::NONE });
                                        clones[t] = None;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            self.ops.push(hist[i].1[pos[i]]);
            pos[i] += 1;
        }
        for i in 0..n {
            self.push(Op { code: b'Z', s: i, t: w[i], ..Op::NONE });
        }
    }
}

pub fn generate(r: &mut Rng, p: &Prof) -> Vec<Op> {
    let family = r.below(900) as u32;
    let mut g = Gen { r, p, ops: Vec::new(), family };
    if p.concat {
        g.concat();
    } else {
        g.chunked();
    }
    // other data at the same address
    if g.r.below(6) == 0 {
        for o in g.ops.iter_mut().filter(|o| matches!(o.code, b'A' | b'O')) {
            (o.pk, o.po) = (b'o', 0);
        }
    }
    g.ops
}

#[derive(Default)]
pub struct Stats {
    pub behaviours: u64,
    pub ops: u64,
    pub compared: u64,
    pub distinct: u64,
    pub allocs: u64,
    pub digest: u64,
    pub mismatch: Vec<String>,
}

impl Stats {
    pub fn json(&self) -> String {
        let mut s = String::new();
        let _ = write!(
            s,
            "STATS {{\"behaviours\":{},\"ops\":{},\"compared\":{},\"distinct\":{},\"allocs\":{},\"digest\":\"{:016x}\"}}",
            self.behaviours, self.ops, self.compared, self.distinct, self.allocs, self.digest
        );
        s
    }
}

fn script(ops: &[Op], id: &str, out: &mut String) {
    let _ = writeln!(out, "B {id}");
    for o in ops {
        o.show(out);
        out.push('\n');
    }
}

/// What the operations returned when they were first run.
fn returned(r: &[Obs], n: usize, out: &mut String) {
    out.push('=');
    for o in r {
        out.push(' ');
        o.show(out);
    }
    for _ in r.len()..n {
        out.push_str(" -");
    }
    out.push('\n');
}

/// Runs n random behaviours. `stop` is polled so that the caller can bound the time.
pub fn explore(seed: u64, n: u64, p: &Prof, plat: &mut dyn Plat, mut stop: impl FnMut() -> bool) -> Stats {
    let mut st = Stats::default();
    let mut ctx = Ctx::default();
    let mut m = Model { concat: p.concat, shared: p.shared, ..Default::default() };
    let mut memo: BTreeMap<MemoKey, (Obs, u64)> = BTreeMap::new();
    let mut kept: Vec<(Vec<Op>, Vec<Obs>)> = Vec::new();
    let mut rng = Rng(seed);
    for b in 0..n {
        if b % 64 == 0 && (stop() || st.mismatch.len() >= 3) {
            break;
        }
        if b % 256 == 0 {
            st.distinct += memo.len() as u64;
            memo.clear();
            kept.clear();
        }
        let ops = generate(&mut rng, p);
        ctx.reset();
        m.reset();
        st.behaviours += 1;
        let mut bad: Option<u64> = None;
        let mut seen: Vec<Obs> = Vec::with_capacity(ops.len());
        for o in &ops {
            let (obs, al) = ctx.step(o, plat);
            seen.push(obs);
            st.ops += 1;
            st.allocs += al;
            if al != 0 && p.name == "all" {
                bad = Some(b);
            }
            if let Obs::Hash(h, _) = obs {
                for x in h {
                    st.digest = (st.digest ^ x).wrapping_mul(0x100_0000_01b3).rotate_left(23);
                }
            }
            if obs == Obs::Panic || (obs == Obs::Err && p.name != "panic") {
                bad = Some(b);
                break;
            }
            if p.name == "panic" {
                continue;
            }
            if let Obs::Count(c) = obs {
                if c != o.e - o.a {
                    bad = Some(b);
                }
            }
            if let Some(k) = m.apply(o, &obs) {
                if o.code == b'K' && !p.ckpt {
                    continue;
                }
                match memo.get(&k) {
                    Some((v, from)) => {
                        st.compared += 1;
                        if *v != obs {
                            bad = Some(*from);
                        }
                    }
                    None => {
                        memo.insert(k, (obs, b));
                    }
                }
            }
        }
        if let Some(from) = bad {
            // the behaviour that set the expectation, then the one that broke it
            let mut s = String::new();
            if from != b {
                let (o, r) = &kept[(from % 256) as usize];
                script(o, "m", &mut s);
                returned(r, o.len(), &mut s);
                // same memo scope: continue the same behaviour
                let mut t = String::new();
                script(&ops, "m", &mut t);
                s.push_str(t.split_once('\n').unwrap().1);
            } else {
                script(&ops, "m", &mut s);
            }
            returned(&seen, ops.len(), &mut s);
            st.mismatch.push(s);
        }
        kept.push((ops, seen));
    }
    st.distinct += memo.len() as u64;
    st
}

pub fn profile(name: &str, types: &str) -> Prof {
    let all: &[u8] = if cfg!(feature = "hw_std") { b"aaaawixqcyvuh12468smnz" } else { b"aaaawh12468smnz" };
    let (concat, shared, ckpt, hows): (bool, bool, bool, &[u8]) = match name {
        "stream" => (true, false, false, all),
        "adapter" => (true, false, false, all),
        "ckpt" => (true, true, false, b"aaawi"),
        "canon" => (true, true, true, b"aaaw"),
        "raw" => (true, true, true, b"aaaw"),
        "cross" => (true, true, false, b"aaaw"),
        "craft" => (true, true, true, b"a"),
        "pure" => (true, true, false, b"a"),
        "observe" => (false, false, false, b"aaaw"),
        "inter" => (false, false, false, b"aaaw"),
        "panic" => (true, true, false, all),
        "all" => (true, true, false, b"aaawixq12468shmn"),
        _ => panic!("profile"),
    };
    let craft = name == "craft";
    let name = match name {
        "canon" => "ckpt",
        "craft" => "cross",
        n => n,
    };
    Prof { concat, shared, ckpt, types: types.bytes().collect(), hows: hows.to_vec(), name: name.into(), craft }
}
