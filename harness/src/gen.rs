//! Native scenario generators: random walks over the transition relation of Api.tla, plus complete
//! enumerations of small families.  Scenario `idx` of a profile depends only on (profile, seed, idx).
use crate::ops::{seg, Mut, Op, Seg, Set};
use crate::refb2::{KIN, V};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}

pub const HOOKS: bool = cfg!(blake2_verif);

fn near(r: &mut Rng, x: u64, d: u64) -> u64 {
    (x + r.below(2 * d + 1)).saturating_sub(d)
}

/// A length with the interesting distances from block and row boundaries, given what the state
/// already holds.
pub fn length(r: &mut Rng, v: V, fill: u64, cap: u64) -> u64 {
    let b = v.blk() as u64;
    let row = b * v.fan() as u64;
    let x = match r.below(12) {
        0 => r.below(2),
        1 | 2 => {
            let k = r.below(6);
            near(r, k * b, 2)
        }
        3 => r.below(3 * b + 2),
        4 | 5 => {
            // land near a boundary of the running total
            let to = row - fill % row;
            let k = r.below(4);
            near(r, to + k * row, 1)
        }
        6 | 7 => {
            let to = b - fill % b;
            let k = r.below(10);
            near(r, to + k * b, 1)
        }
        8 => {
            let k = r.below(5);
            let j = r.below(v.fan() as u64 + 1);
            near(r, k * row + j * b, 1)
        }
        9 => r.below(2 * row + b),
        10 => r.below(cap.min(8 * row) + 1),
        _ => {
            if r.chance(20) {
                r.below(cap + 1)
            } else {
                r.below(64)
            }
        }
    };
    x.min(cap)
}

fn bytes_seg(r: &mut Rng, max: u64) -> Seg {
    let len = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max.saturating_sub(1),
        _ => r.below(max + 1),
    };
    let seed = match r.below(8) {
        0 => 0,
        1 => 1,
        _ => 2 + r.below(60) as u32,
    };
    seg(seed, r.below(300), len)
}
fn num(r: &mut Rng, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    match r.below(8) {
        0 => 0,
        1 => m,
        2 => 1u64 << r.below(bits as u64),
        3 => m ^ (1u64 << r.below(bits as u64)),
        4 => r.below(5),
        5 => (1u64 << r.below(bits as u64)).wrapping_sub(1),
        _ => r.next() & m,
    }
}
pub fn setter(r: &mut Rng, v: V, legal: bool) -> Set {
    let ob = v.outb() as u64;
    let sb = v.saltb() as u64;
    let n_fields = if v.is_tree() { 2 } else { 11 };
    if !legal {
        let far = [
            u64::MAX,
            1 << 63,
            1 << 32,
            (1 << 32) + 1,
            (1 << 32) + ob,
            (1 << 16) + ob,
            256,
            257,
            256 + ob,
            255,
            512,
            512 + 1,
            1024,
            65536,
            65537,
            128,
            ob + 1,
            ob + 2,
            2 * ob,
        ];
        loop {
            match r.below(if v.is_tree() { 2 } else { 6 }) {
                0 => {
                    let x = if r.chance(25) { 0 } else { r.pick(&far) };
                    if x == 0 || x > ob {
                        return Set::Hl(x);
                    }
                }
                1 => {
                    let l = match r.below(5) {
                        0 => ob + 1,
                        1 => 256 + r.below(ob + 1),
                        2 => 2 * ob,
                        3 => 65536 + r.below(3),
                        _ => ob + 1 + r.below(300),
                    };
                    return Set::Key(seg(2 + r.below(9) as u32, 0, l));
                }
                2 => {
                    let x = r.pick(&far);
                    if x > ob {
                        return Set::Ihl(x);
                    }
                }
                k @ (3 | 4) => {
                    let l = match r.below(4) {
                        0 => sb + 1,
                        1 => 256 + r.below(sb + 1),
                        2 => 2 * sb,
                        _ => sb + 1 + r.below(300),
                    };
                    let g = seg(2 + r.below(9) as u32, 0, l);
                    return if k == 3 { Set::Salt(g) } else { Set::Pers(g) };
                }
                _ => {
                    if !v.is_b() {
                        let k = 48 + r.below(16);
                        let x = match r.below(4) {
                            0 => 1 << 48,
                            1 => 1 << k,
                            2 => u64::MAX,
                            _ => (1 << 48) | (r.next() >> 16) | (1 << k),
                        };
                        return Set::No(x);
                    }
                }
            }
        }
    }
    match r.below(n_fields) {
        0 => Set::Hl(match r.below(5) {
            0 => 1,
            1 => ob,
            2 => ob - 1,
            _ => 1 + r.below(ob),
        }),
        1 => Set::Key(bytes_seg(r, ob)),
        2 => Set::Salt(bytes_seg(r, sb)),
        3 => Set::Pers(bytes_seg(r, sb)),
        4 => Set::Fo(num(r, 8) as u8),
        5 => Set::Md(num(r, 8) as u8),
        6 => Set::Nd(num(r, 8) as u8),
        7 => Set::Mll(num(r, 32) as u32),
        8 => Set::No(num(r, if v.is_b() { 64 } else { 48 })),
        9 => Set::Ihl(match r.below(4) {
            0 => 0,
            1 => ob,
            _ => r.below(ob + 1),
        }),
        _ => Set::Ln(r.chance(50)),
    }
}

fn base_value(r: &mut Rng, v: V) -> u128 {
    // Multiples of the block size that put a carry boundary within the next few blocks.
    let b = v.blk() as u128;
    let bits: &[u32] = if v.is_b() { &[8, 16, 24, 31, 32, 33, 48, 53, 63, 64, 65, 96] } else { &[8, 16, 24, 31, 32, 33, 40, 48] };
    let k = r.pick(bits);
    let back = r.below(7) as u128;
    let x = (1u128 << k).wrapping_sub(back * b);
    let extra = if r.chance(30) {
        let w = if v.is_b() { 64 } else { 32 };
        if k < w {
            (r.next() as u128 & 0xffff) << w
        } else {
            0
        }
    } else {
        0
    };
    let mut x = x.wrapping_add(extra) / b * b;
    if !v.is_b() {
        x &= (1 << 60) - 1;
    } else {
        x &= (1 << 120) - 1;
    }
    x
}

/// What the generator remembers about each slot.
struct G {
    r: Rng,
    ops: Vec<Op>,
    p: Vec<(usize, V)>,
    s: Vec<(usize, V, u64)>,
    j: Vec<(usize, V)>,
    h: Vec<(usize, V)>,
    seed: u32,
    off: u64,
}
fn set_slot<T: Copy>(v: &mut Vec<T>, k: usize, x: T, key: impl Fn(&T) -> usize) {
    if let Some(i) = v.iter().position(|y| key(y) == k) {
        v[i] = x
    } else {
        v.push(x)
    }
}
impl G {
    fn new(seed: u64) -> G {
        let mut r = Rng(seed);
        r.next();
        let s = 2 + r.below(50) as u32;
        G { r, ops: vec![], p: vec![], s: vec![], j: vec![], h: vec![], seed: s, off: 0 }
    }
    /// a message piece; often the continuation of one stream
    fn msg(&mut self, len: u64) -> Seg {
        match self.r.below(10) {
            0 => seg(0, 0, len),
            1 => seg(1, 0, len),
            2 | 3 => {
                let s = 2 + self.r.below(50) as u32;
                let o = self.r.below(1000);
                seg(s, o, len)
            }
            _ => {
                let g = seg(self.seed, self.off, len);
                self.off += len;
                g
            }
        }
    }
    fn pnew(&mut self, k: usize, v: V) {
        let d = self.r.chance(20);
        self.ops.push(Op::PNew(k, v, d));
        set_slot(&mut self.p, k, (k, v), |x| x.0);
        if self.r.chance(12) {
            self.ops.push(Op::ForcePortable(k));
        } else if HOOKS && self.r.chance(20) {
            self.ops.push(Op::ForceSse(k));
        }
    }
    fn sets(&mut self, k: usize, v: V, n: u64) {
        for _ in 0..n {
            let s = setter(&mut self.r, v, true);
            self.ops.push(Op::PSet(k, s));
        }
    }
    fn state(&mut self, p: usize, k: usize, v: V) {
        self.ops.push(Op::PState(p, k));
        set_slot(&mut self.s, k, (k, v, 0), |x| x.0);
    }
    fn upd(&mut self, i: usize, cap: u64) {
        let (k, v, fill) = self.s[i];
        let len = length(&mut self.r, v, fill, cap);
        let g = self.msg(len);
        if self.r.chance(15) {
            self.ops.push(Op::Write(k, g))
        } else {
            self.ops.push(Op::Upd(k, g))
        }
        self.s[i].2 += len;
    }
    fn fin(&mut self, i: usize) {
        let (k, v, _) = self.s[i];
        let h = self.r.below(6) as usize;
        self.ops.push(Op::Fin(k, h));
        set_slot(&mut self.h, h, (h, v), |x| x.0);
    }
    /// one state with random parameters, ready to absorb
    fn fresh_state(&mut self, p: usize, k: usize, v: V) {
        if self.r.chance(15) {
            let d = self.r.chance(50);
            self.ops.push(Op::SNew(k, v, d));
            set_slot(&mut self.s, k, (k, v, 0), |x| x.0);
        } else {
            self.pnew(p, v);
            let n = self.r.below(4);
            self.sets(p, v, n);
            if self.r.chance(40) {
                let g = bytes_seg(&mut self.r, v.outb() as u64);
                self.ops.push(Op::PSet(p, Set::Key(g)));
            }
            self.state(p, k, v);
        }
    }
    fn state_of(&mut self, v: V, k: usize) {
        self.pnew(0, v);
        if self.r.chance(50) {
            self.ops.push(Op::PSet(0, Set::Key(seg(7, 0, 5))));
        }
        self.state(0, k, v);
    }
    fn base(&mut self, i: usize) {
        let (k, v, _) = self.s[i];
        let x = base_value(&mut self.r, v);
        self.ops.push(Op::SBase(k, x));
    }
    fn observer(&mut self, i: usize) {
        let (k, _, _) = self.s[i];
        match self.r.below(5) {
            0 => self.ops.push(Op::Count(k)),
            1 => self.ops.push(Op::SDbg(k)),
            2 => self.ops.push(Op::Flush(k)),
            3 => self.ops.push(Op::SMove(k)),
            _ => self.fin(i),
        }
    }
}

/// how many calls or objects: also around the limits of small counters
fn many_calls(r: &mut Rng) -> u64 {
    match r.below(12) {
        0..=2 => 2 + r.below(40),
        3 | 4 => 250 + r.below(12),
        5 => 300 + r.below(1700),
        6 => 4090 + r.below(12),
        7 => 32760 + r.below(16),
        8..=10 => 65530 + r.below(12),
        _ => 65536 + r.below(8000),
    }
}

/// lengths for batches: skewed so that lanes finish at different times
fn batch_lens(r: &mut Rng, v: V, n: usize) -> Vec<u64> {
    let b = v.blk() as u64;
    let style = r.below(6);
    let common = r.below(6);
    (0..n)
        .map(|i| match style {
            0 => common * b,
            1 => r.below(4) * b,
            2 => length(r, v, 0, 5 * b),
            3 => {
                if r.chance(15) {
                    r.below(20) * b + r.below(2)
                } else {
                    r.below(2 * b)
                }
            }
            4 => (i as u64 % 4) * b + r.below(3),
            _ => {
                let k = r.below(4);
                near(r, k * b, 1)
            }
        })
        .collect()
}

fn distinct_subset(r: &mut Rng, all: &[usize]) -> Vec<usize> {
    let mut v = all.to_vec();
    for i in (1..v.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
    let n = r.below(v.len() as u64 + 1) as usize;
    if r.chance(40) {
        v
    } else {
        v.truncate(n);
        v
    }
}

fn mutation(r: &mut Rng, v: V) -> Mut {
    match r.below(8) {
        0 | 1 => Mut::Id,
        2 => Mut::Pre(r.below(v.outb() as u64 + 1) as u32),
        3 => Mut::Pre(v.outb() as u32 - 1),
        4 => Mut::Ext(r.pick(&[0u8, 0, 1, 255])),
        5 | 6 => Mut::Flip(r.below(8 * v.outb() as u64) as u32),
        _ => Mut::Rot,
    }
}

/// Lengths over many orders of magnitude, favouring round sizes and their neighbours.
pub fn wide(r: &mut Rng, v: V, top: u32) -> u64 {
    let b = v.blk() as u64;
    let row = b * v.fan() as u64;
    let k = 6 + r.below(top as u64 - 6) as u32;
    let n = (1u64 << k) + r.below(1 << k);
    match r.below(10) {
        0 => 1 << k,
        1 => (1 << k) + b * r.below(4),
        2 => near(r, 1 << k, 2),
        3 => n / b * b,
        4 => n / row * row,
        5 => n / 4096 * 4096,
        6 => {
            let x = n / row * row;
            near(r, x, b)
        }
        7 => {
            let x = n / 65536 * 65536;
            let d = r.pick(&[0, 0, 1, b - 1, b, b + 1, row]);
            x + d
        }
        8 => near(r, 3 << (k - 1), 1),
        _ => n,
    }
}

const PLAIN: [V; 2] = [V::B, V::S];
const TREES: [V; 2] = [V::Bp, V::Sp];

/// the largest batch
pub const CROWD: usize = crate::world::SLOTS - 100;

/// Exhaustive families return None past their end.
/// Scenarios generated from the specification by TLC: profile `@path`.
fn from_file(path: &str, idx: u64) -> Option<Vec<Op>> {
    use std::collections::HashMap;
    use std::sync::{Arc, Mutex};
    static FILES: Mutex<Option<HashMap<String, Arc<Vec<Vec<Op>>>>>> = Mutex::new(None);
    let f = {
        let mut g = FILES.lock().unwrap();
        let m = g.get_or_insert_with(HashMap::new);
        m.entry(path.to_string()).or_insert_with(|| Arc::new(crate::load(path))).clone()
    };
    f.get(idx as usize).cloned()
}

pub fn scenario(profile: &str, seed: u64, idx: u64) -> Option<Vec<Op>> {
    if let Some(path) = profile.strip_prefix('@') {
        return from_file(path, idx);
    }
    let mut ops = generate(profile, seed, idx)?;
    if !matches!(profile, "fields" | "lens" | "limits" | "setters" | "edge" | "hashpairs" | "degree" | "kin") {
        let mut r = Rng(seed.wrapping_mul(0x2545f491).wrapping_add(idx) ^ hash(profile));
        if r.chance(40) {
            kinship(&mut r, &mut ops);
        }
    }
    Some(ops)
}

/// `g` with one byte changed
fn kin(r: &mut Rng, g: Seg) -> Seg {
    if g.len == 0 {
        return g;
    }
    let p = g.off
        + match r.below(4) {
            0 => g.len - 1,
            1 => r.below(g.len.min(64)),
            _ => r.below(g.len),
        };
    if p > 20_000 {
        return g;
    }
    seg(g.seed % KIN + KIN * (p as u32 + 1), g.off, g.len)
}

/// Some keys, salts and messages become near copies of earlier ones: the same bytes, one byte
/// changed, or (messages) the same beginning with another length.
fn kinship(r: &mut Rng, ops: &mut [Op]) {
    let mut old: [Vec<Seg>; 4] = Default::default();
    let rate = r.pick(&[8, 25, 60]);
    let mut one = |r: &mut Rng, kind: usize, g: &mut Seg| {
        if r.chance(rate) && !old[kind].is_empty() {
            let k = if r.chance(50) { old[kind].len() - 1 } else { r.below(old[kind].len() as u64) as usize };
            let o = old[kind][k];
            let len = if kind == 3 || o.len == 0 || r.chance(30) { g.len } else { o.len };
            let n = seg(o.seed, o.off, len);
            *g = if r.chance(70) { kin(r, n) } else { n };
        }
        old[kind].push(*g);
    };
    for op in ops {
        match op {
            Op::PSet(_, Set::Key(g)) => one(r, 0, g),
            Op::PSet(_, Set::Salt(g)) => one(r, 1, g),
            Op::PSet(_, Set::Pers(g)) => one(r, 2, g),
            Op::PHash(_, g, _) | Op::One(_, g, _) | Op::Upd(_, g) | Op::Rep(_, g, _, _) | Op::Write(_, g) | Op::JNew(_, _, g) | Op::Bulk(_, _, _, g) => one(r, 3, g),
            Op::UpdMany(_, pairs) => pairs.iter_mut().for_each(|x| one(r, 3, &mut x.1)),
            _ => {}
        }
    }
}

fn generate(profile: &str, seed: u64, idx: u64) -> Option<Vec<Op>> {
    let mut g = G::new(seed.wrapping_mul(0x1000193).wrapping_add(idx).wrapping_mul(0x9e3779b97f4a7c15) ^ hash(profile));
    match profile {
        // ------------------------------------------------------------ C01
        "params" => {
            let v = g.r.pick(&PLAIN);
            g.pnew(0, v);
            let n = g.r.below(8);
            g.sets(0, v, n);
            for k in 0..1 + g.r.below(2) {
                let len = length(&mut g.r, v, 0, 3000);
                let m = g.msg(len);
                if g.r.chance(10) {
                    g.ops.push(Op::One(v, m, k as usize));
                } else {
                    g.ops.push(Op::PHash(0, m, k as usize));
                }
                if g.r.chance(30) {
                    g.sets(0, v, 1);
                }
            }
            Some(g.ops)
        }
        // every single field, every single byte/bit position, all other fields default
        "fields" => {
            let mut fam: Vec<(V, Set)> = vec![];
            for v in PLAIN {
                for n in 1..=v.outb() as u64 {
                    fam.push((v, Set::Hl(n)));
                }
                for n in 0..=v.outb() as u64 {
                    fam.push((v, Set::Ihl(n)));
                    fam.push((v, Set::Key(seg(5, n, n))));
                }
                for n in 0..=v.saltb() as u64 {
                    fam.push((v, Set::Salt(seg(6, n, n))));
                    fam.push((v, Set::Pers(seg(7, n, n))));
                    fam.push((v, Set::Salt(seg(1, 0, n))));
                    fam.push((v, Set::Pers(seg(1, 0, n))));
                }
                for n in 0..=255u8 {
                    fam.push((v, Set::Fo(n)));
                    fam.push((v, Set::Md(n)));
                    fam.push((v, Set::Nd(n)));
                }
                for k in 0..32 {
                    fam.push((v, Set::Mll(1 << k)));
                    fam.push((v, Set::Mll(!(1 << k))));
                }
                let nb = if v.is_b() { 64 } else { 48 };
                let m = if v.is_b() { u64::MAX } else { (1 << 48) - 1 };
                for k in 0..nb {
                    fam.push((v, Set::No(1 << k)));
                    fam.push((v, Set::No(m ^ (1 << k))));
                }
                fam.push((v, Set::No(m)));
                fam.push((v, Set::Mll(u32::MAX)));
                fam.push((v, Set::Ln(true)));
                fam.push((v, Set::Ln(false)));
            }
            let n = fam.len() as u64;
            // rotate by seed, so that the sample TLC judges moves
            if idx >= n {
                return None;
            }
            let (v, s) = fam[((idx * 641 + seed * 97) % n) as usize];
            let b = v.blk() as u64;
            let len = [0, 3, b, b + 1][(idx % 4) as usize];
            Some(vec![
                Op::PNew(0, v, false),
                Op::PSet(0, s),
                Op::PHash(0, seg(3, 0, len), 0),
                Op::PState(0, 0),
                Op::Upd(0, seg(3, 0, len)),
                Op::Fin(0, 1),
            ])
        }
        // every message length, all at once
        "lens" => {
            let max = 2100u64;
            if idx >= 4 * max {
                return None;
            }
            let v = V::ALL[(idx % 4) as usize];
            let len = idx / 4;
            g.pnew(0, v);
            if idx % 3 == 0 {
                g.sets(0, v, 2);
            }
            let m = seg(2 + (idx % 50) as u32, len % 7, len);
            g.ops.push(Op::PHash(0, m, 0));
            g.ops.push(Op::One(v, m, 1));
            g.state(0, 0, v);
            g.ops.push(Op::Upd(0, m));
            g.ops.push(Op::Fin(0, 2));
            g.ops.push(Op::Count(0));
            Some(g.ops)
        }
        // long one-shot and incremental messages
        "long" => {
            let v = g.r.pick(&V::ALL);
            g.pnew(0, v);
            let n = g.r.below(3);
            g.sets(0, v, n);
            let len = match g.r.below(4) {
                0 => near(&mut g.r, 1 << 16, 3),
                1 => {
                    let k = 10 + g.r.below(10);
                    near(&mut g.r, 1 << k, 2)
                }
                2 => {
                    let k = g.r.below(600);
                    near(&mut g.r, k * v.blk() as u64 * v.fan() as u64, 1)
                }
                _ => g.r.below(1 << 18),
            };
            let m = seg(2 + g.r.below(40) as u32, 0, len);
            g.ops.push(Op::PHash(0, m, 0));
            g.state(0, 0, v);
            let cut = g.r.below(len + 1);
            g.ops.push(Op::Upd(0, seg(m.seed, 0, cut)));
            g.ops.push(Op::Upd(0, seg(m.seed, cut, len - cut)));
            g.ops.push(Op::Fin(0, 1));
            g.ops.push(Op::Count(0));
            g.ops.push(Op::HEq(0, 1));
            Some(g.ops)
        }
        // ------------------------------------------------------------ C02 / C03
        "split" | "tree" => {
            let v = g.r.pick(if profile == "split" { &PLAIN } else { &TREES });
            g.fresh_state(0, 0, v);
            if profile == "tree" && g.r.chance(20) {
                let len = length(&mut g.r, v, 0, 6000);
                let m = g.msg(len);
                if g.p.is_empty() {
                    g.ops.push(Op::One(v, m, 5));
                } else {
                    g.ops.push(Op::PHash(0, m, 5));
                }
            }
            let n = 1 + g.r.below(6);
            for _ in 0..n {
                g.upd(0, if profile == "split" { 1500 } else { 6000 });
                if g.r.chance(10) {
                    g.ops.push(Op::Flush(0));
                }
                if g.r.chance(10) {
                    g.ops.push(Op::Count(0));
                }
                if profile == "split" && g.r.chance(15) {
                    let b = g.r.chance(60);
                    g.ops.push(Op::SLast(0, b));
                }
                if g.r.chance(20) {
                    g.fin(0);
                }
            }
            g.fin(0);
            g.ops.push(Op::Count(0));
            Some(g.ops)
        }
        // all pairs (l1, l2) of chunk lengths, then a third from a boundary set
        "pairs" => {
            let per = |v: V| {
                let b = v.blk() as u64;
                (b + 2) * (3 * b + 2)
            };
            let nb = per(V::B);
            let ns = per(V::S);
            if idx >= nb + ns {
                return None;
            }
            let (v, k) = if idx < nb { (V::B, idx) } else { (V::S, idx - nb) };
            let b = v.blk() as u64;
            let l1 = k / (3 * b + 2);
            let l2 = k % (3 * b + 2);
            g.ops.push(Op::PNew(0, v, false));
            if (l1 + l2) % 3 == 0 {
                g.ops.push(Op::PSet(0, Set::Key(seg(9, 0, 1 + (l1 + l2) % v.outb() as u64))));
            }
            g.state(0, 0, v);
            g.ops.push(Op::Upd(0, seg(4, 0, l1)));
            g.ops.push(Op::Upd(0, seg(4, l1, l2)));
            g.ops.push(Op::Fin(0, 0));
            g.ops.push(Op::Count(0));
            let l3 = [0, 1, b - 1, b, b + 1, 2 * b, 2 * b + 1][(k % 7) as usize];
            g.ops.push(Op::Upd(0, seg(4, l1 + l2, l3)));
            g.ops.push(Op::Fin(0, 0));
            Some(g.ops)
        }
        // the same for the trees, over boundary classes of the double buffer
        "treepairs" => {
            let cls = |v: V| -> Vec<u64> {
                let b = v.blk() as u64;
                let mut c = vec![];
                for k in 0..=(3 * v.fan() as u64 + 1) {
                    for d in [-1i64, 0, 1] {
                        let x = (k * b) as i64 + d;
                        if x >= 0 {
                            c.push(x as u64)
                        }
                    }
                }
                c
            };
            let cb = cls(V::Bp);
            let cs = cls(V::Sp);
            let (nb, ns) = ((cb.len() * cb.len() * 2) as u64, (cs.len() * cs.len() * 2) as u64);
            if idx >= nb + ns {
                return None;
            }
            let (v, k, c) = if idx < nb { (V::Bp, idx, cb) } else { (V::Sp, idx - nb, cs) };
            let keyed = k % 2 == 1;
            let k = k / 2;
            let l1 = c[(k / c.len() as u64) as usize];
            let l2 = c[(k % c.len() as u64) as usize];
            g.ops.push(Op::PNew(0, v, false));
            if keyed {
                g.ops.push(Op::PSet(0, Set::Key(seg(9, 0, 1 + k % v.outb() as u64))));
            }
            g.state(0, 0, v);
            g.ops.push(Op::Upd(0, seg(4, 0, l1)));
            g.ops.push(Op::Upd(0, seg(4, l1, l2)));
            g.ops.push(Op::Fin(0, 0));
            g.ops.push(Op::Count(0));
            let l3 = g.r.pick(&c);
            g.ops.push(Op::Upd(0, seg(4, l1 + l2, l3)));
            g.ops.push(Op::Fin(0, 0));
            Some(g.ops)
        }
        // ------------------------------------------------------------ C04
        "observe" => {
            let v = g.r.pick(&V::ALL);
            g.fresh_state(0, 0, v);
            let n = 6 + g.r.below(14);
            for _ in 0..n {
                let i = g.r.below(g.s.len() as u64) as usize;
                match g.r.below(12) {
                    0..=3 => g.upd(i, 1400),
                    4 | 5 => {
                        // clone over a new or an existing slot
                        let (k, v, f) = g.s[i];
                        let d = g.r.below(4) as usize;
                        if d != k {
                            g.ops.push(Op::SClone(k, d));
                            set_slot(&mut g.s, d, (d, v, f), |x| x.0);
                        }
                    }
                    6 => {
                        let (k, v, _) = g.s[i];
                        if !v.is_tree() {
                            let b = g.r.chance(50);
                            g.ops.push(Op::SLast(k, b));
                        }
                    }
                    7 => {
                        g.fin(i);
                        g.fin(i);
                    }
                    _ => g.observer(i),
                }
            }
            for i in 0..g.s.len() {
                g.fin(i);
            }
            Some(g.ops)
        }
        // ------------------------------------------------------------ C05
        "many" => {
            let v = g.r.pick(&PLAIN);
            let np = 1 + g.r.below(3) as usize;
            for p in 0..np {
                g.pnew(p, v);
                let n = g.r.below(3);
                g.sets(p, v, n);
                if g.r.chance(40) {
                    let k = bytes_seg(&mut g.r, v.outb() as u64);
                    g.ops.push(Op::PSet(p, Set::Key(k)));
                }
                if g.r.chance(40) {
                    g.ops.push(Op::PSet(p, Set::Ln(true)));
                }
            }
            let nj = match g.r.below(8) {
                0 => g.r.below(3),
                1..=5 => 2 + g.r.below(10),
                _ => 8 + g.r.below(16),
            } as usize;
            let lens = batch_lens(&mut g.r, v, nj);
            for (k, l) in lens.iter().enumerate() {
                let p = g.r.below(np as u64) as usize;
                let m = if g.r.chance(80) { seg(2 + g.r.below(40) as u32, g.r.below(30), *l) } else { seg(0, 0, *l) };
                g.ops.push(Op::JNew(k, p, m));
                g.j.push((k, v));
            }
            let all: Vec<usize> = (0..nj).collect();
            let rounds = 1 + g.r.below(3);
            let mut done = vec![false; nj];
            for q in 0..rounds {
                let sub = if q == 0 && g.r.chance(60) { all.clone() } else { distinct_subset(&mut g.r, &all) };
                for x in &sub {
                    done[*x] = true
                }
                g.ops.push(Op::HashMany(v, sub));
                if g.r.chance(15) && nj > 0 {
                    let a = g.r.below(nj as u64) as usize;
                    let b = g.r.below(nj as u64) as usize;
                    if a != b {
                        g.ops.push(Op::JClone(a, b));
                        done[b] = done[a];
                    }
                }
                if g.r.chance(40) && nj > 0 {
                    let a = g.r.below(nj as u64) as usize;
                    g.ops.push(Op::JHash(a, 0));
                }
                if g.r.chance(10) {
                    let a = g.r.below(nj.max(1) as u64) as usize;
                    if nj > 0 {
                        g.ops.push(Op::JDbg(a));
                    }
                }
            }
            for k in 0..nj {
                if done[k] || g.r.chance(20) {
                    g.ops.push(Op::JHash(k, 1 + k % 5));
                }
            }
            Some(g.ops)
        }
        // every vector of block counts for up to 5 (BLAKE2b) / 9 (BLAKE2s) jobs: each job's
        // length class in {0, 1 byte, 1 block, 1 block+1, 2 blocks, 3 blocks}
        "manyvec" => {
            let v = if idx % 2 == 0 { V::B } else { V::S };
            let k = idx / 2;
            let nj = if v == V::B { 1 + (k % 5) } else { 1 + (k % 9) };
            let mut code = if nj <= 5 { k / if v == V::B { 5 } else { 9 } } else { g.r.next() };
            let total = 6u64.pow(nj.min(5) as u32);
            if nj <= 5 && code >= total {
                if k / 9 >= 7776 {
                    return None;
                }
                code = g.r.next();
            }
            let b = v.blk() as u64;
            let cls = [0, 1, b, b + 1, 2 * b, 3 * b];
            g.ops.push(Op::PNew(0, v, false));
            for j in 0..nj {
                let l = cls[(code % 6) as usize];
                code /= 6;
                g.ops.push(Op::PSet(0, Set::No(j)));
                g.ops.push(Op::PSet(0, Set::Ln(j % 2 == 1)));
                g.ops.push(Op::JNew(j as usize, 0, seg(10 + j as u32, 0, l)));
            }
            g.ops.push(Op::HashMany(v, (0..nj as usize).collect()));
            for j in 0..nj as usize {
                g.ops.push(Op::JHash(j, 0));
            }
            Some(g.ops)
        }
        // ------------------------------------------------------------ C06
        "umany" => {
            let v = g.r.pick(&PLAIN);
            let ns = match g.r.below(6) {
                0 => 1 + g.r.below(3),
                1..=4 => 2 + g.r.below(9),
                _ => 8 + g.r.below(12),
            } as usize;
            for k in 0..ns {
                g.fresh_state(k % 3, k, v);
            }
            let all: Vec<usize> = (0..ns).collect();
            let rounds = 1 + g.r.below(4);
            for q in 0..rounds {
                if g.r.chance(50) {
                    // vary the fill levels individually
                    for _ in 0..g.r.below(4) {
                        let i = g.r.below(ns as u64) as usize;
                        g.upd(i, 400);
                    }
                }
                let sub = if q == 0 && g.r.chance(70) { all.clone() } else { distinct_subset(&mut g.r, &all) };
                let lens = batch_lens(&mut g.r, v, sub.len());
                let mut pairs = vec![];
                for (k, l) in sub.iter().zip(lens) {
                    let i = g.s.iter().position(|x| x.0 == *k).unwrap();
                    let l = if g.r.chance(40) { length(&mut g.r, v, g.s[i].2, 600) } else { l };
                    let m = g.msg(l);
                    g.s[i].2 += l;
                    pairs.push((*k, m));
                }
                g.ops.push(Op::UpdMany(v, pairs));
                match g.r.below(5) {
                    0 => {
                        let i = g.r.below(ns as u64) as usize;
                        g.fin(i)
                    }
                    1 => {
                        let i = g.r.below(ns as u64) as usize;
                        g.observer(i)
                    }
                    2 => {
                        let a = g.r.below(ns as u64) as usize;
                        let b = g.r.below(ns as u64) as usize;
                        if a != b {
                            let (ka, kb) = (g.s[a].0, g.s[b].0);
                            g.ops.push(Op::SClone(ka, kb));
                            g.s[b].2 = g.s[a].2;
                        }
                    }
                    3 => {
                        let i = g.r.below(ns as u64) as usize;
                        let k = g.s[i].0;
                        let b = g.r.chance(60);
                        g.ops.push(Op::SLast(k, b));
                    }
                    _ => {}
                }
            }
            for i in 0..ns {
                let k = g.s[i].0;
                g.ops.push(Op::Count(k));
                g.fin(i);
            }
            Some(g.ops)
        }
        // every pair (fill, length) on one lane, other lanes busy with other lengths
        "ufill" => {
            let v = if idx % 2 == 0 { V::B } else { V::S };
            let b = v.blk() as u64;
            let k = idx / 2;
            let fill = k % (b + 1);
            let c = k / (b + 1);
            let lens = [0, 1, 2, b - fill, b - fill + 1, b + b - fill, 2 * b - fill + 1, 2 * b, 3 * b - 1, 3 * b, 3 * b + 1, 5 * b];
            if c >= lens.len() as u64 {
                return if c >= 2 * lens.len() as u64 { None } else { Some(vec![]) };
            }
            let deg = 5 + (k % 5) as usize;
            let lane = (k % deg as u64) as usize;
            for s in 0..deg {
                g.ops.push(Op::SNew(s, v, false));
                let f = if s == lane { fill } else { g.r.below(b + 1) };
                g.ops.push(Op::Upd(s, seg(3 + s as u32, 0, f)));
                set_slot(&mut g.s, s, (s, v, f), |x| x.0);
            }
            let mut pairs = vec![];
            for s in 0..deg {
                let f = g.s[s].2;
                let l = if s == lane { lens[c as usize] } else { g.r.below(4) * b + g.r.below(2) };
                pairs.push((s, seg(3 + s as u32, f, l)));
            }
            g.ops.push(Op::UpdMany(v, pairs));
            for s in 0..deg {
                g.ops.push(Op::Count(s));
                g.ops.push(Op::Fin(s, 0));
            }
            g.ops.push(Op::Upd(lane, seg(60, 0, 1)));
            g.ops.push(Op::Fin(lane, 0));
            Some(g.ops)
        }
        // ------------------------------------------------------------ C07
        "count" => {
            let v = g.r.pick(&V::ALL);
            if v.is_tree() || g.r.chance(50) {
                g.fresh_state(0, 0, v);
                if HOOKS {
                    g.base(0);
                }
                for _ in 0..1 + g.r.below(4) {
                    g.upd(0, 2500);
                    g.ops.push(Op::Count(0));
                    if g.r.chance(40) {
                        g.fin(0);
                    }
                }
                g.fin(0);
            } else if g.r.chance(50) {
                // update_many with a different counter on every lane
                let ns = 2 + g.r.below(9) as usize;
                for k in 0..ns {
                    g.fresh_state(0, k, v);
                    if HOOKS && g.r.chance(80) {
                        g.base(k);
                    }
                }
                let mut pairs = vec![];
                for k in 0..ns {
                    let l = length(&mut g.r, v, 0, 900);
                    let m = g.msg(l);
                    pairs.push((k, m));
                }
                g.ops.push(Op::UpdMany(v, pairs));
                for k in 0..ns {
                    g.ops.push(Op::Count(k));
                    g.ops.push(Op::Fin(k, 0));
                }
            } else {
                let nj = 2 + g.r.below(9) as usize;
                g.pnew(0, v);
                for k in 0..nj {
                    let l = 1 + length(&mut g.r, v, 0, 900);
                    let m = seg(2 + g.r.below(40) as u32, 0, l);
                    g.ops.push(Op::JNew(k, 0, m));
                    if HOOKS && g.r.chance(80) {
                        let x = base_value(&mut g.r, v);
                        g.ops.push(Op::JBase(k, x));
                    }
                }
                g.ops.push(Op::HashMany(v, (0..nj).collect()));
                for k in 0..nj {
                    g.ops.push(Op::JHash(k, 0));
                }
            }
            Some(g.ops)
        }
        // counters beyond the words of any machine, on every path, in few blocks
        "wide" => {
            let v = V::ALL[(idx % 4) as usize];
            let b = v.blk() as u64;
            let w = if v.is_b() { 64 } else { 32 };
            let near = |r: &mut Rng| -> u128 {
                let k = r.below(3) as u128 * b as u128;
                match r.below(3) {
                    0 => (1u128 << 32) - k,
                    1 => (1u128 << w) - k,
                    _ => (5u128 << w) + (3 << 31) + k,
                }
            };
            if !HOOKS {
                return None;
            }
            let lead = g.r.below(b);
            if v.is_tree() || idx / 4 % 3 == 0 {
                g.state_of(v, 0);
                let x = near(&mut g.r);
                g.ops.push(Op::SBase(0, x));
                g.ops.push(Op::Upd(0, seg(3, 0, lead)));
                let n = b * if v.is_tree() { if v.is_b() { 8 } else { 16 } } else { 2 } + 1 + g.r.below(b);
                g.ops.push(Op::Upd(0, seg(4, 0, n)));
                g.ops.push(Op::Count(0));
                g.ops.push(Op::Fin(0, 0));
                g.ops.push(Op::Upd(0, seg(5, 0, b + 1)));
                g.ops.push(Op::Count(0));
                g.ops.push(Op::Fin(0, 0));
            } else if idx / 4 % 3 == 1 {
                let mut pairs = vec![];
                for k in 0..2 {
                    g.state_of(v, k);
                    let x = near(&mut g.r);
                    g.ops.push(Op::SBase(k, x));
                    let n = 2 * b + 1 + g.r.below(b);
                    pairs.push((k, seg(6 + k as u32, 0, n)));
                }
                g.ops.push(Op::UpdMany(v, pairs));
                for k in 0..2 {
                    g.ops.push(Op::Count(k));
                    g.ops.push(Op::Fin(k, 0));
                }
            } else {
                g.pnew(0, v);
                for k in 0..2 {
                    let n = 2 * b + g.r.below(b);
                    g.ops.push(Op::JNew(k, 0, seg(8 + k as u32, 0, n)));
                    let x = near(&mut g.r);
                    g.ops.push(Op::JBase(k, x));
                }
                g.ops.push(Op::HashMany(v, vec![0, 1]));
                g.ops.push(Op::JHash(0, 0));
                g.ops.push(Op::JHash(1, 0));
            }
            Some(g.ops)
        }
        // ------------------------------------------------------------ C08
        "builder" => {
            let v = g.r.pick(&V::ALL);
            g.pnew(0, v);
            let n = 4 + g.r.below(16);
            for _ in 0..n {
                let (p, v) = {
                    let i = g.r.below(g.p.len() as u64) as usize;
                    g.p[i]
                };
                match g.r.below(16) {
                    0..=6 => g.sets(p, v, 1),
                    7 => {
                        // long then short, or empty
                        let mx = v.outb() as u64;
                        g.ops.push(Op::PSet(p, Set::Key(seg(7, 0, mx))));
                        let l = g.r.below(4);
                        g.ops.push(Op::PSet(p, Set::Key(seg(8, 0, l))));
                    }
                    8 => {
                        if !v.is_tree() {
                            let mx = v.saltb() as u64;
                            let l = g.r.below(4);
                            if g.r.chance(50) {
                                g.ops.push(Op::PSet(p, Set::Salt(seg(7, 0, mx))));
                                g.ops.push(Op::PSet(p, Set::Salt(seg(8, 0, l))));
                            } else {
                                g.ops.push(Op::PSet(p, Set::Pers(seg(7, 0, mx))));
                                g.ops.push(Op::PSet(p, Set::Pers(seg(8, 0, l))));
                            }
                        }
                    }
                    9 => {
                        let d = g.r.below(4) as usize;
                        if d != p {
                            g.ops.push(Op::PClone(p, d));
                            set_slot(&mut g.p, d, (d, v), |x| x.0);
                        }
                    }
                    10 => {
                        let d = g.r.below(4) as usize;
                        g.state(p, d, v);
                    }
                    11 => {
                        if !v.is_tree() {
                            let d = g.r.below(6) as usize;
                            let l = length(&mut g.r, v, 0, 300);
                            g.ops.push(Op::JNew(d, p, seg(3, 0, l)));
                            set_slot(&mut g.j, d, (d, v), |x| x.0);
                        }
                    }
                    12 => {
                        let l = length(&mut g.r, v, 0, 300);
                        let m = g.msg(l);
                        g.ops.push(Op::PHash(p, m, 0));
                    }
                    13 => g.ops.push(Op::PDbg(p)),
                    14 => {
                        if !g.s.is_empty() {
                            let i = g.r.below(g.s.len() as u64) as usize;
                            g.upd(i, 300);
                            g.fin(i);
                        }
                    }
                    _ => {
                        let k = g.r.below(3) as usize;
                        let v = g.r.pick(&V::ALL);
                        g.pnew(k, v);
                    }
                }
            }
            for i in 0..g.s.len() {
                g.fin(i);
            }
            for v in PLAIN {
                let js: Vec<usize> = g.j.iter().filter(|x| x.1 == v).map(|x| x.0).collect();
                g.ops.push(Op::HashMany(v, js.clone()));
                for k in js {
                    g.ops.push(Op::JHash(k, 1));
                }
            }
            for i in 0..g.p.len() {
                let k = g.p[i].0;
                g.ops.push(Op::PHash(k, seg(3, 0, 3), 2));
            }
            Some(g.ops)
        }
        // ------------------------------------------------------------ C09
        "setters" => {
            let v = g.r.pick(&V::ALL);
            g.pnew(0, v);
            for _ in 0..3 + g.r.below(6) {
                let legal = g.r.chance(45);
                let s = setter(&mut g.r, v, legal);
                g.ops.push(Op::PSet(0, s));
                if g.r.chance(25) {
                    g.ops.push(Op::PDbg(0));
                }
            }
            g.ops.push(Op::PHash(0, seg(3, 0, 3), 0));
            g.state(0, 0, v);
            g.upd(0, 300);
            g.fin(0);
            Some(g.ops)
        }
        // every setter at every value around its limits and at every value congruent to a legal
        // one modulo 2^8, 2^16, 2^32
        "limits" => {
            let mut fam: Vec<(V, Set)> = vec![];
            for v in V::ALL {
                let ob = v.outb() as u64;
                let mut nums: Vec<u64> = (0..=520).collect();
                for k in [8u32, 16, 31, 32, 33, 48, 63] {
                    for d in 0..=ob + 1 {
                        nums.push((1u64 << k).wrapping_add(d));
                        nums.push((1u64 << k).wrapping_sub(d));
                    }
                }
                nums.push(u64::MAX);
                nums.push(i64::MAX as u64);
                for n in &nums {
                    fam.push((v, Set::Hl(*n)));
                    if !v.is_tree() {
                        fam.push((v, Set::Ihl(*n)));
                    }
                }
                for l in (0..=2 * ob + 2).chain(255..=258).chain(256 + ob - 1..=256 + ob + 1).chain([512, 65535, 65536, 65537, 65536 + 8]) {
                    fam.push((v, Set::Key(seg(3, 0, l))));
                    if !v.is_tree() {
                        fam.push((v, Set::Salt(seg(3, 0, l))));
                        fam.push((v, Set::Pers(seg(3, 0, l))));
                    }
                }
                if !v.is_tree() {
                    for k in 0..64 {
                        for d in [-1i64, 0, 1] {
                            fam.push((v, Set::No((1u64 << k).wrapping_add(d as u64))));
                        }
                    }
                    fam.push((v, Set::No(u64::MAX)));
                    for k in 0..32 {
                        fam.push((v, Set::Mll(1 << k)));
                    }
                    fam.push((v, Set::Mll(u32::MAX)));
                    for n in 0..=255u8 {
                        fam.push((v, Set::Fo(n)));
                        fam.push((v, Set::Md(n)));
                        fam.push((v, Set::Nd(n)));
                    }
                }
            }
            let n = fam.len() as u64;
            if idx >= n {
                return None;
            }
            let (v, s) = fam[((idx * 769 + seed * 31) % n) as usize];
            g.ops.push(Op::PNew(0, v, false));
            // a distinctive earlier value in the same field, so that "unchanged" is visible
            let before = match s {
                Set::Hl(_) => Set::Hl(v.outb() as u64 / 2 + 1),
                Set::Ihl(_) => Set::Ihl(7),
                Set::Key(_) => Set::Key(seg(11, 0, 9)),
                Set::Salt(_) => Set::Salt(seg(12, 0, v.saltb() as u64)),
                Set::Pers(_) => Set::Pers(seg(13, 0, v.saltb() as u64 - 1)),
                Set::No(_) => Set::No(0x0123_4567_89ab),
                Set::Fo(_) => Set::Fo(77),
                Set::Md(_) => Set::Md(78),
                Set::Nd(_) => Set::Nd(79),
                Set::Mll(_) => Set::Mll(0x01020304),
                Set::Ln(_) => Set::Ln(true),
            };
            g.ops.push(Op::PSet(0, before));
            g.ops.push(Op::PSet(0, s));
            g.ops.push(Op::PHash(0, seg(3, 0, 3), 0));
            g.ops.push(Op::PDbg(0));
            g.ops.push(Op::PState(0, 0));
            g.ops.push(Op::Fin(0, 1));
            Some(g.ops)
        }
        // ------------------------------------------------------------ C11
        "hash" => {
            let v = g.r.pick(&V::ALL);
            g.pnew(0, v);
            for k in 0..4usize {
                if g.r.chance(70) {
                    let n = 1 + g.r.below(v.outb() as u64);
                    let n = if g.r.chance(30) { v.outb() as u64 } else { n };
                    g.ops.push(Op::PSet(0, Set::Hl(n)));
                }
                let l = g.r.below(3);
                let m = seg(2 + g.r.below(3) as u32, 0, l);
                g.ops.push(Op::PHash(0, m, k));
            }
            for _ in 0..8 + g.r.below(10) {
                let a = g.r.below(4) as usize;
                let b = g.r.below(4) as usize;
                let m = mutation(&mut g.r, v);
                match g.r.below(9) {
                    0 => g.ops.push(Op::HBytes(a)),
                    1 => g.ops.push(Op::HAsRef(a)),
                    2 => g.ops.push(Op::HArr(a)),
                    3 => g.ops.push(Op::HHex(a)),
                    4 => g.ops.push(Op::HDbg(a)),
                    5 => g.ops.push(Op::HEq(a, b)),
                    6 => g.ops.push(Op::HEqS(a, if g.r.chance(70) { a } else { b }, m)),
                    7 => g.ops.push(Op::HFrom(a, a, m, b)),
                    _ => {
                        if a != b {
                            g.ops.push(Op::HCopy(a, b))
                        }
                    }
                }
            }
            Some(g.ops)
        }
        // all hash lengths x all single-bit differences / prefixes / extensions
        "hashpairs" => {
            let lens = 64 + 32;
            if idx >= lens * 8 {
                return None;
            }
            let k = idx % lens;
            let part = (idx / lens) as u32;
            let (v, hl) = if k < 64 { (V::B, k + 1) } else { (V::S, k - 63) };
            g.ops.push(Op::PNew(0, v, false));
            g.ops.push(Op::PSet(0, Set::Hl(hl)));
            g.ops.push(Op::PHash(0, seg(3, 0, 5), 0));
            g.ops.push(Op::HBytes(0));
            g.ops.push(Op::HAsRef(0));
            g.ops.push(Op::HHex(0));
            g.ops.push(Op::HDbg(0));
            g.ops.push(Op::HArr(0));
            for bit in 0..8 * hl as u32 {
                if bit % 8 == part {
                    g.ops.push(Op::HEqS(0, 0, Mut::Flip(bit)));
                }
            }
            for n in 0..hl as u32 {
                if n % 8 == part {
                    g.ops.push(Op::HEqS(0, 0, Mut::Pre(n)));
                }
            }
            for x in [0u8, 1, 255] {
                g.ops.push(Op::HEqS(0, 0, Mut::Ext(x)));
            }
            g.ops.push(Op::HEqS(0, 0, Mut::Id));
            g.ops.push(Op::HEq(0, 0));
            // arrays differing in one bit, and the padded prefix against the short hash
            g.ops.push(Op::HFrom(0, 0, Mut::Id, 1));
            g.ops.push(Op::HEq(0, 1));
            g.ops.push(Op::HArr(1));
            g.ops.push(Op::HBytes(1));
            g.ops.push(Op::HHex(1));
            for q in 0..4 {
                let bit = (g.r.below(8 * v.outb() as u64)) as u32;
                g.ops.push(Op::HFrom(1, 1, Mut::Flip(bit), 2 + q));
                g.ops.push(Op::HEq(1, 2 + q));
                g.ops.push(Op::HEq(0, 2 + q));
                g.ops.push(Op::HBytes(2 + q));
                g.ops.push(Op::HDbg(2 + q));
            }
            // a different length of the same output
            if hl > 1 {
                g.ops.push(Op::PSet(0, Set::Hl(hl - 1)));
                g.ops.push(Op::PHash(0, seg(3, 0, 5), 7));
                g.ops.push(Op::HEq(0, 7));
                g.ops.push(Op::HHex(7));
            }
            Some(g.ops)
        }
        // ------------------------------------------------------------ C12
        "debug" => {
            let v = g.r.pick(&V::ALL);
            g.pnew(0, v);
            let n = g.r.below(4);
            g.sets(0, v, n);
            if g.r.chance(60) {
                let k = bytes_seg(&mut g.r, v.outb() as u64);
                g.ops.push(Op::PSet(0, Set::Key(k)));
            }
            g.ops.push(Op::PDbg(0));
            g.state(0, 0, v);
            g.ops.push(Op::SDbg(0));
            for _ in 0..g.r.below(6) {
                g.upd(0, 1400);
                g.ops.push(Op::SDbg(0));
                if !v.is_tree() && g.r.chance(20) {
                    let b = g.r.chance(50);
                    g.ops.push(Op::SLast(0, b));
                }
            }
            if !v.is_tree() {
                for k in 0..1 + g.r.below(4) as usize {
                    let l = length(&mut g.r, v, 0, 400);
                    let m = g.msg(l);
                    g.ops.push(Op::JNew(k, 0, m));
                    g.ops.push(Op::JDbg(k));
                    g.j.push((k, v));
                }
                let js = g.j.iter().map(|x| x.0).collect::<Vec<_>>();
                if g.r.chance(50) {
                    g.ops.push(Op::JHash(0, 5)); // refused in debug builds
                }
                g.ops.push(Op::HashMany(v, js.clone()));
                for k in js {
                    g.ops.push(Op::JDbg(k));
                }
            }
            // panics
            for _ in 0..g.r.below(3) {
                let s = setter(&mut g.r, v, false);
                g.ops.push(Op::PSet(0, s));
            }
            g.ops.push(Op::PDbg(0));
            g.ops.push(Op::PHash(0, seg(4, 0, 10), 0));
            g.ops.push(Op::HArr(0));
            Some(g.ops)
        }
        // ------------------------------------------------------------ C10 / C15 / C16: everything
        "mix" => {
            let nv = 1 + g.r.below(4) as usize;
            for k in 0..nv {
                let v = g.r.pick(&V::ALL);
                g.fresh_state(k, k, v);
            }
            let n = 8 + g.r.below(20);
            for _ in 0..n {
                let i = g.r.below(g.s.len() as u64) as usize;
                match g.r.below(14) {
                    0..=4 => g.upd(i, 2200),
                    5 => g.observer(i),
                    6 => g.fin(i),
                    7 => {
                        let (k, v, f) = g.s[i];
                        let d = g.r.below(8) as usize;
                        if d != k {
                            g.ops.push(Op::SClone(k, d));
                            set_slot(&mut g.s, d, (d, v, f), |x| x.0);
                        }
                    }
                    8 | 9 => {
                        let v = g.r.pick(&PLAIN);
                        let all: Vec<usize> = (0..g.s.len()).filter(|k| g.s[*k].1 == v).collect();
                        let sub = distinct_subset(&mut g.r, &all);
                        let mut pairs = vec![];
                        for k in sub {
                            let l = length(&mut g.r, v, g.s[k].2, 700);
                            let m = g.msg(l);
                            g.s[k].2 += l;
                            pairs.push((g.s[k].0, m));
                        }
                        g.ops.push(Op::UpdMany(v, pairs));
                    }
                    10 | 11 => {
                        let v = g.r.pick(&PLAIN);
                        g.pnew(9, v);
                        g.sets(9, v, 2);
                        let nj = g.r.below(10) as usize;
                        let lens = batch_lens(&mut g.r, v, nj);
                        for (k, l) in lens.iter().enumerate() {
                            let m = seg(2 + g.r.below(40) as u32, 0, *l);
                            g.ops.push(Op::JNew(k, 9, m));
                        }
                        g.ops.push(Op::HashMany(v, (0..nj).collect()));
                        for k in 0..nj {
                            g.ops.push(Op::JHash(k, k % 6));
                        }
                    }
                    12 => {
                        let v = g.r.pick(&V::ALL);
                        let l = length(&mut g.r, v, 0, 2200);
                        let m = g.msg(l);
                        g.ops.push(Op::One(v, m, 4));
                    }
                    _ => {
                        let k = g.r.below(8) as usize;
                        let v = g.r.pick(&V::ALL);
                        g.fresh_state(k, k, v);
                    }
                }
            }
            for i in 0..g.s.len() {
                g.fin(i);
                let k = g.s[i].0;
                g.ops.push(Op::Count(k));
            }
            Some(g.ops)
        }
        // near-identical objects, one after the other and interleaved: each differs from an earlier
        // one in a single respect
        "kin" => {
            let nv = 1 + g.r.below(2) as usize;
            let vs: Vec<V> = (0..nv).map(|_| g.r.pick(&V::ALL)).collect();
            let mut sets: Vec<Vec<Set>> = vs
                .iter()
                .map(|&v| {
                    let n = g.r.below(4);
                    let mut s: Vec<Set> = (0..n).map(|_| setter(&mut g.r, v, true)).collect();
                    if g.r.chance(75) {
                        let ob = v.outb() as u64;
                        let l = g.r.pick(&[1, 8, 16, ob / 2, ob - 1, ob, ob]);
                        s.push(Set::Key(seg(2 + g.r.below(60) as u32, g.r.below(9), l)));
                    }
                    s
                })
                .collect();
            let mut msgs: Vec<Seg> = vs
                .iter()
                .map(|&v| {
                    let l = length(&mut g.r, v, 0, 2200);
                    seg(2 + g.r.below(60) as u32, 0, l)
                })
                .collect();
            let n = 3 + g.r.below(8);
            for _ in 0..n {
                let i = g.r.below(nv as u64) as usize;
                let v = vs[i];
                // one thing changes (or nothing does)
                if g.r.chance(50) && !sets[i].is_empty() {
                    let k = g.r.below(sets[i].len() as u64) as usize;
                    let bit = g.r.below(64);
                    let s = sets[i][k];
                    sets[i][k] = match s {
                        Set::Key(x) => Set::Key(kin(&mut g.r, x)),
                        Set::Salt(x) => Set::Salt(kin(&mut g.r, x)),
                        Set::Pers(x) => Set::Pers(kin(&mut g.r, x)),
                        Set::Fo(x) => Set::Fo(x ^ 1 << (bit % 8)),
                        Set::Md(x) => Set::Md(x ^ 1 << (bit % 8)),
                        Set::Nd(x) => Set::Nd(x ^ 1 << (bit % 8)),
                        Set::Mll(x) => Set::Mll(x ^ 1 << (bit % 32)),
                        Set::No(x) => Set::No(x ^ 1 << (bit % if v.is_b() { 64 } else { 48 })),
                        Set::Ln(x) => Set::Ln(!x),
                        Set::Hl(x) => Set::Hl(x % v.outb() as u64 + 1),
                        Set::Ihl(x) => Set::Ihl((x + 1) % (v.outb() as u64 + 1)),
                    };
                } else if g.r.chance(70) {
                    let m = msgs[i];
                    msgs[i] = match g.r.below(6) {
                        0 => seg(m.seed, m.off, m.len + 1),
                        1 => seg(m.seed, m.off, m.len.saturating_sub(1)),
                        _ => kin(&mut g.r, m),
                    };
                }
                g.ops.push(Op::PNew(0, v, false));
                for s in &sets[i] {
                    g.ops.push(Op::PSet(0, *s));
                }
                let m = msgs[i];
                let slot = g.r.below(4) as usize;
                match g.r.below(5) {
                    0 => g.ops.push(Op::PHash(0, m, slot)),
                    1 if !v.is_tree() => {
                        let nj = 1 + g.r.below(9) as usize;
                        for k in 0..nj {
                            let x = if g.r.chance(50) { kin(&mut g.r, m) } else { m };
                            g.ops.push(Op::JNew(k, 0, x));
                        }
                        g.ops.push(Op::HashMany(v, (0..nj).collect()));
                        for k in 0..nj {
                            g.ops.push(Op::JHash(k, k % 6));
                        }
                    }
                    2 if !v.is_tree() => {
                        let ns = 1 + g.r.below(6) as usize;
                        let mut pairs = vec![];
                        for k in 0..ns {
                            g.state(0, 10 + k, v);
                            let x = if g.r.chance(50) { kin(&mut g.r, m) } else { m };
                            pairs.push((10 + k, x));
                        }
                        g.ops.push(Op::UpdMany(v, pairs));
                        for k in 0..ns {
                            g.ops.push(Op::Fin(10 + k, k));
                        }
                    }
                    _ => {
                        g.state(0, slot, v);
                        if g.r.chance(30) {
                            let cut = g.r.below(m.len + 1);
                            g.ops.push(Op::Upd(slot, seg(m.seed, m.off, cut)));
                            g.ops.push(Op::Upd(slot, seg(m.seed, m.off + cut, m.len - cut)));
                        } else {
                            g.ops.push(Op::Upd(slot, m));
                        }
                        g.ops.push(Op::Fin(slot, slot));
                    }
                }
                // an earlier object again, after its near copies
                if g.r.chance(30) && !g.s.is_empty() {
                    let i = g.r.below(g.s.len() as u64) as usize;
                    g.fin(i);
                }
            }
            Some(g.ops)
        }
        // ------------------------------------------------------------ scale
        // updates and one-shot inputs from a few bytes to many MiB in one history
        "vast" => {
            let v = g.r.pick(&V::ALL);
            g.fresh_state(0, 0, v);
            let top = g.r.pick(&[14u32, 17, 18, 20, 20, 21, 22]);
            let n = 1 + g.r.below(4);
            let mut left: u64 = 6 << 20;
            for _ in 0..n {
                let (k, v, fill) = g.s[0];
                let l = match g.r.below(6) {
                    0 => length(&mut g.r, v, fill, 3000),
                    1 => {
                        // complete the buffered block first, so that the bulk starts aligned
                        let row = v.blk() as u64 * v.fan() as u64;
                        (row - fill % row) % row
                    }
                    _ => wide(&mut g.r, v, top),
                }
                .min(left);
                left -= l;
                let m = g.msg(l);
                if g.r.chance(30) {
                    g.ops.push(Op::Write(k, m))
                } else {
                    g.ops.push(Op::Upd(k, m))
                }
                g.s[0].2 += l;
                if g.r.chance(50) {
                    g.fin(0)
                }
                if g.r.chance(20) {
                    g.observer(0)
                }
                if g.r.chance(10) {
                    g.ops.push(Op::SClone(0, 1));
                    let f = g.s[0].2;
                    set_slot(&mut g.s, 1, (1, v, f), |x| x.0);
                }
            }
            for i in 0..g.s.len() {
                g.fin(i);
                let k = g.s[i].0;
                g.ops.push(Op::Count(k));
            }
            if g.r.chance(40) {
                if g.p.is_empty() {
                    g.pnew(0, v)
                }
                let l = wide(&mut g.r, v, top);
                let m = g.msg(l);
                g.ops.push(Op::PHash(0, m, 0));
                g.ops.push(Op::One(v, m, 1));
            }
            Some(g.ops)
        }
        // a few very long inputs side by side, of nearly the same or quite different lengths
        "herd" => {
            let v = g.r.pick(&PLAIN);
            let most = if g.r.chance(70) { 8 } else { 18 };
            let n = 2 + g.r.below(most) as usize;
            let top = g.r.pick(&[14u32, 16, 17, 18, 20, 21, 22]);
            let b = v.blk() as u64;
            let cap = (24u64 << 20) / n as u64;
            let base = wide(&mut g.r, v, top).min(cap);
            let mut lens = vec![];
            for _ in 0..n {
                let x = match g.r.below(12) {
                    0..=4 => base,
                    5 => base + b * (1 + g.r.below(3)),
                    6 => base + b * g.r.below(64),
                    7 => near(&mut g.r, base, b + 2),
                    8 => base + g.r.below(base / 2 + 1),
                    9 => base.saturating_sub(b * g.r.below(40)),
                    10 => wide(&mut g.r, v, top),
                    _ => g.r.below(3 * b),
                };
                lens.push(x.min(cap));
            }
            for p in 0..2 {
                g.pnew(p, v);
                let k = g.r.below(3);
                g.sets(p, v, k);
            }
            let all: Vec<usize> = (0..n).collect();
            if g.r.chance(50) {
                for (k, l) in lens.iter().enumerate() {
                    let p = g.r.below(2) as usize;
                    // the same bytes in several lanes, or different ones
                    let sd = if g.r.chance(60) { 2 } else { 2 + k as u32 };
                    let o = g.r.below(3);
                    g.ops.push(Op::JNew(k, p, seg(sd, o, *l)));
                }
                g.ops.push(Op::HashMany(v, all));
                for k in 0..n {
                    g.ops.push(Op::JHash(k, k % 7));
                }
            } else {
                let mut off = vec![0; n];
                for k in 0..n {
                    let p = g.r.below(2) as usize;
                    g.state(p, k, v);
                    if g.r.chance(30) {
                        off[k] = g.r.below(2 * b);
                        g.ops.push(Op::Upd(k, seg(2 + k as u32, 0, off[k])));
                    }
                }
                for q in 0..1 + g.r.below(2) {
                    let sub = if q == 0 { all.clone() } else { distinct_subset(&mut g.r, &all) };
                    let mut pairs = vec![];
                    for k in sub {
                        let l = if q == 0 { lens[k] } else { g.r.below(4 * b) };
                        pairs.push((k, seg(2 + k as u32, off[k], l)));
                        off[k] += l;
                    }
                    g.ops.push(Op::UpdMany(v, pairs));
                }
                for k in 0..n {
                    g.ops.push(Op::Fin(k, k % 7));
                    g.ops.push(Op::Count(k));
                }
            }
            Some(g.ops)
        }
        // very many calls on one object: what only a counter of calls could get wrong
        "drip" => {
            let v = g.r.pick(&[V::B, V::S, V::Bp, V::Sp]);
            g.fresh_state(0, 0, v);
            for _ in 0..g.r.below(3) {
                g.upd(0, 600);
            }
            for _ in 0..1 + g.r.below(2) {
                let n = many_calls(&mut g.r);
                let b = v.blk() as u64;
                let modes: &[char] = if v.is_tree() { &['u', 'w', 'f', 'o', 'c'] } else { &['u', 'w', 'f', 'o', 'c', 'm', 'v'] };
                let m = g.r.pick(modes);
                let n = if m == 'o' { n.min(20000) } else { n };
                let len = match g.r.below(8) {
                    0 => 0,
                    1 => g.r.below(2 * b),
                    2 => n / 2,
                    3..=5 => n,
                    6 => n + g.r.below(n + 1),
                    _ => n * (1 + g.r.below(b + 1)),
                };
                let s = g.msg(len.min(100_000));
                g.ops.push(Op::Rep(0, s, n, m));
                if g.r.chance(50) {
                    g.upd(0, 600);
                }
                g.ops.push(Op::Count(0));
                g.fin(0);
            }
            g.ops.push(Op::SClone(0, 1));
            g.upd(0, 600);
            g.fin(0);
            g.ops.push(Op::Fin(1, 6));
            Some(g.ops)
        }
        // batches of thousands
        "swarm" => {
            let v = g.r.pick(&PLAIN);
            let n = many_calls(&mut g.r);
            let hm = g.r.chance(50);
            let len = g.r.below(3000);
            let m = g.msg(len);
            g.ops.push(Op::Bulk(v, hm, n, m));
            Some(g.ops)
        }
        // batches far beyond the parallelism degree, with stragglers
        "crowd" => {
            let v = g.r.pick(&PLAIN);
            let np = 1 + g.r.below(4) as usize;
            let n = match g.r.below(6) {
                0 | 1 => 12 + g.r.below(40),
                2 | 3 => 50 + g.r.below(90),
                4 => 120 + g.r.below(300),
                _ => 240 + g.r.below(60),
            }
            .min(CROWD as u64) as usize;
            let jobs = g.r.chance(50);
            let mut lens = batch_lens(&mut g.r, v, n);
            for _ in 0..g.r.below(4) {
                let i = g.r.below(n as u64) as usize;
                lens[i] = if g.r.chance(40) { wide(&mut g.r, v, 19) } else { g.r.below(40) * v.blk() as u64 + g.r.below(3) };
            }
            for p in 0..np {
                g.pnew(p, v);
                let k = g.r.below(3);
                g.sets(p, v, k);
                if g.r.chance(40) {
                    let k = bytes_seg(&mut g.r, v.outb() as u64);
                    g.ops.push(Op::PSet(p, Set::Key(k)));
                }
            }
            let all: Vec<usize> = (0..n).collect();
            if jobs {
                for (k, l) in lens.iter().enumerate() {
                    let p = g.r.below(np as u64) as usize;
                    g.ops.push(Op::JNew(k, p, seg(2 + g.r.below(40) as u32, g.r.below(30), *l)));
                }
                let mut done = vec![false; n];
                for q in 0..1 + g.r.below(2) {
                    let sub = if q == 0 && g.r.chance(70) { all.clone() } else { distinct_subset(&mut g.r, &all) };
                    sub.iter().for_each(|x| done[*x] = true);
                    g.ops.push(Op::HashMany(v, sub));
                }
                for k in 0..n {
                    if done[k] {
                        g.ops.push(Op::JHash(k, k % 7));
                    }
                }
            } else {
                let mut off = vec![0; n];
                for k in 0..n {
                    let p = g.r.below(np as u64) as usize;
                    g.state(p, k, v);
                    if g.r.chance(30) {
                        off[k] = g.r.below(2 * v.blk() as u64);
                        g.ops.push(Op::Upd(k, seg(2 + k as u32 % 50, 0, off[k])));
                    }
                }
                for q in 0..1 + g.r.below(2) {
                    let sub = if q == 0 && g.r.chance(70) { all.clone() } else { distinct_subset(&mut g.r, &all) };
                    let mut pairs = vec![];
                    for k in sub {
                        let l = lens[k];
                        pairs.push((k, seg(2 + k as u32 % 50, off[k], l)));
                        off[k] += l;
                    }
                    g.ops.push(Op::UpdMany(v, pairs));
                }
                for k in 0..n {
                    g.ops.push(Op::Fin(k, k % 7));
                    if k % 5 == 0 {
                        g.ops.push(Op::Count(k));
                    }
                }
            }
            Some(g.ops)
        }
        // very many operations on few objects
        "marathon" => {
            let v = g.r.pick(&V::ALL);
            g.fresh_state(0, 0, v);
            let b = v.blk() as u64;
            let mut off = 0;
            let n = 150 + g.r.below(700);
            let style = g.r.below(7);
            let sparse = g.r.pick(&[4u64, 20, 60]);
            let s = 2 + g.r.below(50) as u32;
            if g.p.is_empty() {
                g.pnew(0, v);
            }
            let mut cur = 0;
            for i in 0..n {
                match style {
                    // tiny, equal or mixed pieces
                    0 | 1 => {
                        let l = if style == 0 { 1 + s as u64 % 3 } else { g.r.below(b + 2) };
                        if i % 11 == 3 {
                            g.ops.push(Op::Write(0, seg(s, off, l)));
                        } else {
                            g.ops.push(Op::Upd(0, seg(s, off, l)));
                        }
                        off += l;
                        if i % sparse == 0 {
                            g.ops.push(Op::Fin(0, 0));
                            g.ops.push(Op::Count(0));
                        }
                    }
                    // a chain of clones, each absorbing a little
                    2 => {
                        let nx = (cur + 1) % 9;
                        let l = g.r.below(40);
                        g.ops.push(Op::SClone(cur, nx));
                        g.ops.push(Op::Upd(nx, seg(s, off, l)));
                        off += l;
                        cur = nx;
                        if i % sparse == 0 {
                            g.ops.push(Op::Fin(nx, 0));
                        }
                    }
                    // finalize after finalize
                    3 => {
                        if i % 17 == 0 {
                            let l = g.r.below(b + 2);
                            g.ops.push(Op::Upd(0, seg(s, off, l)));
                            off += l;
                        }
                        match g.r.below(6) {
                            0 => g.ops.push(Op::Flush(0)),
                            1 => g.ops.push(Op::SDbg(0)),
                            2 if !v.is_tree() => {
                                let b = g.r.chance(50);
                                g.ops.push(Op::SLast(0, b))
                            }
                            3 => g.ops.push(Op::SMove(0)),
                            _ => g.ops.push(Op::Fin(0, 0)),
                        }
                    }
                    // one builder, reset again and again and used in between
                    4 => {
                        let f = setter(&mut g.r, v, i % 13 != 5);
                        g.ops.push(Op::PSet(0, f));
                        if i % 5 == 0 {
                            let l = g.r.below(5);
                            g.ops.push(Op::PHash(0, seg(s, 0, l), 0));
                        }
                        if i % 23 == 0 {
                            g.ops.push(Op::PState(0, 1));
                            g.ops.push(Op::Fin(1, 1));
                        }
                    }
                    // one set of states through update_many again and again
                    5 => {
                        let u = if v.is_b() { V::B } else { V::S };
                        let ns = 3 + s as usize % 8;
                        if i == 0 {
                            for k in 0..ns {
                                g.ops.push(Op::SNew(20 + k, u, false));
                            }
                        }
                        let pairs = (0..ns).map(|k| (20 + k, seg(2 + k as u32, 0, g.r.below(2 * b)))).collect();
                        if i < 120 {
                            g.ops.push(Op::UpdMany(u, pairs));
                        }
                        if i % 40 == 39 && i < 120 {
                            for k in 0..ns {
                                g.ops.push(Op::Fin(20 + k, 0));
                            }
                        }
                    }
                    // the same jobs run again and again, cloned over one another
                    _ => {
                        let u = if v.is_b() { V::B } else { V::S };
                        let nj = 3 + s as usize % 8;
                        if i == 0 {
                            g.ops.push(Op::PNew(9, u, false));
                            g.sets(9, u, 2);
                            for k in 0..nj {
                                g.ops.push(Op::JNew(k, 9, seg(2 + k as u32, 0, b * (k as u64 % 4))));
                            }
                            g.ops.push(Op::HashMany(u, (0..nj).collect()));
                        }
                        let all: Vec<usize> = (0..nj).collect();
                        let sub = distinct_subset(&mut g.r, &all);
                        g.ops.push(Op::HashMany(u, sub));
                        if i % 9 == 0 {
                            let a = g.r.below(nj as u64) as usize;
                            g.ops.push(Op::JClone(a, nj));
                            g.ops.push(Op::JHash(nj, 0));
                            g.ops.push(Op::HashMany(u, vec![nj]));
                            g.ops.push(Op::JHash(nj, 0));
                        }
                        if i % 50 == 0 {
                            for k in 0..nj {
                                g.ops.push(Op::JHash(k, 0));
                            }
                        }
                    }
                }
            }
            g.ops.push(Op::Fin(cur, 0));
            g.ops.push(Op::Count(cur));
            g.ops.push(Op::PHash(0, seg(3, 0, 3), 0));
            Some(g.ops)
        }
        // inputs of every length near block boundaries at the edge of accessible memory
        "edge" => {
            let v = V::ALL[(idx % 4) as usize];
            let k = idx / 4;
            let b = v.blk() as u64;
            let top = (2 * v.fan() as u64 + 2) * b + 2;
            if k >= top {
                return if k >= 2100 { None } else { Some(vec![]) };
            }
            let len = k;
            g.ops.push(Op::PNew(0, v, false));
            if k % 5 == 0 {
                g.ops.push(Op::ForcePortable(0));
            }
            g.ops.push(Op::PHash(0, seg(5, 0, len), 0));
            g.state(0, 0, v);
            g.ops.push(Op::Upd(0, seg(5, 0, len)));
            g.ops.push(Op::Fin(0, 1));
            if !v.is_tree() {
                // on every lane of a batch, next to lanes of other lengths
                let d = if v == V::B { 4 } else { 8 };
                let lane = (k % d) as usize;
                for q in 0..d as usize {
                    let l = if q == lane { len } else { [len + b, len / 2, 3 * b, len][(q + k as usize) % 4] };
                    g.ops.push(Op::JNew(q, 0, seg(6 + q as u32, 0, l)));
                }
                g.ops.push(Op::HashMany(v, (0..d as usize).collect()));
                for q in 0..d as usize {
                    g.ops.push(Op::JHash(q, 0));
                }
                let mut pairs = vec![];
                for q in 0..d as usize {
                    g.ops.push(Op::SNew(10 + q, v, false));
                    let l = if q == lane { len } else { [len + b, len / 2, 3 * b, len][(q + k as usize) % 4] };
                    pairs.push((10 + q, seg(6 + q as u32, 0, l)));
                }
                g.ops.push(Op::UpdMany(v, pairs));
                for q in 0..d as usize {
                    g.ops.push(Op::Fin(10 + q, 0));
                }
            }
            Some(g.ops)
        }
        "degree" => {
            if idx >= 1 {
                return None;
            }
            Some(vec![Op::Degree(V::B), Op::Degree(V::S), Op::Max(V::B), Op::Max(V::S)])
        }
        p => panic!("unknown profile {}", p),
    }
}
fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
