//! Mirror of spec/Api.tla: the abstract API state and the results the specification allows.
use crate::ops::{Op, Seg, Set, Slot};
use crate::refb2::{digest, fill_stream, seg_bytes, Prm, Ref, V};
use crate::world::{Fv, Res, SLOTS};

#[derive(Clone, Debug)]
pub struct MP {
    pub v: V,
    pub prm: Prm,
}
#[derive(Clone, Debug)]
pub struct MS {
    pub v: V,
    pub prm: Prm,
    pub segs: Vec<Seg>,
    pub n: u64,
    pub base: u128,
}
#[derive(Clone, Debug)]
pub struct MJ {
    pub v: V,
    pub prm: Prm,
    pub seg: Seg,
    pub base: u128,
    pub done: bool,
}
#[derive(Clone, Debug)]
pub struct MH {
    pub v: V,
    pub val: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Ok,
    Any,
    Panic,
    Bytes(Vec<u8>),
    Chars(Vec<u8>),
    Num(u64),
    Cnt(u128),
    Bool(u8),
    Dbg(Vec<(String, Fv)>),
    Degree,
    AtLeast1,
}

pub struct Mirror {
    pub p: Vec<Option<MP>>,
    pub s: Vec<Option<MS>>,
    pub j: Vec<Option<MJ>>,
    pub h: Vec<Option<MH>>,
    pub debug: bool,
    pub degree: [u64; 2], // expected degree for b, s (0 = only bounds)
    pub blocks: u64,      // compressions the specification needs for this scenario
    cache: Vec<(V, Prm, Vec<Seg>, u128, Vec<u8>)>,
    pub use_cache: bool,
    /// only account for costs
    pub dry: bool,
}
fn none<T>() -> Vec<Option<T>> {
    (0..SLOTS).map(|_| None).collect()
}

fn cat(segs: &[Seg]) -> Vec<u8> {
    let n: u64 = segs.iter().map(|s| s.len).sum();
    let mut out = vec![0; n as usize];
    let mut k = 0;
    for g in segs {
        fill_stream(g.seed, g.off, &mut out[k..k + g.len as usize]);
        k += g.len as usize;
    }
    out
}
/// merge adjacent pieces of one stream
fn push_seg(segs: &mut Vec<Seg>, g: Seg) {
    if g.len == 0 {
        return;
    }
    if let Some(l) = segs.last_mut() {
        if l.seed == g.seed && l.off + l.len == g.off {
            l.len += g.len;
            return;
        }
    }
    segs.push(g)
}
pub fn cost(v: V, keyed: bool, n: u64) -> u64 {
    let b = v.blk() as u64;
    if v.is_tree() {
        n / b + 1 + v.fan() as u64 * (1 + keyed as u64) + v.fan() as u64 / 2 + 1
    } else {
        n / b + 1 + keyed as u64
    }
}

impl Mirror {
    pub fn new(debug: bool, degree: [u64; 2]) -> Mirror {
        Mirror { p: none(), s: none(), j: none(), h: none(), debug, degree, blocks: 0, cache: vec![], use_cache: true, dry: false }
    }
    pub fn reset(&mut self) {
        self.p.iter_mut().for_each(|x| *x = None);
        self.s.iter_mut().for_each(|x| *x = None);
        self.j.iter_mut().for_each(|x| *x = None);
        self.h.iter_mut().for_each(|x| *x = None);
        self.blocks = 0;
    }
    fn dig(&mut self, v: V, prm: &Prm, segs: &[Seg], base: u128) -> Vec<u8> {
        let n: u64 = segs.iter().map(|s| s.len).sum();
        self.blocks += cost(v, !prm.key.is_empty(), n);
        if self.dry {
            return vec![0; prm.hl as usize];
        }
        if self.use_cache {
            for c in &self.cache {
                if c.0 == v && c.3 == base && c.2 == segs && c.1 == *prm {
                    return c.4.clone();
                }
            }
        }
        let out = if n > 1 << 20 {
            // stream it in pieces
            let mut r = Ref::new(v, prm, base);
            let mut buf = vec![0; 1 << 16];
            for g in segs {
                let mut k = 0;
                while k < g.len {
                    let t = (g.len - k).min(1 << 16) as usize;
                    fill_stream(g.seed, g.off + k, &mut buf[..t]);
                    r.update(&buf[..t]);
                    k += t as u64;
                }
            }
            r.finish()
        } else {
            digest(v, prm, &cat(segs), base)
        };
        if self.use_cache {
            if self.cache.len() >= 6 {
                self.cache.remove(0);
            }
            self.cache.push((v, prm.clone(), segs.to_vec(), base, out.clone()));
        }
        out
    }
    pub fn legal(v: V, s: &Set) -> bool {
        let ob = v.outb() as u64;
        match s {
            Set::Hl(n) => *n >= 1 && *n <= ob,
            Set::Ihl(n) => *n <= ob,
            Set::Key(g) => g.len <= ob,
            Set::Salt(g) | Set::Pers(g) => g.len <= v.saltb() as u64,
            Set::No(n) => v.is_b() || *n < 1 << 48,
            _ => true,
        }
    }
    fn put_h(&mut self, h: Slot, v: V, val: Vec<u8>) -> Exp {
        self.h[h] = Some(MH { v: if v.is_b() { V::B } else { V::S }, val: val.clone() });
        Exp::Bytes(val)
    }
    fn prm_fields(v: V, p: &Prm) -> Vec<(String, Fv)> {
        let pad = |x: &Vec<u8>| {
            let mut x = x.clone();
            x.resize(v.saltb(), 0);
            Fv::L(x)
        };
        let n = |x: u128| Fv::N(x);
        vec![
            ("hash_length".into(), n(p.hl as u128)),
            ("key_length".into(), n(p.key.len() as u128)),
            ("salt".into(), pad(&p.salt)),
            ("personal".into(), pad(&p.pers)),
            ("fanout".into(), n(p.fo as u128)),
            ("max_depth".into(), n(p.md as u128)),
            ("max_leaf_length".into(), n(p.mll as u128)),
            ("node_offset".into(), n(p.no as u128)),
            ("node_depth".into(), n(p.nd as u128)),
            ("inner_hash_length".into(), n(p.ihl as u128)),
            ("last_node".into(), Fv::B(p.ln)),
        ]
    }
    pub fn count_of(st: &MS) -> u128 {
        let x = st.base.wrapping_mul(st.v.fan() as u128).wrapping_add(st.n as u128);
        if st.v.is_b() {
            x
        } else {
            x as u64 as u128
        }
    }
    pub fn enabled(&self, op: &Op) -> bool {
        let hp = |a: &Slot| self.p[*a].is_some();
        let hs = |a: &Slot| self.s[*a].is_some();
        let hj = |a: &Slot| self.j[*a].is_some();
        let hh = |a: &Slot| self.h[*a].is_some();
        match op {
            Op::Reset | Op::PNew(..) | Op::SNew(..) | Op::One(..) | Op::Degree(_) | Op::Max(_) => true,
            Op::PSet(a, s) => {
                hp(a) && (!self.p[*a].as_ref().unwrap().v.is_tree() || matches!(s, Set::Hl(_) | Set::Key(_)))
            }
            Op::PClone(a, _) | Op::PState(a, _) | Op::PHash(a, _, _) | Op::PDbg(a) | Op::ForcePortable(a) | Op::ForceSse(a) => hp(a),
            Op::JNew(_, p, _) => hp(p) && !self.p[*p].as_ref().unwrap().v.is_tree(),
            Op::Upd(a, _) | Op::Write(a, _) | Op::Flush(a) | Op::Count(a) | Op::Fin(a, _) | Op::SClone(a, _)
            | Op::SMove(a) | Op::SDbg(a) | Op::SBase(a, _) => hs(a),
            Op::Bulk(v, _, n, _) => !v.is_tree() && *n > 0,
            Op::Rep(a, _, n, m) => {
                hs(a) && *n > 0 && (!matches!(m, 'm' | 'v') || !self.s[*a].as_ref().unwrap().v.is_tree())
            }
            Op::SLast(a, _) => hs(a) && !self.s[*a].as_ref().unwrap().v.is_tree(),
            Op::UpdMany(v, l) => {
                l.iter().all(|(s, _)| hs(s) && self.s[*s].as_ref().unwrap().v == *v) && distinct(l.iter().map(|x| x.0))
            }
            Op::HashMany(v, l) => {
                l.iter().all(|s| hj(s) && self.j[*s].as_ref().unwrap().v == *v) && distinct(l.iter().cloned())
            }
            Op::JHash(a, _) | Op::JClone(a, _) | Op::JDbg(a) | Op::JBase(a, _) => hj(a),
            Op::HBytes(a) | Op::HAsRef(a) | Op::HArr(a) | Op::HHex(a) | Op::HDbg(a) | Op::HCopy(a, _) => hh(a),
            Op::HEq(a, b) | Op::HEqS(a, b, _) | Op::HFrom(a, b, _, _) => {
                hh(a) && hh(b) && self.h[*a].as_ref().unwrap().v == self.h[*b].as_ref().unwrap().v
            }
        }
    }
    /// The specification's result for `op`, and its effect on the abstract state.
    pub fn step(&mut self, op: &Op) -> Exp {
        match op {
            Op::Reset => {
                self.reset();
                Exp::Ok
            }
            Op::PNew(a, v, _) => {
                self.p[*a] = Some(MP { v: *v, prm: Prm::new(*v) });
                Exp::Ok
            }
            Op::PSet(a, s) => {
                let m = self.p[*a].as_mut().unwrap();
                if !Mirror::legal(m.v, s) {
                    return Exp::Panic;
                }
                match s {
                    Set::Hl(n) => m.prm.hl = *n as u8,
                    Set::Ihl(n) => m.prm.ihl = *n as u8,
                    Set::Key(g) => m.prm.key = seg_bytes(g.seed, g.off, g.len),
                    Set::Salt(g) => m.prm.salt = seg_bytes(g.seed, g.off, g.len),
                    Set::Pers(g) => m.prm.pers = seg_bytes(g.seed, g.off, g.len),
                    Set::Fo(n) => m.prm.fo = *n,
                    Set::Md(n) => m.prm.md = *n,
                    Set::Nd(n) => m.prm.nd = *n,
                    Set::Mll(n) => m.prm.mll = *n,
                    Set::No(n) => m.prm.no = *n,
                    Set::Ln(b) => m.prm.ln = *b,
                }
                Exp::Ok
            }
            Op::PClone(a, b) => {
                self.p[*b] = self.p[*a].clone();
                Exp::Ok
            }
            Op::PState(a, b) => {
                let p = self.p[*a].clone().unwrap();
                self.s[*b] = Some(MS { v: p.v, prm: p.prm, segs: vec![], n: 0, base: 0 });
                Exp::Ok
            }
            Op::PHash(a, g, h) => {
                let p = self.p[*a].clone().unwrap();
                let d = self.dig(p.v, &p.prm, &[*g], 0);
                self.put_h(*h, p.v, d)
            }
            Op::One(v, g, h) => {
                let d = self.dig(*v, &Prm::new(*v), &[*g], 0);
                self.put_h(*h, *v, d)
            }
            Op::PDbg(a) => {
                let p = self.p[*a].as_ref().unwrap();
                Exp::Dbg(Mirror::prm_fields(p.v, &p.prm))
            }
            Op::SDbg(a) => {
                let s = self.s[*a].as_ref().unwrap();
                let mut f = Mirror::prm_fields(s.v, &s.prm);
                f.push(("count".into(), Fv::N(Mirror::count_of(s))));
                Exp::Dbg(f)
            }
            Op::JDbg(a) => {
                let j = self.j[*a].as_ref().unwrap();
                let mut f = Mirror::prm_fields(j.v, &j.prm);
                f.push(("input_len".into(), Fv::N(j.seg.len as u128)));
                Exp::Dbg(f)
            }
            Op::ForcePortable(_) | Op::ForceSse(_) | Op::SMove(_) | Op::Flush(_) => Exp::Ok,
            Op::SNew(a, v, _) => {
                self.s[*a] = Some(MS { v: *v, prm: Prm::new(*v), segs: vec![], n: 0, base: 0 });
                Exp::Ok
            }
            Op::Upd(a, g) => {
                self.absorb(*a, *g);
                Exp::Ok
            }
            Op::Write(a, g) => {
                self.absorb(*a, *g);
                Exp::Num(g.len)
            }
            Op::Rep(a, g, _, _) => {
                self.absorb(*a, *g);
                Exp::Num(g.len)
            }
            Op::Bulk(..) => Exp::Num(0),
            Op::SLast(a, b) => {
                self.s[*a].as_mut().unwrap().prm.ln = *b;
                Exp::Ok
            }
            Op::Count(a) => Exp::Cnt(Mirror::count_of(self.s[*a].as_ref().unwrap())),
            Op::Fin(a, h) => {
                let s = self.s[*a].clone().unwrap();
                let d = self.dig(s.v, &s.prm, &s.segs, s.base);
                self.put_h(*h, s.v, d)
            }
            Op::SClone(a, b) => {
                self.s[*b] = self.s[*a].clone();
                Exp::Ok
            }
            Op::SBase(a, x) => {
                let s = self.s[*a].as_mut().unwrap();
                s.base = s.base.wrapping_add(*x);
                Exp::Ok
            }
            Op::UpdMany(_, l) => {
                for (s, g) in l {
                    self.absorb(*s, *g)
                }
                Exp::Ok
            }
            Op::JNew(a, p, g) => {
                let p = self.p[*p].clone().unwrap();
                let done = g.len == 0 && !p.prm.key.is_empty();
                self.j[*a] = Some(MJ { v: p.v, prm: p.prm, seg: *g, base: 0, done });
                Exp::Ok
            }
            Op::JBase(a, x) => {
                let j = self.j[*a].as_mut().unwrap();
                j.base = j.base.wrapping_add(*x);
                Exp::Ok
            }
            Op::HashMany(_, l) => {
                for s in l {
                    self.j[*s].as_mut().unwrap().done = true
                }
                Exp::Ok
            }
            Op::JHash(a, h) => {
                let j = self.j[*a].clone().unwrap();
                if !j.done {
                    return if self.debug { Exp::Panic } else { Exp::Any };
                }
                let d = self.dig(j.v, &j.prm, &[j.seg], j.base);
                self.put_h(*h, j.v, d)
            }
            Op::JClone(a, b) => {
                self.j[*b] = self.j[*a].clone();
                Exp::Ok
            }
            Op::HBytes(a) | Op::HAsRef(a) => Exp::Bytes(self.h[*a].as_ref().unwrap().val.clone()),
            Op::HArr(a) => {
                let h = self.h[*a].as_ref().unwrap();
                if h.val.len() == h.v.outb() {
                    Exp::Bytes(h.val.clone())
                } else if self.debug {
                    Exp::Panic
                } else {
                    Exp::Any
                }
            }
            Op::HHex(a) | Op::HDbg(a) => Exp::Chars(
                self.h[*a].as_ref().unwrap().val.iter().flat_map(|b| format!("{:02x}", b).into_bytes()).collect(),
            ),
            Op::HCopy(a, b) => {
                self.h[*b] = self.h[*a].clone();
                Exp::Ok
            }
            Op::HEq(a, b) => {
                Exp::Bool((self.h[*a].as_ref().unwrap().val == self.h[*b].as_ref().unwrap().val) as u8)
            }
            Op::HEqS(a, b, m) => {
                let sl = m.apply(&self.h[*b].as_ref().unwrap().val);
                Exp::Bool((self.h[*a].as_ref().unwrap().val == sl) as u8)
            }
            Op::HFrom(_, b, m, d) => {
                let src = self.h[*b].clone().unwrap();
                let mut x = m.apply(&src.val);
                x.resize(src.v.outb(), 0);
                self.h[*d] = Some(MH { v: src.v, val: x });
                Exp::Ok
            }
            Op::Degree(_) => Exp::Degree,
            Op::Max(_) => Exp::AtLeast1,
        }
    }
    fn absorb(&mut self, s: Slot, g: Seg) {
        let st = self.s[s].as_mut().unwrap();
        push_seg(&mut st.segs, g);
        st.n += g.len;
    }
    pub fn allowed(&self, op: &Op, e: &Exp, r: &Res) -> bool {
        match (e, r) {
            (Exp::Any, _) => true,
            (Exp::Ok, Res::Ok) => true,
            (Exp::Panic, Res::Panic(_)) => true,
            (Exp::Bytes(a), Res::Bytes(b)) => a == b,
            (Exp::Chars(a), Res::Chars(b)) => a == b,
            (Exp::Num(a), Res::Num(b, _)) => a == b,
            (Exp::Cnt(a), Res::Cnt(b)) => a == b,
            (Exp::Bool(a), Res::Bool(b)) => a == b,
            (Exp::AtLeast1, Res::Num(a, _)) => *a >= 1,
            (Exp::Degree, Res::Num(a, m)) => {
                let want = match op {
                    Op::Degree(v) => self.degree[if v.is_b() { 0 } else { 1 }],
                    _ => 0,
                };
                *a >= 1 && a <= m && (want == 0 || want == *a)
            }
            (Exp::Dbg(f), Res::Dbg(_, got)) => {
                let job = matches!(op, Op::JDbg(_));
                got.iter().all(|(n, x)| {
                    if job && n == "count" {
                        return true;
                    }
                    match f.iter().find(|(m, _)| m == n) {
                        Some((_, want)) => want == x || kinds_differ(want, x),
                        None => true,
                    }
                })
            }
            _ => false,
        }
    }
}
/// a field printed in a form we do not recognise is not judged
fn kinds_differ(a: &Fv, b: &Fv) -> bool {
    std::mem::discriminant(a) != std::mem::discriminant(b)
}
fn distinct(it: impl Iterator<Item = Slot>) -> bool {
    let mut seen = [false; SLOTS];
    for s in it {
        if seen[s] {
            return false;
        }
        seen[s] = true;
    }
    true
}
