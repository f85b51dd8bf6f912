//! Runs scenarios on the real crates next to the mirror of the specification, recording traces.
use crate::gen::HOOKS;
use crate::json;
use crate::mirror::{Exp, Mirror};
use crate::ops::Op;
use crate::world::{Fv, Res, World};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Stats {
    pub ops: BTreeMap<&'static str, u64>,
    pub panics: u64,
    pub scenarios: u64,
    pub situations: HashSet<u64>,
    pub bytes: u64,
    pub skipped: u64,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.ops {
            *self.ops.entry(k).or_default() += v
        }
        self.panics += o.panics;
        self.scenarios += o.scenarios;
        self.situations.extend(o.situations);
        self.bytes += o.bytes;
        self.skipped += o.skipped;
    }
    pub fn json(&self) -> String {
        let ops: Vec<String> = self.ops.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        format!(
            "\"calls\":{},\"scenarios\":{},\"situations\":{},\"expected_panics\":{},\"message_bytes\":{},\"skipped_ops\":{},\"ops\":{{{}}}",
            self.ops.values().sum::<u64>(),
            self.scenarios,
            self.situations.len(),
            self.panics,
            self.bytes,
            self.skipped,
            ops.join(",")
        )
    }
}

pub fn fv(n: &str, x: &Fv) -> String {
    match x {
        Fv::N(v) => format!("[\"{}\",\"n\",{}]", n, json::limbs(*v, 8)),
        Fv::L(v) => format!("[\"{}\",\"l\",{}]", n, json::bytes(v)),
        Fv::B(b) => format!("[\"{}\",\"b\",{}]", n, *b as u8),
    }
}
/// JSON of an observed result; `t2` is the text seen in the twin world.
pub fn res_json(r: &Res, t2: Option<&Res>) -> String {
    let clip = |n: u64| n.min(i32::MAX as u64);
    match r {
        Res::Ok => "{\"k\":\"ok\"}".into(),
        Res::Skip => "{\"k\":\"skip\"}".into(),
        Res::Panic(t) => {
            let u = match t2 {
                Some(Res::Panic(u)) => u.clone(),
                Some(_) => "<no panic in the twin>".into(),
                None => t.clone(),
            };
            format!("{{\"k\":\"panic\",\"t\":{},\"t2\":{}}}", json::esc(t), json::esc(&u))
        }
        Res::Bytes(b) => format!("{{\"k\":\"bytes\",\"b\":{}}}", json::bytes(b)),
        Res::Chars(b) => format!("{{\"k\":\"chars\",\"b\":{}}}", json::bytes(b)),
        Res::Num(n, m) => format!("{{\"k\":\"num\",\"n\":{},\"max\":{}}}", clip(*n), clip(*m)),
        Res::Cnt(n) => format!("{{\"k\":\"cnt\",\"n\":{}}}", json::limbs(*n, 8)),
        Res::Bool(b) => format!("{{\"k\":\"bool\",\"v\":{}}}", b),
        Res::Dbg(t, f) => {
            let u = match t2 {
                Some(Res::Dbg(u, _)) => u.clone(),
                Some(_) => "<different outcome in the twin>".into(),
                None => t.clone(),
            };
            let fs: Vec<String> = f.iter().map(|(n, x)| fv(n, x)).collect();
            format!("{{\"k\":\"dbg\",\"t\":{},\"t2\":{},\"f\":[{}]}}", json::esc(t), json::esc(&u), fs.join(","))
        }
    }
}

pub struct Mismatch {
    pub op: usize,
    pub what: String,
    /// the trace line as it was observed
    pub line: String,
}

pub struct Runner {
    pub w: World,
    pub twin: Option<World>,
    pub m: Mirror,
}

fn situation(op: &Op, m: &Mirror) -> Option<u64> {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    op.kind().hash(&mut h);
    let st = |s: usize, len: u64, h: &mut std::collections::hash_map::DefaultHasher| {
        let st = m.s[s].as_ref().unwrap();
        let row = st.v.blk() as u64 * st.v.fan() as u64 * if st.v.is_tree() { 2 } else { 1 };
        let first = st.n <= row;
        (st.v, st.n % row, first && st.n > 0, len.min(4 * row), !st.prm.key.is_empty()).hash(h);
    };
    match op {
        Op::Upd(s, g) | Op::Write(s, g) => st(*s, g.len, &mut h),
        Op::Fin(s, _) => {
            let x = m.s[*s].as_ref().unwrap();
            (x.v, x.n % (2 * x.v.blk() as u64 * x.v.fan() as u64), x.prm.hl, x.prm.key.len(), x.prm.ln, x.base).hash(&mut h)
        }
        Op::Rep(s, g, n, m) => {
            (n, m).hash(&mut h);
            st(*s, g.len, &mut h)
        }
        Op::Bulk(v, k, n, g) => (v, k, n, g.len).hash(&mut h),
        Op::UpdMany(v, l) => {
            v.hash(&mut h);
            for (s, g) in l {
                let b = v.blk() as u64;
                let x = m.s[*s].as_ref().unwrap();
                (x.n % b, (x.n + g.len) / b, g.len % b == 0, g.len == 0).hash(&mut h)
            }
        }
        Op::HashMany(v, l) => {
            v.hash(&mut h);
            for s in l {
                let b = v.blk() as u64;
                let j = m.j[*s].as_ref().unwrap();
                (j.seg.len / b, j.seg.len % b == 0, j.seg.len == 0, j.done, !j.prm.key.is_empty()).hash(&mut h)
            }
        }
        Op::PHash(p, g, _) => {
            let p = m.p[*p].as_ref().unwrap();
            (p.v, g.len.min(20000), p.prm.hl, p.prm.key.len(), p.prm.salt.len(), p.prm.pers.len()).hash(&mut h);
            (p.prm.fo, p.prm.md, p.prm.nd, p.prm.no, p.prm.mll, p.prm.ihl, p.prm.ln).hash(&mut h)
        }
        Op::PSet(p, s) => (m.p[*p].as_ref().unwrap().v, s).hash(&mut h),
        Op::HEqS(a, b, x) => {
            let (a, b) = (m.h[*a].as_ref().unwrap(), m.h[*b].as_ref().unwrap());
            (a.v, a.val.len(), b.val.len(), x).hash(&mut h)
        }
        Op::HEq(a, b) => {
            let (a, b) = (m.h[*a].as_ref().unwrap(), m.h[*b].as_ref().unwrap());
            (a.v, a.val.len(), b.val.len(), a.val == b.val).hash(&mut h)
        }
        Op::Count(s) => {
            let x = m.s[*s].as_ref().unwrap();
            (x.v, x.n, x.base, !x.prm.key.is_empty()).hash(&mut h)
        }
        _ => return None,
    }
    Some(h.finish())
}

impl Runner {
    pub fn new(debug: bool, degree: [u64; 2], twin: bool) -> Runner {
        Runner {
            w: World::new(false),
            twin: if twin { Some(World::new(true)) } else { None },
            m: Mirror::new(debug, degree),
        }
    }
    /// One operation: observed result (with twin), and whether the mirror allows it.
    pub fn step(&mut self, op: &Op, stats: &mut Stats) -> Result<(Res, Option<Res>), (Res, Option<Res>, String)> {
        if !self.m.enabled(op) {
            panic!("operation not enabled: {}", op.to_json());
        }
        if op.is_hook() && !HOOKS {
            stats.skipped += 1;
            return Ok((Res::Skip, None));
        }
        if let Some(k) = situation(op, &self.m) {
            if stats.situations.len() < 1 << 20 {
                stats.situations.insert(k);
            }
        }
        *stats.ops.entry(op.kind()).or_default() += 1;
        match op {
            Op::Upd(_, g) | Op::Write(_, g) | Op::Rep(_, g, _, _) | Op::PHash(_, g, _) | Op::One(_, g, _) => stats.bytes += g.len,
            Op::UpdMany(_, l) => stats.bytes += l.iter().map(|x| x.1.len).sum::<u64>(),
            _ => {}
        }
        let keep = if let Op::JHash(_, h) = op { self.w.take_h(*h) } else { None };
        let r = self.w.run(op);
        if r == Res::Skip {
            stats.skipped += 1;
            return Ok((r, None));
        }
        let exp = self.m.step(op);
        let keep2 = match (op, &mut self.twin) {
            (Op::JHash(_, h), Some(t)) => t.take_h(*h),
            _ => None,
        };
        let r2 = self.twin.as_mut().map(|t| t.run(op));
        if let Op::JHash(_, h) = op {
            // a refused or unspecified call leaves the destination alone
            if matches!(exp, Exp::Any | Exp::Panic) {
                self.w.put_h(*h, keep);
                if let Some(t) = &mut self.twin {
                    t.put_h(*h, keep2)
                }
            }
        }
        if let (Exp::Panic, Res::Panic(_)) = (&exp, &r) {
            stats.panics += 1
        }
        let mut why = None;
        if !self.m.dry && !self.m.allowed(op, &exp, &r) {
            why = Some(format!("specification {:?}, observed {:?}", exp, r));
        } else if exp != Exp::Any {
            match (&r, &r2) {
                (Res::Panic(a), Some(Res::Panic(b))) | (Res::Dbg(a, _), Some(Res::Dbg(b, _))) => {
                    if a != b {
                        why = Some(format!("text depends on secrets: {:?} / {:?}", a, b))
                    }
                }
                (Res::Panic(_), Some(x)) | (Res::Dbg(..), Some(x)) => {
                    why = Some(format!("outcome depends on secrets: {:?} / {:?}", r, x))
                }
                _ => {}
            }
        }
        match why {
            None => Ok((r, r2)),
            Some(w) => Err((r, r2, w)),
        }
    }
    /// Run one scenario from an empty world.  `rec` receives trace lines.
    pub fn scenario(
        &mut self,
        ops: &[Op],
        mut rec: Option<&mut Vec<String>>,
        stats: &mut Stats,
        progress: impl Fn(usize),
    ) -> Option<Mismatch> {
        stats.scenarios += 1;
        if let Some(v) = rec.as_mut() {
            v.push("{\"o\":[\"reset\"],\"r\":{\"k\":\"ok\"}}".into())
        }
        self.m.reset();
        let h = {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            for o in ops {
                o.kind().hash(&mut h)
            }
            h.finish()
        };
        self.w.seed(h);
        if let Some(t) = &mut self.twin {
            t.seed(h)
        }
        let mut out = None;
        for (i, op) in ops.iter().enumerate() {
            progress(i);
            let (r, r2, bad) = match self.step(op, stats) {
                Ok((Res::Skip, _)) => continue,
                Ok((r, r2)) => (r, r2, None),
                Err((r, r2, w)) => (r, r2, Some(w)),
            };
            let line = || format!("{{\"o\":{},\"r\":{}}}", op.to_json(), res_json(&r, r2.as_ref()));
            if let Some(v) = rec.as_mut() {
                v.push(line())
            }
            if let Some(w) = bad {
                out = Some(Mismatch { op: i, what: w, line: line() });
                break;
            }
        }
        let clean = self.w.reset().and(self.twin.as_mut().map_or(Ok(()), |t| t.reset()));
        if let (Err(e), None) = (clean, &out) {
            let line = format!("{{\"o\":[\"integrity\"],\"r\":{{\"k\":\"broken\",\"t\":{}}}}}", json::esc(&e));
            if let Some(v) = rec.as_mut() {
                v.push(line.clone())
            }
            out = Some(Mismatch { op: ops.len(), what: e, line });
        }
        out
    }
}
