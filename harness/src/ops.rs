//! Operations: one public API call each.  The JSON form is the one Api.tla interprets.
use crate::json::{limbs, unlimbs, J};
use crate::refb2::V;

/// A message segment: bytes off..off+len of stream `seed`.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Seg {
    pub seed: u32,
    pub off: u64,
    pub len: u64,
}
pub fn seg(seed: u32, off: u64, len: u64) -> Seg {
    Seg { seed, off, len }
}
impl Seg {
    fn j(&self) -> String {
        format!("[{},{},{}]", self.seed, self.off, self.len)
    }
    fn p(j: &J) -> Seg {
        let a = j.a();
        seg(a[0].n() as u32, a[1].n() as u64, a[2].n() as u64)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mut {
    Id,
    Pre(u32),
    Ext(u8),
    Flip(u32),
    Rot,
}
impl Mut {
    fn j(&self) -> String {
        match self {
            Mut::Id => "[\"id\",0]".into(),
            Mut::Pre(n) => format!("[\"pre\",{}]", n),
            Mut::Ext(n) => format!("[\"ext\",{}]", n),
            Mut::Flip(n) => format!("[\"flip\",{}]", n),
            Mut::Rot => "[\"rot\",0]".into(),
        }
    }
    fn p(j: &J) -> Mut {
        let a = j.a();
        let n = a[1].n();
        match a[0].s() {
            "id" => Mut::Id,
            "pre" => Mut::Pre(n as u32),
            "ext" => Mut::Ext(n as u8),
            "flip" => Mut::Flip(n as u32),
            "rot" => Mut::Rot,
            x => panic!("mut {}", x),
        }
    }
    pub fn apply(&self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        match *self {
            Mut::Id => {}
            Mut::Pre(n) => v.truncate(n as usize),
            Mut::Ext(x) => v.push(x),
            Mut::Flip(n) => {
                if !v.is_empty() {
                    let i = (n as usize / 8) % v.len();
                    v[i] ^= 1 << (n % 8)
                }
            }
            Mut::Rot => {
                if !v.is_empty() {
                    v.rotate_left(1)
                }
            }
        }
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Set {
    Hl(u64),
    Ihl(u64),
    Key(Seg),
    Salt(Seg),
    Pers(Seg),
    Fo(u8),
    Md(u8),
    Nd(u8),
    Mll(u32),
    No(u64),
    Ln(bool),
}

pub type Slot = usize;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Reset,
    PNew(Slot, V, bool), // true: Default::default()
    PSet(Slot, Set),
    PClone(Slot, Slot),
    PState(Slot, Slot),
    PHash(Slot, Seg, Slot),
    PDbg(Slot),
    ForcePortable(Slot),
    ForceSse(Slot), // hook
    One(V, Seg, Slot),
    SNew(Slot, V, bool),
    Upd(Slot, Seg),
    /// the segment in so many calls of one way of absorbing
    Rep(Slot, Seg, u64, char),
    Write(Slot, Seg),
    Flush(Slot),
    SLast(Slot, bool),
    Count(Slot),
    Fin(Slot, Slot),
    SClone(Slot, Slot),
    SMove(Slot),
    SDbg(Slot),
    SBase(Slot, u128), // hook
    UpdMany(V, Vec<(Slot, Seg)>),
    JNew(Slot, Slot, Seg),
    HashMany(V, Vec<Slot>),
    JHash(Slot, Slot),
    JClone(Slot, Slot),
    JDbg(Slot),
    JBase(Slot, u128), // hook
    HBytes(Slot),
    HAsRef(Slot),
    HArr(Slot),
    HHex(Slot),
    HDbg(Slot),
    HCopy(Slot, Slot),
    HEq(Slot, Slot),
    HEqS(Slot, Slot, Mut),
    HFrom(Slot, Slot, Mut, Slot), // (unused, src, mutation, dst)
    /// a batch of so many fresh jobs (true) or states (false): how many differ from working alone
    Bulk(V, bool, u64, Seg),
    Degree(V),
    Max(V),
}

impl Op {
    pub fn kind(&self) -> &'static str {
        use Op::*;
        match self {
            Reset => "reset",
            PNew(_, _, false) => "pnew",
            PNew(_, _, true) => "pdef",
            PSet(..) => "pset",
            PClone(..) => "pcl",
            PState(..) => "pst",
            PHash(..) => "phash",
            PDbg(..) => "pdbg",
            ForcePortable(..) => "fp",
            ForceSse(..) => "fs",
            One(..) => "one",
            SNew(_, _, false) => "snew",
            SNew(_, _, true) => "sdef",
            Upd(..) => "supd",
            Rep(..) => "srep",
            Bulk(..) => "bulk",
            Write(..) => "swr",
            Flush(..) => "sfl",
            SLast(..) => "sln",
            Count(..) => "scnt",
            Fin(..) => "sfin",
            SClone(..) => "scl",
            SMove(..) => "smv",
            SDbg(..) => "sdbg",
            SBase(..) => "sbase",
            UpdMany(..) => "um",
            JNew(..) => "jnew",
            HashMany(..) => "hm",
            JHash(..) => "jhash",
            JClone(..) => "jcl",
            JDbg(..) => "jdbg",
            JBase(..) => "jbase",
            HBytes(..) => "hby",
            HAsRef(..) => "hasref",
            HArr(..) => "harr",
            HHex(..) => "hhex",
            HDbg(..) => "hdbg",
            HCopy(..) => "hcp",
            HEq(..) => "heq",
            HEqS(..) => "heqs",
            HFrom(..) => "hfrom",
            Degree(..) => "deg",
            Max(..) => "max",
        }
    }
    pub fn to_json(&self) -> String {
        use Op::*;
        let k = self.kind();
        match self {
            Reset => format!("[\"{}\"]", k),
            PNew(a, v, _) | SNew(a, v, _) => format!("[\"{}\",{},\"{}\"]", k, a, v.name()),
            PSet(a, s) => {
                let (f, x) = match s {
                    Set::Hl(n) => ("hl", limbs(*n as u128, 4)),
                    Set::Ihl(n) => ("ihl", limbs(*n as u128, 4)),
                    Set::Key(g) => ("key", g.j()),
                    Set::Salt(g) => ("salt", g.j()),
                    Set::Pers(g) => ("pers", g.j()),
                    Set::Fo(n) => ("fo", limbs(*n as u128, 4)),
                    Set::Md(n) => ("md", limbs(*n as u128, 4)),
                    Set::Nd(n) => ("nd", limbs(*n as u128, 4)),
                    Set::Mll(n) => ("mll", limbs(*n as u128, 4)),
                    Set::No(n) => ("no", limbs(*n as u128, 4)),
                    Set::Ln(b) => ("ln", limbs(*b as u128, 4)),
                };
                format!("[\"{}\",{},\"{}\",{}]", k, a, f, x)
            }
            PClone(a, b) | PState(a, b) | Fin(a, b) | SClone(a, b) | JHash(a, b) | JClone(a, b)
            | HCopy(a, b) | HEq(a, b) => format!("[\"{}\",{},{}]", k, a, b),
            PHash(a, g, h) => format!("[\"{}\",{},{},{}]", k, a, g.j(), h),
            One(v, g, h) => format!("[\"{}\",\"{}\",{},{}]", k, v.name(), g.j(), h),
            PDbg(a) | ForcePortable(a) | ForceSse(a) | Flush(a) | Count(a) | SMove(a) | SDbg(a) | JDbg(a)
            | HBytes(a) | HAsRef(a) | HArr(a) | HHex(a) | HDbg(a) => format!("[\"{}\",{}]", k, a),
            Upd(a, g) | Write(a, g) => format!("[\"{}\",{},{}]", k, a, g.j()),
            Rep(a, g, n, m) => format!("[\"{}\",{},{},{},\"{}\"]", k, a, g.j(), n, m),
            Bulk(v, h, n, g) => {
                format!("[\"{}\",\"{}\",\"{}\",{},{}]", k, v.name(), if *h { "hm" } else { "um" }, n, g.j())
            }
            SLast(a, b) => format!("[\"{}\",{},{}]", k, a, *b as u8),
            SBase(a, x) | JBase(a, x) => format!("[\"{}\",{},{}]", k, a, limbs(*x, 8)),
            UpdMany(v, l) => {
                let x: Vec<String> = l.iter().map(|(s, g)| format!("[{},{}]", s, g.j())).collect();
                format!("[\"{}\",\"{}\",[{}]]", k, v.name(), x.join(","))
            }
            JNew(a, p, g) => format!("[\"{}\",{},{},{}]", k, a, p, g.j()),
            HashMany(v, l) => {
                let x: Vec<String> = l.iter().map(|s| s.to_string()).collect();
                format!("[\"{}\",\"{}\",[{}]]", k, v.name(), x.join(","))
            }
            HEqS(a, b, m) => format!("[\"{}\",{},{},{}]", k, a, b, m.j()),
            HFrom(a, b, m, d) => format!("[\"{}\",{},{},{},{}]", k, a, b, m.j(), d),
            Degree(v) | Max(v) => format!("[\"{}\",\"{}\"]", k, v.name()),
        }
    }
    /// the same operation on slots moved up by d
    pub fn shift(&self, d: usize) -> Op {
        use Op::*;
        let mut o = self.clone();
        match &mut o {
            Reset | Degree(_) | Max(_) | Bulk(..) => {}
            PNew(a, ..) | PSet(a, _) | PDbg(a) | ForcePortable(a) | ForceSse(a) | SNew(a, ..) | Upd(a, _) | Rep(a, ..)
            | Write(a, _) | Flush(a) | SLast(a, _) | Count(a) | SMove(a) | SDbg(a) | SBase(a, _) | JDbg(a)
            | JBase(a, _) | HBytes(a) | HAsRef(a) | HArr(a) | HHex(a) | HDbg(a) => *a += d,
            PClone(a, b) | PState(a, b) | Fin(a, b) | SClone(a, b) | JHash(a, b) | JClone(a, b) | HCopy(a, b)
            | HEq(a, b) | HEqS(a, b, _) | JNew(a, b, _) | PHash(a, _, b) => {
                *a += d;
                *b += d
            }
            One(_, _, a) => *a += d,
            UpdMany(_, l) => l.iter_mut().for_each(|x| x.0 += d),
            HashMany(_, l) => l.iter_mut().for_each(|x| *x += d),
            HFrom(a, b, _, c) => {
                *a += d;
                *b += d;
                *c += d
            }
        }
        o
    }
    pub fn is_hook(&self) -> bool {
        matches!(self, Op::ForceSse(_) | Op::SBase(..) | Op::JBase(..))
    }
    pub fn parse(j: &J) -> Op {
        use Op::*;
        let a = j.a();
        let n = |i: usize| a[i].n() as usize;
        let v = |i: usize| V::parse(a[i].s());
        let g = |i: usize| Seg::p(&a[i]);
        match a[0].s() {
            "reset" => Reset,
            "pnew" => PNew(n(1), v(2), false),
            "pdef" => PNew(n(1), v(2), true),
            "pset" => {
                let x = &a[3];
                let num = || unlimbs(x) as u64;
                let s = match a[2].s() {
                    "hl" => Set::Hl(num()),
                    "ihl" => Set::Ihl(num()),
                    "key" => Set::Key(g(3)),
                    "salt" => Set::Salt(g(3)),
                    "pers" => Set::Pers(g(3)),
                    "fo" => Set::Fo(num() as u8),
                    "md" => Set::Md(num() as u8),
                    "nd" => Set::Nd(num() as u8),
                    "mll" => Set::Mll(num() as u32),
                    "no" => Set::No(num()),
                    "ln" => Set::Ln(num() == 1),
                    f => panic!("field {}", f),
                };
                PSet(n(1), s)
            }
            "pcl" => PClone(n(1), n(2)),
            "pst" => PState(n(1), n(2)),
            "phash" => PHash(n(1), g(2), n(3)),
            "pdbg" => PDbg(n(1)),
            "fp" => ForcePortable(n(1)),
            "fs" => ForceSse(n(1)),
            "one" => One(v(1), g(2), n(3)),
            "snew" => SNew(n(1), v(2), false),
            "sdef" => SNew(n(1), v(2), true),
            "supd" => Upd(n(1), g(2)),
            "swr" => Write(n(1), g(2)),
            "srep" => Rep(n(1), g(2), a[3].n() as u64, a[4].s().chars().next().unwrap()),
            "bulk" => Bulk(v(1), a[2].s() == "hm", a[3].n() as u64, g(4)),
            "sfl" => Flush(n(1)),
            "sln" => SLast(n(1), n(2) == 1),
            "scnt" => Count(n(1)),
            "sfin" => Fin(n(1), n(2)),
            "scl" => SClone(n(1), n(2)),
            "smv" => SMove(n(1)),
            "sdbg" => SDbg(n(1)),
            "sbase" => SBase(n(1), unlimbs(&a[2])),
            "um" => UpdMany(
                v(1),
                a[2].a().iter().map(|x| (x.a()[0].n() as usize, Seg::p(&x.a()[1]))).collect(),
            ),
            "jnew" => JNew(n(1), n(2), g(3)),
            "hm" => HashMany(v(1), a[2].a().iter().map(|x| x.n() as usize).collect()),
            "jhash" => JHash(n(1), n(2)),
            "jcl" => JClone(n(1), n(2)),
            "jdbg" => JDbg(n(1)),
            "jbase" => JBase(n(1), unlimbs(&a[2])),
            "hby" => HBytes(n(1)),
            "hasref" => HAsRef(n(1)),
            "harr" => HArr(n(1)),
            "hhex" => HHex(n(1)),
            "hdbg" => HDbg(n(1)),
            "hcp" => HCopy(n(1), n(2)),
            "heq" => HEq(n(1), n(2)),
            "heqs" => HEqS(n(1), n(2), Mut::p(&a[3])),
            "hfrom" => HFrom(n(1), n(2), Mut::p(&a[3]), n(4)),
            "deg" => Degree(v(1)),
            "max" => Max(v(1)),
            x => panic!("op {}", x),
        }
    }
}
