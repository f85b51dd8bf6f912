//! Executes operations on the real crates and reports what was observed.
use crate::mem::{Arena, Cell, Placed};
use crate::ops::{Op, Seg, Set, Slot};
use crate::refb2::V;
use blake2b_simd as cb;
use blake2s_simd as cs;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const SLOTS: usize = if cfg!(miri) { 160 } else { 600 };

#[derive(Clone, Debug, PartialEq)]
pub enum Fv {
    N(u128),
    L(Vec<u8>),
    B(bool),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Panic(String),
    Bytes(Vec<u8>),
    Chars(Vec<u8>),
    Num(u64, u64),
    Cnt(u128),
    Bool(u8),
    Dbg(String, Vec<(String, Fv)>),
    Skip,
}

enum PObj {
    B(Box<Cell<cb::Params>>),
    S(Box<Cell<cs::Params>>),
    Bp(Box<Cell<cb::blake2bp::Params>>),
    Sp(Box<Cell<cs::blake2sp::Params>>),
}
enum SObj {
    B(Box<Cell<cb::State>>),
    S(Box<Cell<cs::State>>),
    Bp(Box<Cell<cb::blake2bp::State>>),
    Sp(Box<Cell<cs::blake2sp::State>>),
}
enum JObj {
    B(Box<Cell<cb::many::HashManyJob<'static>>>),
    S(Box<Cell<cs::many::HashManyJob<'static>>>),
}
pub enum HObj {
    B(cb::Hash),
    S(cs::Hash),
}

macro_rules! each_p {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            PObj::B($x) => $e,
            PObj::S($x) => $e,
            PObj::Bp($x) => $e,
            PObj::Sp($x) => $e,
        }
    };
}
macro_rules! each_s {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            SObj::B($x) => $e,
            SObj::S($x) => $e,
            SObj::Bp($x) => $e,
            SObj::Sp($x) => $e,
        }
    };
}
macro_rules! each_h {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            HObj::B($x) => $e,
            HObj::S($x) => $e,
        }
    };
}

pub struct World {
    p: Vec<Option<PObj>>,
    s: Vec<Option<SObj>>,
    j: Vec<Option<JObj>>,
    h: Vec<Option<HObj>>,
    arena: Arena,
    held: Vec<Placed>,
    /// secrets are mapped to different bytes of the same length (the "twin" world of C12)
    pub twin: bool,
    iterkind: u64,
}

fn none<T>() -> Vec<Option<T>> {
    (0..SLOTS).map(|_| None).collect()
}

/// Iterators with different size hints over the same items.
struct Plain<I>(I);
impl<I: Iterator> Iterator for Plain<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

/// Ends with None and would go on if it were asked again (iterators need not be fused): what comes
/// after the end is not part of the batch.
struct Rewinds<I: Iterator> {
    it: I,
    over: bool,
    beyond: Option<I::Item>,
}
impl<I: Iterator> Iterator for Rewinds<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.over {
            return self.beyond.take();
        }
        let x = self.it.next();
        self.over = x.is_none();
        x
    }
}

/// the largest batch in whose middle other things are hashed
const AMID: usize = if cfg!(miri) { 3 } else { 40 };

/// Asks the iterator inside only after other work: a call in the middle of a call.
struct Busy<'x, I, F: FnMut()> {
    it: I,
    work: &'x mut F,
}
impl<'x, I: Iterator, F: FnMut()> Iterator for Busy<'x, I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        (self.work)();
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}

/// An input of some type of the caller's, which hashes when it is asked for its bytes.
struct Lazy<'x> {
    bytes: &'x [u8],
    work: &'x dyn Fn(),
}
impl<'x> AsRef<[u8]> for Lazy<'x> {
    fn as_ref(&self) -> &[u8] {
        (self.work)();
        self.bytes
    }
}

/// Hashing of other things in every way, with a check of what comes out.
macro_rules! aside {
    ($c:ident, $n:ident, $wrong:ident) => {
        || {
            let k = $n.get() as usize;
            $n.set(k as u64 + 1);
            let data: Vec<u8> = (0..150 + 130 * (k % 3)).map(|i| (i * 7 + k) as u8).collect();
            let mut p = $c::Params::new();
            p.key(&data[..k % 9]);
            let want = p.hash(&data);
            let plain = $c::Params::new().hash(&data);
            let mut js: Vec<_> = (0..1 + k % 9).map(|_| $c::many::HashManyJob::new(&p, &data)).collect();
            $c::many::hash_many(js.iter_mut());
            let mut a = p.to_state();
            let mut b = $c::State::new();
            a.update(&data[..k % 5]);
            b.update(&data[..k % 5]);
            $c::many::update_many([(&mut a, &data[k % 5..]), (&mut b, &data[k % 5..])]);
            if js.iter().any(|j| j.to_hash() != want) || a.finalize() != want || b.finalize() != plain {
                $wrong.set(true)
            }
        }
    };
}

/// update_many through iterators and inputs of many types.
macro_rules! um {
    ($c:ident, $w:expr, $l:expr, $pl:expr, $obj:path, $kind:expr) => {{
        let mut st: Vec<(*mut $c::State, &[u8])> = vec![];
        for ((s, _), p) in $l.iter().zip(&$pl) {
            if let Some($obj(x)) = $w.s[*s].as_mut() {
                st.push((&mut x.val, p.slice()))
            } else {
                unreachable!()
            }
        }
        let it = st.iter().map(|(s, i)| (unsafe { &mut **s }, *i));
        let wrong = std::cell::Cell::new(false);
        let n = std::cell::Cell::new(st.len() as u64);
        match $kind {
            0 => $c::many::update_many(it),
            1 => $c::many::update_many(Plain(it)),
            2 => {
                let mut beyond = $c::Params::new().to_state();
                let want = beyond.finalize();
                $c::many::update_many(Rewinds { it, over: false, beyond: Some((&mut beyond, &[7u8; 300][..])) });
                wrong.set(beyond.finalize() != want || beyond.count() != 0);
            }
            3 => {
                let mut work = aside!($c, n, wrong);
                if st.len() <= AMID {
                    $c::many::update_many(Busy { it, work: &mut work })
                } else {
                    $c::many::update_many(it)
                }
            }
            4 => {
                let half = st.len() / 2;
                let (a, b) = st.split_at(half);
                let one = |x: &(*mut $c::State, &'static [u8])| (unsafe { &mut *x.0 }, x.1);
                let a: Vec<_> = a.iter().map(|x| (x.0, unsafe { std::mem::transmute::<&[u8], &'static [u8]>(x.1) })).collect();
                let b: Vec<_> = b.iter().map(|x| (x.0, unsafe { std::mem::transmute::<&[u8], &'static [u8]>(x.1) })).collect();
                $c::many::update_many(a.iter().map(one).chain(b.iter().map(one).filter(|_| true)))
            }
            5 => {
                let own: Vec<Vec<u8>> = st.iter().map(|x| x.1.to_vec()).collect();
                $c::many::update_many(st.iter().zip(&own).map(|(x, v)| (unsafe { &mut *x.0 }, v)))
            }
            6 => {
                let work = aside!($c, n, wrong);
                let quiet = || {};
                let few = st.len() <= AMID;
                let own: Vec<Lazy> = st.iter().map(|x| Lazy { bytes: x.1, work: if few { &work } else { &quiet } }).collect();
                $c::many::update_many(st.iter().zip(&own).map(|(x, v)| (unsafe { &mut *x.0 }, v)))
            }
            7 => {
                let mut it = it;
                $c::many::update_many(it.by_ref());
                wrong.set(it.next().is_some());
            }
            _ => $c::many::update_many(it.collect::<Vec<_>>()),
        }
        !wrong.get()
    }};
}

/// hash_many through iterators of many types.
macro_rules! hm {
    ($c:ident, $w:expr, $l:expr, $obj:path, $kind:expr) => {{
        let mut js: Vec<*mut $c::many::HashManyJob<'static>> = vec![];
        for s in $l {
            if let Some($obj(x)) = $w.j[*s].as_mut() {
                js.push(&mut x.val)
            } else {
                unreachable!()
            }
        }
        let it = js.iter().map(|s| unsafe { &mut **s });
        let wrong = std::cell::Cell::new(false);
        let n = std::cell::Cell::new(js.len() as u64);
        match $kind {
            0 => $c::many::hash_many(it),
            1 => $c::many::hash_many(Plain(it)),
            2 => {
                let mut beyond = $c::many::HashManyJob::new(&$c::Params::new(), &[7u8; 300]);
                let fresh = beyond.clone();
                let bytes = |j: &$c::many::HashManyJob| {
                    catch_unwind(AssertUnwindSafe(|| j.to_hash().as_bytes().to_vec())).ok()
                };
                $c::many::hash_many(Rewinds { it, over: false, beyond: Some(&mut beyond) });
                wrong.set(bytes(&beyond) != bytes(&fresh));
            }
            3 => {
                let mut work = aside!($c, n, wrong);
                if js.len() <= AMID {
                    $c::many::hash_many(Busy { it, work: &mut work })
                } else {
                    $c::many::hash_many(it)
                }
            }
            4 => {
                let (a, b) = js.split_at(js.len() / 2);
                $c::many::hash_many(a.iter().chain(b.iter().filter(|_| true)).map(|s| unsafe { &mut **s }))
            }
            5 => $c::many::hash_many(it.collect::<std::collections::VecDeque<_>>()),
            6 => {
                let mut it = it;
                $c::many::hash_many(it.by_ref());
                wrong.set(it.next().is_some());
            }
            _ => $c::many::hash_many(it.collect::<Vec<_>>()),
        }
        !wrong.get()
    }};
}

fn field_names() -> &'static [&'static str] {
    &[
        "hash_length", "key_length", "salt", "personal", "fanout", "max_depth", "max_leaf_length",
        "node_offset", "node_depth", "inner_hash_length", "last_node", "count", "input_len",
    ]
}
pub fn parse_fields(t: &str) -> Vec<(String, Fv)> {
    let mut out = vec![];
    let b = t.as_bytes();
    for name in field_names() {
        let pat = format!("{}: ", name);
        let mut from = 0;
        while let Some(k) = t[from..].find(&pat) {
            let at = from + k;
            from = at + pat.len();
            if at > 0 && (b[at - 1].is_ascii_alphanumeric() || b[at - 1] == b'_') {
                continue;
            }
            let rest = &t[from..];
            if rest.starts_with("true") {
                out.push((name.to_string(), Fv::B(true)));
            } else if rest.starts_with("false") {
                out.push((name.to_string(), Fv::B(false)));
            } else if rest.starts_with('[') {
                if let Some(e) = rest.find(']') {
                    let v: Result<Vec<u8>, _> = rest[1..e]
                        .split(',')
                        .map(|x| x.trim())
                        .filter(|x| !x.is_empty())
                        .map(|x| x.parse::<u8>())
                        .collect();
                    if let Ok(v) = v {
                        out.push((name.to_string(), Fv::L(v)));
                    }
                }
            } else {
                let d: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(n) = d.parse::<u128>() {
                    out.push((name.to_string(), Fv::N(n)));
                }
            }
        }
    }
    out
}

/// The Debug text under every combination of flags a caller can ask for; the plain one comes first.
fn dbg_res<T: std::fmt::Debug>(x: &T) -> Res {
    let a = format!("{:?}", x);
    let f = parse_fields(&a);
    let more = [
        format!("{:#?}", x),
        format!("{:x?}", x),
        format!("{:#X?}", x),
        format!("{:+?}", x),
        format!("{:-?}", x),
        format!("{:02?}", x),
        format!("{:100?}", x),
        format!("{:.0?}", x),
        format!("{:>+#07.3?}", x),
    ];
    Res::Dbg(format!("{}\n{}", a, more.join("\n")), f)
}

/// The bytes through one of the methods of io::Write; how many were taken.
#[cfg(feature = "std")]
fn write_as<W: std::io::Write>(w: &mut W, i: &[u8], kind: u64) -> std::io::Result<u64> {
    let all = i.len() as u64;
    match kind % 6 {
        1 => w.write_all(i).map(|_| all),
        2 => {
            // any number of slices, some of them empty, until everything is taken
            let mut at = 0;
            while at < i.len() {
                let (a, b) = i[at..].split_at((i.len() - at) / 3);
                let (b, c) = b.split_at(b.len() / 2);
                let n = w.write_vectored(&[a, &[], b, c].map(std::io::IoSlice::new))?;
                if n == 0 || n > i.len() - at {
                    return Ok(n as u64 + (1 << 31));
                }
                at += n;
            }
            Ok(at as u64)
        }
        3 => std::io::copy(&mut &i[..], w.by_ref()),
        4 => match std::str::from_utf8(i) {
            Ok(t) => w.write_fmt(format_args!("{}{}", "", t)).map(|_| all),
            Err(_) => {
                use std::io::Write;
                let mut b = std::io::BufWriter::with_capacity(100, w);
                b.write_all(i)?;
                b.flush()?;
                Ok(all)
            }
        },
        _ => w.write(i).map(|n| n as u64),
    }
}

/// the longest run of hex digits after "0x" (or in the whole text)
fn hex_run(t: &str) -> Vec<u8> {
    let s = match t.find("0x") {
        Some(i) => &t[i + 2..],
        None => t,
    };
    s.split(|c: char| !c.is_ascii_hexdigit())
        .max_by_key(|x| x.len())
        .unwrap_or("")
        .as_bytes()
        .to_vec()
}

/// Piece k of n of the input.
fn piece(i: &[u8], k: u64, n: u64) -> &[u8] {
    let at = |k: u64| (i.len() as u128 * k as u128 / n as u128) as usize;
    &i[at(k)..at(k + 1)]
}

/// The input in n calls: how many bytes were reported as taken.
macro_rules! rep {
    ($st:expr, $i:expr, $n:expr, $mode:expr, $kind:expr) => {{
        let mut total = 0u64;
        for k in 0..$n {
            let p = piece($i, k, $n);
            total += p.len() as u64;
            match $mode {
                'w' => {
                    #[cfg(feature = "std")]
                    {
                        total += write_as(&mut $st, p, $kind).unwrap_or(u32::MAX as u64);
                        total -= p.len() as u64;
                    }
                    #[cfg(not(feature = "std"))]
                    {
                        let _ = $kind;
                        $st.update(p);
                    }
                }
                'f' => {
                    $st.update(p);
                    std::hint::black_box($st.finalize());
                }
                'o' => {
                    $st.update(p);
                    std::hint::black_box(($st.count(), format!("{:?}", $st).len()));
                    #[cfg(feature = "std")]
                    std::io::Write::flush(&mut $st).unwrap();
                }
                'c' => {
                    let mut y = $st.clone();
                    y.update(p);
                    $st = y;
                }
                _ => {
                    $st.update(p);
                }
            }
        }
        total
    }};
}
/// The same through update_many, alone ('m') or next to another state ('v').
macro_rules! rep_many {
    ($c:ident, $st:expr, $i:expr, $n:expr, $mode:expr, $kind:expr) => {{
        let mut total = 0u64;
        let mut other = $c::Params::new().to_state();
        for k in 0..$n {
            let p = piece($i, k, $n);
            total += p.len() as u64;
            if $mode == 'm' {
                match $kind % 3 {
                    0 => $c::many::update_many([(&mut $st, p)]),
                    1 => $c::many::update_many(Plain(std::iter::once((&mut $st, p)))),
                    _ => $c::many::update_many(vec![(&mut $st, &p.to_vec())]),
                }
            } else if $kind % 2 == 0 {
                $c::many::update_many([(&mut $st, p), (&mut other, p)])
            } else {
                $c::many::update_many([(&mut other, p), (&mut $st, p)])
            }
        }
        if $mode == 'v' && other.finalize() != $c::Params::new().hash($i) {
            total = u32::MAX as u64;
        }
        total
    }};
}
/// n fresh jobs or states in one batch: how many come out differently than on their own.
macro_rules! bulk {
    ($c:ident, $i:expr, $n:expr, $hm:expr, $kind:expr) => {{
        let mut prm = [$c::Params::new(), $c::Params::new(), $c::Params::new()];
        prm[1].key(&[7; 5]);
        prm[2].hash_length(20).node_offset(3);
        let input = |k: usize| -> &[u8] {
            let len = (k * k * 31 + k * 7 + 3) % 299 % ($i.len() + 1);
            let off = (k * 13) % ($i.len() - len + 1);
            &$i[off..off + len]
        };
        if $hm {
            let mut js: Vec<_> = (0..$n).map(|k| $c::many::HashManyJob::new(&prm[k % 3], input(k))).collect();
            match $kind % 3 {
                0 => $c::many::hash_many(js.iter_mut()),
                1 => $c::many::hash_many(Plain(js.iter_mut())),
                _ => $c::many::hash_many(js.iter_mut().collect::<Vec<_>>()),
            }
            (0..$n).filter(|&k| js[k].to_hash() != prm[k % 3].hash(input(k))).count() as u64
        } else {
            let mut st: Vec<_> = (0..$n).map(|k| prm[k % 3].to_state()).collect();
            for k in (1..$n).step_by(4) {
                st[k].update(&$i[..5.min($i.len())]);
            }
            let mut alone = st.clone();
            for k in 0..$n {
                alone[k].update(input(k));
            }
            let it = st.iter_mut().enumerate().map(|(k, s)| (s, input(k)));
            match $kind % 3 {
                0 => $c::many::update_many(it),
                1 => $c::many::update_many(Plain(it)),
                _ => $c::many::update_many(it.collect::<Vec<_>>()),
            }
            (0..$n)
                .filter(|&k| st[k].finalize() != alone[k].finalize() || st[k].count() != alone[k].count())
                .count() as u64
        }
    }};
}

impl World {
    pub fn new(twin: bool) -> World {
        World {
            p: none(),
            s: none(),
            j: none(),
            h: none(),
            arena: Arena::new(),
            held: vec![],
            twin,
            iterkind: 0,
        }
    }
    /// Drop all objects, checking the canaries around them.
    pub fn reset(&mut self) -> Result<(), String> {
        let mut ok = true;
        for o in self.p.iter_mut() {
            if let Some(x) = o.take() {
                ok &= each_p!(&x, c => c.intact())
            }
        }
        for o in self.s.iter_mut() {
            if let Some(x) = o.take() {
                ok &= each_s!(&x, c => c.intact())
            }
        }
        for o in self.j.iter_mut() {
            if let Some(x) = o.take() {
                ok &= match &x {
                    JObj::B(c) => c.intact(),
                    JObj::S(c) => c.intact(),
                }
            }
        }
        for o in self.h.iter_mut() {
            *o = None;
        }
        for h in self.held.drain(..) {
            let r = catch_unwind(AssertUnwindSafe(|| self.arena.give_back(h)));
            ok &= r.is_ok();
        }
        if ok {
            Ok(())
        } else {
            Err("memory next to an object or input was overwritten".into())
        }
    }
    /// make placements and iterator kinds a function of the scenario
    pub fn seed(&mut self, x: u64) {
        self.iterkind = x % 1000;
        self.arena.seed(x)
    }
    pub fn take_h(&mut self, h: Slot) -> Option<HObj> {
        self.h[h].take()
    }
    pub fn put_h(&mut self, h: Slot, x: Option<HObj>) {
        self.h[h] = x
    }
    fn m(&self, g: Seg) -> Seg {
        if self.twin && g.len > 0 {
            Seg { seed: g.seed + 9001, ..g }
        } else {
            g
        }
    }

    pub fn run(&mut self, op: &Op) -> Res {
        let r = catch_unwind(AssertUnwindSafe(|| self.run_inner(op)));
        match r {
            Ok(r) => r,
            Err(e) => {
                let t = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "<opaque panic>".to_string()
                };
                Res::Panic(t)
            }
        }
    }

    fn with_input<R>(&mut self, g: Seg, f: impl FnOnce(&mut Self, &[u8]) -> R) -> R {
        let pl = self.arena.place(g);
        let r = f(self, pl.slice());
        self.arena.give_back(pl);
        r
    }
    fn put_hash(&mut self, h: Slot, x: HObj) -> Res {
        let b = each_h!(&x, q => q.as_bytes().to_vec());
        self.h[h] = Some(x);
        Res::Bytes(b)
    }

    fn run_inner(&mut self, op: &Op) -> Res {
        match op {
            Op::Reset => {
                if let Err(e) = self.reset() {
                    panic!("{}", e)
                }
                Res::Ok
            }
            Op::PNew(a, v, d) => {
                self.p[*a] = Some(match (v, d) {
                    (V::B, false) => PObj::B(Cell::new(cb::Params::new())),
                    (V::S, false) => PObj::S(Cell::new(cs::Params::new())),
                    (V::Bp, false) => PObj::Bp(Cell::new(cb::blake2bp::Params::new())),
                    (V::Sp, false) => PObj::Sp(Cell::new(cs::blake2sp::Params::new())),
                    (V::B, true) => PObj::B(Cell::new(Default::default())),
                    (V::S, true) => PObj::S(Cell::new(Default::default())),
                    (V::Bp, true) => PObj::Bp(Cell::new(Default::default())),
                    (V::Sp, true) => PObj::Sp(Cell::new(Default::default())),
                });
                Res::Ok
            }
            Op::PSet(a, s) => {
                if let Set::Hl(n) | Set::Ihl(n) = s {
                    if *n > usize::MAX as u64 {
                        return Res::Skip; // not expressible on this target
                    }
                }
                let mut p = self.p[*a].take().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| self.set(&mut p, s)));
                self.p[*a] = Some(p);
                match r {
                    Ok(r) => r,
                    Err(e) => std::panic::resume_unwind(e),
                }
            }
            Op::PClone(a, b) => {
                self.iterkind += 1;
                let old = if a != b && self.iterkind % 2 == 0 { self.p[*b].take() } else { None };
                let n = match (self.p[*a].as_ref().unwrap(), old) {
                    (PObj::B(x), Some(PObj::B(mut y))) => {
                        y.val.clone_from(&x.val);
                        PObj::B(y)
                    }
                    (PObj::S(x), Some(PObj::S(mut y))) => {
                        y.val.clone_from(&x.val);
                        PObj::S(y)
                    }
                    (PObj::Bp(x), Some(PObj::Bp(mut y))) => {
                        y.val.clone_from(&x.val);
                        PObj::Bp(y)
                    }
                    (PObj::Sp(x), Some(PObj::Sp(mut y))) => {
                        y.val.clone_from(&x.val);
                        PObj::Sp(y)
                    }
                    (PObj::B(x), _) => PObj::B(Cell::new(x.val.clone())),
                    (PObj::S(x), _) => PObj::S(Cell::new(x.val.clone())),
                    (PObj::Bp(x), _) => PObj::Bp(Cell::new(x.val.clone())),
                    (PObj::Sp(x), _) => PObj::Sp(Cell::new(x.val.clone())),
                };
                self.p[*b] = Some(n);
                Res::Ok
            }
            Op::PState(a, b) => {
                let n = match self.p[*a].as_ref().unwrap() {
                    PObj::B(x) => SObj::B(Cell::new(x.val.to_state())),
                    PObj::S(x) => SObj::S(Cell::new(x.val.to_state())),
                    PObj::Bp(x) => SObj::Bp(Cell::new(x.val.to_state())),
                    PObj::Sp(x) => SObj::Sp(Cell::new(x.val.to_state())),
                };
                self.s[*b] = Some(n);
                Res::Ok
            }
            Op::PHash(a, g, h) => {
                let x = self.with_input(self.m(*g), |w, i| match w.p[*a].as_ref().unwrap() {
                    PObj::B(x) => HObj::B(x.val.hash(i)),
                    PObj::S(x) => HObj::S(x.val.hash(i)),
                    PObj::Bp(x) => HObj::B(x.val.hash(i)),
                    PObj::Sp(x) => HObj::S(x.val.hash(i)),
                });
                self.put_hash(*h, x)
            }
            Op::One(v, g, h) => {
                let x = self.with_input(self.m(*g), |_, i| match v {
                    V::B => HObj::B(cb::blake2b(i)),
                    V::S => HObj::S(cs::blake2s(i)),
                    V::Bp => HObj::B(cb::blake2bp::blake2bp(i)),
                    V::Sp => HObj::S(cs::blake2sp::blake2sp(i)),
                });
                self.put_hash(*h, x)
            }
            Op::PDbg(a) => each_p!(self.p[*a].as_ref().unwrap(), x => dbg_res(&x.val)),
            Op::SDbg(a) => each_s!(self.s[*a].as_ref().unwrap(), x => dbg_res(&x.val)),
            Op::JDbg(a) => match self.j[*a].as_ref().unwrap() {
                JObj::B(x) => dbg_res(&x.val),
                JObj::S(x) => dbg_res(&x.val),
            },
            Op::ForcePortable(a) => {
                match self.p[*a].as_mut().unwrap() {
                    PObj::B(x) => cb::benchmarks::force_portable(&mut x.val),
                    PObj::S(x) => cs::benchmarks::force_portable(&mut x.val),
                    PObj::Bp(x) => cb::benchmarks::force_portable_blake2bp(&mut x.val),
                    PObj::Sp(x) => cs::benchmarks::force_portable_blake2sp(&mut x.val),
                }
                Res::Ok
            }
            Op::ForceSse(a) => {
                #[cfg(blake2_verif)]
                {
                    match self.p[*a].as_mut().unwrap() {
                        PObj::B(x) => cb::verif_hooks::force_sse41(&mut x.val),
                        PObj::S(x) => cs::verif_hooks::force_sse41(&mut x.val),
                        PObj::Bp(x) => cb::verif_hooks::force_sse41_blake2bp(&mut x.val),
                        PObj::Sp(x) => cs::verif_hooks::force_sse41_blake2sp(&mut x.val),
                    }
                    return Res::Ok;
                }
                #[cfg(not(blake2_verif))]
                {
                    let _ = a;
                    Res::Skip
                }
            }
            Op::SNew(a, v, d) => {
                self.s[*a] = Some(match (v, d) {
                    (V::B, false) => SObj::B(Cell::new(cb::State::new())),
                    (V::S, false) => SObj::S(Cell::new(cs::State::new())),
                    (V::Bp, false) => SObj::Bp(Cell::new(cb::blake2bp::State::new())),
                    (V::Sp, false) => SObj::Sp(Cell::new(cs::blake2sp::State::new())),
                    (V::B, true) => SObj::B(Cell::new(Default::default())),
                    (V::S, true) => SObj::S(Cell::new(Default::default())),
                    (V::Bp, true) => SObj::Bp(Cell::new(Default::default())),
                    (V::Sp, true) => SObj::Sp(Cell::new(Default::default())),
                });
                Res::Ok
            }
            Op::Upd(a, g) => {
                self.with_input(self.m(*g), |w, i| {
                    each_s!(w.s[*a].as_mut().unwrap(), x => { x.val.update(i); })
                });
                Res::Ok
            }
            Op::Write(a, g) => {
                let n = self.with_input(self.m(*g), |w, i| {
                    #[cfg(feature = "std")]
                    {
                        w.iterkind += 1;
                        let kind = w.iterkind;
                        each_s!(w.s[*a].as_mut().unwrap(), x => write_as(&mut x.val, i, kind).unwrap_or(u32::MAX as u64))
                    }
                    #[cfg(not(feature = "std"))]
                    {
                        each_s!(w.s[*a].as_mut().unwrap(), x => { x.val.update(i); });
                        i.len() as u64
                    }
                });
                Res::Num(n, 0)
            }
            Op::Rep(a, g, n, mode) => {
                let g = self.m(*g);
                self.iterkind += 1;
                let kind = self.iterkind;
                let mut s = self.s[*a].take().unwrap();
                let total = self.with_input(g, |_, i| match &mut s {
                    SObj::B(x) => {
                        if matches!(mode, 'm' | 'v') {
                            rep_many!(cb, x.val, i, *n, *mode, kind)
                        } else {
                            rep!(x.val, i, *n, *mode, kind)
                        }
                    }
                    SObj::S(x) => {
                        if matches!(mode, 'm' | 'v') {
                            rep_many!(cs, x.val, i, *n, *mode, kind)
                        } else {
                            rep!(x.val, i, *n, *mode, kind)
                        }
                    }
                    SObj::Bp(x) => rep!(x.val, i, *n, *mode, kind),
                    SObj::Sp(x) => rep!(x.val, i, *n, *mode, kind),
                });
                self.s[*a] = Some(s);
                Res::Num(total, 0)
            }
            Op::Bulk(v, hm, n, g) => {
                self.iterkind += 1;
                let kind = self.iterkind;
                let wrong = self.with_input(self.m(*g), |_, i| match v {
                    V::B => bulk!(cb, i, *n as usize, *hm, kind),
                    _ => bulk!(cs, i, *n as usize, *hm, kind),
                });
                Res::Num(wrong, 0)
            }
            Op::Flush(_a) => {
                #[cfg(feature = "std")]
                {
                    use std::io::Write;
                    let ok = each_s!(self.s[*_a].as_mut().unwrap(), x => x.val.flush().is_ok());
                    if !ok {
                        panic!("flush returned an error")
                    }
                }
                Res::Ok
            }
            Op::SLast(a, b) => {
                match self.s[*a].as_mut().unwrap() {
                    SObj::B(x) => {
                        x.val.set_last_node(*b);
                    }
                    SObj::S(x) => {
                        x.val.set_last_node(*b);
                    }
                    _ => return Res::Skip,
                }
                Res::Ok
            }
            Op::Count(a) => Res::Cnt(each_s!(self.s[*a].as_ref().unwrap(), x => x.val.count() as u128)),
            Op::Fin(a, h) => {
                let x = match self.s[*a].as_ref().unwrap() {
                    SObj::B(x) => HObj::B(x.val.finalize()),
                    SObj::S(x) => HObj::S(x.val.finalize()),
                    SObj::Bp(x) => HObj::B(x.val.finalize()),
                    SObj::Sp(x) => HObj::S(x.val.finalize()),
                };
                self.put_hash(*h, x)
            }
            Op::SClone(a, b) => {
                self.iterkind += 1;
                let old = if a != b && self.iterkind % 2 == 0 { self.s[*b].take() } else { None };
                let n = match (self.s[*a].as_ref().unwrap(), old) {
                    (SObj::B(x), Some(SObj::B(mut y))) => {
                        y.val.clone_from(&x.val);
                        SObj::B(y)
                    }
                    (SObj::S(x), Some(SObj::S(mut y))) => {
                        y.val.clone_from(&x.val);
                        SObj::S(y)
                    }
                    (SObj::Bp(x), Some(SObj::Bp(mut y))) => {
                        y.val.clone_from(&x.val);
                        SObj::Bp(y)
                    }
                    (SObj::Sp(x), Some(SObj::Sp(mut y))) => {
                        y.val.clone_from(&x.val);
                        SObj::Sp(y)
                    }
                    (SObj::B(x), _) => SObj::B(Cell::new(x.val.clone())),
                    (SObj::S(x), _) => SObj::S(Cell::new(x.val.clone())),
                    (SObj::Bp(x), _) => SObj::Bp(Cell::new(x.val.clone())),
                    (SObj::Sp(x), _) => SObj::Sp(Cell::new(x.val.clone())),
                };
                self.s[*b] = Some(n);
                Res::Ok
            }
            Op::SMove(a) => {
                let n = match self.s[*a].take().unwrap() {
                    SObj::B(x) => SObj::B(Cell::relocate(x)),
                    SObj::S(x) => SObj::S(Cell::relocate(x)),
                    SObj::Bp(x) => SObj::Bp(Cell::relocate(x)),
                    SObj::Sp(x) => SObj::Sp(Cell::relocate(x)),
                };
                self.s[*a] = Some(n);
                Res::Ok
            }
            Op::SBase(a, x) => {
                #[cfg(blake2_verif)]
                {
                    match self.s[*a].as_mut().unwrap() {
                        SObj::B(s) => cb::verif_hooks::add_count(&mut s.val, *x),
                        SObj::S(s) => cs::verif_hooks::add_count(&mut s.val, *x as u64),
                        SObj::Bp(s) => cb::verif_hooks::add_count_blake2bp(&mut s.val, *x),
                        SObj::Sp(s) => cs::verif_hooks::add_count_blake2sp(&mut s.val, *x as u64),
                    }
                    return Res::Ok;
                }
                #[cfg(not(blake2_verif))]
                {
                    let _ = (a, x);
                    Res::Skip
                }
            }
            Op::JBase(a, x) => {
                #[cfg(blake2_verif)]
                {
                    match self.j[*a].as_mut().unwrap() {
                        JObj::B(s) => cb::verif_hooks::add_count_job(&mut s.val, *x),
                        JObj::S(s) => cs::verif_hooks::add_count_job(&mut s.val, *x as u64),
                    }
                    return Res::Ok;
                }
                #[cfg(not(blake2_verif))]
                {
                    let _ = (a, x);
                    Res::Skip
                }
            }
            Op::UpdMany(v, l) => {
                let pl: Vec<Placed> = l.iter().map(|(_, g)| self.arena.place(self.m(*g))).collect();
                self.iterkind += 1;
                let kind = self.iterkind % 9;
                let ok = match v {
                    V::B => um!(cb, self, l, pl, SObj::B, kind),
                    V::S => um!(cs, self, l, pl, SObj::S, kind),
                    _ => return Res::Skip,
                };
                if !ok {
                    return Res::Num(1, 1);
                }
                for p in pl {
                    self.arena.give_back(p)
                }
                Res::Ok
            }
            Op::JNew(a, p, g) => {
                let pl = self.arena.place(self.m(*g));
                let i = pl.slice();
                self.held.push(pl);
                let n = match self.p[*p].as_ref().unwrap() {
                    PObj::B(x) => JObj::B(Cell::new(cb::many::HashManyJob::new(&x.val, i))),
                    PObj::S(x) => JObj::S(Cell::new(cs::many::HashManyJob::new(&x.val, i))),
                    _ => return Res::Skip,
                };
                self.j[*a] = Some(n);
                Res::Ok
            }
            Op::HashMany(v, l) => {
                self.iterkind += 1;
                let kind = self.iterkind % 8;
                let ok = match v {
                    V::B => hm!(cb, self, l, JObj::B, kind),
                    V::S => hm!(cs, self, l, JObj::S, kind),
                    _ => return Res::Skip,
                };
                if !ok {
                    return Res::Num(1, 1);
                }
                Res::Ok
            }
            Op::JHash(a, h) => {
                let x = match self.j[*a].as_ref().unwrap() {
                    JObj::B(x) => HObj::B(x.val.to_hash()),
                    JObj::S(x) => HObj::S(x.val.to_hash()),
                };
                self.put_hash(*h, x)
            }
            Op::JClone(a, b) => {
                self.iterkind += 1;
                let old = if a != b && self.iterkind % 2 == 0 { self.j[*b].take() } else { None };
                let n = match (self.j[*a].as_ref().unwrap(), old) {
                    (JObj::B(x), Some(JObj::B(mut y))) => {
                        y.val.clone_from(&x.val);
                        JObj::B(y)
                    }
                    (JObj::S(x), Some(JObj::S(mut y))) => {
                        y.val.clone_from(&x.val);
                        JObj::S(y)
                    }
                    (JObj::B(x), _) => JObj::B(Cell::new(x.val.clone())),
                    (JObj::S(x), _) => JObj::S(Cell::new(x.val.clone())),
                };
                self.j[*b] = Some(n);
                Res::Ok
            }
            Op::HBytes(a) => Res::Bytes(each_h!(self.h[*a].as_ref().unwrap(), x => x.as_bytes().to_vec())),
            Op::HAsRef(a) => Res::Bytes(each_h!(self.h[*a].as_ref().unwrap(), x => { let r: &[u8] = x.as_ref(); r.to_vec() })),
            Op::HArr(a) => Res::Bytes(each_h!(self.h[*a].as_ref().unwrap(), x => x.as_array().to_vec())),
            Op::HHex(a) => Res::Chars(each_h!(self.h[*a].as_ref().unwrap(), x => x.to_hex().as_bytes().to_vec())),
            Op::HDbg(a) => Res::Chars(each_h!(self.h[*a].as_ref().unwrap(), x => hex_run(&format!("{:?}", x)))),
            Op::HCopy(a, b) => {
                self.iterkind += 1;
                if a != b && self.iterkind % 2 == 0 {
                    match (self.h[*b].take(), self.h[*a].as_ref().unwrap()) {
                        (Some(HObj::B(mut y)), HObj::B(x)) => {
                            y.clone_from(x);
                            self.h[*b] = Some(HObj::B(y));
                            return Res::Ok;
                        }
                        (Some(HObj::S(mut y)), HObj::S(x)) => {
                            y.clone_from(x);
                            self.h[*b] = Some(HObj::S(y));
                            return Res::Ok;
                        }
                        _ => {}
                    }
                }
                let n = match self.h[*a].as_ref().unwrap() {
                    HObj::B(x) => HObj::B(*x),
                    HObj::S(x) => HObj::S(x.clone()),
                };
                self.h[*b] = Some(n);
                Res::Ok
            }
            Op::HEq(a, b) => {
                macro_rules! cmp {
                    ($x:expr, $y:expr) => {{
                        let (x, y) = ($x, $y);
                        let e = x == y;
                        let all = [e, y == x, !(x != y), !(y != x)];
                        Res::Bool(if all.iter().all(|q| *q == e) { e as u8 } else { 2 })
                    }};
                }
                match (self.h[*a].as_ref().unwrap(), self.h[*b].as_ref().unwrap()) {
                    (HObj::B(x), HObj::B(y)) => cmp!(x, y),
                    (HObj::S(x), HObj::S(y)) => cmp!(x, y),
                    _ => Res::Skip,
                }
            }
            Op::HEqS(a, b, m) => {
                let src = each_h!(self.h[*b].as_ref().unwrap(), x => x.as_bytes().to_vec());
                let sl = m.apply(&src);
                // place the slice at the end of an exactly sized allocation
                let e = each_h!(self.h[*a].as_ref().unwrap(), x => {
                    let e = *x == sl[..];
                    let n = *x != sl[..];
                    if e != n { e as u8 } else { 2 }
                });
                Res::Bool(e)
            }
            Op::HFrom(_, b, m, d) => {
                let n = match self.h[*b].as_ref().unwrap() {
                    HObj::B(x) => {
                        let mut v = m.apply(x.as_bytes());
                        v.resize(64, 0);
                        let mut arr = [0u8; 64];
                        arr.copy_from_slice(&v);
                        HObj::B(if d % 2 == 0 { cb::Hash::from(arr) } else { cb::Hash::from(&arr) })
                    }
                    HObj::S(x) => {
                        let mut v = m.apply(x.as_bytes());
                        v.resize(32, 0);
                        let mut arr = [0u8; 32];
                        arr.copy_from_slice(&v);
                        HObj::S(if d % 2 == 0 { cs::Hash::from(arr) } else { cs::Hash::from(&arr) })
                    }
                };
                self.h[*d] = Some(n);
                Res::Ok
            }
            Op::Degree(v) => {
                if v.is_b() {
                    Res::Num(cb::many::degree() as u64, cb::many::MAX_DEGREE as u64)
                } else {
                    Res::Num(cs::many::degree() as u64, cs::many::MAX_DEGREE as u64)
                }
            }
            Op::Max(v) => Res::Num(
                if v.is_b() { cb::many::MAX_DEGREE as u64 } else { cs::many::MAX_DEGREE as u64 },
                0,
            ),
        }
    }

    fn set(&mut self, p: &mut PObj, s: &Set) -> Res {
        macro_rules! full {
            ($x:expr) => {{
                let x = &mut $x.val;
                match s {
                    Set::Hl(n) => {
                        x.hash_length(*n as usize);
                    }
                    Set::Ihl(n) => {
                        x.inner_hash_length(*n as usize);
                    }
                    Set::Key(g) => {
                        let g = if self.twin && g.len > 0 { Seg { seed: g.seed + 5001, ..*g } } else { *g };
                        self.with_input(g, |_, i| {
                            x.key(i);
                        })
                    }
                    Set::Salt(g) => self.with_input(*g, |_, i| {
                        x.salt(i);
                    }),
                    Set::Pers(g) => self.with_input(*g, |_, i| {
                        x.personal(i);
                    }),
                    Set::Fo(n) => {
                        x.fanout(*n);
                    }
                    Set::Md(n) => {
                        x.max_depth(*n);
                    }
                    Set::Nd(n) => {
                        x.node_depth(*n);
                    }
                    Set::Mll(n) => {
                        x.max_leaf_length(*n);
                    }
                    Set::No(n) => {
                        x.node_offset(*n);
                    }
                    Set::Ln(b) => {
                        x.last_node(*b);
                    }
                }
                Res::Ok
            }};
        }
        macro_rules! tree {
            ($x:expr) => {{
                let x = &mut $x.val;
                match s {
                    Set::Hl(n) => {
                        x.hash_length(*n as usize);
                    }
                    Set::Key(g) => {
                        let g = if self.twin && g.len > 0 { Seg { seed: g.seed + 5001, ..*g } } else { *g };
                        self.with_input(g, |_, i| {
                            x.key(i);
                        })
                    }
                    _ => return Res::Skip,
                }
                Res::Ok
            }};
        }
        match p {
            PObj::B(x) => full!(x),
            PObj::S(x) => full!(x),
            PObj::Bp(x) => tree!(x),
            PObj::Sp(x) => tree!(x),
        }
    }
}
