//! Records which machine instructions a call executes (single-stepping this process with the trap
//! flag) and which memory they address, for the property that secrets do not influence either.
use crate::gen::Rng;
use crate::refb2::V;
use crate::sig;
use std::hint::black_box;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static HASH: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static LAST: AtomicU64 = AtomicU64::new(0);
const LIMIT: u64 = 3_000_000;

/// Offset of RIP in ucontext_t on x86-64 Linux: uc_mcontext at 40, REG_RIP is the 17th register.
const RIP: usize = 40 + 16 * 8;
const EFL: usize = 40 + 17 * 8;

/// What the instructions of one module (this program, the C library) address: vf/operands.py
/// disassembles it.
struct Module {
    base: u64,
    len: u64,
    /// by address: the index of its first operand, plus one
    first: Vec<u32>,
    ops: Vec<Operand>,
}
#[derive(Clone, Copy)]
struct Operand {
    addr: u32,
    disp: i64,
    base: u8,
    index: u8,
    scale: u8,
}
static mut MODULES: Vec<Module> = vec![];
static mut HEAP: [u64; 2] = [u64::MAX, 0];
extern "C" {
    fn sbrk(n: isize) -> *mut u8;
}
static TOUCHED: AtomicU64 = AtomicU64::new(0);
static OPERANDS: AtomicU64 = AtomicU64::new(0);

/// FILE of 24-byte records (address, displacement, base, index, scale), path of the module
fn load_operands(list: &str) {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    if let Some(l) = maps.lines().find(|l| l.ends_with("[heap]")) {
        unsafe { HEAP[0] = u64::from_str_radix(l.split('-').next().unwrap(), 16).unwrap() }
    }
    for x in list.split(',').filter(|x| !x.is_empty()) {
        let (file, path) = x.split_once('=').unwrap();
        let path = std::fs::canonicalize(path).unwrap();
        let base = maps.lines().find(|l| l.ends_with(path.to_str().unwrap())).map(|l| u64::from_str_radix(l.split('-').next().unwrap(), 16).unwrap());
        let base = match base {
            None => continue,
            Some(b) => b,
        };
        let raw = std::fs::read(file).unwrap();
        let ops: Vec<Operand> = raw
            .chunks_exact(24)
            .map(|r| Operand {
                addr: u64::from_le_bytes(r[..8].try_into().unwrap()) as u32,
                disp: i64::from_le_bytes(r[8..16].try_into().unwrap()),
                base: r[16],
                index: r[17],
                scale: r[18],
            })
            .collect();
        let len = ops.iter().map(|o| o.addr).max().unwrap_or(0) as usize + 1;
        let mut first = vec![0; len];
        for (i, o) in ops.iter().enumerate().rev() {
            first[o.addr as usize] = i as u32 + 1;
        }
        unsafe { (*(&raw mut MODULES)).push(Module { base, len: len as u64, first, ops }) };
    }
}

/// The instruction at `rip` is about to be executed with these registers.
unsafe fn touch(rip: u64, uc: *mut u8) {
    let regs = uc.add(40) as *const u64;
    let reg = |r: u8| if r == 255 { 0 } else { *regs.add(r as usize) };
    for m in (*(&raw const MODULES)).iter() {
        let at = rip.wrapping_sub(m.base);
        if at >= m.len {
            continue;
        }
        let mut i = m.first[at as usize] as usize;
        if i == 0 {
            return;
        }
        while i <= m.ops.len() && m.ops[i - 1].addr as u64 == at {
            let o = &m.ops[i - 1];
            let ea = reg(o.base).wrapping_add(reg(o.index).wrapping_mul(o.scale as u64)).wrapping_add(o.disp as u64);
            // where the allocator puts things is not up to the call
            let ea = if ea >= HEAP[0] && ea < HEAP[1] { 1 } else { ea };
            let h = (TOUCHED.load(Relaxed) ^ ea).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
            TOUCHED.store(h, Relaxed);
            OPERANDS.fetch_add(1, Relaxed);
            i += 1;
        }
        return;
    }
}

extern "C" fn on_trap(_s: i32, _i: usize, uc: *mut u8) {
    let rip = unsafe { *(uc.add(RIP) as *const u64) };
    let h = (HASH.load(Relaxed) ^ rip).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
    HASH.store(h, Relaxed);
    LAST.store(rip, Relaxed);
    unsafe { touch(rip, uc) };
    if COUNT.fetch_add(1, Relaxed) > LIMIT {
        unsafe { *(uc.add(EFL) as *mut u64) &= !0x100 }
    }
}

/// Digest and number of the instructions executed by `f`, digest of the addresses they use.
#[inline(never)]
fn steps(f: &mut dyn FnMut()) -> (u64, u64, u64) {
    HASH.store(0, Relaxed);
    TOUCHED.store(0, Relaxed);
    unsafe { HEAP[1] = sbrk(0) as u64 };
    COUNT.store(0, Relaxed);
    unsafe {
        core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    f();
    unsafe {
        core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    (HASH.load(Relaxed), COUNT.load(Relaxed), TOUCHED.load(Relaxed))
}

#[repr(align(128))]
struct Buf([u8; 8192]);
static mut A: Buf = Buf([0; 8192]);
static mut B: Buf = Buf([0; 8192]);
static mut K: Buf = Buf([0; 8192]);

/// The contents tried for a secret of `n` bytes: `which` in 0..CONTENTS.
const CONTENTS: u64 = 12; // callers ask for 7, 8 or 12 of them
fn fill(b: &mut [u8], which: u64, r: &mut Rng) {
    for (i, x) in b.iter_mut().enumerate() {
        *x = match which {
            0 => 0,
            4 => 0xff,
            8 => 0x80,
            9 => 1,
            10 => i as u8,
            6 => (i == 0) as u8 * 0xaa,
            _ => r.next() as u8,
        }
    }
    if !b.is_empty() {
        let n = b.len();
        match which {
            2 => b[..n / 2].fill(0),
            3 => b[n / 2..].fill(0),
            5 => b[n - 1] = 0,
            7 => b[0] = 0,
            _ => {}
        }
    }
}

pub struct Rec {
    lines: Vec<String>,
    pub calls: u64,
    pub classes: u64,
    pub max: u64,
    turn: u64,
    part: u64,
    of: u64,
    contents: u64,
}
impl Rec {
    /// Is the next group of runs one of ours?
    fn mine(&mut self) -> bool {
        self.turn += 1;
        self.turn % self.of == self.part
    }
    fn put(&mut self, public: &str, secret: &str, x: (u64, u64, u64)) {
        self.calls += 1;
        self.max = self.max.max(x.1);
        self.lines.push(format!(
            "{{\"p\":\"{}\",\"s\":\"{}\",\"d\":[{},{}],\"n\":{},\"m\":[{},{}]}}",
            public,
            secret,
            x.0 & 0x3fff_ffff,
            (x.0 >> 30) & 0x3fff_ffff,
            x.1,
            x.2 & 0x3fff_ffff,
            (x.2 >> 30) & 0x3fff_ffff
        ));
    }
}

macro_rules! compare {
    ($rec:ident, $r:ident, $krate:ident, $v:expr, $out:expr, $stride:expr) => {{
        use $krate as c;
        let mut lens: Vec<usize> = (1..=$out).collect();
        lens.retain(|l| *l % $stride == ($r.0 % $stride as u64) as usize || [1, 2, 4, 8, 16, 20, 24, 28, 32, 40, 48, 64].contains(l));
        for len in lens {
            if !$rec.mine() {
                continue;
            }
            let mut p = c::Params::new();
            p.hash_length(len);
            let other: Vec<usize> = vec![0, 1, len / 2, len.saturating_sub(1), len, len + 1, 2 * len];
            for base in 0..2u64 {
                let x = p.hash(&[base as u8; 9]);
                // against another hash of the same length: no relation, ...
                let mut ys: Vec<c::Hash> = (0..10u8).map(|k| p.hash(&[k; 9])).collect();
                // ... the same first byte, the same two, or the same last one, ...
                let (mut one, mut two, mut last) = (0, 0, 0);
                for k in 0..60000u32 {
                    let y = p.hash(&k.to_le_bytes());
                    let (a, b) = (x.as_bytes(), y.as_bytes());
                    let (f, g, l) = (a[0] == b[0], len > 1 && a[..2] == b[..2], a[len - 1] == b[len - 1]);
                    if (g && two < 1) || (f && one < 2) || (l && last < 2) {
                        ys.push(y);
                        one += f as u32;
                        two += g as u32;
                        last += l as u32;
                    }
                    if one >= 2 && last >= 2 && (two >= 1 || len < 2 || k > 20000 && base > 0) {
                        break;
                    }
                }
                // ... and at full length any difference we like
                if len == $out {
                    for t in 0..len + 6 {
                        let mut b = [0u8; $out];
                        b.copy_from_slice(x.as_bytes());
                        match t {
                            _ if t < len => b[t] ^= 1 << ($r.next() % 8),
                            _ if t == len => b.iter_mut().for_each(|z| *z ^= 0xff),
                            _ if t == len + 1 => fill(&mut b, 9, $r),
                            _ if t < len + 5 => b[$out / 4 * (t - len - 1)..].iter_mut().for_each(|z| *z ^= 0x55),
                            _ => {}
                        }
                        ys.push(c::Hash::from(b));
                    }
                }
                for (k, y) in ys.into_iter().enumerate() {
                    let eq = x.as_bytes().to_vec() == y.as_bytes().to_vec();
                    let (x, y) = (black_box(x), black_box(y));
                    let mut out = false;
                    let s = steps(&mut || out = black_box(&x) == black_box(&y));
                    if out != eq {
                        return Err(format!("{} comparison of hashes of {} bytes is wrong", $v, len));
                    }
                    $rec.put(&format!("hash=hash {} {} {}", $v, len, eq), &format!("{} {}", base, k), s);
                }
                // against slices that differ in one place, several, all
                for m in other.iter().cloned() {
                    let tries: Vec<usize> = if m == len { (0..len + 3).collect() } else { vec![0, 1, 2, 3] };
                    for t in tries {
                        let b = unsafe { &mut (&mut (*(&raw mut B)).0)[..m] };
                        for (i, z) in b.iter_mut().enumerate() {
                            *z = if i < len { x.as_bytes()[i] } else { 0 }
                        }
                        if m == len {
                            if t < len {
                                b[t] ^= 1 << ($r.next() % 8)
                            } else if t == len {
                                b.iter_mut().for_each(|z| *z ^= 0xff)
                            } else if t == len + 1 {
                                fill(b, 9, $r)
                            }
                        } else if m > 0 && t > 0 {
                            b[(t - 1) * (m - 1) / 2] ^= 0x10
                        }
                        let b: &[u8] = b;
                        let eq = x.as_bytes().to_vec() == b.to_vec();
                        let mut out = false;
                        let s = steps(&mut || out = black_box(&x) == black_box(b));
                        if out != eq {
                            return Err(format!("{} comparison of {} bytes with {} bytes is wrong", $v, len, m));
                        }
                        $rec.put(&format!("hash=slice {} {} {} {}", $v, len, m, eq), &format!("{} {}", base, t), s);
                    }
                }
            }
        }
    }};
}

macro_rules! hashing {
    ($rec:ident, $r:ident, $v:expr, $out:expr, $params:ty, $tree:expr, $lens:expr) => {{
        for len in $lens {
            for key in [0usize, 1, $out] {
                if !$rec.mine() {
                    continue;
                }
                for which in (0..CONTENTS).take($rec.contents as usize) {
                    // a first call, of the same contents or of other ones: what it leaves behind may not matter
                    let before = if which % 2 == 0 { which } else { (which + 4) % $rec.contents };
                    let (base, contents) = ($r.next(), $rec.contents);
                    let set = |which: u64| {
                        let m = unsafe { &mut (&mut (*(&raw mut A)).0)[..len] };
                        fill(m, which, &mut Rng(base + which));
                        let k = unsafe { &mut (&mut (*(&raw mut K)).0)[..key] };
                        fill(k, (which * 5 + 3) % contents, &mut Rng(base ^ which << 20));
                    };
                    let f = &mut || {
                        let (m, k) = unsafe { (&(&(*(&raw const A)).0)[..len], &(&(*(&raw const K)).0)[..key]) };
                        let mut p = <$params>::new();
                        p.key(black_box(k));
                        black_box(p.hash(black_box(m)));
                    };
                    set(before);
                    f();
                    set(which);
                    let s = steps(f);
                    $rec.put(&format!("hash {} {} {}", $v, len, key), &format!("{}", which), s);
                    // incrementally, with a clone and a look at the intermediate digest
                    let f = &mut || {
                        let (m, k) = unsafe { (&(&(*(&raw const A)).0)[..len], &(&(*(&raw const K)).0)[..key]) };
                        let mut p = <$params>::new();
                        p.key(black_box(k));
                        let mut st = p.to_state();
                        let (x, y) = black_box(m).split_at(len / 3);
                        st.update(x);
                        black_box(st.finalize());
                        let mut st = st.clone();
                        st.update(y);
                        black_box(st.finalize());
                    };
                    set(before);
                    f();
                    set(which);
                    let s = steps(f);
                    $rec.put(&format!("state {} {} {}", $v, len, key), &format!("{}", which), s);
                }
            }
        }
    }};
}

macro_rules! batch {
    ($rec:ident, $r:ident, $krate:ident, $v:expr, $out:expr) => {{
        use $krate as c;
        for round in 0..6usize {
            let lens: Vec<usize> = (0..1 + round * 2).map(|i| (i * 97 + round * 131) % 700).collect();
            if !$rec.mine() {
                continue;
            }
            for which in (0..CONTENTS).take($rec.contents as usize) {
                let before = if which % 2 == 0 { which } else { (which + 4) % $rec.contents };
                let (base, contents) = ($r.next(), $rec.contents);
                    let set = |which: u64| {
                    let m = unsafe { &mut (&mut (*(&raw mut A)).0)[..] };
                    fill(m, which, &mut Rng(base + which));
                    let k = unsafe { &mut (&mut (*(&raw mut K)).0)[..$out] };
                    fill(k, (which * 5 + 1) % contents, &mut Rng(base ^ which << 20));
                };
                let params = || {
                    let mut p = c::Params::new();
                    if round % 2 == 1 {
                        p.key(unsafe { &(&(*(&raw const K)).0)[..$out] });
                    }
                    p
                };
                let f = &mut || {
                    let m = unsafe { &(&(*(&raw const A)).0)[..] };
                    let p = params();
                    let mut jobs: [c::many::HashManyJob; 12] = core::array::from_fn(|i| {
                        c::many::HashManyJob::new(&p, if i < lens.len() { &m[i * 600..i * 600 + lens[i].min(600)] } else { &m[..0] })
                    });
                    c::many::hash_many(jobs[..lens.len()].iter_mut());
                    black_box(jobs[0].to_hash());
                };
                set(before);
                f();
                set(which);
                let s = steps(f);
                $rec.put(&format!("hash_many {} {}", $v, round), &format!("{}", which), s);
                let f = &mut || {
                    let m = unsafe { &(&(*(&raw const A)).0)[..] };
                    let p = params();
                    let mut st: [c::State; 12] = core::array::from_fn(|_| p.to_state());
                    c::many::update_many(
                        st[..lens.len()].iter_mut().enumerate().map(|(i, s)| (s, &m[i * 600..i * 600 + lens[i].min(600)])),
                    );
                    black_box(st[0].finalize());
                };
                set(before);
                f();
                set(which);
                let s = steps(f);
                $rec.put(&format!("update_many {} {}", $v, round), &format!("{}", which), s);
            }
        }
    }};
}

pub fn run(seed: u64, stride: usize, part: u64, of: u64, contents: u64) -> Result<Rec, String> {
    sig::set_handler_now(5, on_trap as extern "C" fn(i32, usize, *mut u8) as usize);
    let r = &mut Rng(seed);
    r.next();
    let mut rec = Rec { lines: vec![], calls: 0, classes: 0, max: 0, turn: 0, part, of, contents };
    let rec_ = &mut rec;
    {
        let rec = rec_;
        compare!(rec, r, blake2b_simd, V::B.name(), 64usize, stride);
        compare!(rec, r, blake2s_simd, V::S.name(), 32usize, stride);
        let extra = (r.next() % 900) as usize;
        hashing!(rec, r, "b", 64, blake2b_simd::Params, false, [0usize, 1, 64, 128, 129, 300, extra]);
        hashing!(rec, r, "s", 32, blake2s_simd::Params, false, [0usize, 1, 64, 65, 129, extra]);
        hashing!(rec, r, "bp", 64, blake2b_simd::blake2bp::Params, true, [0usize, 1, 513, 1100 + extra]);
        hashing!(rec, r, "sp", 32, blake2s_simd::blake2sp::Params, true, [0usize, 1, 513, 1100 + extra]);
        batch!(rec, r, blake2b_simd, "b", 64);
        batch!(rec, r, blake2s_simd, "s", 32);
    }
    let mut seen = std::collections::HashSet::new();
    for l in &rec.lines {
        seen.insert(l[..l.find("\",\"s\"").unwrap()].to_string());
    }
    rec.classes = seen.len() as u64;
    Ok(rec)
}

pub fn main(seed: u64, stride: usize, part: u64, of: u64, contents: u64, out: &str, operands: &str) {
    load_operands(operands);
    match run(seed, stride, part, of, contents) {
        Ok(rec) => {
            std::fs::write(out, rec.lines.join("\n") + "\n").unwrap();
            println!(
                "SUMMARY {{\"observations\":{},\"classes\":{},\"longest\":{},\"last\":{},\"operands\":{}}}",
                rec.calls,
                rec.classes,
                rec.max,
                (LAST.load(Relaxed) != 0) as u8,
                OPERANDS.load(Relaxed)
            );
        }
        Err(e) => println!("WRONG {}", e),
    }
}
