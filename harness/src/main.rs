//! Conformance harness: executes behaviours of spec/Api.tla on the real crates.
#[cfg(not(miri))]
mod big;
#[cfg(not(miri))]
mod cpu;
mod exec;
mod gen;
mod json;
mod mem;
mod mirror;
mod ops;
mod refb2;
#[cfg(not(miri))]
mod sig;
#[cfg(not(miri))]
mod steps;
#[cfg(feature = "threads")]
mod stress;
mod world;

use exec::{Runner, Stats};
use ops::Op;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn degrees(platform: &str) -> [u64; 2] {
    match platform {
        "portable" => [1, 1],
        "sse41" => [2, 4],
        "avx2" => [4, 8],
        _ => [0, 0],
    }
}
pub struct Args(HashMap<String, String>);
impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|x| x.parse().unwrap()).unwrap_or(d)
    }
}

fn mixh(a: u64, b: u64) -> u64 {
    gen::Rng(a ^ b.wrapping_mul(0x9e3779b97f4a7c15)).next()
}

pub fn load(path: &str) -> Vec<Vec<Op>> {
    let text = std::fs::read_to_string(path).unwrap();
    let mut out: Vec<Vec<Op>> = vec![];
    for line in text.lines() {
        let line = line.trim();
        if line.is_empty() {
            continue;
        }
        // either a bare operation or a trace line {"o":...,"r":...}
        let op = if line.starts_with('{') {
            let s = line.strip_prefix("{\"o\":").expect("trace line");
            let end = s.find(",\"r\":").expect("trace line");
            Op::parse(&json::parse(&s[..end]))
        } else {
            Op::parse(&json::parse(line))
        };
        if op == Op::Reset {
            out.push(vec![]);
        } else {
            if out.is_empty() {
                out.push(vec![])
            }
            out.last_mut().unwrap().push(op)
        }
    }
    out
}
pub fn dump_ops(ops: &[Op]) -> String {
    let mut s = String::from("[\"reset\"]\n");
    for o in ops {
        s.push_str(&o.to_json());
        s.push('\n')
    }
    s
}

/// Run on a thread of its own, whose thread-local memory is empty.
fn afresh<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| s.spawn(f).join().unwrap())
}

/// A recorded history that ends in what was observed.  Alone in a new thread the scenario may behave;
/// then the scenarios before it on its thread come first, and if even these do not bring it back the
/// observed line itself ends the record.
fn evidence(ops: &[Op], f: &Found, seed: u64, a: &Args) -> Vec<String> {
    let run = |before: &[u64]| -> (Vec<String>, bool) {
        afresh(|| {
            let mut r = Runner::new(cfg!(debug_assertions), degrees(&a.get("platform", "any")), a.get("twin", "0") == "1");
            let mut lines = vec![];
            for idx in before {
                if let Some(o) = gen::scenario(&f.profile, seed, *idx) {
                    if r.scenario(&o, Some(&mut lines), &mut Stats::default(), |_| {}).is_some() {
                        return (lines, true);
                    }
                }
            }
            let bad = r.scenario(ops, Some(&mut lines), &mut Stats::default(), |_| {}).is_some();
            (lines, bad)
        })
    };
    let (mut alone, bad) = run(&[]);
    if bad {
        return alone;
    }
    for n in [1, 2, 4, 8, 16, 32] {
        let (lines, bad) = run(&f.before[f.before.len().saturating_sub(n)..]);
        if bad {
            return lines;
        }
    }
    let mut r = Runner::new(cfg!(debug_assertions), degrees(&a.get("platform", "any")), a.get("twin", "0") == "1");
    let mut st = Stats::default();
    alone.clear();
    let _ = r.scenario(&ops[..f.op.min(ops.len())], Some(&mut alone), &mut st, |_| {});
    alone.push(f.line.clone());
    alone
}

/// Remove operations while some mismatch remains.
fn shrink(ops: &[Op], a: &Args) -> Vec<Op> {
    let mut cur = ops.to_vec();
    let twin = a.get("twin", "0") == "1";
    let deg = degrees(&a.get("platform", "any"));
    let t0 = Instant::now();
    let bad = |ops: &[Op]| -> bool {
        // applicability first
        let mut m = mirror::Mirror::new(cfg!(debug_assertions), deg);
        for o in ops {
            if !m.enabled(o) {
                return false;
            }
            m.dry = true;
            m.step(o);
        }
        afresh(|| {
            let mut r = Runner::new(cfg!(debug_assertions), deg, twin);
            r.scenario(ops, None, &mut Stats::default(), |_| {}).is_some()
        })
    };
    if !bad(&cur) {
        return cur;
    }
    let mut changed = true;
    while changed && t0.elapsed() < Duration::from_secs(5) {
        changed = false;
        let mut i = cur.len();
        while i > 0 && t0.elapsed() < Duration::from_secs(5) {
            i -= 1;
            let mut c = cur.clone();
            c.remove(i);
            if bad(&c) {
                cur = c;
                changed = true;
            }
        }
        // shorten messages
        for i in 0..cur.len() {
            for _ in 0..30 {
                let mut cut = None;
                for k in 0..6u32 {
                    let mut c = cur.clone();
                    let f = |g: &mut ops::Seg| {
                        let n = match k {
                            0 => g.len / 2,
                            1 => g.len / 2 / 128 * 128,
                            2 => g.len * 3 / 4 / 128 * 128,
                            3 => g.len.saturating_sub(4096),
                            4 => g.len.saturating_sub(512),
                            _ => g.len.saturating_sub(64),
                        };
                        let was = g.len;
                        if n >= 64 {
                            g.len = n
                        }
                        g.len < was
                    };
                    let shorter = match &mut c[i] {
                        Op::Upd(_, g) | Op::Write(_, g) | Op::Rep(_, g, _, _) | Op::PHash(_, g, _) | Op::One(_, g, _) | Op::JNew(_, _, g) => f(g),
                        _ => false,
                    };
                    if shorter && t0.elapsed() < Duration::from_secs(5) && bad(&c) {
                        cut = Some(c);
                        break;
                    }
                }
                match cut {
                    Some(c) => {
                        cur = c;
                        changed = true;
                    }
                    None => break,
                }
            }
        }
        // fewer calls
        for i in 0..cur.len() {
            loop {
                let mut c = cur.clone();
                let n = match &mut c[i] {
                    Op::Rep(_, _, n, _) | Op::Bulk(_, _, n, _) if *n > 1 => n,
                    _ => break,
                };
                *n = *n / 2;
                if t0.elapsed() > Duration::from_secs(5) || !bad(&c) {
                    break;
                }
                cur = c;
                changed = true;
            }
        }
        // drop members of batches
        for i in 0..cur.len() {
            let n = match &cur[i] {
                Op::UpdMany(_, l) => l.len(),
                Op::HashMany(_, l) => l.len(),
                _ => 0,
            };
            for k in (0..n).rev() {
                let mut c = cur.clone();
                match &mut c[i] {
                    Op::UpdMany(_, l) if l.len() > 1 => {
                        l.remove(k);
                    }
                    Op::HashMany(_, l) if l.len() > 1 => {
                        l.remove(k);
                    }
                    _ => continue,
                }
                if bad(&c) {
                    cur = c;
                    changed = true;
                }
            }
        }
    }
    cur
}

fn record(ops: &[Op], a: &Args) -> Vec<String> {
    let mut r = Runner::new(cfg!(debug_assertions), degrees(&a.get("platform", "any")), a.get("twin", "0") == "1");
    let mut lines = vec![];
    r.scenario(ops, Some(&mut lines), &mut Stats::default(), |_| {});
    lines
}

struct Found {
    profile: String,
    idx: u64,
    op: usize,
    what: String,
    line: String,
    before: Vec<u64>,
}

fn walk(a: &Args) {
    let seed = a.num("seed", 1);
    let threads = a.num("threads", if cfg!(miri) { 1 } else { 8 }) as usize;
    let secs = a.num("secs", 3600) as f64;
    let twin = a.get("twin", "0") == "1";
    let deg = degrees(&a.get("platform", "any"));
    let cap = a.num("cap", 400);
    let budget = a.num("budget", 0);
    let profiles: Vec<(String, u64, u64)> = a
        .get("profiles", "")
        .split(',')
        .map(|p| {
            // name[:count[:step]]
            let mut it = p.split(':');
            let n = it.next().unwrap().to_string();
            let c = it.next().map(|x| if x == "all" { u64::MAX } else { x.parse().unwrap() }).unwrap_or(1000);
            let st = it.next().map(|x| x.parse().unwrap()).unwrap_or(1);
            (n, c, st)
        })
        .collect();
    let total = Mutex::new(Stats::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let mut per_profile = vec![];
    let mut sample: Vec<(String, u64, u64)> = vec![]; // profile, idx, cost
    let t0 = Instant::now();
    for (pi, (name, count, step)) in profiles.iter().enumerate() {
        let deadline = t0 + Duration::from_secs_f64(secs * (pi + 1) as f64 / profiles.len() as f64);
        let next = AtomicU64::new(0);
        let end = AtomicBool::new(false);
        let ran = AtomicU64::new(0);
        let costs: Mutex<Vec<(u64, u64, u64)>> = Mutex::new(vec![]);
        let worker = |_t: usize| {
            let mut r = Runner::new(cfg!(debug_assertions), deg, twin);
            let mut st = Stats::default();
            let mut mine = vec![];
            let mut before: Vec<u64> = vec![];
            loop {
                if end.load(SeqCst) {
                    break;
                }
                let k = next.fetch_add(1, SeqCst);
                if k >= *count || Instant::now() > deadline {
                    break;
                }
                let idx = k * step + if *step > 1 { seed % step } else { 0 };
                let ops = match gen::scenario(name, seed, idx) {
                    None => {
                        end.store(true, SeqCst);
                        break;
                    }
                    Some(o) => o,
                };
                if ops.is_empty() {
                    continue;
                }
                #[cfg(not(miri))]
                sig::begin(name, idx);
                let bad = r.scenario(&ops, None, &mut st, |i| {
                    #[cfg(not(miri))]
                    sig::at(i);
                    let _ = i;
                });
                #[cfg(not(miri))]
                sig::idle();
                ran.fetch_add(1, SeqCst);
                if let Some(m) = bad {
                    let mut f = found.lock().unwrap();
                    f.push(Found { profile: name.clone(), idx, op: m.op, what: m.what, line: m.line, before: before.clone() });
                    if f.len() > 40 {
                        end.store(true, SeqCst)
                    }
                } else if budget > 0 && r.m.blocks <= cap && mine.len() < 200_000 {
                    mine.push((mixh(seed, idx), idx, r.m.blocks + ops.len() as u64 / 4));
                }
                if before.len() >= 32 {
                    before.remove(0);
                }
                before.push(idx);
            }
            total.lock().unwrap().merge(st);
            costs.lock().unwrap().extend(mine);
        };
        if threads == 1 {
            worker(0)
        } else {
            std::thread::scope(|s| {
                for t in 0..threads {
                    let w = &worker;
                    s.spawn(move || w(t));
                }
            });
        }
        let complete = end.load(SeqCst);
        per_profile.push(format!(
            "\"{}\":{{\"scenarios\":{},\"complete\":{}}}",
            name,
            ran.load(SeqCst),
            complete as u8
        ));
        let mut c = costs.into_inner().unwrap();
        c.sort();
        let share = budget / profiles.len() as u64;
        let mut used = 0;
        for (_, idx, cost) in c {
            if used + cost > share {
                if used * 10 > share * 9 {
                    break;
                }
                continue;
            }
            used += cost;
            sample.push((name.clone(), idx, cost));
        }
    }
    // record the sampled scenarios for the specification to judge
    let out = a.get("out", "");
    let files = a.num("files", 8) as usize;
    let mut written = 0;
    if budget > 0 && !out.is_empty() {
        let mut bins: Vec<(u64, Vec<usize>)> = (0..files).map(|_| (0, vec![])).collect();
        let mut order: Vec<usize> = (0..sample.len()).collect();
        order.sort_by_key(|i| std::cmp::Reverse(sample[*i].2));
        for i in order {
            let b = bins.iter_mut().min_by_key(|b| b.0).unwrap();
            b.0 += sample[i].2;
            b.1.push(i);
        }
        for (k, (_, mut l)) in bins.into_iter().enumerate() {
            l.sort();
            let mut text = String::new();
            for i in l {
                let ops = gen::scenario(&sample[i].0, seed, sample[i].1).unwrap();
                for x in record(&ops, a) {
                    text.push_str(&x);
                    text.push('\n');
                }
                written += 1;
            }
            std::fs::write(format!("{}.{}.ndjson", out, k), text).unwrap();
        }
    }
    // mismatches: shrink and record
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| (f.op, f.idx));
    let mut bad = vec![];
    for (k, f) in found.iter().enumerate().take(4) {
        let ops = gen::scenario(&f.profile, seed, f.idx).unwrap();
        let small = shrink(&ops, a);
        let path = format!("{}.bad{}.ndjson", out, k);
        if !out.is_empty() {
            std::fs::write(&path, evidence(&small, f, seed, a).join("\n") + "\n").unwrap();
        }
        let mut m = mirror::Mirror::new(cfg!(debug_assertions), deg);
        m.dry = true;
        for o in &small {
            m.step(o);
        }
        bad.push(format!(
            "{{\"profile\":\"{}\",\"idx\":{},\"op\":{},\"what\":{},\"trace\":\"{}\",\"blocks\":{}}}",
            f.profile,
            f.idx,
            f.op,
            json::esc(&f.what.chars().take(600).collect::<String>()),
            path,
            m.blocks
        ));
    }
    println!(
        "SUMMARY {{{},\"profiles\":{{{}}},\"sampled\":{},\"mismatches\":{},\"bad\":[{}]}}",
        total.into_inner().unwrap().json(),
        per_profile.join(","),
        written,
        found.len(),
        bad.join(",")
    );
}

fn exec_file(a: &Args) {
    let mut r = Runner::new(cfg!(debug_assertions), degrees(&a.get("platform", "any")), a.get("twin", "0") == "1");
    r.m.dry = a.get("dry", "0") == "1"; // results are compared elsewhere
    let mut st = Stats::default();
    let mut lines = vec![];
    let mut bad = vec![];
    for (k, ops) in load(&a.get("in", "")).iter().enumerate() {
        #[cfg(not(miri))]
        sig::begin("exec", k as u64);
        if let Some(m) = r.scenario(ops, Some(&mut lines), &mut st, |i| {
            #[cfg(not(miri))]
            sig::at(i);
            let _ = i;
        }) {
            bad.push(format!("{{\"scenario\":{},\"op\":{},\"what\":{}}}", k, m.op, json::esc(&m.what)));
        }
        #[cfg(not(miri))]
        sig::idle();
    }
    let out = a.get("out", "");
    if out == "-" {
        for l in &lines {
            println!("{}", l)
        }
    } else if !out.is_empty() {
        std::fs::write(out, lines.join("\n") + "\n").unwrap();
    }
    println!("SUMMARY {{{},\"blocks\":{},\"bad\":[{}]}}", st.json(), r.m.blocks, bad.join(","));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let argv: Vec<String> = std::env::args().collect();
    if argv.len() < 2 {
        eprintln!("usage: b2h walk|exec|dump|info|ref|big|stress [--name value]...");
        std::process::exit(2);
    }
    let mut a = Args(HashMap::new());
    let mut i = 2;
    let mut rest = vec![];
    while i < argv.len() {
        if let Some(k) = argv[i].strip_prefix("--") {
            a.0.insert(k.to_string(), argv.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            rest.push(argv[i].clone());
            i += 1;
        }
    }
    #[cfg(not(miri))]
    {
        if a.0.contains_key("cpu") {
            cpu::emulate(&a.get("cpu", ""));
        }
        sig::install(a.num("hang", 120));
    }
    match argv[1].as_str() {
        "walk" => walk(&a),
        "exec" => exec_file(&a),
        "dump" => {
            for s in [rest[0].clone()] {
                let ops = gen::scenario(&s, rest[1].parse().unwrap(), rest[2].parse().unwrap()).unwrap();
                print!("{}", dump_ops(&ops));
            }
        }
        "trace" => {
            // a fixed, platform-independent list of scenarios recorded into one trace
            let seed = a.num("seed", 1);
            let n = a.num("count", 10);
            let mut text = String::new();
            let mut blocks = 0;
            for p in a.get("profiles", "mix").split(',') {
                let from = a.num("from", 0);
                for idx in from..from + n {
                    if let Some(ops) = gen::scenario(p, seed, idx) {
                        if ops.is_empty() {
                            continue;
                        }
                        let mut m = mirror::Mirror::new(cfg!(debug_assertions), [0, 0]);
                        m.dry = true;
                        for o in &ops {
                            m.step(o);
                        }
                        if m.blocks > a.num("cap", 400) {
                            continue;
                        }
                        blocks += m.blocks;
                        for l in record(&ops, &a) {
                            text.push_str(&l);
                            text.push('\n');
                        }
                    }
                }
            }
            if a.get("out", "-") == "-" {
                print!("{}", text);
            } else {
                std::fs::write(a.get("out", ""), text).unwrap();
            }
            eprintln!("BLOCKS {}", blocks);
        }
        "info" => {
            println!(
                "INFO b={}/{} s={}/{} debug={} std={} hooks={}",
                blake2b_simd::many::degree(),
                blake2b_simd::many::MAX_DEGREE,
                blake2s_simd::many::degree(),
                blake2s_simd::many::MAX_DEGREE,
                cfg!(debug_assertions) as u8,
                cfg!(feature = "std") as u8,
                gen::HOOKS as u8
            );
        }
        #[cfg(not(miri))]
        "audit" => cpu::audit(),
        #[cfg(not(miri))]
        "ref" => big::oracle(&rest),
        #[cfg(not(miri))]
        "reftail" => big::tailrow(&rest),
        #[cfg(not(miri))]
        "big" => big::run(&a.get("tasks", "all"), a.num("extra", 0)),
        #[cfg(not(miri))]
        "steps" => steps::main(a.num("seed", 1), a.num("stride", 5) as usize, a.num("part", 0), a.num("of", 1), a.num("contents", 12), &a.get("out", "/dev/stdout"), &a.get("operands", "")),
        #[cfg(feature = "threads")]
        "stress" => stress::run(&a),
        #[cfg(feature = "threads")]
        "races" => stress::races(&a),
        x => {
            eprintln!("unknown command {}", x);
            std::process::exit(2)
        }
    }
}
