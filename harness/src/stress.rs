//! Property C16: objects handed between threads after every call, and read concurrently.
use crate::exec::{res_json, Runner, Stats};
use crate::gen;
use crate::json;
use crate::refb2::{digest, seg_bytes, Prm, V};
use crate::world::Res;
use crate::Args;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Barrier, Mutex, OnceLock};

struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}

struct Task {
    r: Sent<Runner>,
    ops: Vec<crate::ops::Op>,
    at: usize,
    shift: usize,
    idx: u64,
    bad: Option<String>,
    done: bool,
}

/// compile-time part: every public object may cross threads
fn assert_send_sync<T: Send + Sync>() {}
#[allow(dead_code)]
fn bounds() {
    assert_send_sync::<blake2b_simd::Params>();
    assert_send_sync::<blake2b_simd::State>();
    assert_send_sync::<blake2b_simd::Hash>();
    assert_send_sync::<blake2b_simd::blake2bp::Params>();
    assert_send_sync::<blake2b_simd::blake2bp::State>();
    assert_send_sync::<blake2b_simd::many::HashManyJob<'static>>();
    assert_send_sync::<blake2s_simd::Params>();
    assert_send_sync::<blake2s_simd::State>();
    assert_send_sync::<blake2s_simd::Hash>();
    assert_send_sync::<blake2s_simd::blake2sp::Params>();
    assert_send_sync::<blake2s_simd::blake2sp::State>();
    assert_send_sync::<blake2s_simd::many::HashManyJob<'static>>();
}

pub fn run(a: &Args) {
    let seed = a.num("seed", 1);
    let rounds = a.num("rounds", 50);
    let threads = a.num("threads", 8) as usize;
    let cap = a.num("cap", 500);
    let out = a.get("out", "");
    let deg = crate::degrees(&a.get("platform", "any"));
    let mut stats = Stats::default();
    let mut bad: Vec<String> = vec![];
    let mut files = 0;

    // first use of the process: every thread's very first call races on CPU detection
    {
        let bar = Barrier::new(threads);
        let res: Mutex<Vec<(V, Vec<u8>, Vec<u8>)>> = Mutex::new(vec![]);
        let degs: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (bar, res, degs) = (&bar, &res, &degs);
                s.spawn(move || {
                    let m = seg_bytes(3 + t as u32, 0, 700 + 300 * t as u64);
                    bar.wait();
                    let (v, d) = match t % 4 {
                        0 => (V::B, blake2b_simd::blake2b(&m).as_bytes().to_vec()),
                        1 => (V::S, blake2s_simd::blake2s(&m).as_bytes().to_vec()),
                        2 => (V::Bp, blake2b_simd::blake2bp::blake2bp(&m).as_bytes().to_vec()),
                        _ => (V::Sp, blake2s_simd::blake2sp::blake2sp(&m).as_bytes().to_vec()),
                    };
                    degs.lock().unwrap().push((blake2b_simd::many::degree(), blake2s_simd::many::degree()));
                    res.lock().unwrap().push((v, d, digest(v, &Prm::new(v), &m, 0)));
                });
            }
        });
        for (v, d, w) in res.into_inner().unwrap() {
            if d != w {
                bad.push(format!("first call on {} wrong under racing detection", v.name()));
            }
        }
        let d = degs.into_inner().unwrap();
        if d.iter().any(|x| *x != d[0]) {
            bad.push("degree differs between threads".into());
        }
    }

    for round in 0..rounds {
        // four scenarios per group, their slots disjoint, every call on a random thread
        let n = 8;
        let mut tasks = vec![];
        for k in 0..n {
            let mut idx = round * 1000 + k * 40;
            let ops = loop {
                let ops = gen::scenario("mix", seed, idx).unwrap();
                let mut m = crate::mirror::Mirror::new(cfg!(debug_assertions), deg);
                m.dry = true;
                for o in &ops {
                    m.step(o);
                }
                if m.blocks <= cap {
                    break ops;
                }
                idx += 1
            };
            tasks.push(Mutex::new(Task {
                r: Sent(Runner::new(cfg!(debug_assertions), deg, false)),
                shift: 24 * (k as usize % 4),
                ops,
                at: 0,
                idx,
                bad: None,
                done: false,
            }));
        }
        let seq = AtomicU64::new(0);
        let left = AtomicU64::new(n);
        let lines: Mutex<Vec<(u64, usize, String)>> = Mutex::new(vec![]);
        let st: Mutex<Stats> = Mutex::new(Stats::default());
        let bar = Barrier::new(threads);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (tasks, seq, lines, st, bar, left) = (&tasks, &seq, &lines, &st, &bar, &left);
                s.spawn(move || {
                    let mut rng = gen::Rng(seed ^ (round << 20) ^ t as u64);
                    let mut mine = Stats::default();
                    let mut log = vec![];
                    bar.wait();
                    while left.load(SeqCst) > 0 {
                        let k = rng.below(n) as usize;
                        let mut q = match tasks[k].try_lock() {
                            Ok(q) => q,
                            Err(_) => continue,
                        };
                        let q = &mut *q;
                        if q.at >= q.ops.len() || q.bad.is_some() {
                            if !q.done {
                                q.done = true;
                                left.fetch_sub(1, SeqCst);
                            }
                            continue;
                        }
                        let op = q.ops[q.at].shift(q.shift);
                        q.at += 1;
                        #[cfg(not(miri))]
                        crate::sig::begin("mix", q.idx);
                        #[cfg(not(miri))]
                        crate::sig::at(q.at - 1);
                        let res = q.r.0.step(&op, &mut mine);
                        #[cfg(not(miri))]
                        crate::sig::idle();
                        let at = seq.fetch_add(1, SeqCst);
                        let (r, why) = match res {
                            Ok((Res::Skip, _)) => continue,
                            Ok((r, _)) => (r, None),
                            Err((r, _, w)) => (r, Some(w)),
                        };
                        log.push((at, k / 4, format!("{{\"o\":{},\"r\":{}}}", op.to_json(), res_json(&r, None))));
                        if let Some(w) = why {
                            q.bad = Some(w)
                        }
                    }
                    lines.lock().unwrap().extend(log);
                    st.lock().unwrap().merge(mine);
                });
            }
        });
        stats.merge(st.into_inner().unwrap());
        let mut failed = [false; 2];
        for (k, t) in tasks.iter().enumerate() {
            let mut q = t.lock().unwrap();
            if q.at < q.ops.len() && q.bad.is_none() {
                q.bad = Some("not finished".into())
            }
            if let Err(e) = q.r.0.w.reset() {
                q.bad = Some(e)
            }
            if let Some(w) = &q.bad {
                bad.push(format!("mix {} under interleaving: {}", q.idx, w));
                failed[k / 4] = true;
            }
        }
        let mut l = lines.into_inner().unwrap();
        l.sort();
        for g in 0..2 {
            if (failed[g] && bad.len() < 6) || (!out.is_empty() && files < a.num("files", 8)) {
                let mut text = String::from("{\"o\":[\"reset\"],\"r\":{\"k\":\"ok\"}}\n");
                for x in l.iter().filter(|x| x.1 == g) {
                    text.push_str(&x.2);
                    text.push('\n');
                }
                let p = format!("{}.{}{}.ndjson", out, if failed[g] { "bad" } else { "" }, files);
                if !out.is_empty() {
                    std::fs::write(p, text).unwrap();
                }
                files += 1;
            }
        }
    }

    // shared references: several threads read one object at the same time
    let mut shared = 0u64;
    for round in 0..rounds.min(200) {
        macro_rules! share {
            ($m:path, $v:expr) => {{
                use $m as m;
                let v = $v;
                let mut rng = gen::Rng(seed ^ (round << 8) ^ v as u64);
                let mut prm = Prm::new(v);
                let mut p = m::Params::new();
                prm.key = seg_bytes(9, 0, rng.below(v.outb() as u64 + 1));
                prm.hl = 1 + rng.below(v.outb() as u64) as u8;
                p.key(&prm.key).hash_length(prm.hl as usize);
                let len = gen::length(&mut rng, v, 0, 3000);
                let more = gen::length(&mut rng, v, len, 1000);
                let msg = seg_bytes(4, 0, len + more);
                let mut st = p.to_state();
                st.update(&msg[..len as usize]);
                let w1 = digest(v, &prm, &msg[..len as usize], 0);
                let w2 = digest(v, &prm, &msg, 0);
                let bar = Barrier::new(4);
                let errs = AtomicU64::new(0);
                std::thread::scope(|s| {
                    for t in 0..4 {
                        let (st, p, msg, w1, w2, bar, errs) = (&st, &p, &msg, &w1, &w2, &bar, &errs);
                        s.spawn(move || {
                            bar.wait();
                            for k in 0..4 {
                                let ok = match (t + k) % 5 {
                                    0 => st.finalize().as_bytes() == &w1[..],
                                    1 => p.hash(msg).as_bytes() == &w2[..],
                                    2 => {
                                        let mut c = st.clone();
                                        c.update(&msg[len as usize..]);
                                        c.finalize().as_bytes() == &w2[..] && c.count() as u64 == len + more
                                    }
                                    3 => st.count() as u64 == len && format!("{:?}", st).len() > 0,
                                    _ => {
                                        let mut c = p.to_state();
                                        c.update(msg);
                                        c.finalize().as_bytes() == &w2[..]
                                    }
                                };
                                if !ok {
                                    errs.fetch_add(1, SeqCst);
                                }
                            }
                        });
                    }
                });
                shared += 16;
                if errs.load(SeqCst) > 0 {
                    bad.push(format!("concurrent readers of one {} object disagree", v.name()));
                }
            }};
        }
        share!(blake2b_simd, V::B);
        share!(blake2s_simd, V::S);
        share!(blake2b_simd::blake2bp, V::Bp);
        share!(blake2s_simd::blake2sp, V::Sp);
    }
    // the same kind of call by every thread at the same moment, each on objects and data of its own
    let mut contended = 0u64;
    let ms = a.num("contend", 0);
    if ms > 0 {
        for (n, len) in [(0, 0u64), (1, 33), (2, 700), (3, 5000), (4, 70_000), (5, 1_200_000)] {
            for v in [V::B, V::S, V::Bp, V::Sp] {
                let wrong = contend(v, len, threads, seed + n, ms, &mut contended);
                if let Some((what, lines)) = wrong {
                    bad.push(what);
                    if !out.is_empty() && files < 100 {
                        std::fs::write(format!("{}.bad{}.ndjson", out, files), lines).unwrap();
                        files += 1;
                    }
                }
            }
        }
    }
    let b: Vec<String> = bad.iter().take(20).map(|x| json::esc(x)).collect();
    println!(
        "SUMMARY {{{},\"rounds\":{},\"contended\":{},\"shared_reads\":{},\"traces\":{},\"bad\":[{}]}}",
        stats.json(),
        rounds,
        contended,
        shared,
        files,
        b.join(",")
    );
}

/// All threads make the same kind of call over and over, on data of their own; the first wrong result.
fn contend(v: V, len: u64, threads: usize, seed: u64, ms: u64, count: &mut u64) -> Option<(String, String)> {
    let mut rng = gen::Rng(seed);
    let prms: Vec<(Prm, u32, u64, Vec<u8>)> = (0..threads)
        .map(|t| {
            let mut p = Prm::new(v);
            let (k, n) = (40 + t as u32, if t % 2 == 0 { 0 } else { 1 + rng.below(v.outb() as u64) });
            p.key = seg_bytes(k, 0, n);
            p.hl = if t % 3 == 0 { v.outb() as u8 } else { 1 + rng.below(v.outb() as u64) as u8 };
            (p, k, n, seg_bytes(60 + t as u32, 0, len))
        })
        .collect();
    let want: Vec<Vec<u8>> = prms.iter().map(|(p, _, _, m)| digest(v, p, m, 0)).collect();
    let bar = Barrier::new(threads);
    let n = AtomicU64::new(0);
    let wrong: Mutex<Option<(usize, &str, Vec<u8>)>> = Mutex::new(None);
    macro_rules! go {
        ($m:path, $many:expr) => {{
            use $m as m;
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (prms, want, bar, n, wrong) = (&prms, &want, &bar, &n, &wrong);
                    s.spawn(move || {
                        let (p, _, _, msg) = &prms[t];
                        // one kind of call after the other, all threads together
                        for (kind, what) in ["Params::hash", "State", "clone and finalize", "batch"].into_iter().enumerate() {
                            bar.wait();
                            let start = std::time::Instant::now();
                            let mut q = m::Params::new();
                            q.hash_length(p.hl as usize).key(&p.key);
                            let mut whole = q.to_state();
                            whole.update(msg);
                            while (start.elapsed().as_millis() as u64) < ms {
                                let h: Vec<u8> = match kind {
                                    0 => q.hash(msg).as_bytes().to_vec(),
                                    1 => {
                                        let mut q = m::Params::new();
                                        q.key(&p.key).hash_length(p.hl as usize);
                                        let mut st = q.to_state();
                                        for c in msg.chunks(1 + msg.len() / 3) {
                                            st.update(c);
                                        }
                                        st.finalize().as_bytes().to_vec()
                                    }
                                    2 => whole.clone().finalize().as_bytes().to_vec(),
                                    _ => $many(&q, msg),
                                };
                                n.fetch_add(1, SeqCst);
                                if h != want[t] {
                                    wrong.lock().unwrap().get_or_insert((t, what, h));
                                    break;
                                }
                            }
                        }
                    });
                }
            });
        }};
    }
    macro_rules! batch {
        ($c:ident) => {
            |q: &$c::Params, msg: &[u8]| -> Vec<u8> {
                let mut jobs = [$c::many::HashManyJob::new(q, msg), $c::many::HashManyJob::new(q, &msg[..msg.len() / 2])];
                $c::many::hash_many(jobs.iter_mut());
                let mut st = [q.to_state(), q.to_state()];
                $c::many::update_many(st.iter_mut().map(|s| (s, msg)));
                let (a, b) = (jobs[0].to_hash(), st[1].finalize());
                if a == b { a.as_bytes().to_vec() } else { vec![] }
            }
        };
    }
    match v {
        V::B => go!(blake2b_simd, batch!(blake2b_simd)),
        V::S => go!(blake2s_simd, batch!(blake2s_simd)),
        V::Bp => go!(blake2b_simd::blake2bp, |q: &m::Params, msg: &[u8]| q.hash(msg).as_bytes().to_vec()),
        V::Sp => go!(blake2s_simd::blake2sp, |q: &m::Params, msg: &[u8]| q.hash(msg).as_bytes().to_vec()),
    }
    *count += n.load(SeqCst);
    let (t, what, h) = wrong.into_inner().unwrap()?;
    // that thread's own calls, as the specification sees them
    let (p, k, klen, _) = &prms[t];
    let list: Vec<String> = h.iter().map(|x| x.to_string()).collect();
    let ok = "{\"k\":\"ok\"}";
    let lines = format!(
        "{{\"o\":[\"reset\"],\"r\":{ok}}}\n{{\"o\":[\"pnew\",0,\"{}\"],\"r\":{ok}}}\n{{\"o\":[\"pset\",0,\"hl\",[{},0,0,0]],\"r\":{ok}}}\n{{\"o\":[\"pset\",0,\"key\",[{},0,{}]],\"r\":{ok}}}\n{{\"o\":[\"phash\",0,[{},0,{}],0],\"r\":{{\"k\":\"bytes\",\"b\":[{}]}}}}\n",
        v.name(), p.hl, k, klen, 60 + t, len, list.join(",")
    );
    Some((format!("{} by {} threads at once: a {} of {} bytes is wrong", v.name(), threads, what, len), lines))
}

/// A small concurrent program for Miri, which knows every order of memory: the first calls of the process race, the
/// threads then work on objects of their own and on two shared ones.  With `--expect 1` the standard's results.
pub fn races(a: &Args) {
    let seed = a.num("seed", 1);
    let threads = a.num("threads", 3) as usize;
    let expect = a.num("expect", 0) == 1;
    let big = a.num("big", 0);
    let plan: Vec<(V, Prm, Vec<u8>, usize)> = (0..threads)
        .flat_map(|t| {
            let mut rng = gen::Rng(seed * 1000 + t as u64);
            [V::B, V::S, V::Bp, V::Sp].map(|v| {
                let mut prm = Prm::new(v);
                prm.key = seg_bytes(11 + t as u32, 0, rng.below(3) * 7);
                prm.hl = 1 + rng.below(v.outb() as u64) as u8;
                let len = rng.below(2 * v.blk() as u64 + big) + 1;
                (v, prm, seg_bytes(2 + 5 * t as u32, 0, len), rng.below(len + 1) as usize)
            })
        })
        .collect();
    let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
    let shared_msg = seg_bytes(77, 0, 100);
    if expect {
        for (k, (v, prm, msg, cut)) in plan.iter().enumerate() {
            let (t, d) = (k / 4, hex(&digest(*v, prm, msg, 0)));
            println!("{} {} one {}", t, v.name(), d);
            println!("{} {} inc {} {}", t, v.name(), hex(&digest(*v, prm, &msg[..*cut], 0)), d);
            if matches!(v, V::B | V::S) {
                println!("{} {} many {} {} {}", t, v.name(), d, hex(&digest(*v, prm, &msg[*cut..], 0)), d);
                println!("{} {} shared {} {}", t, v.name(), hex(&digest(*v, &Prm::new(*v), &shared_msg, 0)), hex(&digest(*v, &Prm::new(*v), &shared_msg[..70], 0)));
            }
        }
        return;
    }
    let bar = Barrier::new(threads);
    // made by whoever comes first, after calls of its own
    let (b, s) = (OnceLock::new(), OnceLock::new());
    // nothing that orders the threads happens between their first and their last call
    let lines: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|t| {
            let (bar, plan, b, s, shared_msg) = (&bar, &plan, &b, &s, &shared_msg);
            sc.spawn(move || {
                let mut out = vec![];
                bar.wait();
                let mut say = |x: String| out.push(x);
                macro_rules! plain {
                    ($m:path, $prm:expr, $msg:expr, $cut:expr, $v:expr) => {{
                        use $m as m;
                        let mut p = m::Params::new();
                        p.key(&$prm.key).hash_length($prm.hl as usize);
                        say(format!("{} {} one {}", t, $v.name(), p.hash($msg).to_hex()));
                        let mut st = p.to_state();
                        st.update(&$msg[..$cut]);
                        let first = st.clone().finalize().to_hex();
                        st.update(&$msg[$cut..]);
                        say(format!("{} {} inc {} {}", t, $v.name(), first, st.finalize().to_hex()));
                    }};
                }
                macro_rules! many {
                    ($m:path, $prm:expr, $msg:expr, $cut:expr, $v:expr, $cell:expr) => {{
                        use $m as m;
                        let mut p = m::Params::new();
                        p.key(&$prm.key).hash_length($prm.hl as usize);
                        let mut jobs = [m::many::HashManyJob::new(&p, $msg), m::many::HashManyJob::new(&p, &$msg[$cut..])];
                        m::many::hash_many(jobs.iter_mut());
                        let mut sts = [p.to_state(), p.to_state()];
                        m::many::update_many(sts.iter_mut().zip([&$msg[..], &$msg[..$cut]].iter()));
                        say(format!("{} {} many {} {} {}", t, $v.name(), jobs[0].to_hash().to_hex(), jobs[1].to_hash().to_hex(), sts[0].finalize().to_hex()));
                        let (sp, st) = $cell.get_or_init(|| {
                            let p = m::Params::new();
                            let mut st = p.to_state();
                            st.update(&shared_msg[..10 + 30 * (seed as usize % 3)]);
                            (p, st)
                        });
                        let (x, y) = (sp.hash(shared_msg).to_hex(), sp.to_state().update(&shared_msg[..70]).finalize().to_hex());
                        let mut c = st.clone();
                        let at = c.count() as usize;
                        c.update(&shared_msg[at..70]);
                        let z = c.finalize().to_hex();
                        let _ = st.finalize();
                        assert!(y == z, "a clone of a shared state");
                        say(format!("{} {} shared {} {}", t, $v.name(), x, y));
                    }};
                }
                for k in 0..4 {
                    let (v, prm, msg, cut) = &plan[4 * t + (k + t + seed as usize) % 4];
                    match v {
                        V::B => {
                            plain!(blake2b_simd, prm, msg, *cut, v);
                            many!(blake2b_simd, prm, msg, *cut, v, b);
                        }
                        V::S => {
                            plain!(blake2s_simd, prm, msg, *cut, v);
                            many!(blake2s_simd, prm, msg, *cut, v, s);
                        }
                        V::Bp => plain!(blake2b_simd::blake2bp, prm, msg, *cut, v),
                        V::Sp => plain!(blake2s_simd::blake2sp, prm, msg, *cut, v),
                    }
                }
                out
            })
        }).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    for x in lines {
        println!("{}", x);
    }
}
