//! Inputs beyond 2^32 bytes (property C07) and the file oracle for the command-line checks.
use crate::json;
use crate::refb2::{fill_stream, seg_bytes, Prm, Ref, V};
use blake2b_simd as cb;
use blake2s_simd as cs;
use std::collections::HashMap;
use std::io::Read;
use std::sync::Mutex;
use std::time::Instant;

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// ref VARIANT [field=value]... FILE
pub fn oracle(a: &[String]) {
    let v = V::parse(&a[0]);
    let mut p = Prm::new(v);
    for x in &a[1..a.len() - 1] {
        let (k, y) = x.split_once('=').unwrap();
        match k {
            "hl" => p.hl = y.parse().unwrap(),
            "key" => p.key = unhex(y),
            "salt" => p.salt = unhex(y),
            "pers" => p.pers = unhex(y),
            "fo" => p.fo = y.parse().unwrap(),
            "md" => p.md = y.parse().unwrap(),
            "mll" => p.mll = y.parse().unwrap(),
            "no" => p.no = y.parse().unwrap(),
            "nd" => p.nd = y.parse().unwrap(),
            "ihl" => p.ihl = y.parse().unwrap(),
            "ln" => p.ln = y == "1",
            _ => panic!("field {}", k),
        }
    }
    let mut f = std::fs::File::open(&a[a.len() - 1]).unwrap();
    let mut r = Ref::new(v, &p, 0);
    let mut buf = vec![0; 1 << 20];
    loop {
        let n = f.read(&mut buf).unwrap();
        if n == 0 {
            break;
        }
        r.update(&buf[..n]);
    }
    let d = r.finish();
    println!("{}", d.iter().map(|b| format!("{:02x}", b)).collect::<String>());
}

/// reftail VARIANT KEYHEX FILE: a line for TraceBig.tla without its observed digest.
pub fn tailrow(a: &[String]) {
    let v = V::parse(&a[0]);
    let mut p = Prm::new(v);
    p.key = unhex(&a[1]);
    let mut f = std::fs::File::open(&a[2]).unwrap();
    let len = f.metadata().unwrap().len();
    let mut r = Ref::new(v, &p, 0);
    let row = (v.blk() * v.fan()) as u64;
    let cut = len.saturating_sub(3 * row) / row * row;
    let mut buf = vec![0; 1 << 20];
    let mut at = 0;
    while at < cut {
        let n = f.by_ref().take((cut - at).min(1 << 20)).read(&mut buf).unwrap();
        assert!(n > 0);
        r.update(&buf[..n]);
        at += n as u64;
    }
    let mut tail = vec![];
    f.read_to_end(&mut tail).unwrap();
    let mut fin = r.clone();
    fin.update(&tail);
    let d = fin.finish();
    let nodes: Vec<String> = r
        .node_states()
        .iter()
        .map(|(h, t, buf)| format!("{{\"h\":[{}],\"t\":{},\"buf\":{}}}", h.join(","), t, json::bytes(buf)))
        .collect();
    println!("{}", d.iter().map(|b| format!("{:02x}", b)).collect::<String>());
    println!(
        "{{\"v\":\"{}\",\"key\":{},\"nodes\":[{}],\"tail\":{},\"len\":{},\"count\":[]",
        v.name(),
        json::bytes(&p.key),
        nodes.join(","),
        json::bytes(&tail),
        json::limbs(len as u128, 4)
    );
}

const CHUNK: usize = 1 << 24;
/// A readable slice of `n` chunks that all show the same 16 MiB of memory.
fn huge(n: usize) -> &'static [u8] {
    use crate::mem::sys::mmap;
    unsafe {
        let fd = memfd_create(b"big\0".as_ptr(), 0);
        assert!(fd >= 0 && ftruncate(fd, CHUNK as i64) == 0);
        let base = mmap(std::ptr::null_mut(), n * CHUNK, 0, 0x4022, -1, 0);
        assert!(base as isize > 0);
        for i in 0..n {
            let p = mmap(base.add(i * CHUNK), CHUNK, 3, 0x11, fd, 0);
            assert!(p == base.add(i * CHUNK));
        }
        fill_stream(77, 0, std::slice::from_raw_parts_mut(base, CHUNK));
        std::slice::from_raw_parts(base, n * CHUNK)
    }
}

fn key_of(v: V) -> Vec<u8> {
    seg_bytes(9, 0, if v.is_b() { 21 } else { 11 })
}
/// Reference digests of the prefixes of `s` of the given (ascending) lengths.
fn reference(v: V, key: bool, s: &[u8], lens: &[u64], traces: &Mutex<HashMap<(&'static str, bool, u64), String>>) -> HashMap<u64, Vec<u8>> {
    let mut p = Prm::new(v);
    if key {
        p.key = key_of(v)
    }
    let mut r = Ref::new(v, &p, 0);
    let mut at = 0u64;
    let mut out = HashMap::new();
    let row = (v.blk() * v.fan()) as u64;
    for l in lens {
        // stop a few rows early and hand the rest to the specification
        let cut = ((l - 3 * row) / row * row).max(at);
        if v.is_tree() {
            r.update_rows(&s[at as usize..cut as usize])
        } else {
            r.update(&s[at as usize..cut as usize])
        }
        at = cut;
        let tail = &s[at as usize..*l as usize];
        let mut fin = r.clone();
        fin.update(tail);
        let d = fin.finish();
        let nodes: Vec<String> = r
            .node_states()
            .iter()
            .map(|(h, t, buf)| format!("{{\"h\":[{}],\"t\":{},\"buf\":{}}}", h.join(","), t, json::bytes(buf)))
            .collect();
        traces.lock().unwrap().insert(
            (v.name(), key, *l),
            format!(
                "{{\"v\":\"{}\",\"key\":{},\"nodes\":[{}],\"tail\":{},\"len\":{}",
                v.name(),
                json::bytes(&p.key),
                nodes.join(","),
                json::bytes(tail),
                json::limbs(*l as u128, 4)
            ),
        );
        out.insert(*l, d);
    }
    out
}

pub fn run(tasks: &str, extra: u64) {
    let want = |x: &str| tasks.split(',').any(|t| t == x || (t == "all" && x != "giant"));
    // "giant": inputs of which each leaf's share alone is beyond 2^32 bytes
    let n = if want("giant") { 8 * 256 + 1 } else { 257 };
    let s: &'static [u8] = &huge(n)[5..];
    let g = 1u64 << 32;
    let lens_for = |v: V| -> Vec<u64> {
        let b = v.blk() as u64;
        let mut l: Vec<u64> = vec![g - 2 * b, g - b + 1, g - 1, g, g + 1, g + b - 1, g + b, g + 2 * b + 7, g + 4 * b + (extra % 997)];
        // for pieces of exactly 2^32 bytes and one more, after a few bytes
        l.extend([g + 3, g + 37, g + 75]);
        if v.is_tree() {
            l = vec![g - 1, g, g + 3, g + b, g + 1 + extra % 997, g + 5 * b * v.fan() as u64 + 3];
        }
        l.sort();
        l.dedup();
        l
    };
    let giant = |v: V| v.fan() as u64 * g + v.blk() as u64 * (v.fan() as u64 + 1) + 1 + extra % 997;
    let traces = Mutex::new(HashMap::new());
    let refs: Mutex<HashMap<(&'static str, bool), HashMap<u64, Vec<u8>>>> = Mutex::new(HashMap::new());
    // (variant, keyed, label, length, digest, count)
    type Obs = (V, bool, &'static str, u64, Vec<u8>, Option<u128>);
    let obs: Mutex<Vec<Obs>> = Mutex::new(vec![]);
    let times: Mutex<Vec<String>> = Mutex::new(vec![]);
    let mut jobs: Vec<(&'static str, Box<dyn FnOnce() + Send + '_>)> = vec![];
    macro_rules! job {
        ($n:expr, $f:expr) => {
            jobs.push(($n, Box::new($f)))
        };
    }
    for v in V::ALL {
        if !(want(v.name()) || (!v.is_tree() && (want("many") || want("umany")))) {
            continue;
        }
        let (refs, traces) = (&refs, &traces);
        let lens = lens_for(v);
        job!("reference", move || {
            let r = reference(v, true, s, &lens, traces);
            refs.lock().unwrap().entry((v.name(), true)).or_insert_with(HashMap::new).extend(r);
        });
    }
    if want("giant") {
        for v in [V::Sp, V::Bp] {
            let (refs, traces) = (&refs, &traces);
            job!("giant reference", move || {
                let r = reference(v, true, s, &[giant(v)], traces);
                refs.lock().unwrap().entry((v.name(), true)).or_insert_with(HashMap::new).extend(r);
            });
        }
    }
    let cut = |l: u64| &s[..l as usize];
    let obs_ = &obs;
    let put = move |o: Obs| obs_.lock().unwrap().push(o);
    for v in V::ALL {
        if !want(v.name()) {
            continue;
        }
        let lens = lens_for(v);
        let l = lens[lens.len() - 1];
        let l2 = lens[lens.len() - 2];
        macro_rules! both {
            ($m:path, $p:path) => {{
                job!("oneshot", move || {
                    use $m as m;
                    let mut p = m::Params::new();
                    p.key(&key_of(v));
                    put((v, true, "hash", l, p.hash(cut(l)).as_bytes().to_vec(), None));
                });
                job!("update", move || {
                    use $m as m;
                    let mut p = m::Params::new();
                    p.key(&key_of(v));
                    let mut st = p.to_state();
                    // one huge slice after a short one, then the rest in small pieces
                    st.update(cut(3));
                    st.update(&s[3..l2 as usize]);
                    put((v, true, "update", l2, st.finalize().as_bytes().to_vec(), Some(st.count() as u128)));
                    st.update(&s[l2 as usize..l as usize]);
                    put((v, true, "update+", l, st.finalize().as_bytes().to_vec(), Some(st.count() as u128)));
                });
                for (first, piece) in [(3, g), (v.blk() as u64 - 1, g + 1)] {
                    job!("piece", move || {
                        use $m as m;
                        let mut p = m::Params::new();
                        p.key(&key_of(v));
                        let mut st = p.to_state();
                        st.update(cut(first));
                        st.update(&s[first as usize..(first + piece) as usize]);
                        put((v, true, "piece", first + piece, st.finalize().as_bytes().to_vec(), Some(st.count() as u128)));
                    });
                }
            }};
        }
        match v {
            V::B => both!(blake2b_simd, p),
            V::S => both!(blake2s_simd, p),
            V::Bp => both!(blake2b_simd::blake2bp, p),
            V::Sp => both!(blake2s_simd::blake2sp, p),
        }
    }
    macro_rules! giant {
        ($m:path, $v:expr) => {{
            let v = $v;
            let l = giant(v);
            job!("giant", move || {
                use $m as m;
                let mut p = m::Params::new();
                p.key(&key_of(v));
                let mut st = p.to_state();
                st.update(cut(l));
                put((v, true, "one update", l, st.finalize().as_bytes().to_vec(), Some(st.count() as u128)));
            });
        }};
    }
    if want("giant") {
        giant!(blake2s_simd::blake2sp, V::Sp);
        giant!(blake2b_simd::blake2bp, V::Bp);
    }
    macro_rules! many {
        ($m:ident, $v:expr, $deg:expr) => {{
            let v = $v;
            let lens = lens_for(v);
            let pick: Vec<u64> = (0..$deg).map(|i| lens[(i * 5 + 1) % lens.len()]).collect();
            if want("many") {
                let pick = pick.clone();
                job!("hash_many", move || {
                    let mut p = $m::Params::new();
                    p.key(&key_of(v));
                    let mut js: Vec<_> = pick.iter().map(|l| $m::many::HashManyJob::new(&p, cut(*l))).collect();
                    $m::many::hash_many(js.iter_mut());
                    for (j, l) in js.iter().zip(&pick) {
                        put((v, true, "hash_many", *l, j.to_hash().as_bytes().to_vec(), None));
                    }
                });
            }
            if want("umany") {
                job!("update_many", move || {
                    let mut p = $m::Params::new();
                    p.key(&key_of(v));
                    let mut st: Vec<_> = pick.iter().map(|_| p.to_state()).collect();
                    // different fill levels per lane
                    let mut pick = pick.clone();
                    pick[1] = g + 37;
                    pick[2] = g + 75;
                    for (i, x) in st.iter_mut().enumerate() {
                        x.update(cut(37 * i as u64));
                    }
                    $m::many::update_many(st.iter_mut().enumerate().map(|(i, x)| (x, &s[37 * i..pick[i] as usize])));
                    for (x, l) in st.iter().zip(&pick) {
                        put((v, true, "update_many", *l, x.finalize().as_bytes().to_vec(), Some(x.count() as u128)));
                    }
                });
            }
        }};
    }
    many!(cb, V::B, 4);
    many!(cs, V::S, 8);
    let queue: Mutex<std::collections::VecDeque<_>> = Mutex::new(jobs.into());
    let panicked: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let j = queue.lock().unwrap().pop_front();
                match j {
                    None => break,
                    Some((n, f)) => {
                        let t = Instant::now();
                        if let Err(_) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                            panicked.lock().unwrap().push(n.to_string())
                        }
                        times.lock().unwrap().push(format!("\"{}\":{:.1}", n, t.elapsed().as_secs_f64()));
                    }
                }
            });
        }
    });
    drop(queue);
    let refs = refs.into_inner().unwrap();
    // one line per distinct (message, digest, count) observed: the specification judges them all
    let mut n = 0;
    let traces = traces.into_inner().unwrap();
    let mut lines = std::collections::BTreeMap::new();
    for (v, k, label, len, d, cnt) in obs.into_inner().unwrap() {
        n += 1;
        let want = &refs[&(v.name(), k)][&len];
        let okc = cnt.map_or(true, |c| c == len as u128);
        if *want != d || !okc {
            println!("BAD {} {} len={} digest_ok={} count={:?}", v.name(), label, len, *want == d, cnt);
        }
        let c = cnt.map_or("[]".to_string(), |c| json::limbs(c, 8));
        let line = format!("{},\"out\":{},\"count\":{}}}", traces[&(v.name(), k, len)], json::bytes(&d), c);
        lines.entry(line).or_insert(label);
    }
    for p in panicked.into_inner().unwrap() {
        println!("BAD panic in {}", p);
    }
    for (t, _) in lines {
        println!("BIGTRACE {}", t);
    }
    eprintln!("{}", times.into_inner().unwrap().join(" "));
    println!("SUMMARY {{\"observations\":{}}}", n);
}
