//! Runs the process on an imitated CPU: CPUID is made to fault (arch_prctl ARCH_CPUID) and the
//! handler answers with the real leaves minus the features the imitated machine lacks.
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
static ACTIVE: AtomicBool = AtomicBool::new(false);
static FORWARD: AtomicUsize = AtomicUsize::new(0);
static mut LEAVES: [[u32; 6]; 64] = [[0; 6]; 64]; // leaf, sub, eax, ebx, ecx, edx
static mut NLEAVES: usize = 0;

pub fn active() -> bool {
    ACTIVE.load(SeqCst)
}
pub fn set_forward(h: usize) {
    FORWARD.store(h, SeqCst)
}

#[cfg(target_arch = "x86_64")]
extern "C" fn on_segv(sig: i32, _info: *mut u8, ctx: *mut u8) {
    unsafe {
        // ucontext_t: uc_flags(8) uc_link(8) uc_stack(24) then gregs[23] of i64
        let g = ctx.add(40) as *mut i64;
        let rip = *g.add(16) as *const u8;
        if *rip == 0x0f && *rip.add(1) == 0xa2 {
            let leaf = *g.add(13) as u32;
            let sub = *g.add(14) as u32;
            let mut r = [0u32; 4];
            for i in 0..NLEAVES {
                if LEAVES[i][0] == leaf && (LEAVES[i][1] == sub || LEAVES[i][1] == u32::MAX) {
                    r = [LEAVES[i][2], LEAVES[i][3], LEAVES[i][4], LEAVES[i][5]];
                    break;
                }
            }
            *g.add(13) = r[0] as i64;
            *g.add(11) = r[1] as i64;
            *g.add(14) = r[2] as i64;
            *g.add(12) = r[3] as i64;
            *g.add(16) += 2;
            return;
        }
        let f = FORWARD.load(SeqCst);
        if f != 0 {
            let f: extern "C" fn(i32) = std::mem::transmute(f);
            f(sig)
        }
        std::process::abort()
    }
}

#[cfg(target_arch = "x86_64")]
pub fn emulate(kind: &str) {
    use std::arch::x86_64::__cpuid_count;
    // features: which bits to clear
    #[allow(unused_mut)]
    let (mut c1, mut b7, mut os) = (0u32, 0u32, false);
    match kind {
        "sse41" => b7 |= 1 << 5,                                  // no AVX2
        "noavx" => {
            b7 |= 1 << 5;
            c1 |= 1 << 28 // no AVX at all
        }
        "portable" => {
            c1 |= (1 << 19) | (1 << 20) | (1 << 28) | (1 << 9); // no SSE4.1/4.2, AVX, SSSE3
            b7 |= 1 << 5
        }
        "ssse3" => {
            c1 |= (1 << 19) | (1 << 20) | (1 << 28); // SSSE3 but no SSE4, no AVX
            b7 |= 1 << 5
        }
        "noymm" => os = true, // CPU has AVX2, the operating system does not save YMM
        "full" => {}
        x => panic!("cpu {}", x),
    }
    unsafe {
        let max = __cpuid_count(0, 0).eax;
        let put = |leaf: u32, sub: u32, wild: bool| {
            let r = __cpuid_count(leaf, sub);
            let mut v = [leaf, if wild { u32::MAX } else { sub }, r.eax, r.ebx, r.ecx, r.edx];
            if leaf == 1 {
                v[4] &= !c1;
                if os {
                    v[4] &= !((1 << 26) | (1 << 27)) // XSAVE, OSXSAVE
                }
            }
            if leaf == 7 && sub == 0 {
                v[3] &= !b7;
                if b7 != 0 || os {
                    v[3] &= !((1 << 16) | (1 << 17) | (1 << 28) | (1 << 30) | (1 << 31)) // AVX-512
                }
            }
            if NLEAVES < 64 {
                LEAVES[NLEAVES] = v;
                NLEAVES += 1
            }
        };
        for l in 0..=max.min(0x1f) {
            if l == 7 || l == 0xd || l == 4 || l == 0x14 {
                for s in 0..3 {
                    put(l, s, false)
                }
            } else {
                put(l, 0, true)
            }
        }
        for l in 0x8000_0000u32..=0x8000_0008 {
            put(l, 0, true)
        }
        crate::sig::set_handler(11, on_segv as *const () as usize, 4 | 0x0800_0000);
        if syscall(158, 0x1012u64, 0u64) != 0 {
            println!("CPUFAULT unavailable");
            std::process::exit(96);
        }
        ACTIVE.store(true, SeqCst);
    }
}
#[cfg(not(target_arch = "x86_64"))]
pub fn emulate(_: &str) {
    println!("CPUFAULT unavailable");
    std::process::exit(96);
}

// ---------------------------------------------------------------- which instructions really run
/// Counts of executed instructions of this program by class, taken by single-stepping.
pub static STEPS: AtomicUsize = AtomicUsize::new(0);
pub static VEX: AtomicUsize = AtomicUsize::new(0);
pub static SSE41: AtomicUsize = AtomicUsize::new(0);
pub static SSSE3: AtomicUsize = AtomicUsize::new(0);
pub static SSE42: AtomicUsize = AtomicUsize::new(0);

#[cfg(target_arch = "x86_64")]
extern "C" {
    static __executable_start: u8;
    static etext: u8;
}
#[cfg(target_arch = "x86_64")]
extern "C" fn on_trap(_sig: i32, _info: *mut u8, ctx: *mut u8) {
    use std::sync::atomic::Ordering::Relaxed;
    unsafe {
        let g = ctx.add(40) as *const i64;
        let mut p = *g.add(16) as *const u8;
        if (p as usize) < &raw const __executable_start as usize || p as usize >= &raw const etext as usize {
            return;
        }
        STEPS.fetch_add(1, Relaxed);
        let (mut p66, mut f2f3) = (false, false);
        loop {
            match *p {
                0x66 => p66 = true,
                0xf2 | 0xf3 => f2f3 = true,
                0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}
                _ => break,
            }
            p = p.add(1);
        }
        match *p {
            0xc4 | 0xc5 | 0x62 => {
                VEX.fetch_add(1, Relaxed);
                return;
            }
            0x40..=0x4f => p = p.add(1),
            _ => {}
        }
        if *p != 0x0f {
            return;
        }
        let (m, o) = (*p.add(1), *p.add(2));
        if m == 0xb8 && f2f3 {
            SSE42.fetch_add(1, Relaxed); // popcnt
        } else if m == 0x38 {
            match o {
                0x00..=0x0b | 0x1c..=0x1e => {
                    SSSE3.fetch_add(1, Relaxed);
                }
                0x37 | 0xf0 | 0xf1 => {
                    SSE42.fetch_add(1, Relaxed);
                }
                0x10..=0x41 if p66 => {
                    SSE41.fetch_add(1, Relaxed);
                }
                _ => {}
            }
        } else if m == 0x3a {
            match o {
                0x0f => {
                    SSSE3.fetch_add(1, Relaxed);
                }
                0x60..=0x63 => {
                    SSE42.fetch_add(1, Relaxed);
                }
                _ => {
                    SSE41.fetch_add(1, Relaxed);
                }
            }
        }
    }
}

fn counts() -> [usize; 5] {
    [&STEPS, &VEX, &SSE41, &SSSE3, &SSE42].map(|x| x.load(SeqCst))
}
#[cfg(target_arch = "x86_64")]
fn stepping(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

/// Runs a small workload instruction by instruction: AUDIT <what> {counts} lines.
#[cfg(target_arch = "x86_64")]
pub fn audit() {
    use blake2b_simd as cb;
    use blake2s_simd as cs;
    crate::sig::set_handler_now(5, on_trap as *const () as usize);
    let msg = crate::refb2::seg_bytes(7, 0, 6000);
    let part = |name: &str, f: &mut dyn FnMut()| {
        let a = counts();
        stepping(true);
        f();
        stepping(false);
        let b = counts();
        println!(
            "AUDIT {} {{\"steps\":{},\"vex\":{},\"sse41\":{},\"ssse3\":{},\"sse42\":{}}}",
            name,
            b[0] - a[0],
            b[1] - a[1],
            b[2] - a[2],
            b[3] - a[3],
            b[4] - a[4]
        );
    };
    let mut deg = [0, 0];
    part("degree", &mut || deg = [cb::many::degree(), cs::many::degree()]);
    println!("DEGREE {} {}", deg[0], deg[1]);
    macro_rules! plain {
        ($c:ident, $par:ident, $n:expr, $pn:expr, $blk:expr) => {{
            part(concat!($n, ".one"), &mut || {
                for l in [0, 1, $blk, 5 * $blk + 3] {
                    $c::Params::new().key(&msg[..7]).hash(&msg[..l]);
                }
            });
            part(concat!($n, ".update"), &mut || {
                let mut s = $c::State::new();
                s.update(&msg[..5]).update(&msg[..$blk]).update(&msg[..4 * $blk]);
                s.finalize();
            });
            part(concat!($pn, ".one"), &mut || {
                $c::$par::Params::new().hash(&msg);
                $c::$par::Params::new().key(&msg[..3]).hash(&msg[..40]);
            });
            part(concat!($pn, ".update"), &mut || {
                let mut s = $c::$par::State::new();
                s.update(&msg[..3000]).update(&msg[..2]).update(&msg[..3000]);
                s.finalize();
            });
            part(concat!($n, ".hash_many"), &mut || {
                let p = $c::Params::new();
                let mut jobs: Vec<_> = (0..19).map(|i| $c::many::HashManyJob::new(&p, &msg[..3 * $blk + i])).collect();
                $c::many::hash_many(jobs.iter_mut());
            });
            part(concat!($n, ".update_many"), &mut || {
                let mut st: Vec<_> = (0..9).map(|_| $c::State::new()).collect();
                $c::many::update_many(st.iter_mut().map(|s| (s, &msg[..2 * $blk + 9])));
            });
        }};
    }
    plain!(cb, blake2bp, "b", "bp", 128);
    plain!(cs, blake2sp, "s", "sp", 64);
}
#[cfg(not(target_arch = "x86_64"))]
pub fn audit() {}
