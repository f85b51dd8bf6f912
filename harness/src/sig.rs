//! Fatal signals and hangs become reports that name the scenario and the operation.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

const N: usize = 64;
#[repr(align(128))]
struct Slot {
    profile: AtomicU64, // pointer to a leaked name
    plen: AtomicU64,
    idx: AtomicU64,
    op: AtomicU64,
    started: AtomicU64, // ms, 0 = idle
}
static SLOTS: [Slot; N] = [const {
    Slot {
        profile: AtomicU64::new(0),
        plen: AtomicU64::new(0),
        idx: AtomicU64::new(0),
        op: AtomicU64::new(0),
        started: AtomicU64::new(0),
    }
}; N];
static NEXT: AtomicU64 = AtomicU64::new(0);
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

extern "C" {
    fn sigaction(s: i32, act: *const SigAct, old: *mut SigAct) -> i32;
    fn sigaltstack(ss: *const Stack, old: *mut Stack) -> i32;
    fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
#[repr(C)]
pub struct SigAct {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: i32,
    pub restorer: usize,
}
#[repr(C)]
struct Stack {
    sp: *mut u8,
    flags: i32,
    size: usize,
}
pub unsafe fn set_handler(s: i32, h: usize, flags: i32) {
    let act = SigAct { handler: h, mask: [0; 16], flags, restorer: 0 };
    sigaction(s, &act, std::ptr::null_mut());
}

/// Any fault-reporting alternative stack is left alone: runs on the current stack with SA_SIGINFO.
pub fn set_handler_now(s: i32, h: usize) {
    unsafe { set_handler(s, h, 4) }
}

fn now() -> u64 {
    static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    T0.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}
fn me() -> usize {
    ME.with(|m| {
        if m.get() == usize::MAX {
            m.set(NEXT.fetch_add(1, SeqCst) as usize % N);
            // a fault may come from stack exhaustion or a clobbered stack pointer
            let b = Box::leak(vec![0u8; 65536].into_boxed_slice());
            unsafe { sigaltstack(&Stack { sp: b.as_mut_ptr(), flags: 0, size: b.len() }, std::ptr::null_mut()) };
        }
        m.get()
    })
}
pub fn begin(profile: &str, idx: u64) {
    let s = &SLOTS[me()];
    if s.plen.load(SeqCst) != profile.len() as u64 || s.profile.load(SeqCst) == 0 || cur(s) != profile {
        let l: &'static str = Box::leak(profile.to_string().into_boxed_str());
        s.profile.store(l.as_ptr() as u64, SeqCst);
        s.plen.store(l.len() as u64, SeqCst);
    }
    s.idx.store(idx, SeqCst);
    s.op.store(0, SeqCst);
    s.started.store(now(), SeqCst);
}
fn cur(s: &Slot) -> &'static str {
    unsafe {
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(s.profile.load(SeqCst) as *const u8, s.plen.load(SeqCst) as usize))
    }
}
pub fn at(i: usize) {
    let s = &SLOTS[me()];
    s.op.store(i as u64, SeqCst);
}
pub fn idle() {
    SLOTS[me()].started.store(0, SeqCst);
}

fn num(buf: &mut [u8], k: &mut usize, mut x: u64) {
    let mut t = [0u8; 20];
    let mut n = 0;
    loop {
        t[n] = b'0' + (x % 10) as u8;
        n += 1;
        x /= 10;
        if x == 0 {
            break;
        }
    }
    while n > 0 {
        n -= 1;
        buf[*k] = t[n];
        *k += 1
    }
}
fn report(word: &[u8], sig: u64, slot: usize) {
    let mut b = [0u8; 256];
    let mut k = 0;
    for c in word {
        b[k] = *c;
        k += 1
    }
    b[k] = b' ';
    k += 1;
    num(&mut b, &mut k, sig);
    b[k] = b' ';
    k += 1;
    if slot < N && SLOTS[slot].profile.load(SeqCst) != 0 {
        let s = &SLOTS[slot];
        for c in cur(s).bytes() {
            b[k] = c;
            k += 1
        }
        b[k] = b' ';
        k += 1;
        num(&mut b, &mut k, s.idx.load(SeqCst));
        b[k] = b' ';
        k += 1;
        num(&mut b, &mut k, s.op.load(SeqCst));
    } else {
        b[k] = b'?';
        k += 1
    }
    b[k] = b'\n';
    k += 1;
    unsafe { write(1, b.as_ptr() as *const _, k) };
}
extern "C" fn on_fatal(sig: i32) {
    let slot = ME.with(|m| m.get());
    report(b"CRASH", sig as u64, slot);
    unsafe { _exit(97) }
}
pub fn install(hang: u64) {
    me();
    unsafe {
        for s in [4, 6, 7, 8, 11] {
            if s == 11 && crate::cpu::active() {
                continue; // the emulator forwards real faults
            }
            set_handler(s, on_fatal as *const () as usize, 0x0800_0000);
        }
    }
    crate::cpu::set_forward(on_fatal as *const () as usize);
    now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for i in 0..N {
            let t = SLOTS[i].started.load(SeqCst);
            if t != 0 && now() > t + hang * 1000 {
                report(b"HANG", 0, i);
                unsafe { _exit(98) }
            }
        }
    });
}
