//! Where inputs live.  Every input slice handed to the crates sits in its own mapping whose
//! neighbours are inaccessible pages, either flush against the end, flush against the start, or at
//! an odd offset surrounded by poison bytes, so that an access outside the slice faults (or, under
//! Miri, is reported) and a dependence on neighbouring bytes changes a digest.  Under Miri and
//! AddressSanitizer (`--cfg b2_asan`) it is an allocation of exactly its length instead, so that an
//! access beyond it is seen even when no page boundary is near.
use crate::ops::Seg;
use crate::refb2::fill_stream;

#[cfg(not(miri))]
#[allow(dead_code)]
pub mod sys {
    extern "C" {
        pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        pub fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
        pub fn munmap(a: *mut u8, l: usize) -> i32;
    }
    pub const PAGE: usize = 4096;
}

#[cfg(not(any(miri, b2_asan)))]
pub struct Region {
    base: *mut u8, // first accessible byte
    size: usize,
}
#[cfg(not(any(miri, b2_asan)))]
impl Region {
    fn new(min: usize) -> Region {
        use sys::*;
        let size = (min + 512 + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let p = mmap(std::ptr::null_mut(), size + 2 * PAGE, 0, 0x22, -1, 0);
            assert!(p as isize > 0, "mmap");
            assert_eq!(0, mprotect(p.add(PAGE), size, 3), "mprotect");
            Region { base: p.add(PAGE), size }
        }
    }
}
#[cfg(not(any(miri, b2_asan)))]
impl Drop for Region {
    fn drop(&mut self) {
        unsafe {
            sys::munmap(self.base.sub(sys::PAGE), self.size + 2 * sys::PAGE);
        }
    }
}

pub struct Placed {
    #[cfg(not(any(miri, b2_asan)))]
    region: Region,
    #[cfg(any(miri, b2_asan))]
    data: *mut [u8],
    ptr: *mut u8,
    len: usize,
    seg: Seg,
}

impl Placed {
    /// The bytes, for as long as the Arena keeps the region (callers uphold this).
    pub fn slice(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    /// Have the input bytes been modified?
    pub fn intact(&self) -> bool {
        let mut want = vec![0; self.len];
        fill_stream(self.seg.seed, self.seg.off, &mut want);
        want == self.slice()
    }
}

pub struct Arena {
    #[cfg(not(any(miri, b2_asan)))]
    free: Vec<Region>,
    turn: u64,
    pub checked: u64,
}

#[cfg(not(any(miri, b2_asan)))]
const STD: usize = 16 * 4096;

impl Arena {
    pub fn new() -> Arena {
        Arena {
            #[cfg(not(any(miri, b2_asan)))]
            free: vec![],
            turn: 0,
            checked: 0,
        }
    }
    pub fn seed(&mut self, x: u64) {
        self.turn = x
    }
    fn next(&mut self) -> u64 {
        self.turn = self.turn.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.turn >> 33
    }
    #[cfg(not(any(miri, b2_asan)))]
    pub fn place(&mut self, g: Seg) -> Placed {
        let len = g.len as usize;
        let r = self.next();
        let region = if len + 512 <= STD {
            self.free.pop().unwrap_or_else(|| Region::new(STD - 512))
        } else {
            Region::new(len)
        };
        let off = match r % 4 {
            0 | 1 => region.size - len,                       // flush against the end
            2 => 0,                                          // flush against the start
            _ => 64 + (r as usize / 4) % 65,                  // every alignment
        };
        unsafe {
            let poison = (r / 7) as u8;
            let lo = off.saturating_sub(160);
            let hi = (off + len + 160).min(region.size);
            std::ptr::write_bytes(region.base.add(lo), poison, off - lo);
            std::ptr::write_bytes(region.base.add(off + len), !poison, hi - off - len);
            let ptr = region.base.add(off);
            fill_stream(g.seed, g.off, std::slice::from_raw_parts_mut(ptr, len));
            Placed { ptr, len, region, seg: g }
        }
    }
    #[cfg(not(any(miri, b2_asan)))]
    pub fn give_back(&mut self, p: Placed) {
        self.checked += 1;
        if self.checked % 16 == 0 {
            assert!(p.intact(), "input bytes were modified by the call");
        }
        if p.region.size == (STD + 4095) / 4096 * 4096 && self.free.len() < 256 {
            self.free.push(p.region);
        }
    }
    #[cfg(any(miri, b2_asan))]
    pub fn place(&mut self, g: Seg) -> Placed {
        let skip = (self.next() % if cfg!(miri) { 3 } else { 65 }) as usize;
        let len = g.len as usize;
        // an exactly sized allocation: any access past its end is reported
        let data = Box::into_raw(vec![0u8; len + skip].into_boxed_slice());
        let ptr = unsafe { (data as *mut u8).add(skip) };
        unsafe { fill_stream(g.seed, g.off, std::slice::from_raw_parts_mut(ptr, len)) };
        forbid(data as *mut u8, skip);
        Placed { ptr, len, data, seg: g }
    }
    #[cfg(any(miri, b2_asan))]
    pub fn give_back(&mut self, p: Placed) {
        self.checked += 1;
        if cfg!(miri) || self.checked % 16 == 0 {
            assert!(p.intact(), "input bytes were modified by the call");
        }
        allow(p.data as *mut u8, p.data.len());
        drop(unsafe { Box::from_raw(p.data) });
    }
}

#[cfg(b2_asan)]
extern "C" {
    fn __asan_poison_memory_region(p: *const u8, n: usize);
    fn __asan_unpoison_memory_region(p: *const u8, n: usize);
}
/// No access to these bytes until they are allowed again.
#[allow(unused_variables)]
fn forbid(p: *const u8, n: usize) {
    #[cfg(b2_asan)]
    unsafe {
        __asan_poison_memory_region(p, n)
    }
}
#[allow(unused_variables)]
fn allow(p: *const u8, n: usize) {
    #[cfg(b2_asan)]
    unsafe {
        __asan_unpoison_memory_region(p, n)
    }
}

/// An object between two canaries.
#[repr(C)]
pub struct Cell<T> {
    pre: [u64; 8],
    pub val: T,
    post: [u64; 8],
}
const CANARY: u64 = 0x5ca1ab1e_0ddba115;
impl<T> Cell<T> {
    pub fn new(val: T) -> Box<Cell<T>> {
        let b = Box::new(Cell { pre: [CANARY; 8], val, post: [CANARY; 8] });
        forbid(b.pre.as_ptr() as *const u8, 64);
        forbid(b.post.as_ptr() as *const u8, 64);
        b
    }
    pub fn intact(&self) -> bool {
        // (under AddressSanitizer the canaries may not be touched at all)
        cfg!(b2_asan) || self.pre == [CANARY; 8] && self.post == [CANARY; 8]
    }
    /// Move the object to a fresh address and scribble over the old place.
    pub fn relocate(b: Box<Cell<T>>) -> Box<Cell<T>> {
        assert!(b.intact(), "memory next to an object was overwritten");
        unsafe {
            let raw = Box::into_raw(b);
            let val = std::ptr::read(&(*raw).val);
            let fresh = Cell::new(val);
            allow(raw as *const u8, std::mem::size_of::<Cell<T>>());
            std::ptr::write_bytes(raw as *mut u8, 0xd7, std::mem::size_of::<Cell<T>>());
            std::alloc::dealloc(raw as *mut u8, std::alloc::Layout::new::<Cell<T>>());
            fresh
        }
    }
}
