//! Guarded heap: canaries around each block, poisoned fresh and freed memory
//!
//! With the environment variable VERIF_RAW_ALLOC set, it is a plain pass-through
//! (for runs under valgrind, which brings its own red zones). With VERIF_FENCE set to
//! `end` or `begin`, each block touches an inaccessible page at its end or beginning and
//! freed blocks become inaccessible, so that a stray access, even by optimised native
//! code which only reads, ends the process at once.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU8, AtomicU64, Ordering};

const CANARY: u8 = 0xC7;
const TAIL: usize = 64;
const HEAD_MIN: usize = 64;

pub struct Guarded;

static MODE: AtomicU8 = AtomicU8::new(0); // 0: unknown, 1: guarded, 2: raw, 3: fence at the end, 4: fence at the beginning
pub static BLOCKS_VERIFIED: AtomicU64 = AtomicU64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);

thread_local! {
    static DAMAGE: Cell<u64> = const { Cell::new(0) };
    static DAMAGE_SIZE: Cell<usize> = const { Cell::new(0) };
}

unsafe extern "C" {
    fn getenv(name: *const u8) -> *const u8;
}

#[inline]
fn mode() -> u8 {
    match MODE.load(Ordering::Relaxed) {
        0 => {
            let m = unsafe {
                let f = getenv(c"VERIF_FENCE".as_ptr() as *const u8);
                if !f.is_null() {
                    if *f == b'b' { 4 } else { 3 }
                } else if !getenv(c"VERIF_RAW_ALLOC".as_ptr() as *const u8).is_null() {
                    2
                } else {
                    1
                }
            };
            MODE.store(m, Ordering::Relaxed);
            m
        }
        m => m,
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
struct MallInfo2 {
    arena: usize,
    ordblks: usize,
    smblks: usize,
    hblks: usize,
    hblkhd: usize,
    usmblks: usize,
    fsmblks: usize,
    uordblks: usize,
    fordblks: usize,
    keepcost: usize,
}

unsafe extern "C" {
    fn mallinfo2() -> MallInfo2;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

/// Number of bytes in use on the C heap, which also serves the Rust code
pub fn in_use() -> i64 {
    let m = unsafe { mallinfo2() };
    (m.uordblks + m.hblkhd) as i64
}

const PAGE: usize = 4096;
const QUARANTINE: usize = 2048;

struct Quarantine {
    blocks: [(usize, usize); QUARANTINE],
    next: usize,
}

static QUEUE: std::sync::Mutex<Quarantine> = std::sync::Mutex::new(Quarantine { blocks: [(0, 0); QUARANTINE], next: 0 });

/// Pages of the block: fence at the end (the block may be followed by a few bytes
/// of padding, due to the alignment) or at the beginning
unsafe fn fence_make(layout: Layout, begin: bool) -> *mut u8 {
    unsafe {
        if layout.align() > PAGE {
            return std::ptr::null_mut();
        }
        let data = (layout.size().max(1) + PAGE - 1) / PAGE * PAGE;
        let base = mmap(std::ptr::null_mut(), data + PAGE, 3, 0x22, -1, 0);
        if base as isize == -1 {
            return std::ptr::null_mut();
        }
        let user = if begin {
            mprotect(base, PAGE, 0);
            base.add(PAGE)
        } else {
            mprotect(base.add(data), PAGE, 0);
            let room = data - layout.size();
            base.add(room / layout.align() * layout.align())
        };
        LIVE_BYTES.fetch_add(layout.size() as i64, Ordering::Relaxed);
        user
    }
}

unsafe fn fence_drop(user: *mut u8, layout: Layout, begin: bool) {
    unsafe {
        let data = (layout.size().max(1) + PAGE - 1) / PAGE * PAGE;
        let base = if begin { user.sub(PAGE) } else { (user as usize / PAGE * PAGE) as *mut u8 };
        // an empty block at the end of its page
        let base = if !begin && layout.size() == 0 { base.sub(PAGE) } else { base };
        mprotect(base, data + PAGE, 0);
        BLOCKS_VERIFIED.fetch_add(1, Ordering::Relaxed);
        LIVE_BYTES.fetch_sub(layout.size() as i64, Ordering::Relaxed);
        let old = {
            let mut q = QUEUE.lock().unwrap_or_else(|e| e.into_inner());
            let k = q.next;
            q.next = (k + 1) % QUARANTINE;
            std::mem::replace(&mut q.blocks[k], (base as usize, data + PAGE))
        };
        if old.1 > 0 {
            munmap(old.0 as *mut u8, old.1);
        }
    }
}

/// Returns and clears the number of damaged blocks released by this thread
pub fn take_damage() -> (u64, usize) {
    let d = DAMAGE.try_with(|c| c.replace(0)).unwrap_or(0);
    let s = DAMAGE_SIZE.try_with(|c| c.get()).unwrap_or(0);
    (d, s)
}

#[inline]
fn head(layout: &Layout) -> usize {
    if layout.align() > HEAD_MIN { layout.align() } else { HEAD_MIN }
}

unsafe fn make(layout: Layout, zero: bool) -> *mut u8 {
    unsafe {
        let h = head(&layout);
        let Some(total) = layout.size().checked_add(h + TAIL) else {
            return std::ptr::null_mut();
        };
        let Ok(big) = Layout::from_size_align(total, layout.align()) else {
            return std::ptr::null_mut();
        };
        let base = if zero { System.alloc_zeroed(big) } else { System.alloc(big) };
        if base.is_null() {
            return base;
        }
        std::ptr::write_bytes(base, CANARY, h);
        let user = base.add(h);
        if !zero {
            std::ptr::write_bytes(user, 0xFF, layout.size());
        }
        std::ptr::write_bytes(user.add(layout.size()), CANARY, TAIL);
        LIVE_BYTES.fetch_add(layout.size() as i64, Ordering::Relaxed);
        user
    }
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        match mode() {
            2 => unsafe { System.alloc(layout) },
            3 | 4 => unsafe {
                let p = fence_make(layout, mode() == 4);
                if !p.is_null() {
                    std::ptr::write_bytes(p, 0xFF, layout.size());
                }
                p
            },
            _ => unsafe { make(layout, false) },
        }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        match mode() {
            2 => unsafe { System.alloc_zeroed(layout) },
            3 | 4 => unsafe { fence_make(layout, mode() == 4) },
            _ => unsafe { make(layout, true) },
        }
    }
    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        match mode() {
            2 => return unsafe { System.dealloc(user, layout) },
            3 | 4 => return unsafe { fence_drop(user, layout, mode() == 4) },
            _ => (),
        }
        unsafe {
            let h = head(&layout);
            let base = user.sub(h);
            let mut bad = false;
            for i in 0..h {
                bad |= *base.add(i) != CANARY;
            }
            for i in 0..TAIL {
                bad |= *user.add(layout.size() + i) != CANARY;
            }
            BLOCKS_VERIFIED.fetch_add(1, Ordering::Relaxed);
            if bad {
                let _ = DAMAGE.try_with(|c| c.set(c.get() + 1));
                let _ = DAMAGE_SIZE.try_with(|c| c.set(layout.size()));
            }
            std::ptr::write_bytes(user, 0xDD, layout.size());
            LIVE_BYTES.fetch_sub(layout.size() as i64, Ordering::Relaxed);
            let big = Layout::from_size_align_unchecked(layout.size() + h + TAIL, layout.align());
            System.dealloc(base, big);
        }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if mode() == 2 {
            return unsafe { System.realloc(ptr, layout, new_size) };
        }
        unsafe {
            let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
            if !new.is_null() {
                std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(new_size));
                self.dealloc(ptr, layout);
            }
            new
        }
    }
}
