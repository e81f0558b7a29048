//! Allocator that can fill fresh memory with a chosen byte, so that anything read from memory that
//! was never written shows up as a difference between two runs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::Relaxed};

pub struct Dirty;

/// 0: off; 256 + b: fill with b
static FILL: AtomicU32 = AtomicU32::new(0);

pub fn with<T>(b: u8, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            FILL.store(0, Relaxed);
        }
    }
    FILL.store(256 + b as u32, Relaxed);
    let _off = Off;
    f()
}

/// allocations that still succeed; negative: no limit
static LEFT: AtomicI64 = AtomicI64::new(-1);
/// whether everything after the failing allocation fails too
static STAY: AtomicU32 = AtomicU32::new(0);
/// allocations made and failures handed out while a limit was set
static MADE: AtomicU64 = AtomicU64::new(0);
static FAILED: AtomicU64 = AtomicU64::new(0);

/// Runs `f` with memory that gives out after `n` allocations, for one allocation or until the end of
/// `f`. Returns how many allocations were asked for and how many failed. Only calls into the crate
/// belong in `f`: whatever else allocates there may be the one that fails.
pub fn failing<T>(n: u64, stay: bool, f: impl FnOnce() -> T) -> (T, u64, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LEFT.store(-1, Relaxed);
        }
    }
    MADE.store(0, Relaxed);
    FAILED.store(0, Relaxed);
    STAY.store(stay as u32, Relaxed);
    LEFT.store(n.min(i64::MAX as u64) as i64, Relaxed);
    let off = Off;
    let r = f();
    drop(off);
    (r, MADE.load(Relaxed), FAILED.load(Relaxed))
}

/// bytes asked for since it was last cleared
static ASKED: AtomicU64 = AtomicU64::new(0);
static METER: AtomicU32 = AtomicU32::new(0);

/// Runs `f` and tells how many bytes of memory it asked for, given back or not.
pub fn asked<T>(f: impl FnOnce() -> T) -> (T, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            METER.store(0, Relaxed);
        }
    }
    ASKED.store(0, Relaxed);
    METER.store(1, Relaxed);
    let off = Off;
    let r = f();
    drop(off);
    (r, ASKED.load(Relaxed))
}
#[inline]
fn meter(n: usize) {
    if METER.load(Relaxed) != 0 {
        ASKED.fetch_add(n as u64, Relaxed);
    }
}

/// whether this allocation is to fail
#[inline]
fn strike() -> bool {
    let l = LEFT.load(Relaxed);
    if l < 0 {
        return false;
    }
    MADE.fetch_add(1, Relaxed);
    if l > 0 {
        LEFT.store(l - 1, Relaxed);
        return false;
    }
    if STAY.load(Relaxed) == 0 {
        LEFT.store(i64::MAX, Relaxed);
    }
    FAILED.fetch_add(1, Relaxed);
    true
}

/// Fenced memory: every piece lies between bytes that must stay as they are, with its end (or its
/// beginning) at an inaccessible page, moves whenever it grows, and becomes inaccessible when it is
/// given back.
mod fence {
    use super::*;
    use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize};
    use std::sync::atomic::Ordering::SeqCst;
    pub const ARENA: usize = 768 << 20;
    const PAGE: usize = 4096;
    const CANARY: u8 = 0xA5;
    const FRESH: u8 = 0xC7;
    pub static ON: AtomicBool = AtomicBool::new(false);
    static FRONT: AtomicBool = AtomicBool::new(false);
    static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    static PIECES: AtomicU64 = AtomicU64::new(0);
    static HURT: AtomicUsize = AtomicUsize::new(0);
    extern "C" {
        fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
        fn madvise(a: *mut u8, l: usize, p: i32) -> i32;
    }
    /// private, anonymous, not accounted for
    const FLAGS: i32 = 0x2 | 0x20 | 0x4000;

    pub fn start(front: bool) -> bool {
        let base = BASE.load(SeqCst);
        if base.is_null() {
            let p = unsafe { mmap(std::ptr::null_mut(), ARENA, 0, FLAGS, -1, 0) };
            if p as isize == -1 {
                return false;
            }
            BASE.store(p, SeqCst);
            NEXT.store(PAGE, SeqCst);
        } else if LIVE.load(SeqCst) == 0 && NEXT.load(SeqCst) > PAGE {
            let used = NEXT.load(SeqCst).min(ARENA);
            let p = unsafe { mmap(base, used, 0, FLAGS | 0x10, -1, 0) };
            if p != base {
                return false;
            }
            NEXT.store(PAGE, SeqCst);
        }
        HURT.store(0, SeqCst);
        PIECES.store(0, SeqCst);
        FRONT.store(front, SeqCst);
        ON.store(true, SeqCst);
        true
    }
    pub fn stop() -> (u64, usize) {
        ON.store(false, SeqCst);
        (PIECES.load(SeqCst), HURT.load(SeqCst))
    }
    #[inline]
    pub fn owns(p: *mut u8) -> bool {
        let b = BASE.load(Relaxed) as usize;
        b != 0 && (p as usize).wrapping_sub(b) < ARENA
    }
    /// the size rounded up to the alignment, so that a piece at the end begins in its first page
    fn room(l: &Layout) -> usize {
        (l.size() + l.align() - 1) & !(l.align() - 1)
    }
    fn pages(l: &Layout) -> usize {
        (room(l) + PAGE - 1) / PAGE
    }
    pub unsafe fn alloc(l: Layout, zero: bool) -> Option<*mut u8> {
        if l.align() > 64 || l.size() > ARENA / 4 {
            return None;
        }
        let n = pages(&l) * PAGE;
        let at = NEXT.fetch_add(n + PAGE, SeqCst);
        if at + n + PAGE > ARENA {
            NEXT.fetch_sub(n + PAGE, SeqCst);
            return None;
        }
        let r = BASE.load(SeqCst).add(at);
        if mprotect(r, n, 3) != 0 {
            return None;
        }
        let p = if FRONT.load(SeqCst) { r } else { r.add(n - room(&l)) };
        let lead = p as usize - r as usize;
        let tail = n - lead - l.size();
        std::ptr::write_bytes(r, CANARY, lead);
        if !zero {
            std::ptr::write_bytes(p, FRESH, l.size().min(1 << 16));
        }
        std::ptr::write_bytes(p.add(l.size()), CANARY, tail);
        LIVE.fetch_add(1, SeqCst);
        PIECES.fetch_add(1, SeqCst);
        Some(p)
    }
    pub unsafe fn free(p: *mut u8, l: Layout) {
        let n = pages(&l) * PAGE;
        let r = (p as usize / PAGE * PAGE) as *mut u8;
        let lead = p as usize - r as usize;
        for i in 0..lead {
            if *r.add(i) != CANARY {
                HURT.fetch_max(1 + l.size(), SeqCst);
            }
        }
        for i in lead + l.size()..n {
            if *r.add(i) != CANARY {
                HURT.fetch_max(1 + l.size(), SeqCst);
            }
        }
        madvise(r, n, 4);
        mprotect(r, n, 0);
        LIVE.fetch_sub(1, SeqCst);
    }
}

/// Runs `f` in fenced memory, pieces at the front of their pages or at the end. Tells how many pieces
/// of memory were fenced, and an error when bytes around one of them changed.
pub fn fenced<T>(front: bool, f: impl FnOnce() -> T) -> (T, u64, Result<(), String>) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            fence::stop();
        }
    }
    if !fence::start(front) {
        return (f(), 0, Ok(()));
    }
    let off = Off;
    let r = f();
    let (n, hurt) = fence::stop();
    std::mem::forget(off);
    let bad = if hurt > 0 { Err(format!("bytes next to a piece of {} bytes of memory were overwritten", hurt - 1)) } else { Ok(()) };
    (r, n, bad)
}

/// The text in a piece of memory of exactly its length while memory is fenced.
pub fn snug(t: &str) -> std::borrow::Cow<'_, str> {
    if fence::ON.load(Relaxed) {
        let mut o = String::with_capacity(t.len());
        o.push_str(t);
        o.shrink_to_fit();
        o.into()
    } else {
        t.into()
    }
}
pub fn snug_bytes(mut v: Vec<u8>) -> Vec<u8> {
    if fence::ON.load(Relaxed) {
        v.shrink_to_fit();
    }
    v
}

unsafe impl GlobalAlloc for Dirty {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if strike() {
            return std::ptr::null_mut();
        }
        meter(l.size());
        let p = match fence::ON.load(Relaxed) {
            true => fence::alloc(l, false).unwrap_or_else(|| System.alloc(l)),
            false => System.alloc(l),
        };
        let f = FILL.load(Relaxed);
        if f != 0 && !p.is_null() {
            std::ptr::write_bytes(p, f as u8, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if strike() {
            return std::ptr::null_mut();
        }
        meter(l.size());
        match fence::ON.load(Relaxed) {
            true => fence::alloc(l, true).unwrap_or_else(|| System.alloc_zeroed(l)),
            false => System.alloc_zeroed(l),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if fence::owns(p) {
            fence::free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if strike() {
            return std::ptr::null_mut();
        }
        meter(n);
        let q = if fence::ON.load(Relaxed) || fence::owns(p) {
            let to = Layout::from_size_align_unchecked(n, l.align());
            let q = match fence::ON.load(Relaxed) {
                true => fence::alloc(to, false).unwrap_or_else(|| System.alloc(to)),
                false => System.alloc(to),
            };
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, n)
        };
        let f = FILL.load(Relaxed);
        if f != 0 && !q.is_null() && n > l.size() {
            std::ptr::write_bytes(q.add(l.size()), f as u8, n - l.size());
        }
        q
    }
}
