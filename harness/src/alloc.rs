//! Counting allocator: lets a check bound how much memory one library call asks for. When the
//! armed limit is exceeded the allocation fails, which ends the worker; the supervisor then finds
//! and reports the case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn grow(n: usize) -> bool {
    ARMED.try_with(|a| {
        if !a.get() {
            return true;
        }
        let c = CUR.get() + n as i64;
        if c > LIMIT.get() {
            return false;
        }
        CUR.set(c);
        if c > PEAK.get() {
            PEAK.set(c);
        }
        true
    })
    .unwrap_or(true)
}
fn drop_n(n: usize) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            CUR.set(CUR.get() - n as i64);
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        drop_n(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !grow(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            drop_n(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

/// Run `f` with at most `limit` bytes of additional live heap on this thread; returns the peak.
pub fn with_limit<T>(limit: usize, f: impl FnOnce() -> T) -> (T, usize) {
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.set(false);
        }
    }
    CUR.set(0);
    PEAK.set(0);
    LIMIT.set(limit as i64);
    ARMED.set(true);
    let d = Disarm;
    let r = f();
    drop(d);
    (r, PEAK.get().max(0) as usize)
}

pub fn disarm() {
    let _ = ARMED.try_with(|a| a.set(false));
}
