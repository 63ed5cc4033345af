//! Global allocator with a per-thread budget: while a budget is set, an allocation that would take
//! the live bytes of this operation over it is refused (null), as on a machine without the memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::Ordering;

pub struct Budget;

thread_local! {
    static LIMIT: Cell<isize> = const { Cell::new(0) };
    static USED: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
}

/// Bytes and blocks allocated minus those freed on this thread.
pub fn live() -> (isize, isize) {
    (LIVE.with(|l| l.get()), BLOCKS.with(|l| l.get()))
}

fn tally(bytes: isize, blocks: isize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + bytes));
    let _ = BLOCKS.try_with(|l| l.set(l.get() + blocks));
}

fn take(n: usize) -> bool {
    LIMIT
        .try_with(|l| {
            let lim = l.get();
            if lim == 0 {
                return true;
            }
            USED.with(|u| {
                let v = u.get().saturating_add(n as isize);
                if n > isize::MAX as usize || v > lim {
                    if let Some(p) = crate::flight::page() {
                        p.alloc_refused.store(n as u64, Ordering::SeqCst);
                    }
                    return false;
                }
                u.set(v);
                PEAK.with(|p| p.set(p.get().max(v)));
                true
            })
        })
        .unwrap_or(true)
}

fn give(n: usize) {
    let _ = LIMIT.try_with(|l| {
        if l.get() != 0 {
            USED.with(|u| u.set(u.get() - n as isize));
        }
    });
}

unsafe impl GlobalAlloc for Budget {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !take(l.size()) {
            return std::ptr::null_mut();
        }
        tally(l.size() as isize, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        give(l.size());
        tally(-(l.size() as isize), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !take(l.size()) {
            return std::ptr::null_mut();
        }
        tally(l.size() as isize, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !take(new) {
            return std::ptr::null_mut();
        }
        give(l.size());
        tally(new as isize - l.size() as isize, 0);
        System.realloc(p, l, new)
    }
}

/// Runs `f` with at most `limit` live bytes allocated on this thread; returns the peak too.
pub fn with_limit<R>(limit: usize, f: impl FnOnce() -> R) -> (R, usize) {
    struct Off(isize, isize, isize);
    impl Drop for Off {
        fn drop(&mut self) {
            LIMIT.with(|l| l.set(self.0));
            USED.with(|l| l.set(self.1));
            PEAK.with(|l| l.set(self.2));
        }
    }
    let _off = Off(LIMIT.with(|l| l.get()), USED.with(|l| l.replace(0)), PEAK.with(|l| l.replace(0)));
    LIMIT.with(|l| l.set(limit as isize));
    let r = f();
    let peak = PEAK.with(|p| p.get()).max(0) as usize;
    (r, peak)
}

pub fn clear_limit() {
    LIMIT.with(|l| l.set(0));
}
