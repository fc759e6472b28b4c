//! Counting allocator: bounds how much one execution may allocate, so that a runaway loop in the
//! code under test is reported as such instead of exhausting the sandbox.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Guard;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub static EXCEEDED: AtomicBool = AtomicBool::new(false);
pub static EXCEEDED_BY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

fn note(n: i64) {
    let _ = LIVE.try_with(|x| {
        let v = x.get() + n;
        x.set(v);
        if n > 0 {
            let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
        }
        if v > LIMIT.with(|l| l.get()) {
            EXCEEDED_BY.store(WORKER.with(|w| w.get()), Ordering::SeqCst);
            EXCEEDED.store(true, Ordering::SeqCst);
            // The watchdog reports this execution and ends the process.
            loop {
                unsafe { libc::syscall(libc::SYS_sched_yield) };
            }
        }
    });
}

pub fn set_worker(w: usize) {
    WORKER.with(|x| x.set(w));
}
/// Allow `n` more live bytes than are live now.
pub fn arm(n: i64) {
    let live = LIVE.with(|x| x.get());
    LIMIT.with(|l| l.set(live.saturating_add(n)));
}
pub fn disarm() {
    LIMIT.with(|l| l.set(i64::MAX));
}
/// Total bytes this thread ever requested.
pub fn total() -> u64 {
    TOTAL.with(|t| t.get())
}
