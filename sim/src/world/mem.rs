//! Allocation accounting: every allocation of the process goes through a counting allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<u64> = const { Cell::new(0) };
}
pub struct Counting;
fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let l = LIVE.get() + n;
            LIVE.set(l);
            if l > PEAK.get() {
                PEAK.set(l);
            }
            if n > 0 {
                TOTAL.set(TOTAL.get() + n as u64);
                if n as u64 > LARGEST.get() {
                    LARGEST.set(n as u64);
                }
            }
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64);
        add(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}
pub struct Usage {
    pub peak: u64,
    pub total: u64,
    pub largest: u64,
}
/// inside `measure`: what is allocated and not freed so far
pub fn live() -> u64 {
    LIVE.get().max(0) as u64
}
/// heap use of `f` on this thread
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    ON.set(true);
    LIVE.set(0);
    PEAK.set(0);
    TOTAL.set(0);
    LARGEST.set(0);
    let r = f();
    ON.set(false);
    (r, Usage { peak: PEAK.get().max(0) as u64, total: TOTAL.get(), largest: LARGEST.get() })
}
