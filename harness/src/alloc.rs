//! Counts what the current thread has allocated, so that "memory in proportion to the input" can
//! be judged without touching the memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
const REFUSE: usize = 8 << 30;
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        // during a realloc both blocks may exist
        add(n as i64);
        let r = System.realloc(p, l, n);
        add(-(l.size() as i64));
        r
    }
}
/// Peak bytes allocated by this thread while running f, beyond what was live before.
pub fn peak<T, F: FnOnce() -> T>(f: F) -> (T, u64) {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - live).max(0) as u64)
}
