//! Counting allocator: what the current thread has allocated, and how much of it is live.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn up(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    let _ = LIVE.try_with(|l| {
        let x = l.get() + n as i64;
        l.set(x);
        let _ = PEAK.try_with(|p| {
            if x > p.get() {
                p.set(x)
            }
        });
    });
}
fn down(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        down(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        down(l.size());
        up(n);
        System.realloc(p, l, n)
    }
}

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// Processor seconds this thread has used.
pub fn cpu() -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.ns as f64 / 1e9
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub total: u64,
    pub peak: u64,
    pub cpu: f64,
}
/// Runs a piece of work and reports what this thread spent on it.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let (t0, l0, c0) = (TOTAL.get(), LIVE.get(), cpu());
    PEAK.set(l0);
    let x = f();
    let c = Cost {
        total: TOTAL.get() - t0,
        peak: (PEAK.get() - l0).max(0) as u64,
        cpu: cpu() - c0,
    };
    (x, c)
}
