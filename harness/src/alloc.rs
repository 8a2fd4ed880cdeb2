//! A counting global allocator (per thread).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<u64> = const { Cell::new(0) };
}

/// A thread that holds more than this is refused more memory, which ends the process
/// with SIGABRT and so names the case (the largest legitimate cases hold a few MB).
const CAP: usize = 2 << 30;

fn refused(n: usize) -> bool {
    n > CAP || LIVE.try_with(|c| c.get()).unwrap_or(0) > CAP as i64 - n as i64
}

fn on_alloc(n: usize) {
    let _ = TOTAL.try_with(|c| c.set(c.get() + n as u64));
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    let _ = LARGEST.try_with(|c| c.set(c.get().max(n as u64)));
    let live = LIVE.try_with(|c| {
        c.set(c.get() + n as i64);
        c.get()
    });
    if let Ok(live) = live {
        let _ = PEAK.try_with(|c| c.set(c.get().max(live)));
    }
}
fn on_free(n: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refused(n) {
            return std::ptr::null_mut();
        }
        on_free(l.size());
        on_alloc(n);
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    /// Bytes requested in all.
    pub total: u64,
    /// Bytes live at the end minus at the start.
    pub live: i64,
    /// Most bytes live at once, above those live at the start.
    pub peak: i64,
    /// Number of requests.
    pub count: u64,
    /// Largest single request.
    pub largest: u64,
}

pub struct Meter {
    total: u64,
    live: i64,
    count: u64,
}
impl Meter {
    pub fn start() -> Self {
        let live = LIVE.with(|c| c.get());
        PEAK.with(|c| c.set(live));
        LARGEST.with(|c| c.set(0));
        Meter {
            total: TOTAL.with(|c| c.get()),
            live,
            count: COUNT.with(|c| c.get()),
        }
    }
    pub fn read(&self) -> Usage {
        Usage {
            total: TOTAL.with(|c| c.get()) - self.total,
            live: LIVE.with(|c| c.get()) - self.live,
            peak: PEAK.with(|c| c.get()) - self.live,
            count: COUNT.with(|c| c.get()) - self.count,
            largest: LARGEST.with(|c| c.get()),
        }
    }
}
