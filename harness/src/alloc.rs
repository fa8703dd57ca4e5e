//! Counts the bytes each thread holds, to watch for growth and leaks.
#[cfg(not(feature = "sysalloc"))]
mod counting {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    thread_local! {
        static LIVE: Cell<i64> = const { Cell::new(0) };
    }
    pub struct Counting;
    fn add(n: i64) {
        let _ = LIVE.try_with(|l| l.set(l.get() + n));
    }
    // the system allocator, with a tally
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            add(l.size() as i64);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            add(-(l.size() as i64));
            System.dealloc(p, l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            add(l.size() as i64);
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            add(n as i64 - l.size() as i64);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
    pub fn live() -> i64 {
        LIVE.with(|l| l.get())
    }
}

/// Net bytes held by this thread.
pub fn live() -> i64 {
    #[cfg(not(feature = "sysalloc"))]
    return counting::live();
    #[cfg(feature = "sysalloc")]
    0
}
pub fn counting() -> bool {
    cfg!(not(feature = "sysalloc"))
}
