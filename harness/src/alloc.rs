//! Counts live heap bytes, to observe what the library retains.

#[cfg(all(feature = "plain", not(miri)))]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

    struct Counting;
    static ON: AtomicBool = AtomicBool::new(false);
    static LIVE: AtomicI64 = AtomicI64::new(0);

    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if ON.load(Relaxed) {
                LIVE.fetch_add(l.size() as i64, Relaxed);
            }
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if ON.load(Relaxed) {
                LIVE.fetch_sub(l.size() as i64, Relaxed);
            }
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;

    /// Starts counting from zero.
    pub fn start() {
        LIVE.store(0, Relaxed);
        ON.store(true, Relaxed);
    }
    pub fn live() -> i64 {
        LIVE.load(Relaxed)
    }
    pub fn stop() -> i64 {
        ON.store(false, Relaxed);
        LIVE.load(Relaxed)
    }
}
#[cfg(not(all(feature = "plain", not(miri))))]
mod imp {
    pub fn start() {}
    pub fn live() -> i64 {
        0
    }
    pub fn stop() -> i64 {
        0
    }
}
pub use self::imp::*;
