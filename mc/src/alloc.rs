//! An allocator that counts this thread's allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub struct Counting;
thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
}
#[inline]
fn hit() {
    let _ = N.try_with(|n| n.set(n.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hit();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        hit();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hit();
        System.realloc(p, l, n)
    }
}
/// Allocations made by this thread so far.
pub fn count() -> u64 {
    N.with(|n| n.get())
}
