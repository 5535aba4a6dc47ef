//! Allocator that counts what the current thread allocates.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
unsafe extern "C" {
    fn _exit(c: i32) -> !;
}
pub struct Counting;
fn note(n: usize) {
    let over = BYTES.try_with(|b| {
        b.set(b.get() + n as u64);
        b.get() > LIMIT.with(|l| l.get())
    });
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    if over == Ok(true) {
        let _ = LIMIT.try_with(|l| l.set(u64::MAX));
        unsafe { _exit(77) };
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n.saturating_sub(l.size()));
        unsafe { System.realloc(p, l, n) }
    }
}
/// bytes and calls so far on this thread
pub fn used() -> (u64, u64) {
    (BYTES.with(|b| b.get()), CALLS.with(|c| c.get()))
}
/// Allow at most `n` further bytes on this thread; beyond, the process exits
/// with status 77.
pub fn limit(n: u64) {
    let b = BYTES.with(|b| b.get());
    LIMIT.with(|l| l.set(b.saturating_add(n)));
}
