//! An allocator that counts, per thread, the bytes the server holds: those allocated while it is being
//! polled, outside of the simulator's own code.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = LIVE.try_with(|l| l.set(l.get() + n));
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

/// Counts, or does not count, until the returned value is dropped.
pub struct Scope(bool);

pub fn counting(on: bool) -> Scope {
    Scope(ON.with(|o| o.replace(on)))
}

impl Drop for Scope {
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0));
    }
}
