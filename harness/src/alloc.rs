//! Allocation monitor: remembers the largest single request of this thread and
//! refuses absurd ones (which then abort, as they would on a real machine).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

const CAP: usize = 4 << 30;

pub struct Watch;

fn note(n: usize) {
    let _ = LARGEST.try_with(|c| {
        if n > c.get() {
            c.set(n);
        }
    });
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > CAP {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > CAP {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        if n > CAP {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

pub fn begin() {
    LARGEST.with(|c| c.set(0));
}

pub fn largest() -> usize {
    LARGEST.with(|c| c.get())
}
