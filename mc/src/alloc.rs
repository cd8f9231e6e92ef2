//! The system allocator, with the largest request of each thread remembered.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Watch;

thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}

static LIMIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);

/// a larger request ends the process (which is reported as a crash of the executions in flight)
pub fn limit(n: usize) {
    LIMIT.store(n, std::sync::atomic::Ordering::Relaxed);
}

fn note(n: usize) {
    if n > LIMIT.load(std::sync::atomic::Ordering::Relaxed) {
        std::process::abort();
    }
    let _ = LARGEST.try_with(|l| {
        if n > l.get() {
            l.set(n);
        }
    });
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Watch = Watch;

pub fn reset() {
    LARGEST.with(|l| l.set(0));
}

pub fn largest() -> usize {
    LARGEST.with(Cell::get)
}
