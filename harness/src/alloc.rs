//! Counting allocator: per-thread totals, with a per-case ceiling that ends the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static MAX_COUNT: Cell<u64> = const { Cell::new(u64::MAX) };
    static MAX_BYTES: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// exit code of a process that exceeded the ceiling
pub const EXCEEDED: i32 = 77;

extern "C" {
    fn _exit(code: i32) -> !;
}

#[inline]
fn bump(n: usize) {
    let _ = COUNT.try_with(|c| {
        let v = c.get() + 1;
        c.set(v);
        BYTES.with(|b| {
            let w = b.get() + n as u64;
            b.set(w);
            if v > MAX_COUNT.with(|m| m.get()) || w > MAX_BYTES.with(|m| m.get()) {
                unsafe { _exit(EXCEEDED) }
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bump(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump(n);
        System.realloc(p, l, n)
    }
}

/// (allocations, bytes) of this thread so far
pub fn used() -> (u64, u64) {
    (COUNT.with(|c| c.get()), BYTES.with(|c| c.get()))
}

/// ceiling relative to now
pub fn limit(count: u64, bytes: u64) {
    let (c, b) = used();
    MAX_COUNT.with(|m| m.set(c.saturating_add(count)));
    MAX_BYTES.with(|m| m.set(b.saturating_add(bytes)));
}

pub fn unlimited() {
    MAX_COUNT.with(|m| m.set(u64::MAX));
    MAX_BYTES.with(|m| m.set(u64::MAX));
}

pub fn die(code: i32) -> ! {
    unsafe { _exit(code) }
}
