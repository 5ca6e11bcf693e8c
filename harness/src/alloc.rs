//! A global allocator that counts the bytes and blocks each thread has in use.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
pub struct Counting;

fn add(bytes: i64, blocks: i64) {
    let _ = BYTES.try_with(|b| {
        let v = b.get() + bytes;
        b.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
}

// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64, 0);
        }
        q
    }
}

/// Bytes and blocks this thread allocated and did not free.
pub fn in_use() -> (i64, i64) {
    (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()))
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(BYTES.with(|b| b.get())))
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
