//! Counts the bytes each thread has allocated and not freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
#[global_allocator]
static GLOBAL: Counting = Counting;

/// Looked at before the bytes are asked for.
#[inline]
fn bound(n: usize) {
    let _ = LIVE.try_with(|l| engine::bounds::heap(l.get().saturating_add(n.min(i64::MAX as usize) as i64)));
}
#[inline]
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bound(l.size());
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bound(l.size());
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bound(n.saturating_sub(l.size()));
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

/// Bytes this thread holds now.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
