//! Counting allocator: per-thread live bytes, allocation count and bytes.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: usize) {
    LIVE.with(|l| {
        l.set(l.get() + n as i64);
        PEAK.with(|p| p.set(p.get().max(l.get())));
    });
    COUNT.with(|c| c.set(c.get() + 1));
    BYTES.with(|c| c.set(c.get() + n as u64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
            BLOCKS.with(|b| b.set(b.get() + 1));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.with(|v| v.set(v.get() - l.size() as i64));
        BLOCKS.with(|b| b.set(b.get() - 1));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.with(|v| v.set(v.get() - l.size() as i64));
            add(n);
        }
        q
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Stat {
    pub live: i64,
    pub blocks: i64,
    pub count: u64,
    pub bytes: u64,
}

pub fn now() -> Stat {
    Stat {
        live: LIVE.with(Cell::get),
        blocks: BLOCKS.with(Cell::get),
        count: COUNT.with(Cell::get),
        bytes: BYTES.with(Cell::get),
    }
}

/// Restarts peak tracking and returns the current live bytes.
pub fn reset_peak() -> i64 {
    let l = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(l));
    l
}

pub fn peak() -> i64 {
    PEAK.with(Cell::get)
}
