//! Global allocator that surrounds every heap block with NaN-valued red zones and fills fresh memory
//! with NaN bytes (0xFF.. is a NaN in both f32 and f64). An out-of-bounds or uninitialised read of a
//! table inside the library then poisons its output; an out-of-bounds write is noticed on free.
#![cfg_attr(feature = "asan", allow(dead_code))]
use std::cell::Cell;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Guard;
const RZ: usize = 256;
pub static CORRUPT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    /// bytes allocated minus bytes freed by this thread
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    /// highest value of LIVE since it was last reset
    pub static PEAK: Cell<i64> = const { Cell::new(0) };
    /// number of allocations made by this thread
    pub static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
fn count(bytes: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + bytes;
        l.set(v);
        if bytes > 0 {
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
            let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        }
    });
}

#[inline]
fn pad(l: Layout) -> usize {
    RZ.max(l.align())
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(l);
        let n = match l.size().checked_add(p + RZ) {
            Some(n) => n,
            None => return std::ptr::null_mut(),
        };
        let b = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if b.is_null() {
            return b;
        }
        count(l.size() as i64);
        std::ptr::write_bytes(b, 0xFF, n);
        b.add(p)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = pad(l);
        let n = match l.size().checked_add(p + RZ) {
            Some(n) => n,
            None => return std::ptr::null_mut(),
        };
        let b = System.alloc_zeroed(Layout::from_size_align_unchecked(n, l.align()));
        if b.is_null() {
            return b;
        }
        count(l.size() as i64);
        std::ptr::write_bytes(b, 0xFF, p);
        std::ptr::write_bytes(b.add(p + l.size()), 0xFF, RZ);
        b.add(p)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let p = pad(l);
        let b = q.sub(p);
        count(-(l.size() as i64));
        let front = std::slice::from_raw_parts(b, p);
        let back = std::slice::from_raw_parts(q.add(l.size()), RZ);
        if front.iter().any(|&x| x != 0xFF) || back.iter().any(|&x| x != 0xFF) {
            CORRUPT.fetch_add(1, Ordering::SeqCst);
        }
        System.dealloc(b, Layout::from_size_align_unchecked(l.size() + p + RZ, l.align()));
    }
    // realloc: default (alloc + copy + dealloc) keeps the red zones checked
}
