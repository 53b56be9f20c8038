//! Counts allocated bytes.

use std::alloc::{ GlobalAlloc, Layout, System };
use std::sync::atomic::{ AtomicUsize, Ordering::Relaxed };

pub struct Counting;

static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let now = NOW.fetch_add(layout.size(), Relaxed) + layout.size();
        PEAK.fetch_max(now, Relaxed);
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        NOW.fetch_sub(layout.size(), Relaxed);
        System.dealloc(ptr, layout)
    }
}

/// Forget earlier peaks; gives what is allocated now.
pub fn reset_peak() -> usize {
    let now = NOW.load(Relaxed);
    PEAK.store(now, Relaxed);
    now
}

pub fn peak() -> usize { PEAK.load(Relaxed) }
