//! Counts what the module keeps in memory: allocations are tagged with who made them.
use proxy_wasm::sim::MODULE;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Tagging;

static LIVE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicI64 = AtomicI64::new(0);

/// Bytes the module has ever allocated.
pub fn total() -> i64 {
    TOTAL.load(Ordering::Relaxed)
}

/// Bytes the module has allocated and not freed.
pub fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}

/// Allocations the module has made and not freed.
pub fn blocks() -> i64 {
    BLOCKS.load(Ordering::Relaxed)
}

fn outer(l: Layout) -> Option<(Layout, usize)> {
    let head = l.align().max(16);
    Some((Layout::from_size_align(l.size().checked_add(head)?, head).ok()?, head))
}

unsafe impl GlobalAlloc for Tagging {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some((o, head)) = outer(l) else { return std::ptr::null_mut() };
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        let module = MODULE.try_with(|m| m.get()).unwrap_or(false);
        *p = module as u8;
        if module {
            LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
            BLOCKS.fetch_add(1, Ordering::Relaxed);
            TOTAL.fetch_add(l.size() as i64, Ordering::Relaxed);
        }
        p.add(head)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some((o, head)) = outer(l) else { return };
        let p = p.sub(head);
        if *p == 1 {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
            BLOCKS.fetch_sub(1, Ordering::Relaxed);
        }
        System.dealloc(p, o)
    }
}
