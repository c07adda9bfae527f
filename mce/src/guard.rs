//! An allocator that surrounds every block with guard bytes, so that native code writing outside of an array that was
//! allocated on the Rust side is noticed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::*};

const ZONE: usize = 4096;
const BYTE: u8 = 0xA7;
pub static DAMAGED: AtomicU64 = AtomicU64::new(0);
pub struct Guard;
fn wrap(l: Layout) -> Option<Layout> { if l.size() < 8 || l.align() > 64 || l.align() < 4 { None } else { Layout::from_size_align(l.size() + 2 * ZONE, 64).ok() } }
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(w) = wrap(l) else { return System.alloc(l) };
        let p = System.alloc(w);
        if p.is_null() { return p }
        std::ptr::write_bytes(p, BYTE, ZONE);
        std::ptr::write_bytes(p.add(ZONE + l.size()), BYTE, ZONE);
        p.add(ZONE)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some(w) = wrap(l) else { return System.dealloc(p, l) };
        let b = p.sub(ZONE);
        let zone = |q: *mut u8| std::slice::from_raw_parts(q, ZONE).iter().any(|&x| x != BYTE);
        if zone(b) || zone(p.add(l.size())) { DAMAGED.fetch_add(1, SeqCst); }
        System.dealloc(b, w)
    }
}
#[global_allocator]
static G: Guard = Guard;
