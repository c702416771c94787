//! Stand-in for the `wee_alloc` allocator: forwards to the system allocator, whose
//! blocks the engine tracks individually (bounds, use after free), and counts bytes.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct WeeAlloc(());
/// Bytes allocated and not freed.
pub static mut LIVE: isize = 0;
impl WeeAlloc {
    pub const INIT: WeeAlloc = WeeAlloc(());
}
unsafe impl GlobalAlloc for WeeAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE += l.size() as isize;
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE -= l.size() as isize;
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE += l.size() as isize;
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE += n as isize - l.size() as isize;
        System.realloc(p, l, n)
    }
}
