//! Allocation sizes are split into one path per value: otherwise every later address would
//! be an expression over the input.
use std::alloc::{GlobalAlloc, Layout, System};
struct A;
fn one(n: usize) -> usize { super::sym::split(n as u64) as usize }
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { unsafe { System.alloc(Layout::from_size_align_unchecked(one(l.size()), l.align())) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { unsafe { System.alloc_zeroed(Layout::from_size_align_unchecked(one(l.size()), l.align())) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe { System.realloc(p, Layout::from_size_align_unchecked(one(l.size()), l.align()), one(n)) }
    }
}
#[global_allocator]
static G: A = A;
