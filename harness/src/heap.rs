//! Allocator that makes memory errors visible: every block is only as aligned as asked for (never
//! more), lies between guard zones that are checked when it is freed, and holds NaN patterns before
//! its first use and after its last.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Guarded;
const MARK: u8 = 0xC3;
const FILL: u8 = 0xFF;

fn zone(l: &Layout) -> usize {
    (2 * l.align()).max(64)
}
fn outer(l: &Layout) -> Option<Layout> {
    let z = zone(l);
    let size = l.size().checked_add(2 * z)?.checked_add(l.align())?;
    Layout::from_size_align(size, (2 * l.align()).max(16)).ok()
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(&l) else { return core::ptr::null_mut() };
        let b = System.alloc(o);
        if b.is_null() {
            return b;
        }
        let pre = zone(&l) + l.align();
        b.write_bytes(MARK, pre);
        b.add(pre).write_bytes(FILL, l.size());
        b.add(pre + l.size()).write_bytes(MARK, o.size() - pre - l.size());
        b.add(pre)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let o = outer(&l).unwrap();
        let pre = zone(&l) + l.align();
        let b = p.sub(pre);
        let whole = core::slice::from_raw_parts(b, o.size());
        if whole[..pre].iter().chain(&whole[pre + l.size()..]).any(|&m| m != MARK) {
            // a write outside its block: end here, the caller sees the call that did it crash
            std::process::abort();
        }
        p.write_bytes(FILL, l.size());
        System.dealloc(b, o);
    }
}

#[global_allocator]
static HEAP: Guarded = Guarded;
