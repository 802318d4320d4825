//! Global allocator: a scheduling point per allocation made by code under test, and a tag on
//! each such block so that memory the library keeps can be told from the harness's own.

use crate::rt::{self, Pt};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Tagging;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static PEAK_LIMIT: i64 = 1 << 30;

const TAG: u64 = 0x5afe_a110_c000_0001;

fn header(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for Tagging {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let sut = rt::in_sut();
        if sut {
            rt::point(Pt::Alloc, 0);
            if rt::alloc_fails() {
                return std::ptr::null_mut();
            }
        }
        let h = header(&l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, h));
        if p.is_null() {
            return p;
        }
        *(p.add(h - 8) as *mut u64) = if sut { TAG } else { 0 };
        if sut {
            BLOCKS.fetch_add(1, Ordering::Relaxed);
            if LIVE.fetch_add(l.size() as i64, Ordering::Relaxed) > PEAK_LIMIT {
                rt::fatal("memory");
            }
        }
        p.add(h)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = header(&l);
        let t = *(p.sub(8) as *const u64);
        if t == TAG {
            *(p.sub(8) as *mut u64) = 0;
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
            BLOCKS.fetch_sub(1, Ordering::Relaxed);
        }
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if rt::in_sut() {
            rt::point(Pt::Alloc, 0);
            if rt::alloc_fails() {
                return std::ptr::null_mut();
            }
        }
        let h = header(&l);
        let t = *(p.sub(8) as *const u64);
        let q = System.realloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h), new + h);
        if q.is_null() {
            return q;
        }
        if t == TAG && LIVE.fetch_add(new as i64 - l.size() as i64, Ordering::Relaxed) > PEAK_LIMIT {
            rt::fatal("memory");
        }
        q.add(h)
    }
}
