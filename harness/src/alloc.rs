//! Counts the memory that is allocated while the server is polled, and not by the harness itself,
//! until it is freed by whomever. Every simulation runs on one thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn add(size: i64, blocks: i64) {
    let l = LIVE.get() + size;
    LIVE.set(l);
    BLOCKS.set(BLOCKS.get() + blocks);
    if l > PEAK.get() {
        PEAK.set(l);
    }
    if blocks > 0 {
        TOTAL.set(TOTAL.get() + 1);
    }
}

pub struct Counting;

fn head(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe fn outer(l: &Layout) -> Layout {
    Layout::from_size_align_unchecked(l.size() + head(l), head(l))
}

unsafe fn tag(base: *mut u8, l: Layout) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let p = base.add(head(&l));
    let t = TRACK.get();
    (p.sub(8) as *mut u64).write(t as u64);
    if t {
        add(l.size() as i64, 1);
    }
    p
}

// The tag lies in front of the block, so that it does not matter who frees it when.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tag(System.alloc(outer(&l)), l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tag(System.alloc_zeroed(outer(&l)), l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (p.sub(8) as *mut u64).read() == 1 {
            add(-(l.size() as i64), -1);
        }
        System.dealloc(p.sub(head(&l)), outer(&l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let tracked = (p.sub(8) as *mut u64).read() == 1;
        let n = System.realloc(p.sub(head(&l)), outer(&l), size + head(&l));
        if n.is_null() {
            return n;
        }
        if tracked {
            add(size as i64 - l.size() as i64, 0);
        }
        n.add(head(&l))
    }
}

pub struct Guard(bool);

impl Drop for Guard {
    fn drop(&mut self) {
        TRACK.set(self.0);
    }
}

/// Until dropped, what is allocated belongs to the server (or not).
pub fn track(v: bool) -> Guard {
    Guard(TRACK.replace(v))
}

pub fn live() -> i64 {
    LIVE.get()
}
pub fn blocks() -> i64 {
    BLOCKS.get()
}
pub fn total() -> u64 {
    TOTAL.get()
}
pub fn reset_peak() {
    PEAK.set(LIVE.get())
}
pub fn peak() -> i64 {
    PEAK.get()
}

/// A future of the harness that is polled by the server.
pub struct Untracked<F>(pub F);

impl<F: Future> Future for Untracked<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let _g = track(false);
        // The only field is pinned with the whole.
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}
