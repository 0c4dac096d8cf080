//! Global allocator: per-thread live bytes and allocations (a run lives on one thread), with the
//! simulator's own kept apart, deterministic contents of fresh memory, and a ceiling that turns
//! runaway allocation into a report instead of an OOM kill.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
const CEILING: isize = 2 << 30;
const SYSTEM: usize = 0xa110c;

/// What is allocated. A block of `LARGE` bytes or more counts in `large` only.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Held {
    pub bytes: isize,
    pub blocks: isize,
    pub large: isize,
}
pub const LARGE: isize = 1 << 20;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    /// not the simulator's: bytes and allocations, the large ones' bytes apart
    static SUBJECT: Cell<Held> = const { Cell::new(Held { bytes: 0, blocks: 0, large: 0 }) };
    static WATCHED: Cell<bool> = const { Cell::new(false) };
}
pub static RUNAWAY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn add(n: isize, one: isize, own: bool) {
    if !own {
        let _ = SUBJECT.try_with(|s| {
            let mut h = s.get();
            if n.abs() >= LARGE {
                h.large += n;
            } else {
                h.bytes += n;
                h.blocks += one;
            }
            s.set(h);
        });
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if v > CEILING && WATCHED.with(|w| w.get()) {
            RUNAWAY.store(1, std::sync::atomic::Ordering::SeqCst);
            // the monitor ends the process
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
            }
        }
    });
}
/// Live bytes and allocations of everything but the simulator.
pub fn subject() -> Held {
    SUBJECT.with(|s| s.get())
}
pub fn watch() {
    LIVE.with(|l| l.set(0));
    SUBJECT.with(|s| s.set(Held::default()));
    WATCHED.with(|w| w.set(true));
}

/// room in front of each block for the note whose it is
fn head(l: &Layout) -> usize {
    l.align().max(16)
}
fn whole(l: &Layout) -> Layout {
    // SAFETY: sizes near isize::MAX are refused by the caller's allocation anyway
    unsafe { Layout::from_size_align_unchecked(l.size() + head(l), l.align().max(16)) }
}
unsafe fn mark(p: *mut u8, l: &Layout) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let own = simcore::own_memory();
    add(l.size() as isize, 1, own);
    let q = p.add(head(l));
    (q as *mut usize).sub(1).write(SYSTEM << 1 | own as usize);
    q
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() >= 1 << 15 {
            mark(System.alloc_zeroed(whole(&l)), &l)
        } else {
            let p = mark(System.alloc(whole(&l)), &l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0xa5, l.size());
            }
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        mark(System.alloc_zeroed(whole(&l)), &l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let note = (p as *mut usize).sub(1).read();
        if note >> 1 != SYSTEM {
            std::process::abort();
        }
        add(-(l.size() as isize), -1, note & 1 == 1);
        System.dealloc(p.sub(head(&l)), whole(&l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
