//! A global allocator that notes, for watched byte ranges, whether the range was all
//! zero at the moment the heap block containing it was released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
pub struct Watch;
const N: usize = 4096;
struct Slot { ptr: AtomicUsize, len: AtomicUsize, state: AtomicUsize }
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { ptr: AtomicUsize::new(0), len: AtomicUsize::new(0), state: AtomicUsize::new(0) };
static SLOTS: [Slot; N] = [EMPTY; N];
static USED: AtomicUsize = AtomicUsize::new(0);
fn released(p: usize, size: usize) {
    let used = USED.load(SeqCst).min(N);
    for s in &SLOTS[..used] {
        let q = s.ptr.load(SeqCst);
        if s.state.load(SeqCst) == 1 && q >= p && q < p + size {
            let l = s.len.load(SeqCst).min(p + size - q);
            let clean = (0..l).all(|i| unsafe { std::ptr::read_volatile((q + i) as *const u8) } == 0);
            s.state.store(if clean { 2 } else { 3 }, SeqCst);
        }
    }
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if USED.load(SeqCst) > 0 { released(p as usize, l.size()) } System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if USED.load(SeqCst) > 0 { released(p as usize, l.size()) } System.realloc(p, l, n) }
}
/// Watch a byte range; returns a ticket (the ticket of a live watch on the same address is shared).
pub fn watch(ptr: *const u8, len: usize) -> usize {
    let used = USED.load(SeqCst);
    for i in 0..used { if SLOTS[i].state.load(SeqCst) == 1 && SLOTS[i].ptr.load(SeqCst) == ptr as usize { return i } }
    assert!(used < N, "harness: too many watches in one session");
    let s = &SLOTS[used];
    s.ptr.store(ptr as usize, SeqCst); s.len.store(len, SeqCst); s.state.store(1, SeqCst);
    USED.store(used + 1, SeqCst);
    used
}
/// Stop watching (the range now belongs to someone else).
pub fn forget(t: usize) { SLOTS[t].state.store(4, SeqCst) }
pub fn state(t: usize) -> &'static str { match SLOTS[t].state.load(SeqCst) { 1 => "held", 2 => "clean", 3 => "dirty", 4 => "given", _ => "none" } }
pub fn used() -> usize { USED.load(SeqCst) }
pub fn reset() { USED.store(0, SeqCst); for s in &SLOTS { s.state.store(0, SeqCst) } }
