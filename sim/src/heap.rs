//! The heap of the process. Requests of the code under test go through the run's choice tape: they can
//! fail, return dirty memory, and releases are verified and poisoned.
use crate::sim::{self, fail, Global};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Heap;
#[global_allocator]
static HEAP: Heap = Heap;

#[derive(Clone, Copy)]
pub struct Block { pub ptr: usize, pub size: usize, pub align: usize, pub live: bool, pub zeroed: bool }
const MAX: usize = 16384;
pub struct HeapState {
    /// Requests are tracked while not zero.
    on: bool,
    pub p_fail: u32,
    pub fail_at: u32,
    pub requests: u32,
    pub failures: u32,
    /// Size of the last request which failed.
    pub failed_size: usize,
    pub releases: u32,
    /// What fresh memory is filled with.
    pub dirty: u8,
    blocks: [Block; MAX],
    n: usize,
    hint: usize,
}
static STATE: Global<HeapState> = Global::new(HeapState { on: false, p_fail: 0, fail_at: u32::MAX, requests: 0, failures: 0, failed_size: 0, releases: 0, dirty: 0xA5, blocks: [Block { ptr: 0, size: 0, align: 0, live: false, zeroed: false }; MAX], n: 0, hint: 0 });
pub fn state() -> &'static mut HeapState { STATE.get() }

const POISON: u8 = 0xDB;
/// Largest request served.
const LIMIT: usize = 1 << 26;

pub fn begin() {
    let s = state();
    s.on = false; s.p_fail = 0; s.fail_at = u32::MAX; s.requests = 0; s.failures = 0; s.releases = 0; s.dirty = 0xA5; s.n = 0; s.hint = 0;
}
/// Check that released memory has not been written to, then really free everything.
pub fn end() {
    let s = state();
    s.on = false;
    for i in 0..s.n {
        let b = s.blocks[i];
        unsafe {
            if !b.live {
                let mem = std::slice::from_raw_parts(b.ptr as *const u8, b.size);
                if mem.iter().any(|&x| x != POISON) { fail("use-after-free", format!("heap block {i} was written to after its release")); }
            }
        }
    }
    s.n = 0;
}
pub fn live_blocks() -> Vec<(usize, Block)> {
    let _p = pause();
    let s = state();
    s.blocks[..s.n].iter().enumerate().filter(|(_, b)| b.live).map(|(i, b)| (i, *b)).collect()
}
pub fn block_of(addr: usize) -> Option<(usize, Block)> {
    let s = state();
    s.blocks[..s.n].iter().enumerate().find(|(_, b)| b.live && addr >= b.ptr && addr < b.ptr + b.size).map(|(i, b)| (i, *b))
}

pub struct Paused(bool);
pub fn pause() -> Paused { let s = state(); let w = s.on; s.on = false; Paused(w) }
impl Drop for Paused { fn drop(&mut self) { state().on = self.0; } }
/// Track all heap operations within.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let was = state().on;
    state().on = true;
    struct Off(bool);
    impl Drop for Off { fn drop(&mut self) { state().on = self.0; } }
    let _o = Off(was);
    f()
}

unsafe fn request(l: Layout, zero: bool) -> *mut u8 {
    let s = state();
    s.on = false;
    s.requests += 1;
    let fails = s.requests == s.fail_at || sim::chance(s.p_fail, 16) || l.size() > LIMIT || s.n >= MAX;
    // Addresses are part of the run, thus no other memory will do.
    let place = if fails { None } else { crate::arena::heap_place(l.size(), l.align()) };
    let fails = place.is_none();
    let p = if fails {
        if l.size() <= LIMIT { sim::fault("fault.heap_request_failed"); }
        s.failures += 1;
        s.failed_size = l.size();
        crate::tr!("      heap: request {l:?} zeroed={zero} fails");
        std::ptr::null_mut()
    } else {
        let p = place.unwrap() as *mut u8;
        std::ptr::write_bytes(p, if zero { 0 } else { s.dirty }, l.size());
        if !zero { sim::probe("env.heap_memory_dirty"); }
        crate::tr!("      heap: request {l:?} zeroed={zero} is block {}", s.n);
        s.blocks[s.n] = Block { ptr: p as usize, size: l.size(), align: l.align(), live: true, zeroed: zero };
        s.n += 1;
        p
    };
    sim::note(0x4EA9 ^ (l.size() as u64) << 16 ^ fails as u64);
    s.on = true;
    p
}
unsafe fn release(i: usize, l: Layout) {
    let s = state();
    let was = s.on;
    s.on = false;
    s.releases += 1;
    let b = &mut s.blocks[i];
    if !b.live { fail("double-free", format!("heap block {i} was released twice")); }
    else if b.size != l.size() || b.align != l.align() { fail("bad-free", format!("heap block {i} of size {} and alignment {} was released as {l:?}", b.size, b.align)); }
    b.live = false;
    crate::tr!("      heap: release of block {i}");
    std::ptr::write_bytes(b.ptr as *mut u8, POISON, b.size);
    crate::arena::revoke(b.ptr);
    s.on = was;
}
fn find(p: *mut u8) -> Option<usize> {
    let s = state();
    if s.n == 0 { return None; }
    // Long chains are released in order.
    let h = s.hint;
    for i in [h.wrapping_sub(1), h + 1] {
        if i < s.n && s.blocks[i].ptr == p as usize && s.blocks[i].live { s.hint = i; return Some(i); }
    }
    if let Some(i) = search(s, p) { s.hint = i; Some(i) } else { None }
}
fn search(s: &HeapState, p: *mut u8) -> Option<usize> {
    (0..s.n).rev().find(|&i| s.blocks[i].ptr == p as usize)
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if state().on { let _u = sim::unarmed(); request(l, false) } else { System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if state().on { let _u = sim::unarmed(); request(l, true) } else { System.alloc_zeroed(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _u = sim::unarmed();
        if let Some(i) = find(p) { release(i, l) }
        else { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _u = sim::unarmed();
        if state().on || find(p).is_some() {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = if state().on { request(nl, false) } else { let was = state().on; state().on = true; let q = request(nl, false); state().on = was; q };
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        } else { System.realloc(p, l, n) }
    }
}
