//! Guarded memory for objects and buffers given to the code under test. Everything around the placed
//! regions is filled with canary bytes. Its address is fixed, thus layouts repeat exactly.
use crate::sim::{fail, Global};

pub const SIZE: usize = 4 << 20;
const BASE: usize = 0x2000_0000_0000;
const HEAP_BASE: usize = BASE + (16 << 20);
const HEAP_SIZE: usize = 128 << 20;
struct HeapSpan { base: usize, top: usize, blocks: usize }
static HEAP: Global<HeapSpan> = Global::new(HeapSpan { base: 0, top: 0, blocks: 0 });
struct Arena { base: usize, top: usize, regions: Vec<(usize, usize)> }
static ARENA: Global<Arena> = Global::new(Arena { base: 0, top: 0, regions: Vec::new() });

extern "C" {
    fn vsim_fill(addr: *mut u8, len: usize);
    fn vsim_fill_check(addr: *const u8, len: usize) -> i64;
    fn vsim_dirt(addr: *mut u8, len: usize, salt: u64);
    /// Index of the first byte that is not the one of `vsim_dirt`.
    pub fn vsim_dirt_check(addr: *const u8, len: usize, salt: u64) -> i64;
    fn vsim_watch_begin(lo: usize, mid: usize, hi: usize);
    fn vsim_watch_off();
    fn vsim_watch_add(lo: usize, len: usize);
    fn vsim_watch_release(lo: usize, dead: i32);
    static mut vsim_oob: i32;
    static vsim_oob_addr: usize;
    static vsim_oob_len: usize;
    static vsim_oob_write: i32;
    static vsim_oob_dead: i32;
    fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn flock(fd: i32, how: i32) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }

/// Map memory with an inaccessible page on both sides, at that address if possible.
pub fn map_at(addr: usize, len: usize) -> usize {
    const PAGE: usize = 4096;
    unsafe {
        let p = mmap((addr - PAGE) as *mut u8, len + 2 * PAGE, 0, 0x22 | 0x100000 | 0x4000, -1, 0);
        let p = if p as isize == -1 { mmap(std::ptr::null_mut(), len + 2 * PAGE, 0, 0x22 | 0x4000, -1, 0) } else { p };
        assert!(p as isize != -1, "mmap");
        let q = mmap(p.add(PAGE), len, 3, 0x22 | 0x10 | 0x4000, -1, 0);
        assert!(q as isize != -1, "mmap");
        q as usize
    }
}


/// Address space for sizes which do not fit 32 bits. Only few of its pages are ever used.
pub const HUGE: usize = 6 << 30;
/// One process at a time has it: code under test which touches all of it must not take all memory of the machine.
pub fn huge() -> Option<usize> {
    unsafe {
        if *LOCK.get() < 0 { *LOCK.get() = open(c"/proc/self/exe".as_ptr(), 0x80000); }
        while flock(*LOCK.get(), 2) != 0 && *LOCK.get() >= 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {}
    }
    static AT: Global<Option<usize>> = Global::new(None);
    if AT.get().is_none() {
        let p = unsafe { mmap(0x2300_0000_0000 as *mut u8, HUGE, 3, 0x22 | 0x100000 | 0x4000, -1, 0) };
        *AT.get() = Some(p as usize);
    }
    let at = AT.get().filter(|&p| p as isize != -1);
    if at.is_none() { unsafe { flock(*LOCK.get(), 8); } }
    at
}
/// All of it is zero again, and takes no memory.
pub fn huge_clear(at: usize) {
    unsafe {
        madvise(at as *mut u8, HUGE, 4);
        flock(*LOCK.get(), 8);
    }
}
/// Opened after the process was forked, others do not share it.
static LOCK: Global<i32> = Global::new(-1);
/// Like `dirt`, of huge regions both ends only.
pub fn paint(addr: usize, len: usize, salt: u64) {
    if len <= 1 << 20 { return dirt(addr, len, salt); }
    dirt(addr, 64, salt);
    dirt(addr + len - 64, 64, salt);
}
pub fn painted(addr: usize, len: usize, salt: u64) -> i64 {
    unsafe {
        if len <= 1 << 20 { return vsim_dirt_check(addr as *const u8, len, salt); }
        let a = vsim_dirt_check(addr as *const u8, 64, salt);
        if a >= 0 { return a; }
        let b = vsim_dirt_check((addr + len - 64) as *const u8, 64, salt);
        if b >= 0 { b + len as i64 - 64 } else { b }
    }
}

pub fn begin() {
    let a = ARENA.get();
    if a.base == 0 { a.base = map_at(BASE, SIZE); }
    a.top = 0;
    a.regions.clear();
    let h = HEAP.get();
    if h.base == 0 { h.base = map_at(HEAP_BASE, HEAP_SIZE); }
    h.top = 0;
    h.blocks = 0;
    unsafe { vsim_watch_begin(a.base, h.base, h.base + HEAP_SIZE); }
}
/// Accesses are no longer watched.
pub fn end() { poll("at the end"); unsafe { vsim_watch_off(); } }
fn fill(a: &Arena, from: usize, to: usize) { unsafe { vsim_fill((a.base + from) as *mut u8, to - from) } }

/// Place a region of a size at an address which is `extra` behind a multiple of `align`.
pub fn place(size: usize, align: usize, extra: usize) -> usize {
    let a = ARENA.get();
    let start = (a.base + a.top + 64).next_multiple_of(align) + extra;
    let end = start + size + 64 - a.base;
    assert!(end <= SIZE, "arena is full");
    fill(a, a.top, end);
    a.top = end;
    a.regions.push((start, size));
    unsafe { vsim_watch_add(start, size); }
    start
}
/// Memory for a block of the heap, with room to its neighbours and not aligned any more than required.
pub fn heap_place(size: usize, align: usize) -> Option<usize> {
    let h = HEAP.get();
    let start = (h.base + h.top + 64).next_multiple_of(2 * align) + if h.blocks % 3 != 0 { align } else { 0 };
    let end = start + size + 64 - h.base;
    if end > HEAP_SIZE { return None; }
    h.top = end;
    h.blocks += 1;
    unsafe { vsim_watch_add(start, size); }
    Some(start)
}
pub fn in_heap(addr: usize) -> bool { let h = HEAP.get(); h.base != 0 && addr >= h.base && addr < h.base + HEAP_SIZE }
/// The region at that address belongs to no one: each access is reported.
pub fn revoke(addr: usize) { unsafe { vsim_watch_release(addr, 1) } }
pub fn grant(addr: usize) { unsafe { vsim_watch_release(addr, 0) } }
/// Report an access outside of all regions, or to a revoked one.
pub fn poll(what: &str) {
    unsafe {
        if vsim_oob == 0 { return; }
        vsim_oob = 0;
        let (h, a) = (HEAP.get(), ARENA.get());
        let (place, off) = if in_heap(vsim_oob_addr) { ("heap", vsim_oob_addr - h.base) } else { ("arena", vsim_oob_addr - a.base) };
        let kind = if vsim_oob_write != 0 { "wrote" } else { "read" };
        if vsim_oob_dead != 0 { fail("use-after-free", format!("{what}: {kind} {} bytes of released memory, at {place} offset {off}", vsim_oob_len)); }
        else { fail("out-of-bounds", format!("{what}: {kind} {} bytes, not all of which belong to one piece of provided memory, at {place} offset {off}", vsim_oob_len)); }
    }
}
/// As an offset, for traces.
pub fn offset(addr: usize) -> isize { addr as isize - ARENA.get().base as isize }
/// No byte outside of the regions was modified.
pub fn check(what: &str) {
    poll(what);
    let a = ARENA.get();
    let mut at = a.base;
    for &(s, len) in a.regions.iter().chain(std::iter::once(&(a.base + a.top, 0))) {
        let bad = unsafe { vsim_fill_check(at as *const u8, s - at) };
        if bad >= 0 {
            fail("out-of-bounds", format!("{what}: byte at arena offset {} outside of the provided memory was modified", offset(at + bad as usize)));
            return;
        }
        at = s + len;
    }
}
pub fn bytes(addr: usize, len: usize) -> &'static mut [u8] { unsafe { std::slice::from_raw_parts_mut(addr as *mut u8, len) } }
/// Fill with something that is not zero, by a generator independent of the tape.
pub fn dirt(addr: usize, len: usize, salt: u64) {
    unsafe { vsim_dirt(addr as *mut u8, len, salt) }
}
