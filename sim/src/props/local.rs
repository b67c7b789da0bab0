//! C20 and C21: values placed through a local allocator, and the default methods of one.
use crate::arena;
use crate::pod;
use crate::shared::PODS;
use crate::sim::{self, chance, draw, fail, pick, probe, range, Config, Global};
use crate::track::{self, AnyVal, Val, ZST_ID};
use crate::with_any_val;
use alloc_traits::{Allocation, LocalAlloc, NonZeroLayout};
use static_alloc::Bump;
use std::alloc::Layout;
use std::mem::{align_of, size_of, ManuallyDrop};
use std::ptr::NonNull;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::rc::Rc;
use without_alloc::{Box as MyBox, FixedVec};

/// An allocator of the simulation. It may fail at any request and hand out more than requested.
pub struct Alloc(());
#[derive(Clone, Copy)]
struct Block { at: usize, layout: Layout, live: bool, by: usize, asked: Layout }
struct State {
    blocks: Vec<Block>,
    /// Requests per thread in its current operation, and those refused.
    asked: [usize; 4], refused: [usize; 4], frees: [usize; 4], made: [usize; 4],
    wanted: [Layout; 4],
    p_fail: u32, more: u32, zero_size: bool, panics: u32, salt: u64, yields: bool, used: usize,
}
const L1: Layout = Layout::new::<u8>();
static S: Global<State> = Global::new(State { blocks: Vec::new(), asked: [0; 4], refused: [0; 4], frees: [0; 4], made: [0; 4], wanted: [L1; 4], p_fail: 0, more: 0, zero_size: false, panics: 0, salt: 0, yields: false, used: 0 });
fn st() -> &'static mut State { S.get() }
static ALLOC: Alloc = Alloc(());
fn me() -> usize { if sim::in_task() { sim::current() } else { 3 } }
fn nz(l: Layout) -> NonZeroLayout { if l.size() % 2 == 0 { NonZeroLayout::from_layout(l.into()).unwrap() } else { NonZeroLayout::try_from(l).ok().unwrap() } }
const POISON: u64 = 0xDEAD_0000;

unsafe impl<'a> LocalAlloc<'a> for Alloc {
    fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
        let _q = track::quiet();
        if st().yields { sim::maybe_yield(); }
        let s = st();
        let i = me();
        let l: Layout = layout.into();
        let plain = alloc_traits::Layout::from(l);
        if (layout.size().get(), layout.align()) != (l.size(), l.align()) || (plain.size(), plain.align()) != (l.size(), l.align()) { fail("wrong-layout", format!("the layout {l:?} is reported as {} bytes aligned to {}, or {} aligned to {}", layout.size(), layout.align(), plain.size(), plain.align())); }
        s.asked[i] += 1;
        if l.size() == 0 { fail("empty-request", "a layout without size was requested".to_string()); }
        s.wanted[i] = l;
        if s.panics > 0 && chance(s.panics, 16) { sim::fault("fault.allocator_panics"); crate::tr!("      the allocator panics"); drop(_q); sim::inject(23) }
        if l.size() > 200_000 || l.align() > 4096 || s.used + l.size() > 2_000_000 { s.refused[i] += 1; probe("alloc.too_large"); return None; }
        if chance(s.p_fail, 16) { s.refused[i] += 1; sim::fault("fault.allocation_fails"); crate::tr!("      the allocator refuses {l:?}"); return None; }
        let (mut size, mut align) = (l.size(), l.align());
        if chance(s.more, 4) { size += range(1, 40); probe("alloc.more_than_asked"); }
        if chance(s.more, 8) { align = (align * 2).min(4096); }
        let at = arena::place(size, align, if chance(1, 2) { align } else { 0 });
        s.used += size + align + 128;
        s.salt += 1;
        arena::dirt(at, size, s.salt);
        s.made[i] += 1;
        let got = Layout::from_size_align(size, align).unwrap();
        crate::tr!("      the allocator gives {got:?} for {l:?}");
        s.blocks.push(Block { at, layout: got, live: true, by: i, asked: l });
        Some(Allocation { ptr: NonNull::new(at as *mut u8).unwrap(), layout: nz(got), lifetime: Default::default() })
    }
    unsafe fn dealloc(&'a self, a: Allocation<'a>) {
        let _q = track::quiet();
        let s = st();
        let at = a.ptr.as_ptr() as usize;
        let l: Layout = a.layout.into();
        s.frees[me()] += 1;
        match s.blocks.iter_mut().rfind(|b| b.at == at) {
            None => fail("bad-release", format!("offset {} was released which is no block", arena::offset(at))),
            Some(b) if !b.live => fail("double-release", format!("the block of {:?} was released twice", b.layout)),
            Some(b) if b.layout != l => fail("bad-release", format!("a block of {:?} was released as {l:?}", b.layout)),
            Some(b) => { b.live = false; crate::tr!("      the allocator takes back {l:?}"); arena::dirt(at, l.size(), POISON); arena::revoke(at); }
        }
        if s.yields { sim::maybe_yield(); }
    }
}
fn begin(more: bool) {
    let s = st();
    *s = State { blocks: std::mem::take(&mut s.blocks), asked: [0; 4], refused: [0; 4], frees: [0; 4], made: [0; 4], wanted: [L1; 4], p_fail: pick(&[0, 2, 4, 8]), more: if more { draw(3) } else { 0 }, zero_size: false, panics: 0, salt: 5000, yields: true, used: 0 };
    s.blocks.clear();
}
/// Before an operation of this thread.
fn op() { let (s, i) = (st(), me()); s.asked[i] = 0; s.refused[i] = 0; s.frees[i] = 0; s.made[i] = 0; }

// ---------------------------------------------------------------- C21

/// A block of a user, and the contents: to a size by a salt, or zero.
#[derive(Clone, Copy)]
struct Held { a: Allocation<'static>, salt: u64, valid: usize, zero: bool }
static HELD: Global<Vec<Held>> = Global::new(Vec::new());

fn contents(h: &Held, n: usize, what: &str) -> bool {
    let at = h.a.ptr.as_ptr() as usize;
    let bad = if h.zero { arena::bytes(at, n).iter().position(|&b| b != 0) } else { let b = unsafe { arena::vsim_dirt_check(at as *const u8, n, h.salt) }; (b >= 0).then_some(b as usize) };
    if let Some(b) = bad { fail("lost-contents", format!("{what}: byte {b} of {n} is not what was stored")); return false; }
    true
}
fn block(at: usize) -> Option<&'static Block> { st().blocks.iter().rfind(|b| b.at == at) }
fn given(a: &Allocation<'static>, want: Layout, what: &str) -> bool {
    let at = a.ptr.as_ptr() as usize;
    let l: Layout = a.layout.into();
    let Some(b) = block(at) else { fail("no-block", format!("{what}: memory which is not a block was returned")); return false };
    if !b.live { fail("no-block", format!("{what}: a released block was returned")); return false; }
    if HELD.get().iter().any(|h| h.a.ptr == a.ptr) { fail("shared", format!("{what}: a block in use was returned")); return false; }
    if l.size() < want.size() || at % want.align() != 0 || l.size() > b.layout.size() { fail("wrong-layout", format!("{what}: {l:?} was returned for {want:?}")); return false; }
    // This is what it has to be released with.
    if l != b.layout { fail("wrong-layout", format!("{what}: {l:?} was returned but allocated was {:?}", b.layout)); return false; }
    true
}
fn layout() -> Layout {
    let size = match draw(8) { 0 => 1, 1 => usize::MAX / 4, 2 => match draw(16) { 0..=3 => 300_000, 4 => range(2000, 150_000), _ => range(120, 2000) }, _ => range(1, 120) };
    Layout::from_size_align(size, 1 << draw(if chance(1, 6) { 14 } else { 6 })).unwrap()
}
fn store(mut h: Held) {
    st().salt += 1;
    h.salt = st().salt;
    h.zero = false;
    h.valid = h.a.layout.size().get();
    arena::dirt(h.a.ptr.as_ptr() as usize, h.valid, h.salt);
    HELD.get().push(h);
}
fn conserved(when: &str) {
    let live = st().blocks.iter().filter(|b| b.live).count();
    let held = HELD.get().len();
    if live > held { fail("lost-block", format!("{when}: {live} blocks are allocated but {held} are in use")); }
    if live < held { fail("early-release", format!("{when}: {held} blocks are in use but only {live} are allocated")); }
}
fn c21_step(solo: bool) {
    sim::step();
    op();
    let n = HELD.get().len();
    if n == 0 || (n < 8 && chance(1, 4)) {
        let l = layout();
        let zero = chance(2, 3);
        let way = draw(2);
        crate::tr!("allocate {l:?}, zeroed: {zero}");
        let r = sim::sut(|| if !zero { ALLOC.alloc(nz(l)) } else if way == 0 { ALLOC.alloc_zeroed(nz(l)) } else { alloc_traits::util::defaults::local::alloc_zeroed(&ALLOC, nz(l)) });
        let r = match r { Ok(r) => r, Err(p) => { if !sim::is_injected(&p) { fail("panic", format!("allocating panicked: {}", sim::panic_text(&p))); } None } };
        if st().frees[me()] > 0 { fail("bad-release", "allocating released a block".to_string()); return; }
        if let Some(a) = r {
            if !given(&a, l, "allocating") { return; }
            if zero {
                let size = a.layout.size().get();
                if let Some(i) = arena::bytes(a.ptr.as_ptr() as usize, size).iter().position(|&b| b != 0) { fail("not-zeroed", format!("byte {i} of {size} of a zeroed block is not zero, {} were requested", l.size())); return; }
                probe("op.zeroed");
            }
            let h = Held { a, salt: 0, valid: 0, zero: false };
            if zero && chance(1, 2) { HELD.get().push(Held { zero: true, valid: a.layout.size().get(), ..h }) } else { store(h); }
        } else { probe("op.alloc_refused"); if st().refused[me()] == 0 && st().panics == 0 { fail("refused", "an allocation failed although the allocator did not".to_string()); return; } }
    } else {
        let h = { let v = HELD.get(); let i = draw(n as u32) as usize; v.swap_remove(i) };
        let old: Layout = h.a.layout.into();
        if !contents(&h, h.valid, "before an operation") { return; }
        if chance(1, 4) {
            crate::tr!("release {old:?}");
            if sim::sut_ok("dealloc", || unsafe { ALLOC.dealloc(h.a) }).is_none() { return; }
            probe("op.released");
        } else {
            let l = match draw(4) { 0 => old, 1 => Layout::from_size_align(range(1, old.size()), old.align()).unwrap(), _ => layout() };
            let way = draw(2);
            crate::tr!("reallocate {old:?} to {l:?}");
            let r = sim::sut(|| unsafe { if way == 0 { ALLOC.realloc(h.a, nz(l)) } else { alloc_traits::util::defaults::local::realloc(&ALLOC, h.a, nz(l)) } });
            let r = match r { Ok(r) => r, Err(p) => { if !sim::is_injected(&p) { fail("panic", format!("reallocating panicked: {}", sim::panic_text(&p))); } None } };
            if sim::failed() { return; }
            let frees = st().frees[me()];
            match r {
                Some(a) => {
                    let at = a.ptr.as_ptr() as usize;
                    if at != h.a.ptr.as_ptr() as usize && frees != 1 { fail(if frees == 0 { "lost-block" } else { "double-release" }, format!("a reallocation released {frees} blocks")); return; }
                    if !given(&a, l, "reallocating") { return; }
                    let keep = h.valid.min(l.size());
                    if !contents(&Held { a, ..h }, keep, "after reallocating") { return; }
                    probe(if l.size() > old.size() { "op.grown" } else { "op.shrunk" });
                    sim::nontrivial();
                    // All of it is the user's.
                    store(Held { a, ..h });
                }
                None => {
                    if frees > 0 { fail("early-release", "a refused reallocation released a block".to_string()); return; }
                    if st().refused[me()] == 0 && st().panics == 0 { fail("refused", "a reallocation failed although the allocator did not".to_string()); return; }
                    if !contents(&h, h.valid, "after a refused reallocation") { return; }
                    if !block(h.a.ptr.as_ptr() as usize).is_some_and(|b| b.live) { fail("early-release", "the old block is gone after a refused reallocation".to_string()); return; }
                    probe("op.realloc_refused");
                    HELD.get().push(h);
                }
            }
        }
    }
    if solo { conserved("after an operation"); }
}
pub fn c21() {
    HELD.get().clear();
    begin(true);
    if chance(1, 6) { st().panics = 3; }
    let tasks = if chance(1, 2) { 1 } else { range(2, 3) };
    let ops = range(3, 30);
    if tasks == 1 { st().yields = false; for _ in 0..ops { if sim::failed() { return; } c21_step(true); } }
    else {
        for _ in 0..tasks { sim::spawn(move || for _ in 0..=ops / tasks { if sim::failed() { return; } c21_step(false); sim::maybe_yield(); }); }
        sim::run_tasks(Config { kills: 0, p_stall: 0, ..Config::random() });
    }
    if sim::failed() { return; }
    conserved("at the end");
    for h in HELD.get().iter() { if !contents(h, h.valid, "at the end") { return; } }
    for h in std::mem::take(HELD.get()) { if sim::sut_ok("dealloc", || unsafe { ALLOC.dealloc(h.a) }).is_none() || sim::failed() { return; } }
    conserved("after releasing all");
    arena::check("default methods");
}

// ---------------------------------------------------------------- C20

/// A placed value: still intact, and given up at the end.
trait Placed { fn check(&self, when: &str); fn end(self: Box<Self>); fn ids(&self) -> Vec<u32>; fn span(&self) -> (usize, usize); }
struct PBox<V: Val>(MyBox<'static, V>, u32);
struct PRc<V: Val>(Rc<'static, V>, u32);
struct PVec<V: Val>(FixedVec<'static, V>, Vec<u32>);
struct PSlice<T: 'static>(&'static mut [T], u64);
struct PStr(&'static str, String);
struct PRaw(usize, usize, u64);
struct PDyn(&'static mut dyn AnyVal, u32);
struct PVals<V: Val>(&'static mut [V], Vec<u32>);
fn dropping<T>(t: T) { if let Err(p) = sim::sut(move || { let _solo = sim::unarmed(); drop(t) }) { if !sim::is_injected(&p) { fail("panic", format!("dropping panicked: {}", sim::panic_text(&p))); } } }
fn intact(have: Option<u32>, id: u32, what: &str, when: &str) { if have != Some(id) { fail("wrong-value", format!("{when}: {what} has {have:?} instead of {id}")); } }
fn addr<T: ?Sized>(t: &T) -> usize { t as *const T as *const u8 as usize }
impl<V: Val> Placed for PBox<V> {
    fn check(&self, when: &str) { intact(self.0.read(), self.1, "a box", when) }
    fn end(self: Box<Self>) { dropping(self.0) }
    fn ids(&self) -> Vec<u32> { vec![self.1] }
    fn span(&self) -> (usize, usize) { (addr(&*self.0), size_of::<V>()) }
}
impl<V: Val> Placed for PRc<V> {
    fn check(&self, when: &str) { intact(self.0.read(), self.1, "a reference counted value", when); if Rc::strong_count(&self.0) != 1 || Rc::weak_count(&self.0) != 1 { fail("wrong-value", format!("{when}: the counts are {} and {}", Rc::strong_count(&self.0), Rc::weak_count(&self.0))); } }
    fn end(self: Box<Self>) { dropping(self.0) }
    fn ids(&self) -> Vec<u32> { vec![self.1] }
    fn span(&self) -> (usize, usize) { (addr(&*self.0), Rc::<V>::layout().size()) }
}
impl<V: Val> Placed for PVec<V> {
    fn check(&self, when: &str) { if self.0.len() != self.1.len() { fail("wrong-value", format!("{when}: the vector has {} elements instead of {}", self.0.len(), self.1.len())); return; } for (v, id) in self.0.iter().zip(&self.1) { intact(v.read(), *id, "a vector", when); } }
    fn end(self: Box<Self>) { dropping(self.0) }
    fn ids(&self) -> Vec<u32> { self.1.clone() }
    fn span(&self) -> (usize, usize) { (addr(self.0.as_slice()), if size_of::<V>() == 0 { 0 } else { self.0.capacity() * size_of::<V>() }) }
}
impl<T> Placed for PSlice<T> {
    fn check(&self, when: &str) { let n = std::mem::size_of_val(self.0); if unsafe { arena::vsim_dirt_check(self.0.as_ptr() as *const u8, n, self.1) } >= 0 { fail("wrong-value", format!("{when}: a copied slice is not intact")); } }
    fn end(self: Box<Self>) {}
    fn ids(&self) -> Vec<u32> { vec![] }
    fn span(&self) -> (usize, usize) { (addr(&*self.0), std::mem::size_of_val(self.0)) }
}
impl Placed for PStr {
    fn check(&self, when: &str) { if self.0 != self.1 { fail("wrong-value", format!("{when}: a copied string is not intact")); } }
    fn end(self: Box<Self>) {}
    fn ids(&self) -> Vec<u32> { vec![] }
    fn span(&self) -> (usize, usize) { (addr(self.0), self.0.len()) }
}
impl Placed for PRaw {
    fn check(&self, when: &str) { if unsafe { arena::vsim_dirt_check(self.0 as *const u8, self.1, self.2) } >= 0 { fail("wrong-value", format!("{when}: memory was overwritten")); } }
    fn end(self: Box<Self>) {}
    fn ids(&self) -> Vec<u32> { vec![] }
    fn span(&self) -> (usize, usize) { (self.0, self.1) }
}
impl Placed for PDyn {
    fn check(&self, when: &str) { intact(self.0.ident(), self.1, "a copied object", when) }
    fn end(self: Box<Self>) { let p: *mut dyn AnyVal = self.0; if let Err(p) = sim::sut(|| { let _solo = sim::unarmed(); unsafe { std::ptr::drop_in_place(p) } }) { if !sim::is_injected(&p) { fail("panic", "dropping panicked".to_string()); } } }
    fn ids(&self) -> Vec<u32> { vec![self.1] }
    fn span(&self) -> (usize, usize) { (self.0.addr(), std::mem::size_of_val(self.0)) }
}
impl<V: Val> Placed for PVals<V> {
    fn check(&self, when: &str) { for (v, id) in self.0.iter().zip(&self.1) { intact(v.read(), *id, "a copied slice", when); } }
    fn end(self: Box<Self>) { let p: *mut [V] = self.0; if let Err(p) = sim::sut(|| { let _solo = sim::unarmed(); unsafe { std::ptr::drop_in_place(p) } }) { if !sim::is_injected(&p) { fail("panic", "dropping panicked".to_string()); } } }
    fn ids(&self) -> Vec<u32> { self.1.clone() }
    fn span(&self) -> (usize, usize) { (addr(&*self.0), std::mem::size_of_val(self.0)) }
}
struct World { placed: Vec<Box<dyn Placed>>, salt: u64, faults: bool, busy: Vec<u32>, storage: Option<(usize, usize)> }
static W: Global<Option<World>> = Global::new(None);
fn w() -> &'static mut World { W.get().as_mut().unwrap() }
fn salt() -> u64 { w().salt += 1; w().salt }

fn value<V: Val>() -> (V, u32) { let v = V::make(); let id = v.read().unwrap(); if w().faults && chance(1, 10) { track::set_panics(id, true); } (v, id) }
/// What the allocator was asked for in this operation, for a layout needed.
fn asked(need: Layout, ok: bool, what: &str) -> bool {
    if w().storage.is_some() { return true; }
    let (s, i) = (st(), me());
    if s.frees[i] > 0 { fail("bad-release", format!("{what} released a block")); return false; }
    if need.size() == 0 {
        if s.asked[i] > 0 { fail("needless-request", format!("{what} requested memory where none is needed")); return false; }
        if !ok { fail("refused", format!("{what} failed although no memory is needed")); return false; }
        return true;
    }
    if ok && s.made[i] == 0 { fail("no-block", format!("{what} gave memory without a request")); return false; }
    if !ok && s.refused[i] == 0 && s.asked[i] > 0 { fail("refused", format!("{what} failed although the allocator did not")); return false; }
    if s.asked[i] > 0 && (s.wanted[i].size() < need.size() || s.wanted[i].align() < need.align()) { fail("short-request", format!("{what} requested {:?} where {need:?} is needed", s.wanted[i])); return false; }
    true
}
/// Place it in the books: its memory must be of its own.
fn placed(p: Box<dyn Placed>, need: Layout, what: &str) {
    let (at, n) = p.span();
    if at == 0 || at % need.align() != 0 { fail("misaligned", format!("{what}: {at:#x} is not aligned to {}", need.align())); return std::mem::forget(p); }
    if n < need.size() { fail("too-small", format!("{what}: {n} bytes instead of {}", need.size())); return std::mem::forget(p); }
    if n > 0 {
        if let Some((s, len)) = w().storage {
            if at < s || at + n > s + len { fail("out-of-bounds", format!("{what}: the memory is not of the allocator")); return std::mem::forget(p); }
        } else {
            let ok = st().blocks.iter().rev().any(|b| b.live && b.by == me() && at >= b.at && at + n <= b.at + b.layout.size());
            if !ok { fail("out-of-bounds", format!("{what}: {n} bytes are not within a block of this request")); return std::mem::forget(p); }
        }
        for o in &w().placed { let (a, m) = o.span(); if m > 0 && at < a + m && a < at + n { fail("shared", format!("{what}: memory overlaps with that of another value")); return std::mem::forget(p); } }
    }
    p.check(what);
    probe(if n == 0 { "op.placed_without_memory" } else { "op.placed" });
    w().placed.push(p);
}
fn refused(ids: &[u32], what: &str) {
    for &id in ids { if track::counted(id) && track::is_live(id) { fail("missing-drop", format!("{what} failed but value {id} was not dropped")); return; } }
    probe("op.refused");
    sim::nontrivial();
}
fn run_op<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    op();
    crate::tr!("{what}");
    match sim::sut(f) { Ok(r) => Some(r), Err(p) => { if !sim::is_injected(&p) { fail("panic", format!("{what} panicked: {}", sim::panic_text(&p))); } else { probe("op.unwound"); } None } }
}
fn one<A: LocalAlloc<'static>, V: Val>(a: &'static A) {
    let need = Layout::new::<V>();
    let n = match draw(10) { 0 => 0, 1 => pick(&[usize::MAX, usize::MAX / 2, isize::MAX as usize / size_of::<V>().max(1), 1 << 33]), 2 if chance(1, 3) => if chance(1, 16) { crate::many::count(100_000) } else { range(6, 300) }, _ => range(1, 6) };
    match draw(7) {
        0 | 1 => {
            let (v, id) = value::<V>();
            w().busy.push(id);
            let r = run_op("boxed", || a.boxed(v));
            done(&[id]);
            let Some(r) = r else { return if !sim::failed() { refused(&[id], "boxed") } };
            if !asked(need, r.is_some(), "boxed") { return std::mem::forget(r); }
            match r { Some(b) => placed(Box::new(PBox(b, id)), need, "boxed"), None => refused(&[id], "boxed") }
        }
        2 | 3 => {
            let (v, id) = value::<V>();
            let need = Rc::<V>::layout();
            w().busy.push(id);
            let r = run_op("rc", || a.rc(v));
            done(&[id]);
            let Some(r) = r else { return if !sim::failed() { refused(&[id], "rc") } };
            if !asked(need, r.is_some(), "rc") { return std::mem::forget(r); }
            match r { Some(b) => placed(Box::new(PRc(b, id)), need, "rc"), None => refused(&[id], "rc") }
        }
        4 | 5 => {
            let need = size_of::<V>().checked_mul(n).and_then(|s| Layout::from_size_align(s, align_of::<V>()).ok());
            let Some(r) = run_op("fixed_vec", || a.fixed_vec::<V>(n)) else { return };
            let Some(need) = need else { if r.is_some() { fail("accepted", format!("a vector of {n} elements was made")); std::mem::forget(r); } else if st().asked[me()] > 0 && w().storage.is_none() { fail("short-request", format!("{:?} was requested for {n} elements", st().wanted[me()])); } else { probe("op.unrepresentable"); } return };
            if !asked(need, r.is_some(), "fixed_vec") { return std::mem::forget(r); }
            match r {
                None => refused(&[], "fixed_vec"),
                Some(mut v) => {
                    if v.len() != 0 || v.capacity() < n { fail("too-small", format!("a vector of capacity {} instead of {n}", v.capacity())); return std::mem::forget(v); }
                    let mut ids = vec![];
                    for _ in 0..range(0, n.min(if n > 6 { 200 } else { 8 })) { let (x, id) = value::<V>(); if v.push(x).is_err() { fail("too-small", format!("a vector of capacity {n} is full with {} elements", ids.len())); return std::mem::forget(v); } ids.push(id); }
                    placed(Box::new(PVec(v, ids)), need, "fixed_vec");
                }
            }
        }
        _ => {
            // A copy of a value without a size known, which is then the only one.
            if chance(1, 2) {
                let (v, id) = value::<V>();
                let m: Box<ManuallyDrop<V>> = Box::new(ManuallyDrop::new(v));
                w().busy.push(id);
                let r = run_op("copy_dst", || { let d: &ManuallyDrop<dyn AnyVal> = &*m; unsafe { a.copy_dst::<dyn AnyVal>(d) } });
                done(&[id]);
                let Some(r) = r else { let mut m = m; return if sim::failed() {} else { dropping(unsafe { ManuallyDrop::take(&mut m) }) } };
                if !asked(need, r.is_some(), "copy_dst") { return; }
                match r { Some(r) => placed(Box::new(PDyn(r, id)), need, "copy_dst"), None => { let mut m = m; dropping(unsafe { ManuallyDrop::take(&mut m) }); refused(&[id], "copy_dst") } }
            } else {
                let (vals, ids): (Vec<V>, Vec<u32>) = (0..if chance(1, 16) { if chance(1, 32) { crate::many::count(5000) } else { range(4, 150) } } else { range(0, 4) }).map(|_| value::<V>()).unzip();
                let need = Layout::for_value(&vals[..]);
                w().busy.extend_from_slice(&ids);
                let r = run_op("copy_dst of a slice", || { let d: &ManuallyDrop<[V]> = unsafe { &*(&vals[..] as *const [V] as *const ManuallyDrop<[V]>) }; unsafe { a.copy_dst::<[V]>(d) } });
                done(&ids);
                let Some(r) = r else { return dropping(vals) };
                if !asked(need, r.is_some(), "copy_dst") { return std::mem::forget(vals); }
                match r {
                    Some(r) => { if r.len() != ids.len() { fail("wrong-value", format!("{} elements instead of {}", r.len(), ids.len())); return std::mem::forget(vals); } let mut vals = vals; unsafe { vals.set_len(0) }; placed(Box::new(PVals(r, ids)), need, "copy_dst") }
                    None => { dropping(vals); refused(&ids, "copy_dst") }
                }
            }
        }
    }
}
fn done(ids: &[u32]) { for id in ids { if let Some(i) = w().busy.iter().position(|x| x == id) { w().busy.swap_remove(i); } } }
fn pods<A: LocalAlloc<'static>, T: Copy + 'static>(a: &'static A) {
    match draw(3) {
        0 => {
            let need = Layout::new::<T>();
            let Some(r) = run_op("alloc_t", || a.alloc_t::<T>()) else { return };
            if !asked(need, r.is_some(), "alloc_t") { return; }
            match r {
                None => refused(&[], "alloc_t"),
                Some(l) => {
                    let (at, n) = (l.uninit.as_ptr() as usize, l.uninit.size());
                    if n < need.size() || at % need.align() != 0 || at == 0 { fail("too-small", format!("{n} bytes at {at:#x} for {need:?}")); return; }
                    let s = salt();
                    arena::dirt(at, n, s);
                    placed(Box::new(PRaw(at, n, s)), need, "alloc_t");
                }
            }
        }
        _ => {
            let len = match draw(6) { 0 => 0, 1 => 1, 2 if chance(1, 4) => if chance(1, 16) { crate::many::count(100_000) } else { range(7, 300) }, _ => range(2, 7) };
            let src: Vec<std::mem::MaybeUninit<T>> = { let mut v = Vec::with_capacity(len); unsafe { v.set_len(len) }; v };
            let n = size_of::<T>() * len;
            let s = salt();
            arena::dirt(src.as_ptr() as usize, n, s);
            // All types used have no invalid values.
            let data: &[T] = unsafe { std::slice::from_raw_parts(src.as_ptr() as *const T, len) };
            let need = Layout::for_value(data);
            let Some(r) = run_op("copy_slice", || a.copy_slice(data)) else { return };
            if !asked(need, r.is_some(), "copy_slice") { return; }
            match r { None => refused(&[], "copy_slice"), Some(r) => { if r.len() != len { fail("wrong-value", format!("a slice of {len} elements became one of {}", r.len())); return; } placed(Box::new(PSlice(r, s)), need, "copy_slice") } }
        }
    }
}
fn text<A: LocalAlloc<'static>>(a: &'static A) {
    let t: String = (0..if chance(1, 8) { if chance(1, 32) { crate::many::count(40_000) } else { range(12, 600) } } else { range(0, 12) }).map(|_| pick(&['a', 'z', 'ß', '語', '🦀'])).collect();
    let need = Layout::for_value(t.as_str());
    let Some(r) = run_op("copy_str", || a.copy_str(&t)) else { return };
    if !asked(need, r.is_some(), "copy_str") { return; }
    match r { None => refused(&[], "copy_str"), Some(r) => { if r.len() != t.len() { fail("wrong-value", format!("a string of {} bytes became one of {}", t.len(), r.len())); return; } placed(Box::new(PStr(r, t)), need, "copy_str") } }
}
fn raw<A: LocalAlloc<'static>>(a: &'static A) {
    let l = layout();
    let Some(r) = run_op("alloc_layout", || a.alloc_layout(nz(l))) else { return };
    if !asked(l, r.is_some(), "alloc_layout") { return; }
    match r {
        None => refused(&[], "alloc_layout"),
        Some(x) => {
            let (at, n) = (x.uninit.as_ptr() as usize, x.uninit.size());
            if n < l.size() || !x.uninit.fits(l) { fail("too-small", format!("{n} bytes at {at:#x} for {l:?}")); return; }
            let s = salt();
            arena::dirt(at, n, s);
            placed(Box::new(PRaw(at, n, s)), l, "alloc_layout");
        }
    }
}
fn c20_step<A: LocalAlloc<'static>>(a: &'static A, solo: bool) {
    sim::step();
    if !w().placed.is_empty() && chance(1, 5) {
        let i = draw(w().placed.len() as u32) as usize;
        let p = w().placed.swap_remove(i);
        p.check("before dropping");
        if sim::failed() { return std::mem::forget(p); }
        let ids = p.ids();
        crate::tr!("drop values {ids:?}");
        p.end();
        for id in ids { if track::counted(id) && track::is_live(id) { fail("missing-drop", format!("value {id} was not dropped")); } }
    } else {
        match draw(8) {
            0..=3 => with_any_val!(draw(11), V => one::<A, V>(a)),
            4 | 5 => pod!(draw(PODS as u32) as usize, T => pods::<A, T>(a)),
            6 => text(a),
            _ => raw(a),
        }
    }
    if sim::failed() { return; }
    let _q = track::quiet();
    for p in &w().placed { p.check("meanwhile"); if sim::failed() { return; } }
    if solo { let ids: Vec<u32> = w().placed.iter().flat_map(|p| p.ids()).collect(); track::expect_owned(&ids, "after an operation"); }
}
fn c20_run<A: LocalAlloc<'static>>(a: &'static A) {
    let tasks = if chance(1, 2) { 1 } else { range(2, 3) };
    let ops = range(2, 24);
    if tasks == 1 { st().yields = false; for _ in 0..ops { if sim::failed() { break; } c20_step(a, true); } }
    else {
        for _ in 0..tasks { sim::spawn(move || for _ in 0..=ops / tasks { if sim::failed() { return; } c20_step(a, false); sim::maybe_yield(); }); }
        sim::run_tasks(Config { kills: 0, ..Config::random() });
    }
    if sim::failed() { return abandon(); }
    let ids: Vec<u32> = w().placed.iter().flat_map(|p| p.ids()).collect();
    track::expect_owned(&ids, "at the end");
    while let Some(p) = w().placed.pop() { p.check("at the end"); if sim::failed() { std::mem::forget(p); return abandon(); } p.end(); }
    track::expect_owned(&[], "after dropping all");
    arena::check("placing");
}
fn abandon() { for p in std::mem::take(&mut w().placed) { std::mem::forget(p); } }
pub fn c20() {
    *W.get() = Some(World { placed: vec![], salt: 9000, faults: chance(1, 3), busy: vec![], storage: None });
    begin(true);
    if draw(3) == 2 {
        #[repr(align(16))]
        struct Mem(#[allow(dead_code)] [u8; 700]);
        type B = Bump<Mem>;
        let at = arena::place(size_of::<B>(), 64, 16 * draw(4) as usize);
        arena::dirt(at, size_of::<B>(), 5);
        unsafe { (at as *mut B).write(Bump::uninit()) };
        w().storage = Some((at, size_of::<B>()));
        c20_run::<B>(unsafe { &*(at as *const B) });
    } else {
        c20_run::<Alloc>(&ALLOC);
    }
}
