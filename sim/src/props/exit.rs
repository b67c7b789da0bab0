//! C12 and C13: `ExitStack`.
use crate::arena;
use crate::sim::{self, chance, draw, fail, note, probe, range};
use crate::track::{self, Val, T3, T8, TA, TB, TY, TZ, ZST_ID};
use crate::with_val;
use exit_stack::{ExitStack, Slot};
use std::marker::PhantomData;
use std::mem::{align_of, size_of};
use std::pin::Pin;

/// Memory types, which are also values.
trait Mem: Sized + 'static { const NAME: &'static str; fn make() -> (Self, Vec<u32>); fn intact(&self, ids: &[u32]) -> bool; fn pin(p: *const Self, ids: &[u32]); }
macro_rules! tracked { ($($t:ty),*) => { $(impl Mem for $t {
    const NAME: &'static str = stringify!($t);
    fn make() -> (Self, Vec<u32>) { let v = <$t as Val>::make(); let id = v.read().unwrap(); (v, vec![id]) }
    fn intact(&self, ids: &[u32]) -> bool { self.read() == Some(ids[0]) }
    fn pin(p: *const Self, ids: &[u32]) { track::pin_at(ids[0], p as usize); }
})* } }
tracked!(T8, T3, TB, TA, TZ, TY);
impl<V: Val, const N: usize> Mem for [V; N] {
    const NAME: &'static str = "array of tracked values";
    fn make() -> (Self, Vec<u32>) { let v: [V; N] = std::array::from_fn(|_| V::make()); let ids = v.iter().map(|x| x.read().unwrap()).collect(); (v, ids) }
    fn intact(&self, ids: &[u32]) -> bool { self.iter().zip(ids).all(|(v, &i)| v.read() == Some(i)) }
    fn pin(p: *const Self, ids: &[u32]) { for (i, &id) in ids.iter().enumerate() { track::pin_at(id, p as usize + i * size_of::<V>()); } }
}
macro_rules! plain { ($($n:ident $a:literal $l:literal),*) => { $(#[repr(C, align($a))] struct $n([u8; $l]); impl Mem for $n {
    const NAME: &'static str = stringify!($n);
    fn make() -> (Self, Vec<u32>) { ($n(std::array::from_fn(|i| (i as u8).wrapping_mul(31) ^ 0x55)), vec![]) }
    fn intact(&self, _: &[u32]) -> bool { self.0.iter().enumerate().all(|(i, &b)| b == (i as u8).wrapping_mul(31) ^ 0x55) }
    fn pin(_: *const Self, _: &[u32]) {}
})* } }
plain!(P1 1 1, P7 1 7, P2 2 2, P300 4 300, P64 64 64, P128 128 256, P256 256 256, P16 16 16, P600 8 600, P8000 8 8000, P60000 8 60000);

struct Unpinned<T>(PhantomData<T>);
#[allow(dead_code)]
impl<T: Unpin> Unpinned<T> { fn movable(&self) -> bool { true } }
trait NotMovable { fn movable(&self) -> bool { false } }
impl<T> NotMovable for Unpinned<T> {}

struct Pinned { ids: Vec<u32>, addr: usize, len: usize, check: Box<dyn Fn() -> bool> }
trait Reserved { fn fill(self: Box<Self>) -> Option<Pinned>; }
impl<V: Mem> Reserved for Slot<'static, V> {
    fn fill(self: Box<Self>) -> Option<Pinned> {
        let (v, ids) = V::make();
        // All of its values outlive the stack.
        let local = chance(1, 4);
        let r: Pin<&'static mut V> = sim::sut_ok("pin", || if local { unsafe { (*self).pin_local(v) } } else { (*self).pin(v) })?;
        let p = unsafe { Pin::into_inner_unchecked(r) } as *const V;
        Some(pinned(p, ids))
    }
}
fn pinned<V: Mem>(p: *const V, ids: Vec<u32>) -> Pinned {
    if p as usize % align_of::<V>() != 0 { fail("misaligned", format!("a pinned {} is not aligned", V::NAME)); }
    V::pin(p, &ids);
    for &id in &ids { if id != ZST_ID || size_of::<V>() > 0 { if chance(1, 7) { track::set_panics(id, true); } } }
    let i = ids.clone();
    Pinned { addr: p as usize, len: size_of::<V>(), ids, check: Box::new(move || unsafe { (*p).intact(&i) }) }
}

struct World<M: Mem> { at: *mut ExitStack<M>, pinned: Vec<Pinned>, slots: Vec<(Box<dyn Reserved>, &'static str)>, movable: bool, clean: bool }

impl<M: Mem> World<M> {
    fn shared(&self) -> Pin<&'static ExitStack<M>> { unsafe { Pin::new_unchecked(&*self.at) } }
    fn excl(&self) -> Pin<&'static mut ExitStack<M>> { unsafe { Pin::new_unchecked(&mut *self.at) } }
    fn check(&self, when: &str) {
        let _q = track::quiet();
        for p in &self.pinned {
            for &id in &p.ids { if track::counted(id) && !track::is_live(id) { fail("early-drop", format!("{when}: pinned value {id} was dropped")); return; } }
            if !(p.check)() { fail("corrupted", format!("{when}: the pinned values {:?} are not intact", p.ids)); return; }
        }
        let all: Vec<u32> = self.pinned.iter().flat_map(|p| p.ids.iter().copied()).collect();
        track::expect_owned(&all, when);
    }
    fn place(&mut self, p: Pinned) {
        let (lo, hi) = (self.at as usize, self.at as usize + size_of::<ExitStack<M>>());
        if p.len > 0 && (p.addr < lo || p.addr + p.len > hi) { fail("out-of-bounds", "a pinned value is not within the stack".to_string()); }
        for q in &self.pinned { if p.addr < q.addr + q.len && q.addr < p.addr + p.len { fail("overlap", format!("values {:?} are pinned over values {:?}", p.ids, q.ids)); } }
        crate::tr!("pinned {:?} at {}..{}", p.ids, p.addr as isize - lo as isize, p.addr as isize - lo as isize + p.len as isize);
        note((p.addr - lo) as u64);
        self.pinned.push(p);
        self.clean = false;
        probe("op.pinned");
    }
    /// All values are dropped by this, in order. Additional ones may be dropped afterwards.
    fn drops_all(&mut self, what: &str, f: impl FnOnce(&Self)) -> bool {
        let from = track::drops();
        let want: Vec<u32> = self.pinned.iter().rev().flat_map(|p| p.ids.iter().copied()).filter(|&i| track::counted(i)).collect();
        let zst: i64 = self.pinned.iter().flat_map(|p| p.ids.iter()).filter(|&&i| i == ZST_ID).count() as i64;
        let zlive = track::reg().zst_live;
        crate::tr!("{what}");
        if want.len() > 1 { sim::nontrivial(); probe("op.dropped_several"); }
        let r = sim::sut(|| f(self));
        let panicked = r.is_err();
        if let Err(p) = r { if !sim::is_injected(&p) { fail("panic", format!("{what} panicked: {}", sim::panic_text(&p))); return false; } probe("op.drop_unwound"); }
        let got = &track::reg().dropped[from..];
        if got.len() < want.len() || got[..want.len()] != want[..] {
            let missing: Vec<u32> = want.iter().copied().filter(|i| !got.contains(i)).collect();
            if missing.is_empty() { fail("drop-order", format!("{what}: dropped {got:?} instead of {want:?}")); } else { fail("missing-drop", format!("{what}: values {missing:?} were not dropped")); }
            return false;
        }
        if track::reg().zst_live > zlive - zst { fail("missing-drop", format!("{what}: zero-sized values were not dropped")); return false; }
        self.pinned.clear();
        self.clean = !panicked;
        !panicked
    }
}

fn run<M: Mem>(movable: bool, p_set: u32, count: u32) {
    let many = count > 0;
    // In long runs the values are rarely dropped.
    if many { probe("op.many_values"); }
    let (size, align) = (size_of::<ExitStack<M>>(), align_of::<ExitStack<M>>());
    let at = arena::place(size, 4096, align * draw((4096 / align) as u32) as usize) as *mut ExitStack<M>;
    arena::dirt(at as usize, size, 3);
    crate::tr!("ExitStack<{}> of {size} bytes", M::NAME);
    let mut w = World { at, pinned: Vec::new(), slots: Vec::new(), movable, clean: true };
    if sim::sut_ok("new", || unsafe { at.write(ExitStack::new()) }).is_none() { return; }
    let ops = match count { 0 => range(2, 30), 1 => range(100, 400), _ => range(700, 3000) };
    let mut refused: Option<(u32, usize)> = None;
    for _ in 0..ops {
        if sim::failed() { return std::mem::forget(w); }
        sim::step();
        let op = if many && (chance(15, 16) || count > 1 && chance(31, 32)) { range(4, 15) as u32 } else { draw(16) };
        // The stack can only be changed exclusively while no slots exist.
        if (op < 4 || op < 4 + p_set && !many) && chance(1, 3) { w.slots.clear(); refused = None; }
        match op {
            0 if w.slots.is_empty() => {
                refused = None;
                if w.drops_all("pop_all", |w| w.excl().pop_all()) {
                    // Everything is available again.
                    let r = sim::sut_ok("slot", || w.shared().slot::<M>().is_some());
                    if r == Some(false) { fail("refused", format!("an empty stack has no space for a {}", M::NAME)); }
                    w.clean = false;
                }
            }
            1 if w.slots.is_empty() => {
                refused = None;
                w.drops_all("replace the stack", |w| { let mut p = w.excl(); Pin::set(&mut p, ExitStack::new()) });
                // Assigning drops the old one in place, and writes the new one also if that panics.
                w.clean = true;
            }
            2 if w.slots.is_empty() && chance(1, 2) => {
                refused = None;
                if chance(1, 3) {
                    sim::fault("fault.owner_panics");
                    struct Owner<M: 'static>(*mut ExitStack<M>);
                    impl<M> Drop for Owner<M> { fn drop(&mut self) { unsafe { std::ptr::drop_in_place(self.0) } } }
                    w.drops_all("unwind out of the owner of the stack", |w| { let _o = Owner(w.at); sim::inject(9) });
                } else {
                    w.drops_all("drop the stack", |w| unsafe { std::ptr::drop_in_place(w.at) });
                }
                if sim::failed() { return std::mem::forget(w); }
                track::expect_owned(&[], "after dropping the stack");
                // Its memory may be used for something else.
                arena::dirt(w.at as usize, size, 4);
                unsafe { w.at.write(ExitStack::new()); }
                w.clean = true;
            }
            3 if w.movable && w.slots.is_empty() => {
                // Safe code can do this with a type that is Unpin.
                let other = arena::place(size, align, 0) as *mut ExitStack<M>;
                arena::dirt(other as usize, size, 8);
                unsafe { std::ptr::copy_nonoverlapping(w.at as *const u8, other as *mut u8, size); w.at.write(ExitStack::new()); }
                crate::tr!("the stack is moved by safe code, as it is Unpin");
                w.at = other;
                for p in &w.pinned { if !p.ids.is_empty() { fail("moved", format!("pinned values {:?} are moved by safe code, the stack is Unpin", p.ids)); } }
            }
            _ if !many && op >= 4 && op < 4 + p_set && w.slots.is_empty() => {
                refused = None;
                let (v, ids) = M::make();
                crate::tr!("set to {ids:?}");
                let mut got = None;
                let ok = w.drops_all("set", |w| got = Some(unsafe { Pin::into_inner_unchecked(w.excl().set(v)) } as *const M));
                probe("op.set");
                if ok { match got { Some(p) => w.place(pinned(p, ids)), None => fail("refused", "set did not store the value".to_string()) } }
            }
            4..=10 => {
                let sel = if many && chance(1, 16) { 10 } else { draw(10) };
                let before: Vec<usize> = w.pinned.iter().map(|p| p.addr).collect();
                macro_rules! take { ($V:ty) => { sim::sut_ok("slot", || w.shared().slot::<$V>().map(|s| (Box::new(s) as Box<dyn Reserved>, <$V as Mem>::NAME))) } }
                let r = match sel { 0..=5 => with_val!(sel, V => take!(V)), 7 => take!([T8; 3]), 6 => take!(M), 8 => take!(P64), 10 => take!([T8; 300]), _ => take!(P7) };
                note(before.len() as u64);
                match r {
                    Some(Some(s)) => {
                        crate::tr!("reserved a slot for {}", s.1);
                        if refused.is_some_and(|(x, n)| x == sel && n == 1) { fail("not-the-model", format!("a slot for {} was refused before, and now there is space", s.1)); }
                        probe("op.reserved");
                        w.clean = false;
                        if chance(1, 3) { if let Some(p) = s.0.fill() { w.place(p); } } else { w.slots.push(s); }
                    }
                    Some(None) => {
                        crate::tr!("refused a slot of kind {sel}");
                        probe("op.refused");
                        if sel == 6 && w.clean { fail("refused", format!("an empty stack has no space for a {}", M::NAME)); }
                        refused = Some((sel, 1));
                    }
                    None => {}
                }
            }
            11 => if !w.slots.is_empty() { refused = None; let i = draw(w.slots.len() as u32) as usize; let s = w.slots.remove(i); crate::tr!("give up a slot for {}", s.1); if chance(1, 4) { std::mem::forget(s) } else { sim::sut_ok("dropping a slot", || drop(s)); } probe("op.slot_unused"); },
            _ => if !w.slots.is_empty() {
                let i = draw(w.slots.len() as u32) as usize;
                if i + 1 != w.slots.len() { probe("op.pinned_out_of_order"); }
                let s = w.slots.remove(i);
                if let Some(p) = s.0.fill() { w.place(p); }
            },
        }
        if sim::failed() { return std::mem::forget(w); }
        if count < 2 || chance(1, 64) { w.check("while pinned"); }
    }
    if sim::failed() { return std::mem::forget(w); }
    w.slots.clear();
    w.drops_all("drop the stack", |w| unsafe { std::ptr::drop_in_place(w.at) });
    if sim::failed() { return; }
    track::expect_owned(&[], "after dropping the stack");
    arena::check("the exit stack");
}

macro_rules! mems { ($sel:expr, $p:expr, $m:expr, $($i:literal $t:ty),*) => { match $sel { $($i => run::<$t>(Unpinned::<ExitStack<$t>>(PhantomData).movable(), $p, $m),)* _ => run::<[TB; 6]>(Unpinned::<ExitStack<[TB; 6]>>(PhantomData).movable(), $p, $m) } } }
fn go(sel: u32, p_set: u32) {
    // Counts which do not fit a byte, or the whole of a small stack, need long histories.
    if chance(1, 64) { return if chance(1, 24) { mems!(0, p_set, 2, 0 P60000) } else { mems!(draw(3), p_set, 1, 0 [T8; 150], 1 [TB; 60], 2 P8000) }; }
    mems!(sel, p_set, 0, 0 [T8; 12], 1 [TB; 6], 2 P600, 3 P300, 4 T8, 5 T3, 6 TB, 7 TA, 8 TZ, 9 P1, 10 P7, 11 P2, 12 P64, 13 P128, 14 P256, 15 P16, 16 [TA; 4], 17 [T3; 5], 18 TY);
}
pub fn c12() { let sel = if chance(2, 3) { draw(4) } else { draw(19) }; go(sel, 2) }
pub fn c13() { let sel = if chance(1, 3) { draw(4) } else { draw(19) }; go(sel, 5) }
