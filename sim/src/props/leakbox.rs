//! C07: `LeakBox` in memory of all kinds of allocators.
use crate::arena;
use crate::sim::{self, chance, draw, fail, note, pick, probe, range, Config, Global};
use crate::track::{self, AnyVal, Val, ZST_ID};
use crate::many::{self, Elem};
use crate::{with_lump, with_any_val};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::MemBump;
use static_alloc::Bump;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;

type Shared = Bump<[u8; 900]>;
struct World { bump: *const Shared, mem: *const MemBump, pool: Vec<Box<dyn Held>>, dead: Vec<(u32, Box<dyn FnOnce()>)>, slots: Vec<usize> }
static W: Global<Option<World>> = Global::new(None);
fn w() -> &'static mut World { W.get().as_mut().unwrap() }

/// Who is responsible for values.
enum St<V: 'static> {
    One(LeakBox<'static, V>), Slice(LeakBox<'static, [V]>), Dyn(LeakBox<'static, dyn AnyVal>), Pinned(Pin<LeakBox<'static, V>>),
    Raw(*mut V), RawSlice(*mut [V]), RawDyn(*mut dyn AnyVal), Uninit(LeakBox<'static, MaybeUninit<V>>), UninitSlice(LeakBox<'static, [MaybeUninit<V>]>),
    Ref(&'static mut V), RefSlice(&'static mut [V]), Value(Box<V>), Gone,
}
struct Owned<V: 'static> { st: St<V>, ids: Vec<u32>, addr: usize }
trait Held {
    fn step(self: Box<Self>, user: usize) -> Option<Box<dyn Held>>;
    fn check(&self);
    fn finish(self: Box<Self>);
    fn ids(&self) -> &[u32];
}

fn maybe_panicking(ids: &[u32]) {
    if !ids.is_empty() && chance(1, 6) { track::set_panics(pick(ids), true); }
}
/// The result of something that may run destructors.
fn dropping(what: &str, r: Result<(), sim::Payload>) {
    if let Err(p) = r { if !sim::is_injected(&p) { fail("panic", format!("{what} panicked: {}", sim::panic_text(&p))); } else { probe("op.drop_unwound"); } }
}
fn mark_pinned(ids: &[u32], addr: usize, size: usize) { for (i, &id) in ids.iter().enumerate() { track::pin_at(id, addr + i * size); } }

fn values<V: Val>(n: usize) -> (Vec<V>, Vec<u32>) { let v: Vec<V> = (0..n).map(|_| V::make()).collect(); let ids = v.iter().map(|x| x.read().unwrap()).collect(); (v, ids) }
/// Free space for an array in a slot of the arena full of old data.
fn slot<V>(n: usize) -> *mut V {
    let at = arena::place(size_of::<V>() * n, 64, 32 * draw(2) as usize);
    arena::dirt(at, size_of::<V>() * n, 77 + n as u64);
    at as *mut V
}

fn create<V: Val>(user: usize) -> Option<Owned<V>> {
    let (bump, mem) = (w().bump, w().mem);
    let mode = draw(9);
    let n = if chance(1, 24) { range(4, 120) } else { range(0, 4) };
    if mode < 3 {
        let (mut v, ids) = values::<V>(1);
        let v = v.pop().unwrap();
        let r = sim::sut(|| unsafe { match mode {
            0 => (*bump).leak_box(v),
            1 => match (*bump).get::<V>() { Some(a) => Some(a.boxed(v)), None => { drop(v); None } },
            _ => { let l = (*bump).level(); match (*bump).leak_box_at(v, l) { Ok(b) => Some(b), Err(_) => None } }
        } });
        return match r {
            Ok(Some(b)) => {
                let addr = &*b as *const V as usize;
                crate::tr!("user {user}: box of {} values {ids:?}, way {mode}", V::NAME);
                mark_pinned(&ids, addr, size_of::<V>());
                maybe_panicking(&ids);
                probe("op.boxed");
                Some(Owned { st: St::One(b), ids, addr })
            }
            Ok(None) => { probe("op.box_refused"); None }
            Err(p) if sim::is_injected(&p) && size_of::<V>() == 0 => { probe("op.box_refused"); None }
            Err(p) => { fail("panic", format!("making a box panicked: {}", sim::panic_text(&p))); None }
        };
    }
    let what = "making a box of uninitialized memory";
    match mode {
        3 | 4 => {
            let r = sim::sut_ok(what, || unsafe { let _solo = (mode == 4).then(sim::unarmed); if mode == 3 { (*bump).get::<V>().map(|a| LeakBox::from(a.uninit())) } else { (*mem).bump_box::<V>().ok() } })?;
            let Some(b) = r else { probe("op.box_refused"); return None };
            let addr = b.as_ptr() as usize;
            if size_of::<V>() > 0 { arena::dirt(addr, size_of::<V>(), 91); }
            Some(Owned { st: St::Uninit(b), ids: vec![], addr })
        }
        5 => {
            let at = slot::<MaybeUninit<V>>(1);
            let b = sim::sut_ok(what, || LeakBox::from(unsafe { &mut *at }))?;
            Some(Owned { st: St::Uninit(b), ids: vec![], addr: at as usize })
        }
        6 => {
            let r = sim::sut_ok(what, || { let _solo = sim::unarmed(); unsafe { (*mem).bump_array::<V>(n) }.ok() })?;
            let Some(b) = r else { probe("op.box_refused"); return None };
            let addr = b.as_ptr() as usize;
            if b.len() != n { fail("wrong-length", format!("array of {n} has {}", b.len())); return None; }
            if size_of::<V>() > 0 { arena::dirt(addr, size_of::<V>() * n, 92); }
            Some(Owned { st: St::UninitSlice(b), ids: vec![], addr })
        }
        7 => {
            let at = slot::<MaybeUninit<V>>(n);
            let b = sim::sut_ok(what, || LeakBox::from(unsafe { std::slice::from_raw_parts_mut(at, n) }))?;
            Some(Owned { st: St::UninitSlice(b), ids: vec![], addr: at as usize })
        }
        _ => {
            let at = slot::<V>(1);
            let (mut v, ids) = values::<V>(1);
            unsafe { at.write(v.pop().unwrap()); }
            let b = sim::sut_ok("from_mut_unchecked", || unsafe { LeakBox::from_mut_unchecked(&mut *at) })?;
            mark_pinned(&ids, at as usize, size_of::<V>());
            Some(Owned { st: St::One(b), ids, addr: at as usize })
        }
    }
}

/// A value without a destructor, as a box of a reference to it.
fn trivial(user: usize) {
    let n = draw(1 << 16) as u64 * 0x1_0001_0001;
    let at = slot::<u64>(1);
    unsafe { at.write(n); }
    let way = draw(3);
    let got = sim::sut_ok("from_mut", || {
        let mut b = LeakBox::from_mut(unsafe { &mut *at });
        let (seen, place) = (*b, &*b as *const u64);
        *b = !n;
        let got = match way { 0 => LeakBox::take(b), 1 => { let v = *b; drop(b); v } _ => *LeakBox::leak(b) };
        (seen, place, got)
    });
    let Some((seen, place, got)) = got else { return };
    crate::tr!("user {user}: a box of a trivial value");
    probe("op.trivial");
    if place != at as *const u64 || seen != n || got != !n || unsafe { *at } != !n { fail("wrong-value", format!("the box of the value {n} showed {seen} and {got} after changing it to {}", !n)); }
}
fn check_slice<V: Val>(s: &[V], ids: &[u32], addr: usize, what: &str) {
    if s.len() != ids.len() { fail("wrong-length", format!("{what} has {} values instead of {}", s.len(), ids.len())); return; }
    if s.as_ptr() as usize != addr && addr != 0 { fail("moved", format!("{what} is at another address than before")); return; }
    for (v, &id) in s.iter().zip(ids) { if v.read() != Some(id) { fail("wrong-value", format!("{what} does not have value {id} but {:?}", v.read())); return; } }
}
fn check_st<V: Val>(st: &St<V>, ids: &[u32], addr: usize) {
    let what = "the box";
    match st {
        St::One(b) => {
            check_slice(std::slice::from_ref(&**b), ids, addr, what);
            if b.as_ref() as *const V as usize != addr { fail("moved", "the box shows another address".to_string()); }
        }
        St::Pinned(b) => check_slice(std::slice::from_ref(&**b), ids, addr, what),
        St::Slice(b) => check_slice(&**b, ids, addr, what),
        St::Dyn(b) => { let d = &**b; if d.ident() != Some(ids[0]) { fail("wrong-value", format!("the boxed trait object does not hold value {}", ids[0])); } if d.addr() != addr { fail("moved", "the boxed trait object is at another address".to_string()); } }
        St::Raw(p) => check_slice(unsafe { std::slice::from_raw_parts(*p, 1) }, ids, addr, "the raw pointer"),
        St::RawSlice(p) => check_slice(unsafe { &**p }, ids, addr, "the raw pointer"),
        St::RawDyn(p) => { if *p as *mut u8 as usize != addr { fail("moved", "the raw pointer has another address".to_string()); } else if unsafe { (**p).ident() } != Some(ids[0]) { fail("wrong-value", format!("the raw pointer does not point to value {}", ids[0])); } }
        St::Uninit(b) => if b.as_ptr() as usize != addr { fail("moved", "the box of uninitialized memory is at another address".to_string()) },
        St::UninitSlice(b) => if b.as_ptr() as usize != addr { fail("moved", "the box of uninitialized memory is at another address".to_string()) },
        St::Ref(r) => check_slice(std::slice::from_ref(&**r), ids, addr, "the leaked reference"),
        St::RefSlice(r) => check_slice(&**r, ids, addr, "the leaked reference"),
        St::Value(v) => check_slice(std::slice::from_ref(&**v), ids, 0, "the value taken out"),
        St::Gone => {}
    }
}

impl<V: Val> Held for Owned<V> {
    fn ids(&self) -> &[u32] { &self.ids }
    fn check(&self) { let _q = track::quiet(); check_st(&self.st, &self.ids, self.addr); }
    fn finish(self: Box<Self>) {
        let Owned { st, ids, addr } = *self;
        match st {
            // Nobody drops these: they were leaked, and are still intact.
            St::Raw(p) => forgotten(ids, p as *mut V, 1, addr),
            St::RawSlice(p) => forgotten(ids, p as *mut V, p.len(), addr),
            St::RawDyn(p) => forgotten(ids, p as *mut V, 1, addr),
            St::Ref(p) => forgotten(ids, p, 1, addr),
            St::RefSlice(p) => forgotten(ids, p.as_mut_ptr(), p.len(), addr),
            other => dropping("dropping", sim::sut(|| drop(other))),
        }
    }
    fn step(self: Box<Self>, user: usize) -> Option<Box<dyn Held>> {
        let Owned { st, mut ids, addr } = *self;
        let size = size_of::<V>();
        probe("op.step");
        let st = match st {
            St::One(mut b) => match draw(12) {
                0 | 1 => { crate::tr!("user {user}: drop the box of {ids:?}"); dropping("dropping a box", sim::sut(move || drop(b))); return None; }
                2 => {
                    crate::tr!("user {user}: unwind out of the owner of the box of {ids:?}");
                    sim::fault("fault.owner_panics");
                    let r = sim::sut(move || { let _b = b; sim::inject(7) });
                    if r.is_ok() { fail("no-panic", "a panic vanished".to_string()); }
                    return None;
                }
                3 => {
                    crate::tr!("user {user}: take {ids:?} out of the box");
                    for &id in &ids { track::unpin(id); }
                    let v = sim::sut_ok("take", || LeakBox::take(b))?;
                    probe("op.taken");
                    St::Value(Box::new(v))
                }
                4 => { crate::tr!("user {user}: leak the box of {ids:?}"); probe("op.leaked"); St::Ref(sim::sut_ok("leak", || LeakBox::leak(b))?) }
                5 => { crate::tr!("user {user}: into_raw of {ids:?}"); St::Raw(sim::sut_ok("into_raw", || LeakBox::into_raw(b))?) }
                6 => { crate::tr!("user {user}: forget the box of {ids:?}"); let p = &mut *b as *mut V; std::mem::forget(b); St::Raw(p) }
                7 => { crate::tr!("user {user}: coerce the box of {ids:?} to a slice"); St::Slice(sim::sut_ok("coerce", || unsafe { let p = LeakBox::into_raw(b); LeakBox::from_raw(std::ptr::slice_from_raw_parts_mut(p, 1)) })?) }
                8 => { crate::tr!("user {user}: coerce the box of {ids:?} to a trait object"); St::Dyn(sim::sut_ok("coerce", || unsafe { let p: *mut V = LeakBox::into_raw(b); LeakBox::from_raw(p as *mut dyn AnyVal) })?) }
                9 => { crate::tr!("user {user}: pin the box of {ids:?}"); St::Pinned(sim::sut_ok("into_pin", || LeakBox::into_pin(b))?) }
                10 => {
                    let (mut v, new) = values::<V>(1);
                    crate::tr!("user {user}: assign {new:?} over {ids:?}");
                    mark_pinned(&new, addr, size);
                    let v = v.pop().unwrap();
                    let r = sim::sut(|| *b = v);
                    ids = new;
                    dropping("assigning", r);
                    St::One(b)
                }
                _ => {
                    // The value inside is forgotten: writing into uninitialized memory must not drop it.
                    crate::tr!("user {user}: treat the box of {ids:?} as one of uninitialized memory");
                    let p = sim::sut_ok("into_raw", || LeakBox::into_raw(b))? as *mut MaybeUninit<V>;
                    for &id in &ids { forgotten_value(id); }
                    ids.clear();
                    St::Uninit(sim::sut_ok("from_raw", || unsafe { LeakBox::from_raw(p) })?)
                }
            },
            St::Pinned(b) => match draw(3) {
                0 => { crate::tr!("user {user}: drop the pinned box of {ids:?}"); dropping("dropping a pinned box", sim::sut(move || drop(b))); return None; }
                1 => { crate::tr!("user {user}: unpin the box of {ids:?}"); St::One(sim::sut_ok("unpin", || unsafe { Pin::into_inner_unchecked(b) })?) }
                _ => { let v = Box::new(b); crate::tr!("user {user}: move the pinned box of {ids:?}"); St::Pinned(*v) }
            },
            St::Slice(mut b) => match draw(7) {
                0 | 1 => { crate::tr!("user {user}: drop the boxed slice {ids:?}"); dropping("dropping a boxed slice", sim::sut(move || drop(b))); return None; }
                2 => { crate::tr!("user {user}: unwind out of the owner of the slice {ids:?}"); sim::fault("fault.owner_panics"); let _ = sim::sut(move || { let _b = b; sim::inject(7) }); return None; }
                3 => { crate::tr!("user {user}: leak the slice {ids:?}"); probe("op.leaked"); St::RefSlice(sim::sut_ok("leak", || LeakBox::leak(b))?) }
                4 => { crate::tr!("user {user}: into_raw of the slice {ids:?}"); St::RawSlice(sim::sut_ok("into_raw", || LeakBox::into_raw(b))?) }
                5 if !ids.is_empty() => {
                    let (mut v, new) = values::<V>(1);
                    let i = draw(ids.len() as u32) as usize;
                    crate::tr!("user {user}: assign {new:?} over {} of {ids:?}", ids[i]);
                    mark_pinned(&new, addr + i * size, size);
                    let v = v.pop().unwrap();
                    let r = sim::sut(|| b[i] = v);
                    ids[i] = new[0];
                    dropping("assigning", r);
                    St::Slice(b)
                }
                _ => { if ids.len() > 1 { let n = ids.len(); sim::sut_ok("rotate", || b.as_mut().rotate_left(1)); ids.rotate_left(1); mark_pinned(&ids, addr, size); note(n as u64); } St::Slice(b) }
            },
            St::Dyn(b) => match draw(5) {
                0 | 1 => { crate::tr!("user {user}: drop the boxed trait object {ids:?}"); dropping("dropping a boxed trait object", sim::sut(move || drop(b))); return None; }
                2 => { crate::tr!("user {user}: unwind out of the owner of the trait object {ids:?}"); sim::fault("fault.owner_panics"); let _ = sim::sut(move || { let _b = b; sim::inject(7) }); return None; }
                3 => St::RawDyn(sim::sut_ok("into_raw", || LeakBox::into_raw(b))?),
                _ => St::One(sim::sut_ok("downcast", || unsafe { LeakBox::from_raw(LeakBox::into_raw(b) as *mut V) })?),
            },
            St::Raw(p) => if chance(2, 3) { crate::tr!("user {user}: from_raw of {ids:?}"); probe("op.from_raw"); St::One(sim::sut_ok("from_raw", || unsafe { LeakBox::from_raw(p) })?) } else { St::Raw(p) },
            St::RawSlice(p) => if chance(2, 3) { probe("op.from_raw"); St::Slice(sim::sut_ok("from_raw", || unsafe { LeakBox::from_raw(p) })?) } else { St::RawSlice(p) },
            St::RawDyn(p) => if chance(2, 3) { probe("op.from_raw"); St::Dyn(sim::sut_ok("from_raw", || unsafe { LeakBox::from_raw(p) })?) } else { St::RawDyn(p) },
            St::Uninit(b) => match draw(5) {
                0 => { crate::tr!("user {user}: drop a box of uninitialized memory"); dropping("dropping a box of uninitialized memory", sim::sut(move || drop(b))); return None; }
                1 => { let p = sim::sut_ok("leak", || LeakBox::leak(b))?; crate::tr!("user {user}: leak and box uninitialized memory again"); St::Uninit(sim::sut_ok("from", || LeakBox::from(p))?) }
                _ => {
                    let (mut v, new) = values::<V>(1);
                    crate::tr!("user {user}: write {new:?} to a box of uninitialized memory");
                    let v = v.pop().unwrap();
                    let (b, quiet) = if chance(2, 3) { sim::sut_ok("write", || { let _solo = sim::unarmed(); let before = track::drops(); let b = LeakBox::write(b, v); (b, track::drops() == before) })? } else { sim::sut_ok("assume_init", || { let _solo = sim::unarmed(); let before = track::drops(); let mut b = b; (*b).write(v); let b = unsafe { LeakBox::assume_init(b) }; (b, track::drops() == before) })? };
                    if !quiet { fail("dropped", "writing to a box of uninitialized memory dropped something".to_string()); }
                    ids = new;
                    mark_pinned(&ids, addr, size);
                    maybe_panicking(&ids);
                    probe("op.written");
                    St::One(b)
                }
            },
            St::UninitSlice(mut b) => match draw(4) {
                0 => { dropping("dropping a boxed slice of uninitialized memory", sim::sut(move || drop(b))); return None; }
                _ => {
                    let (v, new) = values::<V>(b.len());
                    crate::tr!("user {user}: write the slice {new:?}");
                    let b = sim::sut_ok("write", || { for (i, v) in v.into_iter().enumerate() { b[i].write(v); } unsafe { LeakBox::<[V]>::from_raw(LeakBox::into_raw(b) as *mut [V]) } })?;
                    ids = new;
                    mark_pinned(&ids, addr, size);
                    maybe_panicking(&ids);
                    probe("op.slice");
                    St::Slice(b)
                }
            },
            other => other,
        };
        Some(Box::new(Owned { st, ids, addr }))
    }
}
/// A value that will never be dropped by anybody.
fn forgotten_value(id: u32) { track::unpin(id); w().dead.push((id, Box::new(|| {}))); }
/// Intact and then dropped by the owner.
fn forgotten<V: Val>(ids: Vec<u32>, p: *mut V, n: usize, addr: usize) {
    let what = "memory that was leaked";
    check_slice(unsafe { std::slice::from_raw_parts(p, n) }, &ids, addr, what);
    if sim::failed() { return; }
    for &id in &ids { if track::counted(id) && !track::is_live(id) { fail("early-drop", format!("value {id} was leaked but dropped")); return; } }
    dropping("drop_in_place", sim::sut(|| unsafe { std::ptr::drop_in_place(std::ptr::slice_from_raw_parts_mut(p, n)) }));
    probe("check.leaked_value_intact");
}

/// Boxes of very many or very large values.
enum Lg<V: 'static> { One(LeakBox<'static, V>), Slice(LeakBox<'static, [V]>), Raw(*mut [V]), Ref(&'static mut [V]) }
fn large<V: Elem>() {
    many::reset();
    let size = size_of::<V>();
    let len = range(1000, 1 << 20);
    let raw = arena::place(len, 64, draw(64) as usize);
    arena::dirt(raw, len, 8);
    let mem: &'static MemBump = LeakBox::leak(MemBump::from_mem(unsafe { &mut *(std::ptr::slice_from_raw_parts_mut(raw as *mut MaybeUninit<u8>, len)) }).unwrap());
    let mut all: Vec<(Lg<V>, Vec<u32>, usize)> = vec![];
    let mut leaked: Vec<(*mut [V], Vec<u32>, usize)> = vec![];
    for _ in 0..range(2, 9) {
        sim::step();
        if all.is_empty() || chance(1, 3) {
            let n = if size > 4096 { range(0, 3) } else { many::count(len / size.max(1) + 2).min(150_000) };
            let from = many::take(n);
            let ids: Vec<u32> = (from..from + n as u32).collect();
            let other = chance(1, 3);
            let bytes = size * n;
            if !(n == 1 && chance(3, 4)) {
                crate::tr!("box {n} {}, {}", V::NAME, if other { "in memory of their own" } else { "in the allocator" });
                let r = sim::sut_ok("making a box", || {
                    let b: Option<LeakBox<'static, [MaybeUninit<V>]>> = if other {
                        if bytes > 300_000 { return None; }
                        let at = arena::place(bytes, align_of::<V>(), if chance(1, 2) { align_of::<V>() } else { 0 });
                        arena::dirt(at, bytes, 9);
                        Some(LeakBox::from(unsafe { std::slice::from_raw_parts_mut(at as *mut MaybeUninit<V>, n) }))
                    } else { mem.bump_array::<V>(n).ok() };
                    let mut b = b?;
                    if b.len() != n { fail("wrong-length", format!("array of {n} has {}", b.len())); return None; }
                    for (i, x) in b.iter_mut().enumerate() { x.write(V::make(from + i as u32)); }
                    Some(unsafe { LeakBox::<[V]>::from_raw(LeakBox::into_raw(b) as *mut [V]) })
                });
                match r { Some(Some(b)) => { let addr = b.as_ptr() as usize; probe("op.large_slice"); all.push((Lg::Slice(b), ids, addr)); } _ => probe("op.box_refused") }
            } else {
                crate::tr!("box one {}, {}", V::NAME, if other { "in memory of its own" } else { "in the allocator" });
                let r = sim::sut_ok("making a box", || {
                    let b: Option<LeakBox<'static, MaybeUninit<V>>> = if other {
                        if bytes > 300_000 { return None; }
                        let at = arena::place(bytes, align_of::<V>(), 0);
                        arena::dirt(at, bytes, 9);
                        Some(LeakBox::from(unsafe { &mut *(at as *mut MaybeUninit<V>) }))
                    } else { mem.bump_box::<V>().ok() };
                    b.map(|b| LeakBox::write(b, V::make(from)))
                });
                match r { Some(Some(b)) => { let addr = &*b as *const V as usize; probe("op.large_box"); all.push((Lg::One(b), ids, addr)); } _ => probe("op.box_refused") }
            }
        } else {
            let k = draw(all.len() as u32) as usize;
            let (b, ids, addr) = all.swap_remove(k);
            let n = ids.len();
            let b = match b {
                Lg::Slice(b) => match draw(5) {
                    0 => { crate::tr!("drop {n}"); if sim::sut_ok("drop", move || drop(b)).is_none() { break; } continue; }
                    1 => { crate::tr!("unwind out of the owner of {n}"); sim::fault("fault.owner_panics"); let _ = sim::sut(move || { let _b = b; sim::inject(7) }); continue; }
                    2 => match sim::sut_ok("leak", || LeakBox::leak(b)) { Some(r) => Lg::Ref(r), None => break },
                    3 => match sim::sut_ok("into_raw", || LeakBox::into_raw(b)) { Some(r) => Lg::Raw(r), None => break },
                    _ => Lg::Slice(b),
                },
                Lg::One(b) => match draw(4) {
                    0 => { if sim::sut_ok("drop", move || drop(b)).is_none() { break; } continue; }
                    1 => {
                        crate::tr!("take it out");
                        let Some(v) = sim::sut_ok("take", || Box::new(LeakBox::take(b))) else { break };
                        if !v.is(ids[0]) { fail("wrong-value", format!("{} was not taken intact", V::NAME)); std::mem::forget(v); break; }
                        probe("op.large_taken");
                        drop(v);
                        continue;
                    }
                    2 => match sim::sut_ok("coerce", || unsafe { let p = LeakBox::into_raw(b); LeakBox::<[V]>::from_raw(std::ptr::slice_from_raw_parts_mut(p, 1)) }) { Some(b) => Lg::Slice(b), None => break },
                    _ => Lg::One(b),
                },
                Lg::Raw(p) => match sim::sut_ok("from_raw", || unsafe { LeakBox::from_raw(p) }) { Some(b) => Lg::Slice(b), None => break },
                Lg::Ref(r) => { leaked.push((r, ids, addr)); continue; }
            };
            all.push((b, ids, addr));
        }
        for (b, ids, addr) in &all {
            let s: &[V] = match b { Lg::One(b) => std::slice::from_ref(&**b), Lg::Slice(b) => &**b, Lg::Raw(p) => unsafe { &**p }, Lg::Ref(r) => &**r };
            if s.as_ptr() as usize != *addr { fail("moved", "a large box is at another address than before".to_string()); }
            if sim::failed() || !many::same(s, ids, "a large box") { break; }
        }
        for (p, ids, addr) in &leaked { if *p as *mut V as usize != *addr || !many::same(unsafe { &**p }, ids, "large memory that was leaked") { break; } }
        if sim::failed() || !many::alive::<V>(all.iter().map(|x| &x.1[..]).chain(leaked.iter().map(|x| &x.1[..])), "large boxes") { break; }
        note(all.iter().map(|x| x.1.len() as u64).sum());
    }
    if sim::failed() { return std::mem::forget((all, leaked)); }
    sim::nontrivial();
    for (b, _, _) in all { match b { Lg::Raw(p) => unsafe { std::ptr::drop_in_place(p) }, Lg::Ref(r) => unsafe { std::ptr::drop_in_place(r) }, b => { if sim::sut_ok("drop", move || drop(b)).is_none() { return; } } } }
    for (p, _, _) in leaked { unsafe { std::ptr::drop_in_place(p) } }
    many::alive::<V>(std::iter::empty(), "when the large boxes are gone");
    arena::check("large boxes");
}
pub fn c07() {
    if draw(512) == 511 { return with_lump!(draw(8), V => large::<V>()); }
    let at = arena::place(size_of::<Shared>(), 64, 16 * draw(4) as usize);
    arena::dirt(at, size_of::<Shared>(), 5);
    unsafe { (at as *mut Shared).write(Bump::uninit()); }
    let len = range(64, 900);
    let raw = arena::place(len, 64, draw(64) as usize);
    arena::dirt(raw, len, 6);
    let mem = MemBump::from_mem(unsafe { &mut *(std::ptr::slice_from_raw_parts_mut(raw as *mut MaybeUninit<u8>, len)) }).unwrap();
    *W.get() = Some(World { bump: at as *const Shared, mem: LeakBox::into_raw(mem), pool: Vec::new(), dead: Vec::new(), slots: Vec::new() });
    let users = range(1, 3);
    let cfg = Config { p_stall: 0, kills: 0, ..Config::random() };
    let p_new = pick(&[4u32, 8, 2]);
    for u in 0..users {
        let ops = range(3, 14);
        sim::spawn(move || {
            for _ in 0..ops {
                if sim::failed() { return; }
                if chance(1, 32) { trivial(u); if sim::failed() { return; } }
                if w().pool.is_empty() || chance(p_new, 16) {
                    let sel = draw(11);
                    let made = with_any_val!(sel, V => create::<V>(u).map(|b| Box::new(b) as Box<dyn Held>));
                    if let Some(h) = made { w().pool.push(h); }
                } else {
                    let i = draw(w().pool.len() as u32) as usize;
                    let h = w().pool.swap_remove(i);
                    h.check();
                    if sim::failed() { std::mem::forget(h); return; }
                    if let Some(h) = h.step(u) { w().pool.push(h); }
                }
                if sim::failed() { return; }
                sim::maybe_yield();
            }
        });
    }
    sim::run_tasks(cfg);
    if sim::failed() { abandon(); return; }
    let mut want: Vec<u32> = w().dead.iter().map(|d| d.0).collect();
    for h in &w().pool { h.check(); want.extend_from_slice(h.ids()); }
    if sim::failed() { abandon(); return; }
    track::expect_owned(&want, "at the end");
    if sim::failed() { abandon(); return; }
    for h in std::mem::take(&mut w().pool) { if sim::failed() { std::mem::forget(h); continue; } h.finish(); }
    if sim::failed() { return; }
    let dead: Vec<u32> = w().dead.iter().map(|d| d.0).collect();
    track::expect_owned(&dead, "after dropping all boxes");
    arena::check("boxes");
}
/// After a violation nothing can be trusted to be dropped.
fn abandon() { for h in std::mem::take(&mut w().pool) { std::mem::forget(h); } }
