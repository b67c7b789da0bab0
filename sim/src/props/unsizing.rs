//! C24: coercions of pointers by the crate `unsize`.
//!
//! Histories of clones, coercions, downgrades, upgrades, round trips and drops of all supported
//! pointers, to values which know their identity and address, on a heap that checks each release.
//! Reference counted ones also by several simulated threads which interrupt each other.
use crate::arena;
use crate::heap;
use crate::sim::{self, chance, draw, fail, probe, range, Global};
use crate::track::{self, Val};
use crate::with_any_val;
use std::any::Any;
use std::fmt::{self, Debug, Display};
use std::future::Future;
use std::mem::{align_of, size_of};
use std::pin::Pin;
use std::ptr::{metadata, NonNull};
use std::rc::{Rc, Weak as WeakRc};
use std::sync::{Arc, Weak as WeakArc};
use std::task::{Context, Poll, Waker};
use unsize_repo::{CoerceUnsized, Coercion};

const N: usize = 3;
/// The value behind the pointers: it can be seen as anything.
#[repr(transparent)]
pub struct W<V: Val>(V);
impl<V: Val> W<V> { fn id(&self) -> u32 { let _q = track::quiet(); self.0.read().unwrap_or(u32::MAX - 1) } }
impl<V: Val> Debug for W<V> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.id()) } }
impl<V: Val> Display for W<V> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "0{}", self.id()) } }
impl<V: Val> Iterator for W<V> { type Item = u32; fn next(&mut self) -> Option<u32> { Some(self.id()) } }
impl<V: Val> Future for W<V> { type Output = u32; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> { Poll::Ready(self.id()) } }
pub trait Probe { fn ident(&self) -> u32; fn other(&self) -> u32 { 1 } }
impl<V: Val> Probe for W<V> { fn ident(&self) -> u32 { self.id() } }
pub trait Second: Probe + Debug { fn third(&self) -> u32 { 3 } }
impl<V: Val> Second for W<V> {}
macro_rules! callable { ($($A:ty),*) => {
    impl<V: Val> FnOnce<($($A,)*)> for W<V> { type Output = u32; extern "rust-call" fn call_once(self, _: ($($A,)*)) -> u32 { self.id() } }
    impl<V: Val> FnMut<($($A,)*)> for W<V> { extern "rust-call" fn call_mut(&mut self, _: ($($A,)*)) -> u32 { self.id() } }
    impl<V: Val> Fn<($($A,)*)> for W<V> { extern "rust-call" fn call(&self, _: ($($A,)*)) -> u32 { self.id() } }
} }
callable!(); callable!(u8); callable!(u8, u16); callable!(u8, u16, u32); callable!(u8, u16, u32, u64); callable!(u8, u16, u32, u64, i8); callable!(u8, u16, u32, u64, i8, i16);

// ---------------------------------------------------------------- model

/// `strong` is 1 for what is not counted. Kept apart from all memory: an object is known by its index.
struct Obj { ids: Vec<u32>, at: usize, size: usize, align: usize, strong: usize, weak: usize, counted: bool, dangling: bool }
struct Model { objs: Vec<Obj>, exact: bool }
static MODEL: Global<Model> = Global::new(Model { objs: vec![], exact: true });
fn model() -> &'static mut Model { MODEL.get() }
fn obj(i: usize) -> &'static mut Obj { &mut MODEL.get().objs[i] }

pub trait Held { fn check(&self, when: &str); fn step(self: Box<Self>, op: u32) -> Vec<Box<dyn Held>>; fn name(&self) -> &'static str; fn object(&self) -> usize; }
type Next = Vec<Box<dyn Held>>;

/// A pointer in our hands.
struct H<V: Val, P: Handle<V>> { p: P, obj: usize, v: std::marker::PhantomData<V> }
fn held<V: Val, P: Handle<V>>(p: P, obj: usize) -> Box<dyn Held> { let _q = track::quiet(); Box::new(H { p, obj, v: std::marker::PhantomData }) }
fn one<V: Val, P: Handle<V>>(p: P, obj: usize) -> Next { let _q = track::quiet(); vec![held(p, obj)] }
fn two<V: Val, P: Handle<V>, Q: Handle<V>>(p: P, q: Q, obj: usize) -> Next { let _q = track::quiet(); vec![held(p, obj), held(q, obj)] }

trait Handle<V: Val>: Sized + 'static {
    type U: Look<V> + ?Sized;
    const NAME: &'static str;
    fn raw(&self) -> *mut Self::U;
    /// Strong and weak counts it reports.
    fn counts(&self) -> Option<(usize, usize)> { None }
    fn is_weak(&self) -> bool { false }
    fn step(self, obj: usize, op: u32) -> Next;
}
impl<V: Val, P: Handle<V>> Held for H<V, P> {
    fn name(&self) -> &'static str { P::NAME }
    fn object(&self) -> usize { self.obj }
    fn check(&self, when: &str) {
        let _q = track::quiet();
        let o = obj(self.obj);
        let p = self.p.raw();
        if p as *mut u8 as usize != o.at { fail("moved", format!("{when}: a {} to {:?} points to {:#x} instead of {:#x}", P::NAME, o.ids, p as *mut u8 as usize, o.at)); return; }
        let (size, align) = P::U::extent(p);
        if (size, align) != (o.size, o.align) { fail("wrong-metadata", format!("{when}: a {} to {:?} says {size} bytes aligned to {align} instead of {} aligned to {}", P::NAME, o.ids, o.size, o.align)); return; }
        if let (Some(have), true) = (self.p.counts(), model().exact) {
            let want = if o.dangling { (0, 0) } else if self.p.is_weak() && o.strong == 0 { (0, 0) } else { (o.strong, o.weak) };
            if have != want { fail("wrong-counts", format!("{when}: a {} to {:?} counts {have:?} instead of {want:?}", P::NAME, o.ids)); return; }
        }
        if (self.p.is_weak() && (o.strong == 0 || !model().exact)) || o.dangling { return; }
        let ids = P::U::look(p);
        if ids.as_ref().is_some_and(|i| *i != o.ids) { fail("wrong-value", format!("{when}: a {} to {:?} leads to {ids:?}", P::NAME, o.ids)); }
    }
    fn step(self: Box<Self>, op: u32) -> Next {
        let H { p, obj, .. } = { let _q = track::quiet(); *self };
        p.step(obj, op)
    }
}
/// A destructor of ours may panic.
fn released<P>(p: P, o: usize, strong: bool) -> Next {
    let last = { let x = obj(o); if strong { x.strong -= 1; x.strong == 0 } else if !x.dangling { x.weak -= 1; false } else { false } };
    let from = track::drops();
    if let Err(e) = sim::sut(move || drop(p)) { if !sim::is_injected(&e) { fail("panic", format!("dropping a pointer panicked: {}", sim::panic_text(&e))); } probe("op.drop_unwound"); }
    let want = if last { obj(o).ids.iter().filter(|i| track::counted(**i)).count() } else { 0 };
    if model().exact && track::drops() != from + want { fail("wrong-drop", format!("dropping a pointer dropped {} values instead of {want}", track::drops() - from)); }
    vec![]
}
/// Coercions do not need memory.
fn coerced<P>(name: &'static str, o: usize, t: u32, f: impl FnOnce() -> P) -> Option<P> {
    crate::tr!("coerce a {name} to {:?}, target {t}", obj(o).ids);
    let n = heap::state().requests;
    let r = sim::sut_ok("coerce", || if model().exact { heap::tracked(f) } else { f() })?;
    if heap::state().requests != n && model().exact { fail("allocates", "a coercion asked for memory".to_string()); }
    probe("op.coerced");
    Some(r)
}

// ---------------------------------------------------------------- what pointers lead to

macro_rules! kinds { ($m:ident) => { $m! { 
    (to_box, PBox, "Box"), (to_pin_box, PPinBox, "Pin<Box>"), (to_rc, PRc, "Rc"), (to_weak_rc, PWeakRc, "rc::Weak"), (to_arc, PArc, "Arc"), (to_weak_arc, PWeakArc, "sync::Weak"),
    (to_ref, PRef, "&"), (to_mut, PMut, "&mut"), (to_const, PConst, "*const"), (to_raw, PRaw, "*mut"), (to_nonnull, PNonNull, "NonNull"), (to_pin_mut, PPinMut, "Pin<&mut>")
} } }
type PBox<U> = Box<U>;
type PPinBox<U> = Pin<Box<U>>;
type PRc<U> = Rc<U>;
type PWeakRc<U> = WeakRc<U>;
type PArc<U> = Arc<U>;
type PWeakArc<U> = WeakArc<U>;
type PRef<U> = &'static U;
type PMut<U> = &'static mut U;
type PConst<U> = *const U;
type PRaw<U> = *mut U;
type PNonNull<U> = NonNull<U>;
type PPinMut<U> = Pin<&'static mut U>;

macro_rules! trait_of_targets { ($(($f:ident, $P:ident, $name:literal)),*) => {
    trait Look<V: Val>: 'static {
        /// The identities of the values it leads to, if it can tell.
        fn look(p: *mut Self) -> Option<Vec<u32>>;
        /// Size and alignment by the metadata alone.
        fn extent(p: *mut Self) -> (usize, usize);
        $(fn $f(p: $P<Self>, o: usize, _t: u32) -> Next { one::<V, $P<Self>>(p, o) })*
        fn back_box(p: Box<Self>, o: usize) -> Next { one::<V, Box<Self>>(p, o) }
        fn back_rc(p: Rc<Self>, o: usize) -> Next { one::<V, Rc<Self>>(p, o) }
    }
    impl<V: Val> Look<V> for W<V> {
        fn look(p: *mut Self) -> Option<Vec<u32>> { Some(vec![unsafe { &*p }.id()]) }
        fn extent(_: *mut Self) -> (usize, usize) { (size_of::<V>(), align_of::<V>()) }
        $(fn $f(p: $P<Self>, o: usize, t: u32) -> Next {
            macro_rules! to { ($U:ty, $c:expr) => { match coerced($name, o, t, || -> $P<$U> { p.unsize($c) }) { Some(p) => one::<V, $P<$U>>(p, o), None => vec![] } } }
            match t {
                0 => to!(dyn Any, { let c = Coercion::to_any(); let _ = c.clone(); c }),
                1 => to!(dyn Debug, Coercion::to_debug()),
                2 => to!(dyn Display, Coercion::to_display()),
                3 => to!(dyn Iterator<Item = u32>, Coercion::to_iterator()),
                4 => to!(dyn Future<Output = u32>, Coercion::to_future()),
                5 => to!(dyn Probe, unsize_repo::Coercion!(to dyn Probe)),
                6 => to!(dyn Second, { let n = o; unsafe { Coercion::new(move |p: *const W<V>| -> *const dyn Second { std::hint::black_box(n); p as *const dyn Second }) } }),
                7 => to!(dyn Fn() -> u32, Coercion::<W<V>, dyn Fn() -> u32>::to_fn()),
                8 => to!(dyn FnMut(u8) -> u32, Coercion::<W<V>, dyn FnMut(u8) -> u32>::to_fn_mut()),
                9 => to!(dyn FnOnce(u8, u16) -> u32, Coercion::<W<V>, dyn FnOnce(u8, u16) -> u32>::to_fn_once()),
                10 => to!(dyn FnMut(u8, u16, u32) -> u32, Coercion::<W<V>, dyn FnMut(u8, u16, u32) -> u32>::to_fn_mut()),
                11 => to!(dyn Fn(u8, u16, u32, u64) -> u32, Coercion::<W<V>, dyn Fn(u8, u16, u32, u64) -> u32>::to_fn()),
                12 => to!(dyn FnOnce(u8, u16, u32, u64, i8) -> u32, Coercion::<W<V>, dyn FnOnce(u8, u16, u32, u64, i8) -> u32>::to_fn_once()),
                _ => to!(dyn Fn(u8, u16, u32, u64, i8, i16) -> u32, Coercion::<W<V>, dyn Fn(u8, u16, u32, u64, i8, i16) -> u32>::to_fn()),
            }
        })*
    }
    impl<V: Val> Look<V> for [W<V>; N] {
        fn look(p: *mut Self) -> Option<Vec<u32>> { Some(unsafe { &*p }.iter().map(|x| x.id()).collect()) }
        fn extent(_: *mut Self) -> (usize, usize) { (size_of::<V>() * N, align_of::<V>()) }
        $(fn $f(p: $P<Self>, o: usize, t: u32) -> Next { match coerced($name, o, t, || -> $P<[W<V>]> { p.unsize(Coercion::to_slice()) }) { Some(p) => one::<V, $P<[W<V>]>>(p, o), None => vec![] } })*
    }
} }
kinds!(trait_of_targets);
pub const TARGETS: u32 = 14;

impl<V: Val> Look<V> for [W<V>] {
    fn look(p: *mut Self) -> Option<Vec<u32>> { Some(unsafe { &*p }.iter().map(|x| x.id()).collect()) }
    fn extent(p: *mut Self) -> (usize, usize) { (metadata(p) * size_of::<V>(), align_of::<V>()) }
}
fn extent_of<D: ?Sized>(m: std::ptr::DynMetadata<D>) -> (usize, usize) { (m.size_of(), m.align_of()) }
macro_rules! looks { ($D:ty, |$p:ident| $e:expr $(, $more:item)*) => {
    impl<V: Val> Look<V> for $D {
        fn look($p: *mut Self) -> Option<Vec<u32>> { $e }
        fn extent(p: *mut Self) -> (usize, usize) { extent_of(metadata(p)) }
        $($more)*
    }
} }
looks!(dyn Any, |p| Some(vec![unsafe { &*p }.downcast_ref::<W<V>>().map_or(u32::MAX - 2, |w| w.id())]),
    fn back_box(p: Box<dyn Any>, o: usize) -> Next { match sim::sut(|| p.downcast::<W<V>>()) { Ok(Ok(p)) => one::<V, Box<W<V>>>(p, o), _ => { fail("wrong-type", "a box is not of its type any more".to_string()); vec![] } } },
    fn back_rc(p: Rc<dyn Any>, o: usize) -> Next { match sim::sut(|| p.downcast::<W<V>>()) { Ok(Ok(p)) => one::<V, Rc<W<V>>>(p, o), _ => { fail("wrong-type", "an rc is not of its type any more".to_string()); vec![] } } });
looks!(dyn Debug, |p| format!("{:?}", unsafe { &*p }).parse().ok().map(|i| vec![i]));
looks!(dyn Display, |p| { let s = unsafe { &*p }.to_string(); Some(vec![if s.starts_with('0') { s[1..].parse().unwrap_or(1 << 30) } else { 1 << 30 }]) });
looks!(dyn Iterator<Item = u32>, |p| Some(vec![unsafe { &mut *p }.next().unwrap_or(1 << 30)]));
looks!(dyn Future<Output = u32>, |p| match unsafe { Pin::new_unchecked(&mut *p) }.poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(i) => Some(vec![i]), Poll::Pending => Some(vec![1 << 30]) });
looks!(dyn Probe, |p| Some(vec![unsafe { &*p }.ident()]));
looks!(dyn Second, |p| Some(vec![unsafe { &*p }.ident()]));
looks!(dyn Fn() -> u32, |p| Some(vec![unsafe { &*p }()]));
looks!(dyn FnMut(u8) -> u32, |p| Some(vec![unsafe { &mut *p }(1)]));
looks!(dyn FnOnce(u8, u16) -> u32, |_p| None);
looks!(dyn FnMut(u8, u16, u32) -> u32, |p| Some(vec![unsafe { &mut *p }(1, 2, 3)]));
looks!(dyn Fn(u8, u16, u32, u64) -> u32, |p| Some(vec![unsafe { &*p }(1, 2, 3, 4)]));
looks!(dyn FnOnce(u8, u16, u32, u64, i8) -> u32, |_p| None);
looks!(dyn Fn(u8, u16, u32, u64, i8, i16) -> u32, |p| Some(vec![unsafe { &*p }(1, 2, 3, 4, 5, 6)]));

// ---------------------------------------------------------------- what can be done with pointers

fn target() -> u32 { draw(TARGETS) }
fn same<P>(what: &str, r: Result<P, sim::Payload>) -> Option<P> { match r { Ok(p) => Some(p), Err(e) => { fail("panic", format!("{what} panicked: {}", sim::panic_text(&e))); None } } }
/// Sometimes the pointer goes over a raw one in between.
macro_rules! by_raw { ($T:ident, $p:expr) => { sim::sut(|| unsafe { $T::from_raw($T::into_raw($p)) }) } }
impl<V: Val, U: Look<V> + ?Sized> Handle<V> for Box<U> {
    type U = U;
    const NAME: &'static str = "Box";
    fn raw(&self) -> *mut U { &**self as *const U as *mut U }
    fn step(self, o: usize, op: u32) -> Next {
        match op % 8 {
            0..=3 => U::to_box(self, o, target()),
            4 => released(self, o, true),
            5 => U::back_box(self, o),
            6 => same("raw", by_raw!(Box, self)).map_or(vec![], |p| one::<V, Box<U>>(p, o)),
            _ => one::<V, Pin<Box<U>>>(Box::into_pin(self), o),
        }
    }
}
impl<V: Val, U: Look<V> + ?Sized> Handle<V> for Pin<Box<U>> {
    type U = U;
    const NAME: &'static str = "Pin<Box>";
    fn raw(&self) -> *mut U { &**self as *const U as *mut U }
    fn step(self, o: usize, op: u32) -> Next {
        match op % 4 { 0..=1 => U::to_pin_box(self, o, target()), 2 => released(self, o, true), _ => one::<V, Box<U>>(unsafe { Pin::into_inner_unchecked(self) }, o) }
    }
}
macro_rules! counted { ($Rc:ident, $Weak:ident, $rc:literal, $weak:literal, $to:ident, $to_weak:ident, $back:expr) => {
    impl<V: Val, U: Look<V> + ?Sized> Handle<V> for $Rc<U> {
        type U = U;
        const NAME: &'static str = $rc;
        fn raw(&self) -> *mut U { $Rc::as_ptr(self) as *mut U }
        fn counts(&self) -> Option<(usize, usize)> { Some(($Rc::strong_count(self), $Rc::weak_count(self))) }
        fn step(self, o: usize, op: u32) -> Next {
            match op % 8 {
                0 | 1 => U::$to(self, o, target()),
                2 => { let Some(c) = same("clone", sim::sut(|| self.clone())) else { return vec![] }; obj(o).strong += 1; two::<V, $Rc<U>, $Rc<U>>(self, c, o) }
                3 => { let Some(w) = same("downgrade", sim::sut(|| $Rc::downgrade(&self))) else { return vec![] }; obj(o).weak += 1; two::<V, $Rc<U>, $Weak<U>>(self, w, o) }
                4 | 5 => released(self, o, true),
                6 => same("raw", by_raw!($Rc, self)).map_or(vec![], |p| one::<V, $Rc<U>>(p, o)),
                _ => $back(self, o),
            }
        }
    }
    impl<V: Val, U: Look<V> + ?Sized> Handle<V> for $Weak<U> {
        type U = U;
        const NAME: &'static str = $weak;
        fn raw(&self) -> *mut U { $Weak::as_ptr(self) as *mut U }
        fn counts(&self) -> Option<(usize, usize)> { Some((self.strong_count(), self.weak_count())) }
        fn is_weak(&self) -> bool { true }
        fn step(self, o: usize, op: u32) -> Next {
            match op % 8 {
                0..=2 => U::$to_weak(self, o, target()),
                3 => { let Some(c) = same("clone", sim::sut(|| self.clone())) else { return vec![] }; if !obj(o).dangling { obj(o).weak += 1; } two::<V, $Weak<U>, $Weak<U>>(self, c, o) }
                4 | 5 => {
                    let before = obj(o).strong;
                    let Some(s) = same("upgrade", sim::sut(|| self.upgrade())) else { return vec![] };
                    if model().exact && s.is_some() != (before > 0) { fail("wrong-upgrade", format!("upgrading a weak one of {:?} gave {} with {before} strong ones", obj(o).ids, s.is_some())); }
                    match s { Some(s) => { obj(o).strong += 1; probe("op.upgraded"); two::<V, $Weak<U>, $Rc<U>>(self, s, o) } None => { probe("op.upgrade_refused"); one::<V, $Weak<U>>(self, o) } }
                }
                6 => released(self, o, false),
                _ => one::<V, $Weak<U>>(self, o),
            }
        }
    }
} }
counted!(Rc, WeakRc, "Rc", "rc::Weak", to_rc, to_weak_rc, U::back_rc);
counted!(Arc, WeakArc, "Arc", "sync::Weak", to_arc, to_weak_arc, one::<V, Arc<U>>);
macro_rules! borrowed { ($P:ident, $to:ident, $name:literal, |$s:ident| $raw:expr) => {
    impl<V: Val, U: Look<V> + ?Sized> Handle<V> for $P<U> {
        type U = U;
        const NAME: &'static str = $name;
        fn raw(&self) -> *mut U { let $s = self; $raw }
        fn step(self, o: usize, _op: u32) -> Next { U::$to(self, o, target()) }
    }
} }
borrowed!(PRef, to_ref, "&", |s| *s as *const U as *mut U);
borrowed!(PMut, to_mut, "&mut", |s| &**s as *const U as *mut U);
borrowed!(PConst, to_const, "*const", |s| *s as *mut U);
borrowed!(PRaw, to_raw, "*mut", |s| *s);
borrowed!(PNonNull, to_nonnull, "NonNull", |s| s.as_ptr());
borrowed!(PPinMut, to_pin_mut, "Pin<&mut>", |s| &**s as *const U as *mut U);

// ---------------------------------------------------------------- workload

/// Values that nobody of the pointers owns.
struct Owner { drop: Box<dyn FnOnce()>, obj: usize }
fn value<V: Val>() -> (W<V>, u32) { let v = V::make(); let id = v.read().unwrap(); (W(v), id) }
fn values<V: Val>() -> ([W<V>; N], Vec<u32>) { let v: Vec<(W<V>, u32)> = (0..N).map(|_| value()).collect(); let ids = v.iter().map(|x| x.1).collect(); let Ok(a) = v.into_iter().map(|x| x.0).collect::<Vec<_>>().try_into() else { unreachable!() }; (a, ids) }
fn push(ids: Vec<u32>, at: usize, size: usize, align: usize, counted: bool) -> usize {
    if size > 0 { for (i, id) in ids.iter().enumerate() { track::pin_at(*id, at + i * size / ids.len()); } }
    model().objs.push(Obj { ids, at, size, align, strong: 1, weak: 0, counted, dangling: false });
    model().objs.len() - 1
}
fn dangling(at: usize, size: usize, align: usize) -> usize { model().objs.push(Obj { ids: vec![], at, size, align, strong: 0, weak: 0, counted: true, dangling: true }); model().objs.len() - 1 }

fn create<V: Val, T: Look<V>>(value: T, ids: Vec<u32>, counted: bool, owners: &mut Vec<Owner>) -> Next {
    let (size, align) = (size_of::<T>(), align_of::<T>());
    let kind = if counted { draw(4) } else { draw(12) };
    crate::tr!("new {kind} of {ids:?}");
    macro_rules! owned { ($P:ty, $e:expr, $counted:literal) => {{ let p: $P = heap::tracked(|| $e); let at = Handle::<V>::raw(&p) as *mut u8 as usize; let o = push(ids, at, size, align, $counted); one::<V, $P>(p, o) }} }
    match kind {
        0 => owned!(Rc<T>, Rc::new(value), true),
        1 => owned!(Arc<T>, Arc::new(value), true),
        2 => { let w = WeakRc::<T>::new(); let o = dangling(WeakRc::as_ptr(&w) as usize, size, align); let _ = sim::sut(|| drop(value)); one::<V, WeakRc<T>>(w, o) }
        3 => { let w = WeakArc::<T>::new(); let o = dangling(WeakArc::as_ptr(&w) as usize, size, align); let _ = sim::sut(|| drop(value)); one::<V, WeakArc<T>>(w, o) }
        4 | 5 => owned!(Box<T>, Box::new(value), false),
        6 => owned!(Pin<Box<T>>, Box::pin(value), false),
        _ => {
            let at = arena::place(size, align, if chance(1, 2) { align } else { 0 }) as *mut T;
            unsafe { at.write(value); }
            let o = push(ids, at as usize, size, align, false);
            owners.push(Owner { drop: Box::new(move || unsafe { at.drop_in_place() }), obj: o });
            unsafe { match kind {
                7 => two::<V, &'static T, &'static T>(&*at, &*at, o),
                8 => one::<V, &'static mut T>(&mut *at, o),
                9 => one::<V, Pin<&'static mut T>>(Pin::new_unchecked(&mut *at), o),
                10 => one::<V, NonNull<T>>(NonNull::new_unchecked(at), o),
                _ => if chance(1, 2) { one::<V, *const T>(at, o) } else { one::<V, *mut T>(at, o) },
            } }
        }
    }
}
fn new<V: Val>(counted: bool, faults: bool, owners: &mut Vec<Owner>) -> Next {
    if chance(1, 3) { let (a, ids) = values::<V>(); if faults && chance(1, 6) { track::set_panics(ids[0], true); } create::<V, _>(a, ids, counted, owners) }
    else { let (w, id) = value::<V>(); if faults && chance(1, 4) { track::set_panics(id, true); } create::<V, _>(w, vec![id], counted, owners) }
}
/// Pointers which lead nowhere: only their address and metadata are there to see.
fn nowhere<V: Val>() {
    let at = match draw(4) { 0 => 0, 1 => usize::MAX, 2 => range(1, 4096), _ => arena::place(8, 1, 0) };
    let p = at as *mut W<V>;
    let q = at as *mut [W<V>; N];
    let way = draw(4);
    let r = sim::sut_ok("coerce", || match way {
        0 => { let u: *mut dyn Any = p.unsize(Coercion::to_any()); (u as *mut u8 as usize, extent_of(metadata(u))) }
        1 => { let u: *const dyn Probe = (p as *const W<V>).unsize(unsize_repo::Coercion!(to dyn Probe)); (u as *mut u8 as usize, extent_of(metadata(u))) }
        2 => { let u: *mut [W<V>] = q.unsize(Coercion::to_slice()); (u as *mut u8 as usize, (metadata(u) * size_of::<V>(), align_of::<V>())) }
        _ => { let Some(n) = NonNull::new(p) else { return (at, (size_of::<V>(), align_of::<V>())) }; let u: NonNull<dyn Debug> = n.unsize(Coercion::to_debug()); (u.as_ptr() as *mut u8 as usize, extent_of(metadata(u.as_ptr()))) }
    });
    let want = (at, (size_of::<V>() * if way == 2 { N } else { 1 }, align_of::<V>()));
    if let Some(r) = r { if r != want { fail("moved", format!("coercing a pointer to nowhere gave {r:?} instead of {want:?}")); } }
    probe("op.nowhere");
}
/// Memory and boxes of `without_alloc`, which are coerced by the published version of the crate.
fn provided<V: Val>(faults: bool) -> Option<()> {
    use unsize::{CoerceUnsize as _, Coercion};
    use without_alloc::{Box as MyBox, Uninit};
    let extent = size_of::<V>() * N + if chance(1, 2) { range(0, 40) } else { 0 };
    let at = arena::place(extent, align_of::<V>(), if chance(1, 2) { align_of::<V>() } else { 0 });
    arena::dirt(at, extent, 24);
    let mem: Uninit<'static, ()> = unsafe { Uninit::from_memory(NonNull::new_unchecked(at as *mut u8), extent) };
    let many = chance(1, 3);
    let seen = |what: &str, to: usize, size: usize, ext: (usize, usize)| {
        let want = (size_of::<V>() * if many { N } else { 1 }, align_of::<V>());
        if to != at || size != extent { fail("moved", format!("a coerced {what} is {size} bytes at {to:#x} instead of {extent} at {at:#x}")); }
        else if ext != want { fail("wrong-metadata", format!("a coerced {what} says {ext:?} instead of {want:?}")); }
    };
    macro_rules! meta { ($what:literal, $r:expr, $T:ty) => {{ let r = sim::sut_ok("coerce", || $r)?; seen($what, r.as_ptr() as *mut u8 as usize, r.size(), <$T as Look<V>>::extent(r.as_ptr() as *mut $T)); r }} }
    macro_rules! target { ($u:expr, $what:literal, $sized:ty) => { match draw(4) {
        0 => { meta!($what, $u.unsize(Coercion::<$sized, _>::to_any()), dyn Any); }
        1 => { meta!($what, $u.unsize(Coercion::<$sized, _>::to_debug()), dyn Debug); }
        2 => { meta!($what, $u.unsize(Coercion::<$sized, _>::to_iterator()), dyn Iterator<Item = u32>); }
        _ => { meta!($what, $u.unsize(unsafe { Coercion::new(|p: *const $sized| -> *const dyn Probe { p }) }), dyn Probe); }
    } } }
    if chance(1, 3) {
        probe("op.provided_memory");
        match (many, chance(1, 2)) {
            (true, true) => { let u = mem.cast::<[W<V>; N]>().ok()?; meta!("view", u.borrow().unsize(Coercion::to_slice()), [W<V>]); }
            (true, false) => { let u = mem.cast::<[W<V>; N]>().ok()?; meta!("memory", u.unsize(Coercion::to_slice()), [W<V>]); }
            (false, true) => { let u = mem.cast::<W<V>>().ok()?; let v = u.borrow(); target!(v, "view", W<V>) }
            (false, false) => { let u = mem.cast::<W<V>>().ok()?; target!(u, "memory", W<V>) }
        }
        return Some(());
    }
    probe("op.provided_box");
    let from = track::drops();
    macro_rules! boxed { ($b:expr, $c:expr, $T:ty, $ids:expr) => {{
        let b: MyBox<'static, $T> = sim::sut_ok("coerce", || $b.unsize($c))?;
        if let Some(have) = <$T as Look<V>>::look(&*b as *const $T as *mut $T) { if have != $ids { fail("wrong-value", format!("a coerced box leads to {have:?} instead of {:?}", $ids)); } }
        if track::drops() != from { fail("wrong-drop", "a coercion dropped a value".to_string()); }
        let u = sim::sut_ok("into_raw", || MyBox::into_raw(b))?;
        seen("box", u.as_ptr() as *mut u8 as usize, u.size(), <$T as Look<V>>::extent(u.as_ptr()));
        let b = sim::sut_ok("from_raw", || unsafe { MyBox::from_raw(u) })?;
        if let Err(e) = sim::sut(|| drop(b)) { if !sim::is_injected(&e) { fail("panic", "dropping a box panicked".to_string()); } }
        let n = $ids.iter().filter(|i| track::counted(**i)).count();
        if track::drops() != from + n { fail("wrong-drop", format!("dropping a coerced box dropped {} values instead of {n}", track::drops() - from)); }
    }} }
    if many {
        let (a, ids) = values::<V>();
        if faults && chance(1, 4) { track::set_panics(ids[N - 1], true); }
        let b = sim::sut_ok("new", || MyBox::new(a, mem.cast::<[W<V>; N]>().unwrap()))?;
        boxed!(b, Coercion::to_slice(), [W<V>], ids);
    } else {
        let (w, id) = value::<V>();
        if faults && chance(1, 4) { track::set_panics(id, true); }
        let ids = vec![id];
        let b = sim::sut_ok("new", || MyBox::new(w, mem.cast::<W<V>>().unwrap()))?;
        match draw(5) {
            0 => boxed!(b, Coercion::to_any(), dyn Any, ids),
            1 => boxed!(b, Coercion::to_display(), dyn Display, ids),
            2 => boxed!(b, Coercion::to_future(), dyn Future<Output = u32>, ids),
            3 => boxed!(b, Coercion::<W<V>, dyn FnMut(u8) -> u32>::to_fn_mut(), dyn FnMut(u8) -> u32, ids),
            _ => boxed!(b, unsafe { Coercion::new(|p: *const W<V>| -> *const dyn Second { p }) }, dyn Second, ids),
        }
    }
    Some(())
}
fn step(hands: &mut Vec<Box<dyn Held>>) {
    let i = draw(hands.len() as u32) as usize;
    let h = hands.swap_remove(i);
    let op = draw(8);
    let name = h.name();
    crate::tr!("{}step {op} of a {name} to {:?}", if sim::in_task() { format!("thread {}: ", sim::current()) } else { String::new() }, obj(h.object()).ids);
    let next = h.step(op);
    for n in &next { if sim::failed() { break; } n.check(if op < 2 { "after coercing" } else { "after a step" }); }
    hands.extend(next);
}
/// What the pointers own is alive.
fn settle(what: &str, lost: &[u32]) {
    let _q = track::quiet();
    let mut ids: Vec<u32> = lost.to_vec();
    for o in model().objs.iter().filter(|o| o.strong > 0) { ids.extend(&o.ids); }
    track::expect_owned(&ids, what);
}

fn alone<V: Val>() {
    let faults = chance(1, 3);
    let mut hands: Vec<Box<dyn Held>> = vec![];
    let mut owners: Vec<Owner> = vec![];
    for _ in 0..range(4, 50) {
        sim::step();
        if hands.is_empty() || (hands.len() < 8 && chance(1, 4)) { let n = if chance(1, 16) { nowhere::<V>(); continue } else if chance(1, 8) { provided::<V>(faults); if sim::failed() { return std::mem::forget((hands, owners)); } continue } else { new::<V>(false, faults, &mut owners) }; for h in &n { h.check("when new"); } hands.extend(n); }
        else { step(&mut hands); }
        for h in &hands { if sim::failed() { break; } h.check("later"); }
        if sim::failed() { return std::mem::forget((hands, owners)); }
        settle("values", &[]);
        arena::check("coercions");
        if sim::failed() { return std::mem::forget((hands, owners)); }
        if hands.len() > 3 { sim::nontrivial(); }
    }
    finish(hands, owners);
}
fn finish(mut hands: Vec<Box<dyn Held>>, owners: Vec<Owner>) {
    while let Some(h) = hands.pop() {
        if sim::failed() { return std::mem::forget((h, hands, owners)); }
        h.check("at the end");
        let op = match h.name() { "rc::Weak" | "sync::Weak" => 6, "Pin<Box>" => 2, "Box" | "Rc" | "Arc" => 4, _ => continue };
        let end = h.step(op);
        if !end.is_empty() { fail("unexpected", "a pointer is left over".to_string()); }
    }
    for o in owners { obj(o.obj).strong -= 1; let d = o.drop; if let Err(e) = sim::sut(d) { if !sim::is_injected(&e) { fail("panic", "a destructor panicked".to_string()); } } }
    if sim::failed() { return; }
    settle("values at the end", &[]);
    let left = heap::live_blocks().len();
    if left > 0 && track::reg().panics_fired == 0 { fail("leak", format!("{left} blocks of the heap were not released")); }
}

/// Reference counts shared by threads.
fn threads<V: Val>() {
    model().exact = false;
    let faults = chance(1, 4);
    let n = range(2, 3);
    let left: std::rc::Rc<std::cell::RefCell<Vec<Box<dyn Held>>>> = Default::default();
    let mut lists: Vec<Vec<Box<dyn Held>>> = (0..n).map(|_| vec![]).collect();
    for _ in 0..range(1, 2) {
        let (w, id) = value::<V>();
        if faults && chance(1, 4) { track::set_panics(id, true); }
        let p: Arc<W<V>> = heap::tracked(|| Arc::new(w));
        let o = push(vec![id], Arc::as_ptr(&p) as usize, size_of::<V>(), align_of::<V>(), true);
        for l in lists.iter_mut() {
            for _ in 0..range(0, 2) { if chance(1, 3) { obj(o).weak += 1; l.push(held::<V, WeakArc<W<V>>>(Arc::downgrade(&p), o)); } else { obj(o).strong += 1; l.push(held::<V, Arc<W<V>>>(p.clone(), o)); } }
        }
        obj(o).strong -= 1;
        if let Err(e) = sim::sut(|| drop(p)) { if !sim::is_injected(&e) { fail("panic", "a destructor panicked".to_string()); } }
    }
    for mut hands in lists {
        let left = left.clone();
        let steps = range(2, 8);
        sim::spawn(move || {
            for _ in 0..steps {
                sim::maybe_yield();
                if hands.is_empty() || sim::failed() { break; }
                step(&mut hands);
                for h in &hands { if sim::failed() { break; } h.check("later"); }
            }
            left.borrow_mut().extend(std::mem::take(&mut hands));
        });
    }
    let mut c = sim::Config::random();
    c.kills = 0;
    sim::run_tasks(c);
    let hands = std::mem::take(&mut *left.borrow_mut());
    if sim::failed() { return std::mem::forget(hands); }
    // Everyone stopped: now the counts are exact.
    model().exact = true;
    for o in model().objs.iter_mut().filter(|o| o.counted) { o.strong = 0; o.weak = 0; }
    for h in &hands { let o = obj(h.object()); if h.name() == "sync::Weak" { o.weak += 1 } else { o.strong += 1 } }
    settle("values after the threads", &[]);
    finish(hands, vec![]);
}

pub fn c24() {
    *model() = Model { objs: vec![], exact: true };
    let sel = draw(11);
    if chance(1, 3) { with_any_val!(sel, V => threads::<V>()) } else { with_any_val!(sel, V => alone::<V>()) }
    track::reg();
}
