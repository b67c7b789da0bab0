//! C25: comparing, hashing, formatting, indexing and borrowing containers.
//!
//! Every operation runs twice, on the container and on a plain model of its contents. The elements
//! can panic or report errors in their own comparison, hash and format code, writers and hashers
//! refuse at some byte.
use crate::arena;
use crate::sim::{self, chance, draw, fail, pick, probe, range, Global};
use crate::track::{self, Val, ZST_ID};
use crate::{many, with_val};
use static_alloc::leaked::LeakBox;
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::mem::{align_of, size_of};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr::NonNull;
use unsize_repo::{CoerceUnsize, Coercion};
use without_alloc::{rc::Rc, Box as MyBox, FixedVec, Uninit};

struct State { compare: Vec<u32>, hash: Vec<u32>, show: Vec<u32>, err: Vec<u32> }
static ST: Global<State> = Global::new(State { compare: vec![], hash: vec![], show: vec![], err: vec![] });
fn clear() { let s = ST.get(); s.compare.clear(); s.hash.clear(); s.show.clear(); s.err.clear(); }

/// What is known of an element.
#[derive(Clone, Copy, Debug)]
pub struct M { id: u32, key: Option<i32> }
impl M {
    fn pair(&self, other: &M) { for m in [self, other] { if ST.get().compare.contains(&m.id) { sim::inject(m.id); } } }
    fn show(&self, kind: &str, f: &mut fmt::Formatter) -> fmt::Result {
        if ST.get().show.contains(&self.id) { sim::inject(self.id); }
        f.write_str(kind)?;
        write!(f, "<{:?} {:?} {:?} {} {} {} {}>", f.width(), f.precision(), f.fill(), f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad())?;
        if ST.get().err.contains(&self.id) { return Err(fmt::Error); }
        Debug::fmt(&self.key.unwrap_or(-7), f)
    }
}
impl PartialEq for M { fn eq(&self, o: &M) -> bool { self.pair(o); self.key.is_some() && self.key == o.key } }
impl Eq for M {}
impl PartialOrd for M { fn partial_cmp(&self, o: &M) -> Option<Ordering> { self.pair(o); match (self.key, o.key) { (Some(a), Some(b)) => Some(a.cmp(&b)), _ => None } } }
impl Ord for M { fn cmp(&self, o: &M) -> Ordering { self.partial_cmp(o).unwrap() } }
impl Hash for M { fn hash<H: Hasher>(&self, h: &mut H) { if ST.get().hash.contains(&self.id) { sim::inject(self.id); } h.write_i32(self.key.unwrap_or(-7)); h.write_u8(1); } }
impl Debug for N { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.show("debug", f) } }
impl Display for N { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.show("display", f) } }
/// Shown like an element.
struct N(M);

/// What the elements store of their key.
pub trait Key: Copy + 'static { const STORED: bool; fn put(k: i32, total: bool) -> Self; fn get(&self) -> Option<i32>; }
/// The smallest value compares to nothing.
impl Key for i32 { const STORED: bool = true; fn put(k: i32, total: bool) -> i32 { if k == 0 && !total { i32::MIN } else { k } } fn get(&self) -> Option<i32> { (*self != i32::MIN).then_some(*self) } }
/// All values are the same.
#[derive(Clone, Copy)]
pub struct Same;
impl Key for Same { const STORED: bool = false; fn put(_: i32, _: bool) -> Same { Same } fn get(&self) -> Option<i32> { Some(3) } }
/// No value is the same as any.
#[derive(Clone, Copy)]
pub struct Never;
impl Key for Never { const STORED: bool = false; fn put(_: i32, _: bool) -> Never { Never } fn get(&self) -> Option<i32> { None } }

pub struct E<V: Val, K: Key, const TOTAL: bool> { key: K, v: V }
impl<V: Val, K: Key, const T: bool> E<V, K, T> {
    fn m(&self, bad: &[u32], what: &'static str) -> M {
        let _q = track::quiet();
        match self.v.read() {
            Some(id) => { if bad.contains(&id) { sim::fault(what); } M { id, key: self.key.get() } }
            None => { fail("garbage", "an operation of an element was called where no element is"); M { id: u32::MAX - 1, key: None } }
        }
    }
    fn c(&self) -> M { self.m(&ST.get().compare, "fault.comparison_panics") }
}
impl<V: Val, K: Key, const T: bool> PartialEq for E<V, K, T> { fn eq(&self, o: &Self) -> bool { let _q = track::quiet(); self.c() == o.c() } }
impl<V: Val, K: Key, const T: bool> PartialOrd for E<V, K, T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { let _q = track::quiet(); self.c().partial_cmp(&o.c()) } }
impl<V: Val, K: Key> Eq for E<V, K, true> {}
impl<V: Val, K: Key> Ord for E<V, K, true> { fn cmp(&self, o: &Self) -> Ordering { let _q = track::quiet(); self.c().cmp(&o.c()) } }
impl<V: Val, K: Key, const T: bool> Hash for E<V, K, T> { fn hash<H: Hasher>(&self, h: &mut H) { let _q = track::quiet(); self.m(&ST.get().hash, "fault.hash_panics").hash(h) } }
impl<V: Val, K: Key, const T: bool> E<V, K, T> { fn shown(&self) -> M { self.m(&ST.get().err, "fault.format_error"); self.m(&ST.get().show, "fault.format_panics") } }
impl<V: Val, K: Key, const T: bool> Debug for E<V, K, T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let _q = track::quiet(); self.shown().show("debug", f) } }
impl<V: Val, K: Key, const T: bool> Display for E<V, K, T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let _q = track::quiet(); self.shown().show("display", f) } }

trait Show: Debug + Display { fn dummy(&self) {} }
impl<T: Debug + Display> Show for T {}

type V<X> = FixedVec<'static, X>;
type B<X> = MyBox<'static, X>;
type R<X> = Rc<'static, X>;
/// The element types, those with a total order have `cmp`.
pub trait Elem: PartialOrd + Hash + Debug + Display + 'static {
    const TOTAL: bool;
    fn make(k: i32) -> Self;
    fn at(&self) -> Option<M>;
    fn set(&mut self, k: i32);
    fn cmp_vec(a: &V<Self>, b: &V<Self>) -> i32 where Self: Sized;
    fn cmp_box(a: &B<Self>, b: &B<Self>) -> i32 where Self: Sized;
    fn cmp_rc(a: &R<Self>, b: &R<Self>) -> i32 where Self: Sized;
    fn cmp_boxed(a: &B<V<Self>>, b: &B<V<Self>>) -> i32 where Self: Sized;
}
macro_rules! elem { ($total:literal, $a:ident, $b:ident => $e:expr) => {
    impl<T: Val, K: Key> Elem for E<T, K, $total> {
        const TOTAL: bool = $total;
        fn make(k: i32) -> Self { E { key: K::put(k, $total), v: T::make() } }
        fn at(&self) -> Option<M> { let _q = track::quiet(); self.v.read().map(|id| M { id, key: self.key.get() }) }
        fn set(&mut self, k: i32) { self.key = K::put(k, $total); }
        fn cmp_vec($a: &V<Self>, $b: &V<Self>) -> i32 { $e }
        fn cmp_box($a: &B<Self>, $b: &B<Self>) -> i32 { $e }
        fn cmp_rc($a: &R<Self>, $b: &R<Self>) -> i32 { $e }
        fn cmp_boxed($a: &B<V<Self>>, $b: &B<V<Self>>) -> i32 { $e }
    }
} }
elem!(true, a, b => a.cmp(b) as i32);
elem!(false, _a, _b => 0);

const OPS: [&str; 8] = ["eq", "ne", "partial_cmp", "lt", "le", "gt", "ge", "cmp"];
fn relate<A: PartialOrd + ?Sized>(op: u32, a: &A, b: &A, cmp: fn(&A, &A) -> i32) -> i32 {
    match op { 0 => (a == b) as i32, 1 => (a != b) as i32, 2 => a.partial_cmp(b).map_or(9, |o| o as i32), 3 => (a < b) as i32, 4 => (a <= b) as i32, 5 => (a > b) as i32, 6 => (a >= b) as i32, _ => cmp(a, b) }
}

/// Collects what is written, until it is too much.
struct Sink { out: Vec<u8>, limit: usize, panics: bool }
impl Sink {
    fn put(&mut self, b: &[u8]) -> fmt::Result {
        let _q = track::quiet();
        if self.out.len() + b.len() > self.limit {
            if self.panics { sim::fault("fault.sink_panics"); sim::inject(0); }
            sim::fault("fault.sink_full");
            return Err(fmt::Error);
        }
        self.out.extend_from_slice(b);
        Ok(())
    }
}
impl Write for Sink { fn write_str(&mut self, s: &str) -> fmt::Result { self.put(s.as_bytes()) } }
impl Hasher for Sink {
    fn write(&mut self, b: &[u8]) {
        let _q = track::quiet();
        for &x in b { if self.out.len() >= self.limit { sim::fault("fault.hasher_panics"); sim::inject(0); } self.out.push(x); }
    }
    fn finish(&self) -> u64 { 0 }
}
impl Sink { fn new(limit: usize, panics: bool) -> Sink { Sink { out: vec![], limit, panics } } }

const DEBUGS: u32 = 10;
fn debug<T: Debug + ?Sized>(spec: u32, w: &mut Sink, x: &T) -> fmt::Result {
    match spec { 0 => write!(w, "{x:?}"), 1 => write!(w, "{x:#?}"), 2 => write!(w, "{x:>12?}"), 3 => write!(w, "{x:08.3?}"), 4 => write!(w, "{x:x?}"), 5 => write!(w, "{x:+#X?}"), 6 => write!(w, "{x:*^15.5?}"), 7 => write!(w, "{x:-<1?}"), 8 => write!(w, "{:1$?}", x, 20), _ => write!(w, "{x:+.0?}") }
}
fn display<T: Display + ?Sized>(spec: u32, w: &mut Sink, x: &T) -> fmt::Result {
    match spec { 0 => write!(w, "{x}"), 1 => write!(w, "{x:#}"), 2 => write!(w, "{x:>12}"), 3 => write!(w, "{x:08.3}"), 4 => write!(w, "{x:+}"), 5 => write!(w, "{x:+#}"), 6 => write!(w, "{x:*^15.5}"), 7 => write!(w, "{x:-<1}"), 8 => write!(w, "{:1$}", x, 20), _ => write!(w, "{x:-.0}") }
}
fn pointer<T: fmt::Pointer>(spec: u32, w: &mut Sink, x: &T) -> fmt::Result {
    match spec { 0 => write!(w, "{:p}", *x), 1 => write!(w, "{:#p}", *x), 2 => write!(w, "{:>30p}", *x), 3 => write!(w, "{:<30p}", *x), 4 => write!(w, "{:030p}", *x), 5 => write!(w, "{:*^33p}", *x), 6 => write!(w, "{:1$p}", *x, 25), _ => write!(w, "{:#32p}", *x) }
}

/// The result of an operation, None if it panicked.
fn outcome<T>(r: std::thread::Result<T>) -> (Option<T>, bool) { match r { Ok(v) => (Some(v), false), Err(p) => { let i = sim::is_injected(&p); (None, i) } } }
fn both<T: PartialEq + Debug>(what: &str, real: impl FnOnce() -> T, model: impl FnOnce() -> T) {
    let (a, ai) = outcome(sim::sut(real));
    let (b, bi) = outcome(catch_unwind(AssertUnwindSafe(model)));
    if a != b || ai != bi {
        let text = |x: &Option<T>, i: bool| match x { Some(x) => format!("{x:?}"), None => if i { "an injected panic".to_string() } else { "a panic".to_string() } };
        fail("differs", format!("{what} is {} and that of the contents {}", text(&a, ai), text(&b, bi)));
    }
    if b.is_none() { probe("op.panicked_alike"); sim::nontrivial(); }
}

enum Con<X: Elem> { Vec(V<X>), Box(B<X>), Rc(R<X>), Leak(LeakBox<'static, X>), Slice(LeakBox<'static, [X]>), Dyn(LeakBox<'static, dyn Show>, *const dyn Show), Boxed(B<V<X>>) }
struct Entry<X: Elem> { con: Con<X>, ms: Vec<M>, at: usize, cap: usize }
struct World<X: Elem> { all: Vec<Entry<X>>, faults: bool, keys: i32, big: bool }

impl<X: Elem> Entry<X> {
    fn slice(&self) -> &[X] { unsafe { std::slice::from_raw_parts(self.at as *const X, self.ms.len()) } }
    fn kind(&self) -> &'static str { match self.con { Con::Vec(_) => "FixedVec", Con::Box(_) => "Box", Con::Rc(_) => "Rc", Con::Leak(_) => "LeakBox", Con::Slice(_) => "LeakBox of a slice", Con::Dyn(..) => "LeakBox of a trait object", Con::Boxed(_) => "Box of a FixedVec" } }
}

impl<X: Elem> World<X> {
    fn element(&mut self) -> (X, M) { let x = X::make(range(0, self.keys as usize) as i32); let m = x.at().unwrap(); (x, m) }
    fn space(&self, n: usize) -> usize {
        let at = arena::place(size_of::<X>() * n, align_of::<X>(), if chance(1, 2) { align_of::<X>() } else { 0 });
        arena::dirt(at, size_of::<X>() * n, 25 + n as u64);
        at
    }
    fn memory(&self, n: usize) -> (Uninit<'static, ()>, usize) { let at = self.space(n); (unsafe { Uninit::from_memory(NonNull::new_unchecked(at as *mut u8), size_of::<X>() * n) }, at) }
    fn vec(&mut self) -> Option<(V<X>, Vec<M>, usize, usize)> {
        let n = if self.big { range(0, 300) } else { range(0, 6) };
        let (mem, at) = self.memory(n);
        let mut v = sim::sut_ok("new", || FixedVec::from_unaligned(mem))?;
        let cap = if size_of::<X>() == 0 { n + 3 } else { n };
        let mut ms = vec![];
        for _ in 0..range(0, cap) {
            let (x, m) = self.element();
            if sim::sut_ok("push", || v.push(x).is_ok())? { ms.push(m); } else { fail("refused", "push was refused although there is space"); return None; }
        }
        Some((v, ms, at, cap))
    }
    fn new(&mut self) -> Option<()> {
        let e = match draw(9) {
            0..=2 => { let (v, ms, at, cap) = self.vec()?; Entry { con: Con::Vec(v), ms, at, cap } }
            3 => { let (x, m) = self.element(); let (mem, at) = self.memory(1); let b = sim::sut_ok("new", || MyBox::new(x, mem.cast::<X>().unwrap()))?; Entry { con: Con::Box(b), ms: vec![m], at, cap: 1 } }
            4 => {
                let (x, m) = self.element();
                let l = Rc::<X>::layout();
                let at = arena::place(l.size(), l.align(), 0);
                let r = sim::sut_ok("new", || Rc::new(x, unsafe { Uninit::from_memory(NonNull::new_unchecked(at as *mut u8), l.size()) }))?;
                // Where exactly is its own business.
                let at = sim::sut_ok("deref", || &*r as *const X as usize)?;
                Entry { con: Con::Rc(r), ms: vec![m], at, cap: 1 }
            }
            5 => { let (x, m) = self.element(); let at = self.space(1); unsafe { (at as *mut X).write(x); } let b = sim::sut_ok("from_raw", || unsafe { LeakBox::from_raw(at as *mut X) })?; Entry { con: Con::Leak(b), ms: vec![m], at, cap: 1 } }
            6 => {
                let n = if self.big { range(0, 300) } else { range(0, 4) };
                let at = self.space(n);
                let mut ms = vec![];
                for i in 0..n { let (x, m) = self.element(); unsafe { (at as *mut X).add(i).write(x); } ms.push(m); }
                let b = sim::sut_ok("from_raw", || unsafe { LeakBox::from_raw(std::ptr::slice_from_raw_parts_mut(at as *mut X, n)) })?;
                Entry { con: Con::Slice(b), ms, at, cap: n }
            }
            7 => { let (x, m) = self.element(); let at = self.space(1); let fat = at as *mut X as *mut dyn Show; unsafe { (at as *mut X).write(x); } let b = sim::sut_ok("from_raw", || unsafe { LeakBox::from_raw(fat) })?; Entry { con: Con::Dyn(b, fat), ms: vec![m], at, cap: 1 } }
            _ => {
                let (v, ms, at, cap) = self.vec()?;
                let to = arena::place(size_of::<V<X>>(), align_of::<V<X>>(), 0);
                let b = sim::sut_ok("new", || MyBox::new(v, unsafe { Uninit::from_memory(NonNull::new_unchecked(to as *mut u8), size_of::<V<X>>()).cast::<V<X>>().unwrap() }))?;
                Entry { con: Con::Boxed(b), ms, at, cap }
            }
        };
        crate::tr!("new {} of {:?}", e.kind(), e.ms);
        self.all.push(e);
        Some(())
    }
    /// Where the contents are seen, through all the ways to see them.
    fn views(e: &mut Entry<X>) {
        let want = (e.at, e.ms.len());
        let s = |x: &[X]| (x.as_ptr() as usize, x.len());
        let o = |x: &X| (x as *const X as usize, 1);
        let name = e.kind();
        let way = draw(6);
        let got = match &mut e.con {
            Con::Vec(v) => sim::sut_ok("view", || match way { 0 => s(&**v), 1 => s(v.as_ref()), 2 => s(Borrow::<[X]>::borrow(v)), 3 => s(&mut **v), 4 => s(v.as_mut()), _ => s(BorrowMut::<[X]>::borrow_mut(v)) }),
            Con::Box(v) => sim::sut_ok("view", || match way { 0 => o(&**v), 1 => o(v.as_ref()), 2 => o(Borrow::<X>::borrow(v)), 3 => o(&mut **v), 4 => o(v.as_mut()), _ => o(BorrowMut::<X>::borrow_mut(v)) }),
            Con::Rc(v) => sim::sut_ok("view", || match way { 0 | 3 => o(&**v), 1 | 4 => o(v.as_ref()), _ => o(Borrow::<X>::borrow(v)) }),
            Con::Leak(v) => sim::sut_ok("view", || match way { 0 | 2 => o(&**v), 1 => o(v.as_ref()), 3 | 4 => o(&mut **v), _ => o(v.as_mut()) }),
            Con::Slice(v) => sim::sut_ok("view", || match way { 0 | 2 => s(&**v), 1 => s(v.as_ref()), 3 | 4 => s(&mut **v), _ => s(v.as_mut()) }),
            Con::Dyn(v, _) => sim::sut_ok("view", || match way { 0 | 2 => (&**v as *const dyn Show as *const u8 as usize, 1), 1 => (v.as_ref() as *const dyn Show as *const u8 as usize, 1), 3 | 4 => (&mut **v as *mut dyn Show as *mut u8 as usize, 1), _ => (v.as_mut() as *mut dyn Show as *mut u8 as usize, 1) }),
            Con::Boxed(v) => sim::sut_ok("view", || match way { 0 => s(&***v), 1 => s(v.as_ref().as_ref()), 2 => s(Borrow::<V<X>>::borrow(v).borrow()), 3 => s(&mut ***v), 4 => s(v.as_mut().as_mut()), _ => s(BorrowMut::<V<X>>::borrow_mut(v).as_mut()) }),
        };
        let Some(got) = got else { return };
        if got != want { fail("wrong-view", format!("view {way} of a {name} is {} elements at {:#x} instead of {} at {:#x}", got.1, got.0, want.1, want.0)); }
        probe("op.view");
    }
    fn change(&mut self, i: usize) -> Option<()> {
        let k = range(0, self.keys as usize) as i32;
        let way = draw(4);
        let e = &mut self.all[i];
        if e.ms.is_empty() { return None; }
        let j = draw(e.ms.len() as u32) as usize;
        match &mut e.con {
            Con::Vec(v) => sim::sut_ok("change", || match way { 0 => v[j].set(k), 1 => v.as_mut()[j].set(k), 2 => BorrowMut::<[X]>::borrow_mut(v)[j].set(k), _ => (&mut v[..])[j].set(k) })?,
            Con::Box(v) => sim::sut_ok("change", || match way { 0 | 3 => v.set(k), 1 => v.as_mut().set(k), _ => BorrowMut::<X>::borrow_mut(v).set(k) })?,
            Con::Leak(v) => sim::sut_ok("change", || match way { 0 | 3 => v.set(k), _ => v.as_mut().set(k) })?,
            Con::Slice(v) => sim::sut_ok("change", || match way { 0 | 3 => v[j].set(k), _ => v.as_mut()[j].set(k) })?,
            Con::Boxed(v) => sim::sut_ok("change", || match way { 0 | 3 => v[j].set(k), _ => v.as_mut().as_mut()[j].set(k) })?,
            Con::Rc(_) | Con::Dyn(..) => return None,
        }
        e.ms[j] = e.slice()[j].at().unwrap_or(M { id: e.ms[j].id, key: e.ms[j].key });
        crate::tr!("change an element of a {} to {:?}", e.kind(), e.ms[j]);
        probe("op.changed");
        Some(())
    }
    fn grow_or_shrink(&mut self, i: usize) -> Option<()> {
        let (x, m) = self.element();
        let e = &mut self.all[i];
        let (len, cap) = (e.ms.len(), e.cap);
        let v = match &mut e.con { Con::Vec(v) => v, Con::Boxed(v) => &mut **v, _ => return Some(drop(x)) };
        match draw(4) {
            0 if len < cap => { if sim::sut_ok("push", || v.push(x).is_ok())? { e.ms.push(m); } }
            1 => { drop(x); if let Some(x) = sim::sut_ok("pop", || v.pop())? { drop(x); e.ms.pop(); } }
            2 => { drop(x); let n = range(0, len); sim::sut_ok("truncate", || v.truncate(n))?; e.ms.truncate(n); }
            _ => { drop(x); if len > 1 { let (a, b) = (draw(len as u32) as usize, draw(len as u32) as usize); sim::sut_ok("swap", || v.swap(a, b))?; e.ms.swap(a, b); } }
        }
        Some(())
    }
    /// Let some of the elements fail.
    fn faults(&self, i: usize, j: usize) {
        clear();
        if !self.faults { return; }
        let ids: Vec<u32> = self.all[i].ms.iter().chain(&self.all[j].ms).map(|m| m.id).collect();
        if ids.is_empty() { return; }
        let s = ST.get();
        if chance(1, 3) { s.compare.push(pick(&ids)); }
        if chance(1, 4) { s.hash.push(pick(&ids)); }
        if chance(1, 5) { s.show.push(pick(&ids)); }
        if chance(1, 5) { s.err.push(pick(&ids)); }
    }
    fn compare(&mut self, i: usize) {
        let same: Vec<usize> = (0..self.all.len()).filter(|&j| std::mem::discriminant(&self.all[j].con) == std::mem::discriminant(&self.all[i].con)).collect();
        let j = pick(&same);
        let op = draw(if X::TOTAL { 8 } else { 7 });
        self.faults(i, j);
        let (a, b) = (&self.all[i], &self.all[j]);
        let what = format!("{} of {:?} and {:?} in {}", OPS[op as usize], a.ms, b.ms, a.kind());
        crate::tr!("{what}{}", if ST.get().compare.is_empty() { String::new() } else { format!(", with {:?} panicking", ST.get().compare) });
        let whole = |a: &Vec<M>, b: &Vec<M>| relate(op, &a[..], &b[..], |a, b| a.cmp(b) as i32);
        let single = |a: &Vec<M>, b: &Vec<M>| relate(op, &a[0], &b[0], |a, b| a.cmp(b) as i32);
        match (&a.con, &b.con) {
            (Con::Vec(x), Con::Vec(y)) => both(&what, || relate(op, x, y, X::cmp_vec), || whole(&a.ms, &b.ms)),
            (Con::Box(x), Con::Box(y)) => both(&what, || relate(op, x, y, X::cmp_box), || single(&a.ms, &b.ms)),
            (Con::Rc(x), Con::Rc(y)) => both(&what, || relate(op, x, y, X::cmp_rc), || single(&a.ms, &b.ms)),
            (Con::Boxed(x), Con::Boxed(y)) => both(&what, || relate(op, x, y, X::cmp_boxed), || whole(&a.ms, &b.ms)),
            _ => return,
        }
        probe("op.compared");
        if i != j && a.ms.len() > 1 && b.ms.len() > 1 { sim::nontrivial(); }
    }
    fn hash(&mut self, i: usize) {
        self.faults(i, i);
        let limit = if self.faults && chance(1, 4) { range(0, 24) } else { usize::MAX };
        let e = &self.all[i];
        let what = format!("hash of {:?} in a {}", e.ms, e.kind());
        crate::tr!("{what}");
        let (mut a, mut b) = (Sink::new(limit, true), Sink::new(limit, true));
        match &e.con {
            Con::Vec(v) => both(&what, || v.hash(&mut a), || e.ms[..].hash(&mut b)),
            Con::Box(v) => both(&what, || v.hash(&mut a), || e.ms[0].hash(&mut b)),
            Con::Rc(v) => both(&what, || v.hash(&mut a), || e.ms[0].hash(&mut b)),
            Con::Leak(v) => both(&what, || v.hash(&mut a), || e.ms[0].hash(&mut b)),
            Con::Slice(v) => both(&what, || v.hash(&mut a), || e.ms[..].hash(&mut b)),
            Con::Boxed(v) => both(&what, || v.hash(&mut a), || e.ms[..].hash(&mut b)),
            Con::Dyn(..) => return,
        }
        if a.out != b.out { fail("differs", format!("{what} is of {:?} and that of the contents of {:?}", a.out, b.out)); }
        probe("op.hashed");
    }
    fn show(&mut self, i: usize) {
        self.faults(i, i);
        let limit = if self.faults && chance(1, 4) { range(0, 120) } else { usize::MAX };
        let panics = self.faults && chance(1, 3);
        let kind = draw(3);
        let spec = draw(if kind == 2 { 8 } else { DEBUGS });
        let e = &self.all[i];
        let what = format!("{} format {spec} of {:?} in a {}", ["debug", "display", "pointer"][kind as usize], e.ms, e.kind());
        crate::tr!("{what}");
        let (mut a, mut b) = (Sink::new(limit, panics), Sink::new(limit, panics));
        let ns: Vec<N> = e.ms.iter().map(|m| N(*m)).collect();
        let p = e.at as *const X;
        match (&e.con, kind) {
            (Con::Box(v), 0) => both(&what, || debug(spec, &mut a, v), || debug(spec, &mut b, &ns[0])),
            (Con::Box(v), 2) => both(&what, || pointer(spec, &mut a, v), || pointer(spec, &mut b, &p)),
            (Con::Rc(v), 0) => both(&what, || debug(spec, &mut a, v), || debug(spec, &mut b, &ns[0])),
            (Con::Rc(v), 1) => both(&what, || display(spec, &mut a, v), || display(spec, &mut b, &ns[0])),
            (Con::Rc(v), 2) => both(&what, || pointer(spec, &mut a, v), || pointer(spec, &mut b, &p)),
            (Con::Leak(v), 0) => both(&what, || debug(spec, &mut a, v), || debug(spec, &mut b, &ns[0])),
            (Con::Leak(v), 1) => both(&what, || display(spec, &mut a, v), || display(spec, &mut b, &ns[0])),
            (Con::Leak(v), 2) => both(&what, || pointer(spec, &mut a, v), || pointer(spec, &mut b, &p)),
            (Con::Dyn(v, _), 0) => both(&what, || debug(spec, &mut a, v), || debug(spec, &mut b, &ns[0])),
            (Con::Dyn(v, _), 1) => both(&what, || display(spec, &mut a, v), || display(spec, &mut b, &ns[0])),
            (Con::Dyn(v, fat), 2) => both(&what, || pointer(spec, &mut a, v), || pointer(spec, &mut b, fat)),
            (Con::Slice(v), 0) => both(&what, || debug(spec, &mut a, v), || debug(spec, &mut b, &ns[..])),
            (Con::Slice(v), 2) => both(&what, || pointer(spec, &mut a, v), || pointer(spec, &mut b, &std::ptr::slice_from_raw_parts(p, e.ms.len()))),
            _ => return,
        }
        if a.out != b.out { fail("differs", format!("{what} is {:?} and that of the contents {:?}", String::from_utf8_lossy(&a.out), String::from_utf8_lossy(&b.out))); }
        probe("op.formatted");
    }
    fn index(&mut self, i: usize) {
        let e = &mut self.all[i];
        let n = e.ms.len();
        let (at, s): (usize, &mut [X]) = (e.at, unsafe { std::slice::from_raw_parts_mut(e.at as *mut X, n) });
        let v = match &mut e.con { Con::Vec(v) => v, Con::Boxed(v) => &mut **v, _ => return };
        let bound = || if chance(1, 8) { usize::MAX } else { range(0, n + 2) };
        let (a, b, mutably) = (bound(), bound(), chance(1, 2));
        let way = draw(7);
        let what = format!("index {way} with {a} and {b} of {n} elements");
        crate::tr!("{what}");
        fn place<X>(x: &[X]) -> (usize, usize) { (x.as_ptr() as usize, x.len()) }
        macro_rules! at { ($i:expr) => { if mutably { both(&what, || place(&mut v[$i]), || place(&mut s[$i])) } else { both(&what, || place(&v[$i]), || place(&s[$i])) } } }
        match way {
            0 => if mutably { both(&what, || &mut v[a] as *mut X as usize, || &mut s[a] as *mut X as usize) } else { both(&what, || &v[a] as *const X as usize, || &s[a] as *const X as usize) },
            1 => at!(a..b), 2 => at!(a..=b), 3 => at!(a..), 4 => at!(..b), 5 => at!(..=b), _ => at!(..),
        }
        let _ = at;
        probe("op.indexed");
    }
    fn intact(&self) {
        let mut ids: Vec<u32> = vec![];
        for e in &self.all {
            for (x, m) in e.slice().iter().zip(&e.ms) {
                if x.at().map(|x| (x.id, x.key)) != Some((m.id, m.key)) { fail("modified", format!("a {} of {:?} has an element {:?} instead of {m:?}", e.kind(), e.ms, x.at())); return; }
                if m.id == ZST_ID { if !matches!(e.con, Con::Rc(_)) { ids.push(m.id); } } else if !ids.contains(&m.id) { ids.push(m.id); }
            }
            if let (Con::Rc(r), Some(m)) = (&e.con, e.ms.first()) { if m.id == ZST_ID && self.all.iter().find(|o| matches!(&o.con, Con::Rc(_)) && o.at == e.at).is_some_and(|o| std::ptr::eq(o, e)) { let _ = r; ids.push(ZST_ID); } }
        }
        track::expect_owned(&ids, "elements");
        arena::check("contents");
    }
    fn step(&mut self) -> Option<()> {
        sim::step();
        if self.all.is_empty() || (self.all.len() < 8 && chance(1, 5)) { return self.new(); }
        let i = draw(self.all.len() as u32) as usize;
        match draw(16) {
            0..=4 => self.compare(i),
            5 | 6 => self.hash(i),
            7..=9 => self.show(i),
            10 => self.index(i),
            11 => Self::views(&mut self.all[i]),
            12 => { self.change(i); }
            13 | 14 => { self.grow_or_shrink(i); }
            _ => {
                let e = &self.all[i];
                if let Con::Rc(r) = &e.con {
                    if chance(2, 3) { let c = sim::sut_ok("clone", || r.clone())?; let e = Entry { con: Con::Rc(c), ms: e.ms.clone(), at: e.at, cap: 1 }; self.all.push(e); probe("op.cloned"); return Some(()); }
                }
                let e = self.all.swap_remove(i);
                crate::tr!("drop a {} of {:?}", e.kind(), e.ms);
                sim::sut_ok("drop", || drop(e.con))?;
            }
        }
        clear();
        Some(())
    }
}

fn world<X: Elem>() {
    let mut w: World<X> = World { all: vec![], faults: chance(2, 3), keys: pick(&[1, 2, 4, 1000]), big: chance(1, 48) };
    for _ in 0..range(4, 60) {
        w.step();
        clear();
        if sim::failed() { return std::mem::forget(w); }
        w.intact();
        if sim::failed() { return std::mem::forget(w); }
    }
    while let Some(e) = w.all.pop() { sim::sut_ok("drop", || drop(e.con)); if sim::failed() { return std::mem::forget(w); } }
    w.intact();
}

/// The function in a coercion is its contents.
#[derive(PartialEq, Eq, Hash)]
struct Change(M);
impl Debug for Change { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { for (l, w) in [(&ST.get().show, "fault.format_panics"), (&ST.get().err, "fault.format_error")] { if l.contains(&self.0.id) { sim::fault(w); } } self.0.show("debug", f) } }
impl Clone for Change { fn clone(&self) -> Change { if ST.get().hash.contains(&self.0.id) { sim::fault("fault.clone_panics"); sim::inject(self.0.id); } Change(M { id: self.0.id + 1000, key: self.0.key }) } }
impl FnOnce<(*const u64,)> for Change { type Output = *const dyn Show; extern "rust-call" fn call_once(self, (p,): (*const u64,)) -> *const dyn Show { CALLED.get().push(self.0.id); p } }
static CALLED: Global<Vec<u32>> = Global::new(vec![]);
fn plain(p: *const u64) -> *const dyn Show { p }
fn other(p: *const u64) -> *const dyn Show { std::hint::black_box(p) }
type Co<F> = Coercion<u64, dyn Show, F>;
type Plain = fn(*const u64) -> *const dyn Show;

fn coercions() {
    CALLED.get().clear();
    let n = range(1, 5) as u32;
    let ms: Vec<M> = (0..n).map(|id| M { id, key: match draw(4) { 0 => None, k => Some(k as i32) } }).collect();
    let mut all: Vec<(Co<Change>, M)> = ms.iter().map(|&m| (unsafe { Coercion::new(Change(m)) }, m)).collect();
    let fns: [(Co<Plain>, Plain); 2] = [plain as Plain, other as Plain].map(|f| (unsafe { Coercion::new(f) }, f));
    for _ in 0..range(2, 20) {
        if all.is_empty() { break; }
        clear();
        let (i, j) = (draw(all.len() as u32) as usize, draw(all.len() as u32) as usize);
        let s = ST.get();
        for l in [&mut s.compare, &mut s.hash, &mut s.show, &mut s.err] { if chance(1, 5) { l.push(all[i].1.id); } }
        let (a, b) = (&all[i], &all[j]);
        let (x, y) = (pick(&[0usize, 1]), pick(&[0usize, 1]));
        let limit = if chance(1, 4) { range(0, 120) } else { usize::MAX };
        let spec = draw(DEBUGS);
        let (mut p, mut q) = (Sink::new(limit, chance(1, 3)), Sink::new(limit, false));
        q.panics = p.panics;
        let op = draw(8);
        crate::tr!("coercion: operation {op} of {:?} and {:?}", a.1, b.1);
        match op {
            0 => { if !s.compare.is_empty() { sim::fault("fault.comparison_panics"); } both("eq of coercions", || a.0 == b.0, || a.1 == b.1) }
            1 => { if !s.compare.is_empty() { sim::fault("fault.comparison_panics"); } both("ne of coercions", || a.0 != b.0, || a.1 != b.1) }
            2 => { if !s.hash.is_empty() { sim::fault("fault.hash_panics"); } p.panics = true; q.panics = true; both("hash of a coercion", || a.0.hash(&mut p), || a.1.hash(&mut q)) }
            3 => { #[derive(Debug)] #[allow(dead_code)] struct Coercion<'a> { coerce: &'a Change } let c = Change(a.1); both("debug format of a coercion", || debug(spec, &mut p, &a.0), || debug(spec, &mut q, &Coercion { coerce: &c })) }
            4 | 5 => {
                let (mut r, m) = (None, a.1);
                both("cloning a coercion", || r = Some(a.0.clone()), || drop(Change(m).clone()));
                if let Some(c) = r { all.push((c, M { id: m.id + 1000, key: m.key })); }
            }
            6 => {
                both("eq of plain coercions", || fns[x].0 == fns[y].0, || fns[x].1 == fns[y].1);
                both("hash of a plain coercion", || fns[x].0.hash(&mut p), || fns[x].1.hash(&mut q));
                let copy = fns[x].0;
                if copy != fns[x].0 { fail("differs", "a copy of a coercion is another one".to_string()); }
            }
            _ => {
                let (c, m) = all.swap_remove(i);
                let v = 5u64;
                let Some(r) = sim::sut_ok("unsize", || { let r: &dyn Show = (&v).unsize(c); r as *const dyn Show as *const u8 as usize }) else { return };
                if CALLED.get().pop() != Some(m.id) || !CALLED.get().is_empty() { fail("differs", format!("the coercion with {m:?} used another one")); }
                if r != &v as *const u64 as usize { fail("differs", "the coerced reference is another one".to_string()); }
            }
        }
        if p.out != q.out { fail("differs", if op == 6 { "a plain coercion does not hash like its function".to_string() } else { format!("operation {op} of a coercion gives {:?} and that of the contents {:?}", p.out, q.out) }); }
        probe("op.coercion");
        if sim::failed() { return; }
    }
    clear();
}

/// Very long vectors of numbers, which are the same but for one of them.
fn long<T: many::Elem + Ord + Hash + Debug + Copy>() {
    many::reset();
    let n = many::count(100_000);
    let from = many::take(n);
    let mut a: Vec<T> = (0..n as u32).map(|i| T::make(from + i)).collect();
    let mut b = a.clone();
    match draw(4) { 0 => {} 1 => b.truncate(range(0, n)), _ => if n > 0 { let (i, j) = (range(0, n - 1), range(0, n - 1)); let i = if chance(1, 2) { n - 1 } else { i }; b[i] = a[j]; if chance(1, 4) { a[i] = a[j]; } } }
    let vec = |v: &[T]| {
        let bytes = size_of::<T>() * v.len();
        let at = arena::place(bytes, align_of::<T>(), 0);
        arena::dirt(at, bytes, 26);
        let mut f = FixedVec::from_unaligned(unsafe { Uninit::from_memory(NonNull::new_unchecked(at as *mut u8), bytes) });
        let _ = f.fill(v.iter().copied());
        f
    };
    crate::tr!("vectors of {} and {} {}", a.len(), b.len(), T::NAME);
    let Some((x, y)) = sim::sut_ok("fill", || (vec(&a), vec(&b))) else { return };
    for op in 0..8 { both(&format!("{} of {} and {} {}", OPS[op as usize], a.len(), b.len(), T::NAME), || relate(op, &x, &y, |x, y| x.cmp(y) as i32), || relate(op, &a[..], &b[..], |x, y| x.cmp(y) as i32)); }
    let sum = |k: Sink| k.out.iter().fold((k.out.len(), 7u64), |(n, h), &x| (n, (h ^ x as u64).wrapping_mul(0x100_0000_01b3)));
    both("the hash of a very long vector", || { let mut k = Sink::new(usize::MAX, true); x.hash(&mut k); sum(k) }, || { let mut k = Sink::new(usize::MAX, true); a[..].hash(&mut k); sum(k) });
    probe("op.long");
    sim::nontrivial();
}
pub fn c25() {
    clear();
    if draw(512) == 511 { return match draw(3) { 0 => long::<u8>(), 1 => long::<u16>(), _ => long::<u64>() }; }
    if chance(1, 16) { return coercions(); }
    let (sel, kind) = (draw(6), draw(6));
    with_val!(sel, T => match kind {
        0 | 1 => world::<E<T, i32, false>>(),
        2 | 3 => world::<E<T, i32, true>>(),
        4 => world::<E<T, Same, true>>(),
        _ => world::<E<T, Never, false>>(),
    })
}
