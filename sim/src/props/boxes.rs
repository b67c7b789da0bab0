//! C18: boxes in provided memory.
use crate::arena;
use crate::sim::{self, chance, draw, fail, probe, range};
use crate::track::{self, AnyVal, Val, ZST_ID};
use crate::many::{self, Elem};
use crate::{with_lump, with_any_val};
use std::mem::{align_of, size_of, MaybeUninit};
use std::ptr::NonNull;
use unsize::{CoerceUnsize, Coercion};
use without_alloc::{Box as MyBox, Uninit};

const N: usize = 3;
type Bx<T> = MyBox<'static, T>;
enum B<V: Val> { One(Bx<V>), Dyn(Bx<dyn AnyVal>), Arr(Bx<[V; N]>), Slice(Bx<[V]>), Nested(Bx<Bx<V>>) }
/// A box, the values it owns, the memory it is in. The inner of a nested one has its own memory.
struct E<V: Val> { b: B<V>, ids: Vec<u32>, mem: usize, extent: usize, inner: Option<(usize, usize)> }
/// A part of an allocation that is taken apart.
enum Raw<V: Val> { One(Uninit<'static, V>), Dyn(Uninit<'static, dyn AnyVal>), Slice(Uninit<'static, [V]>) }
struct World<V: Val> { boxes: Vec<E<V>>, raws: Vec<(Raw<V>, Vec<u32>, usize, usize)>, mem: Vec<(Uninit<'static, ()>, u64)>, leaked: Vec<(&'static V, u32)>, lost: Vec<u32>, faults: bool, salt: u64 }

fn intact<V: Val>(e: &E<V>, when: &str) -> bool {
    let (at, size, align, have): (usize, usize, usize, Vec<Option<u32>>) = match &e.b {
        B::One(b) => (&**b as *const V as usize, size_of::<V>(), align_of::<V>(), vec![b.read()]),
        B::Dyn(b) => (b.addr(), std::mem::size_of_val(&**b), std::mem::align_of_val(&**b), vec![b.ident()]),
        B::Arr(b) => (&**b as *const _ as usize, size_of::<[V; N]>(), align_of::<V>(), b.iter().map(|v| v.read()).collect()),
        B::Slice(b) => (b.as_ptr() as usize, std::mem::size_of_val(&**b), align_of::<V>(), b.iter().map(|v| v.read()).collect()),
        B::Nested(b) => (&**b as *const _ as usize, size_of::<Bx<V>>(), align_of::<Bx<V>>(), vec![b.read()]),
    };
    if at != e.mem || size > e.extent || at % align != 0 { fail("wrong-place", format!("{when}: the value is at {at:#x} instead of {:#x}", e.mem)); return false; }
    if have.len() != e.ids.len() || have.iter().zip(&e.ids).any(|(h, i)| *h != Some(*i)) { fail("wrong-value", format!("{when}: the box has {have:?} instead of {:?}", e.ids)); return false; }
    if let (B::Nested(b), Some((m, _))) = (&e.b, e.inner) { if &***b as *const V as usize != m { fail("wrong-place", format!("{when}: the value is not where it was put")); return false; } }
    true
}
fn pins(ids: &[u32], at: usize, size: usize) { for (i, id) in ids.iter().enumerate() { track::pin_at(*id, at + i * size); } }
fn unpins(ids: &[u32]) { for id in ids { track::unpin(*id); } }

impl<V: Val> World<V> {
    fn value(&mut self) -> (V, u32) {
        let v = V::make();
        let id = v.read().unwrap();
        if self.faults && chance(1, 6) { track::set_panics(id, true); }
        (v, id)
    }
    /// Memory for a type, more than that or exactly.
    fn memory<T: 'static>(&mut self) -> Uninit<'static, T> {
        if !self.mem.is_empty() && chance(2, 3) {
            let i = draw(self.mem.len() as u32) as usize;
            let (m, salt) = self.mem.swap_remove(i);
            match m.cast::<T>() { Ok(u) => { probe("op.memory_reused"); return u; } Err(m) => self.mem.push((m, salt)) }
        }
        let extent = size_of::<T>() + if chance(1, 2) { range(1, 64) } else { 0 };
        let at = arena::place(extent, align_of::<T>(), if chance(1, 2) { align_of::<T>() } else { 0 });
        self.salt += 1;
        arena::dirt(at, extent, self.salt);
        if extent == size_of::<T>() && chance(1, 2) { return Uninit::from_maybe_uninit(unsafe { &mut *(at as *mut MaybeUninit<T>) }); }
        unsafe { Uninit::from_memory(NonNull::new_unchecked(at as *mut u8), extent) }.cast::<T>().unwrap()
    }
    fn give_back(&mut self, m: Uninit<'static, ()>) {
        self.salt += 1;
        arena::dirt(m.as_ptr() as usize, m.size(), self.salt);
        self.mem.push((m, self.salt));
    }
    fn same<T: ?Sized>(&self, u: &Uninit<'static, T>, mem: usize, extent: usize) -> bool {
        if u.as_ptr() as *mut u8 as usize != mem || u.size() != extent || u.byte_capacity() != extent { fail("wrong-extent", format!("memory {:#x} with {} bytes was given back instead of {mem:#x} with {extent}", u.as_ptr() as *mut u8 as usize, u.size())); return false; }
        true
    }
    fn put_one(&mut self, v: V, id: u32) -> Option<(Bx<V>, usize, usize)> {
        let u = self.memory::<V>();
        let (mem, extent) = (u.as_ptr() as usize, u.size());
        let b = if chance(1, 2) { sim::sut_ok("new", || MyBox::new(v, u)) } else { sim::sut_ok("into_box", || u.into_box(v)) }?;
        pins(&[id], mem, 0);
        crate::tr!("box value {id} in {extent} bytes");
        probe("op.boxed");
        Some((b, mem, extent))
    }
    fn new(&mut self) {
        match draw(4) {
            0 => {
                let u = self.memory::<[V; N]>();
                let (mem, extent) = (u.as_ptr() as usize, u.size());
                let vals: Vec<(V, u32)> = (0..N).map(|_| self.value()).collect();
                let ids: Vec<u32> = vals.iter().map(|v| v.1).collect();
                let Ok(arr) = <[V; N]>::try_from(vals.into_iter().map(|v| v.0).collect::<Vec<V>>()) else { unreachable!() };
                let Some(b) = sim::sut_ok("new", || MyBox::new(arr, u)) else { return };
                pins(&ids, mem, size_of::<V>());
                crate::tr!("box array {ids:?} in {extent} bytes");
                probe("op.boxed_array");
                self.boxes.push(E { b: B::Arr(b), ids, mem, extent, inner: None });
            }
            _ => {
                let (v, id) = self.value();
                let Some((b, mem, extent)) = self.put_one(v, id) else { return };
                self.boxes.push(E { b: B::One(b), ids: vec![id], mem, extent, inner: None });
            }
        }
    }
    fn drop_box(&mut self, e: E<V>) {
        crate::tr!("drop the box of {:?}", e.ids);
        let E { b, ids, mem, extent, inner } = e;
        let from = track::drops();
        if let Err(p) = sim::sut(move || drop(b)) { if !sim::is_injected(&p) { fail("panic", format!("dropping a box panicked: {}", sim::panic_text(&p))); } probe("op.unwound"); }
        let sized = ids.iter().filter(|&&i| track::counted(i)).count();
        if track::drops() != from + sized { fail("missing-drop", format!("dropping the box of {ids:?} called {} destructors", track::drops() - from)); return; }
        probe("op.dropped");
        // Its memory is not in use any more.
        self.salt += 1;
        arena::dirt(mem, extent, self.salt);
        if let Some((m, x)) = inner { arena::dirt(m, x, self.salt); }
    }
    fn step(&mut self) {
        sim::step();
        if self.boxes.is_empty() || (self.boxes.len() < 6 && chance(1, 4)) { return self.new(); }
        let i = draw(self.boxes.len() as u32) as usize;
        match draw(17) {
            0..=2 => { let e = self.boxes.swap_remove(i); self.drop_box(e); }
            3 | 4 => {
                // Take the value out.
                let E { b, ids, mem, extent, inner } = self.boxes.swap_remove(i);
                match b {
                    B::One(b) => {
                        crate::tr!("take {ids:?} out of its box");
                        let Some((v, u)) = sim::sut_ok("take", || MyBox::take(b)) else { return };
                        unpins(&ids);
                        if !self.same(&u, mem, extent) { return std::mem::forget(v); }
                        if v.read() != Some(ids[0]) { fail("wrong-value", format!("value {} was not taken intact", ids[0])); return std::mem::forget(v); }
                        probe("op.taken");
                        sim::nontrivial();
                        self.give_back(u.as_memory());
                        match draw(2) {
                            0 => { let id = ids[0]; if let Some((b, mem, extent)) = self.put_one(v, id) { self.boxes.push(E { b: B::One(b), ids, mem, extent, inner: None }); } }
                            _ => { if let Err(p) = sim::sut(|| drop(v)) { if !sim::is_injected(&p) { fail("panic", "dropping panicked".to_string()); } } }
                        }
                    }
                    B::Nested(b) => {
                        crate::tr!("take the box of {ids:?} out of its box");
                        let Some((b, u)) = sim::sut_ok("take", || MyBox::take(b)) else { return };
                        if !self.same(&u, mem, extent) { return std::mem::forget(b); }
                        self.give_back(u.as_memory());
                        let (mem, extent) = inner.unwrap();
                        self.boxes.push(E { b: B::One(b), ids, mem, extent, inner: None });
                        probe("op.unnested");
                    }
                    B::Arr(b) => {
                        let Some((v, u)) = sim::sut_ok("take", || MyBox::take(b)) else { return };
                        unpins(&ids);
                        if !self.same(&u, mem, extent) { return std::mem::forget(v); }
                        let _ = sim::sut(|| drop(v));
                        self.give_back(u.as_memory());
                    }
                    b => self.boxes.push(E { b, ids, mem, extent, inner }),
                }
            }
            5 | 6 => {
                // Unsize it.
                let E { b, ids, mem, extent, inner } = self.boxes.swap_remove(i);
                let b = match b {
                    B::One(b) => { crate::tr!("coerce the box of {ids:?}"); probe("op.coerced"); sim::nontrivial(); let Some(b) = sim::sut_ok("unsize", || { let b: Bx<dyn AnyVal> = b.unsize(Coercion!(to dyn AnyVal)); b }) else { return }; B::Dyn(b) }
                    B::Arr(b) => { crate::tr!("coerce the box of {ids:?}"); probe("op.coerced_slice"); sim::nontrivial(); let Some(b) = sim::sut_ok("unsize", || { let b: Bx<[V]> = b.unsize(Coercion::to_slice()); b }) else { return }; B::Slice(b) }
                    b => b,
                };
                self.boxes.push(E { b, ids, mem, extent, inner });
            }
            7 | 8 => {
                let E { b, ids, mem, extent, inner } = self.boxes.swap_remove(i);
                let raw = match b {
                    B::One(b) => { let Some(u) = sim::sut_ok("into_raw", || MyBox::into_raw(b)) else { return }; if !self.same(&u, mem, extent) { return; } Raw::One(u) }
                    B::Dyn(b) => { let Some(u) = sim::sut_ok("into_raw", || MyBox::into_raw(b)) else { return }; if !self.same(&u, mem, extent) { return; } Raw::Dyn(u) }
                    B::Slice(b) => { let Some(u) = sim::sut_ok("into_raw", || MyBox::into_raw(b)) else { return }; if !self.same(&u, mem, extent) { return; } Raw::Slice(u) }
                    b => return self.boxes.push(E { b, ids, mem, extent, inner }),
                };
                crate::tr!("take the box of {ids:?} apart");
                probe("op.raw");
                self.raws.push((raw, ids, mem, extent));
            }
            9 | 10 => if !self.raws.is_empty() {
                let j = draw(self.raws.len() as u32) as usize;
                let (raw, ids, mem, extent) = self.raws.swap_remove(j);
                crate::tr!("make a box of {ids:?} again");
                probe("op.from_raw");
                let b = match raw {
                    Raw::One(u) => sim::sut_ok("from_raw", || B::One(unsafe { MyBox::from_raw(u) })),
                    Raw::Dyn(u) => sim::sut_ok("from_raw", || B::Dyn(unsafe { MyBox::from_raw(u) })),
                    Raw::Slice(u) => sim::sut_ok("from_raw", || B::Slice(unsafe { MyBox::from_raw(u) })),
                };
                let Some(b) = b else { return };
                self.boxes.push(E { b, ids, mem, extent, inner: None });
            },
            11 => {
                let E { b, ids, mem, extent, inner } = self.boxes.swap_remove(i);
                match b {
                    B::One(b) => {
                        crate::tr!("leak the box of {ids:?}");
                        let Some(r) = sim::sut_ok("leak", || MyBox::leak(b)) else { return };
                        if r as *const V as usize != mem || r.read() != Some(ids[0]) { fail("wrong-value", "the leaked value is not where it was".to_string()); return; }
                        probe("op.leaked");
                        self.leaked.push((r, ids[0]));
                    }
                    b => if chance(1, 3) { crate::tr!("forget the box of {ids:?}"); probe("op.forgotten"); std::mem::forget(b); self.lost.extend_from_slice(&ids); } else { self.boxes.push(E { b, ids, mem, extent, inner }) },
                }
            }
            12 => {
                // Assign to what is in it: the former value is dropped.
                let (v, id) = self.value();
                let e = &mut self.boxes[i];
                let (old, mem) = (e.ids[0], e.mem);
                let r = match &mut e.b { B::One(b) => sim::sut(|| **b = v), B::Arr(b) => sim::sut(|| b[0] = v), B::Slice(b) => sim::sut(|| b[0] = v), _ => { let _ = sim::sut(|| drop(v)); return } };
                crate::tr!("assign {id} over {old}");
                if let Err(p) = r { if !sim::is_injected(&p) { fail("panic", "assigning panicked".to_string()); } }
                self.boxes[i].ids[0] = id;
                track::pin_at(id, mem);
                probe("op.assigned");
            }
            13 => {
                let j = draw(self.boxes.len() as u32) as usize;
                if i == j { return; }
                let (a, b) = (i.min(j), i.max(j));
                let (x, y) = self.boxes.split_at_mut(b);
                let (x, y) = (&mut x[a], &mut y[0]);
                if let (B::One(p), B::One(q)) = (&mut x.b, &mut y.b) {
                    crate::tr!("swap {:?} with {:?}", x.ids, y.ids);
                    std::mem::swap(&mut **p, &mut **q);
                    std::mem::swap(&mut x.ids, &mut y.ids);
                    pins(&x.ids, x.mem, 0); pins(&y.ids, y.mem, 0);
                    probe("op.swapped");
                }
            }
            14 => {
                let E { b, ids, mem, extent, inner } = self.boxes.swap_remove(i);
                match b {
                    B::One(b) => {
                        let u = self.memory::<Bx<V>>();
                        let (m, x) = (u.as_ptr() as usize, u.size());
                        crate::tr!("box the box of {ids:?}");
                        let Some(b) = sim::sut_ok("new", || MyBox::new(b, u)) else { return };
                        probe("op.nested");
                        self.boxes.push(E { b: B::Nested(b), ids, mem: m, extent: x, inner: Some((mem, extent)) });
                    }
                    b => self.boxes.push(E { b, ids, mem, extent, inner }),
                }
            }
            15 if self.faults => {
                let E { b, ids, .. } = self.boxes.swap_remove(i);
                crate::tr!("unwind out of the owner of the box of {ids:?}");
                sim::fault("fault.owner_panics");
                let _ = sim::sut(move || { let _b = b; sim::inject(22) });
                for id in ids { if track::counted(id) && track::is_live(id) { fail("missing-drop", format!("unwinding did not drop value {id}")); return; } }
            }
            _ => {
                // Part of the memory that was given back is used by itself.
                if self.mem.is_empty() { return; }
                let j = draw(self.mem.len() as u32) as usize;
                let (mut m, salt) = self.mem.swap_remove(j);
                let n = range(0, m.size());
                let Some(Some(t)) = sim::sut_ok("split_at_byte", || m.split_at_byte(n)) else { fail("wrong-extent", format!("memory of {} bytes was not split at {n}", m.size())); return };
                let _ = salt;
                self.give_back(m);
                self.give_back(t);
                probe("op.memory_split");
            }
        }
    }
    fn check(&self, when: &str) {
        let _q = track::quiet();
        let mut owned = self.lost.clone();
        for e in &self.boxes { if !intact(e, when) { return; } owned.extend_from_slice(&e.ids); }
        for (_, ids, ..) in &self.raws { owned.extend_from_slice(ids); }
        for (r, id) in &self.leaked { if r.read() != Some(*id) { fail("wrong-value", format!("{when}: leaked value {id} is not intact")); return; } owned.push(*id); }
        track::expect_owned(&owned, when);
        for (m, salt) in &self.mem { if unsafe { arena::vsim_dirt_check(m.as_ptr() as *const u8, m.size(), *salt) } >= 0 { fail("corrupted", format!("{when}: memory given back was written to")); return; } }
    }
}
fn run<V: Val>() {
    let mut w: World<V> = World { boxes: vec![], raws: vec![], mem: vec![], leaked: vec![], lost: vec![], faults: chance(1, 2), salt: 300 };
    for _ in 0..range(2, 40) {
        w.step();
        if sim::failed() { return std::mem::forget(w); }
        w.check("after an operation");
        if sim::failed() { return std::mem::forget(w); }
    }
    while let Some(e) = w.boxes.pop() { w.drop_box(e); if sim::failed() { return std::mem::forget(w); } }
    w.check("at the end");
    arena::check("boxes");
}
/// Boxes of large values, and of slices of very many.
enum Lg<V: Elem> { One(Bx<V>), Slice(Bx<[V]>), Ref(&'static mut V) }
struct Le<V: Elem> { b: Lg<V>, ids: Vec<u32>, mem: usize, extent: usize }
impl<V: Elem> Le<V> { fn slice(&self) -> &[V] { match &self.b { Lg::One(b) => std::slice::from_ref(&**b), Lg::Slice(b) => &**b, Lg::Ref(r) => std::slice::from_ref(&**r) } } }
fn large<V: Elem>() {
    many::reset();
    let size = size_of::<V>();
    let mut all: std::mem::ManuallyDrop<Vec<Le<V>>> = std::mem::ManuallyDrop::new(vec![]);
    let mut used = 0;
    for _ in 0..range(2, 10) {
        sim::step();
        if (all.is_empty() || chance(1, 3)) && used < 2 << 20 {
            let n = if size > 4096 { range(1, 3) } else { many::count(100_000) };
            let one = size > 4096 && chance(3, 4);
            let n = if one { 1 } else { n };
            let extent = size * n + if chance(1, 2) { range(1, 100_000) } else { 0 };
            let mem = arena::place(extent, align_of::<V>(), if chance(1, 2) { align_of::<V>() } else { 0 });
            arena::dirt(mem, extent, 310);
            used += extent;
            let from = many::take(n);
            crate::tr!("box {n} {} in {extent} bytes", V::NAME);
            let u = unsafe { Uninit::<'static, ()>::from_memory(NonNull::new_unchecked(mem as *mut u8), extent) };
            let b = if one {
                let Some(b) = sim::sut_ok("new", || { let u = u.cast::<V>().unwrap(); if from % 2 == 0 { MyBox::new(V::make(from), u) } else { u.into_box(V::make(from)) } }) else { return };
                Lg::One(b)
            } else {
                let Some(b) = sim::sut_ok("from_raw", || {
                    let u = u.cast_slice::<V>().unwrap();
                    let cap = u.capacity();
                    if size > 0 && cap != u.size() / size || cap < n { fail("wrong-capacity", format!("memory of {extent} bytes holds {cap} elements")); return None; }
                    let p = u.as_begin_ptr();
                    for i in 0..n { unsafe { p.add(i).write(V::make(from + i as u32)); } }
                    let mut u = u;
                    if size > 0 { u.split_at(n).unwrap(); }
                    Some(unsafe { if size > 0 { MyBox::from_raw(u) } else { MyBox::from_raw(Uninit::new(NonNull::slice_from_raw_parts(NonNull::new_unchecked(p), n), extent)) } })
                }) else { return };
                let Some(b) = b else { return };
                Lg::Slice(b)
            };
            probe("op.large_boxed");
            all.push(Le { b, ids: (from..from + n as u32).collect(), mem, extent });
        } else if !all.is_empty() {
            let k = draw(all.len() as u32) as usize;
            let Le { b, ids, mem, extent } = all.swap_remove(k);
            let b = match b {
                Lg::One(b) => match draw(6) {
                    0 => { crate::tr!("drop it"); if sim::sut_ok("drop", move || drop(b)).is_none() { return; } arena::dirt(mem, extent, 311); continue; }
                    1 | 2 => {
                        crate::tr!("take it out");
                        let Some((v, u)) = sim::sut_ok("take", || { let (v, u) = MyBox::take(b); (Box::new(v), u) }) else { return };
                        if !v.is(ids[0]) { fail("wrong-value", format!("{} was not taken intact", V::NAME)); std::mem::forget(v); return; }
                        if u.as_ptr() as usize != mem || u.size() != extent { fail("wrong-extent", format!("{} bytes were given back of {extent}", u.size())); std::mem::forget(v); return; }
                        arena::dirt(mem, extent, 312);
                        probe("op.large_taken");
                        // It goes back into the same memory.
                        let Some(b) = sim::sut_ok("new", || MyBox::new(*v, u)) else { return };
                        Lg::One(b)
                    }
                    3 => { let Some(b) = sim::sut_ok("into_raw", || unsafe { let u = MyBox::into_raw(b); let b: Bx<V> = MyBox::from_raw(u); b }) else { return }; Lg::One(b) }
                    4 => { crate::tr!("unwind out of its owner"); sim::fault("fault.owner_panics"); let _ = sim::sut(move || { let _b = b; sim::inject(22) }); continue; }
                    _ => { let Some(r) = sim::sut_ok("leak", || MyBox::leak(b)) else { return }; Lg::Ref(r) }
                },
                Lg::Slice(b) => match draw(3) {
                    0 => { crate::tr!("drop {} of them", ids.len()); if sim::sut_ok("drop", move || drop(b)).is_none() { return; } arena::dirt(mem, extent, 313); continue; }
                    1 => { sim::fault("fault.owner_panics"); let _ = sim::sut(move || { let _b = b; sim::inject(22) }); continue; }
                    _ => Lg::Slice(b),
                },
                b => b,
            };
            all.push(Le { b, ids, mem, extent });
        }
        for e in &*all {
            if e.slice().as_ptr() as usize != e.mem { fail("wrong-place", "a large value is not where it was put".to_string()); return; }
            if !many::same(e.slice(), &e.ids, "a large box") { return; }
        }
        if !many::alive::<V>(all.iter().map(|x| &x.ids[..]), "large boxes") { return; }
    }
    sim::nontrivial();
    for e in unsafe { std::mem::ManuallyDrop::take(&mut all) } { match e.b { Lg::Ref(r) => unsafe { std::ptr::drop_in_place(r) }, b => if sim::sut_ok("drop", move || drop(b)).is_none() { return; } } }
    many::alive::<V>(std::iter::empty(), "when the large boxes are gone");
    arena::check("large boxes");
}
pub fn c18() {
    if draw(512) == 511 { return with_lump!(draw(8), V => large::<V>()); }
    with_any_val!(draw(11), V => run::<V>())
}
