//! C15 and C16: `FixedVec` and `Drain` against an ordinary vector.
use crate::arena;
use crate::sim::{self, chance, draw, fail, note, pick, probe, range, Payload};
use crate::track::{self, Val, ZST_ID};
use crate::many::{self, Elem};
use crate::{with_elem, with_any_val};
use std::mem::{align_of, size_of, MaybeUninit};
use std::ops::Bound;
use std::ptr::NonNull;
use without_alloc::{FixedVec, Uninit};

struct Entry<V: 'static> { vec: FixedVec<'static, V>, ids: Vec<u32>, cap: usize, locked: bool, name: u32, scope: u32 }
struct Spare { mem: Uninit<'static, ()>, salt: u64, scope: u32 }
struct World<V: 'static> { vecs: Vec<Box<Entry<V>>>, spares: Vec<Spare>, lost: Vec<u32>, faults: bool, big: bool, salt: u64, names: u32, budget: u32 }

impl<V: Val> Entry<V> {
    fn is_zst() -> bool { size_of::<V>() == 0 }
    fn full(&self) -> bool { self.ids.len() == self.cap }
    fn check(&self, when: &str) {
        let n = self.name;
        if self.vec.len() != self.ids.len() || self.vec.is_empty() != self.ids.is_empty() { fail("wrong-length", format!("{when}: vector {n} has {} elements instead of {}", self.vec.len(), self.ids.len())); return; }
        if self.vec.capacity() != self.cap { fail("wrong-capacity", format!("{when}: vector {n} has capacity {} instead of {}", self.vec.capacity(), self.cap)); return; }
        same(self.vec.as_slice(), &self.ids, &format!("{when}: vector {n}"));
    }
    /// Take over what is in the vector, all of which must have been in it.
    fn resync(&mut self, from: &[u32], when: &str) {
        let mut now = Vec::new();
        if self.vec.len() > self.cap { fail("wrong-length", format!("{when}: more elements than the capacity")); return; }
        if self.vec.len() > from.len() { fail("wrong-length", format!("{when}: {} elements instead of at most {}", self.vec.len(), from.len())); return; }
        let mut at = 0;
        for v in self.vec.as_slice() {
            let Some(id) = v.read() else { fail("wrong-value", format!("{when}: the vector exposes an element which is not alive")); return; };
            match from[at..].iter().position(|&x| x == id) { Some(i) => at += i + 1, None => { fail("wrong-value", format!("{when}: the vector has element {id} out of order")); return; } }
            now.push(id);
        }
        self.ids = now;
    }
}
fn same<V: Val>(s: &[V], ids: &[u32], what: &str) {
    if s.len() != ids.len() { fail("wrong-length", format!("{what}: {} elements instead of {}", s.len(), ids.len())); return; }
    if s.as_ptr() as usize % align_of::<V>() != 0 { fail("misaligned", format!("{what}: elements are not aligned")); return; }
    for (v, &id) in s.iter().zip(ids) { let got = v.read(); if got != Some(id) { fail("wrong-value", format!("{what}: element {got:?} instead of {id}, all of {ids:?}")); return; } }
}
fn injected(r: Result<(), Payload>, what: &str) -> bool {
    match r { Ok(()) => false, Err(p) => { if !sim::is_injected(&p) { fail("panic", format!("{what} panicked: {}", sim::panic_text(&p))); } probe("op.unwound"); true } }
}
/// A source of items, which remembers what it has given out.
struct Source { left: usize, given: std::rc::Rc<std::cell::RefCell<Vec<u32>>>, panic_at: usize, lie: u32, ends: bool, after: usize }
impl Source { fn item<V: Val>(&mut self) -> Option<V> {
    let _q = track::quiet();
    let n = self.given.borrow().len();
    if n == self.panic_at { self.panic_at = usize::MAX; sim::fault("fault.iterator_panics"); crate::tr!("      the iterator panics"); drop(_q); sim::inject(15) }
    if self.left == 0 { if !self.ends { self.left = self.after; self.ends = true; } return None; }
    self.left -= 1;
    let v = V::make();
    self.given.borrow_mut().push(v.read().unwrap());
    Some(v)
} }
struct Items<V>(Source, std::marker::PhantomData<V>);
impl<V: Val> Iterator for Items<V> {
    type Item = V;
    fn next(&mut self) -> Option<V> { self.0.item() }
    fn size_hint(&self) -> (usize, Option<usize>) { match self.0.lie { 0 => (self.0.left, Some(self.0.left)), 1 => (0, None), 2 => (usize::MAX, None), 3 => (0, Some(0)), _ => (self.0.left + 1000, Some(self.0.left + 1000)) } }
}

impl<V: Val> World<V> {
    fn new_vec(&mut self) {
        let size = size_of::<V>();
        let n = match draw(8) { 0 => 0, 1 => 1, _ if self.big => range(40, 600), _ => range(2, 9) };
        let way = draw(4);
        let name = self.names;
        self.names += 1;
        let (vec, cap) = if way < 2 {
            let bytes = n * size + range(0, 2 * size.max(4));
            let at = arena::place(bytes, 64, draw(64) as usize);
            arena::dirt(at, bytes, 60);
            let pad = at.next_multiple_of(align_of::<V>()) - at;
            let cap = if size == 0 { usize::MAX } else { bytes.saturating_sub(pad) / size };
            let Some(v) = sim::sut_ok("from_unaligned", || unsafe { FixedVec::from_unaligned(Uninit::from_memory(NonNull::new_unchecked(at as *mut u8), bytes)) }) else { return };
            crate::tr!("vector {name} in {bytes} bytes, {pad} from alignment");
            (v, cap)
        } else {
            let at = arena::place(n * size, 64, 32 * draw(2) as usize);
            arena::dirt(at, n * size, 61);
            let mem: &'static mut [MaybeUninit<V>] = unsafe { std::slice::from_raw_parts_mut(at as *mut MaybeUninit<V>, n) };
            let Some(v) = sim::sut_ok("new", || FixedVec::new(if way == 2 { Uninit::from(mem) } else { Uninit::from_maybe_uninit_slice(mem) })) else { return };
            crate::tr!("vector {name} in memory for {n} elements");
            (v, if size == 0 { usize::MAX } else { n })
        };
        let e = Entry { vec, ids: vec![], cap, locked: false, name, scope: 0 };
        e.check("new");
        self.vecs.push(Box::new(e));
    }
    fn spare(&mut self, mem: Uninit<'static, ()>, scope: u32) {
        self.salt += 1;
        arena::dirt(mem.as_ptr() as usize, mem.size(), self.salt);
        self.spares.push(Spare { mem, salt: self.salt, scope });
    }
    fn check(&mut self, when: &str) {
        let _q = track::quiet();
        let mut owned: Vec<u32> = self.extra_ids();
        for e in &self.vecs { if !e.locked { e.check(when); } owned.extend_from_slice(&e.ids); }
        if sim::failed() { return; }
        for s in &self.spares {
            let bad = unsafe { arena::vsim_dirt_check(s.mem.as_ptr() as *const u8, s.mem.size(), s.salt) };
            if bad >= 0 { fail("corrupted", format!("{when}: memory given back by shrinking was written to")); return; }
        }
        // Elements which may be lost.
        let lost: Vec<u32> = self.lost.iter().copied().filter(|&i| i == ZST_ID || track::counted(i) && track::is_live(i)).collect();
        let zst_lost = lost.iter().filter(|&&i| i == ZST_ID).count() as i64;
        let zst = owned.iter().filter(|&&i| i == ZST_ID).count() as i64;
        let sized: Vec<u32> = owned.iter().chain(lost.iter()).copied().filter(|&i| track::counted(i)).collect();
        track::expect_live(&sized, when);
        let have = track::reg().zst_live;
        if have < zst { fail("early-drop", format!("{when}: {} zero-sized elements were dropped although still owned", zst - have)); }
        if have > zst + zst_lost { fail("missing-drop", format!("{when}: {} zero-sized elements were not dropped", have - zst)); }
    }
    fn extra_ids(&self) -> Vec<u32> { Vec::new() }
    fn value(&mut self) -> (V, u32) {
        let v = V::make();
        let id = v.read().unwrap();
        if self.faults && chance(1, 8) { track::set_panics(id, true); }
        (v, id)
    }
    fn pick_free(&self) -> Option<usize> {
        let free: Vec<usize> = (0..self.vecs.len()).filter(|&i| !self.vecs[i].locked).collect();
        if free.is_empty() { None } else { Some(pick(&free)) }
    }
    fn source(&mut self, unused: usize) -> Source {
        let unused = unused.min(if self.big { 700 } else { 12 });
        let left = match draw(6) { 0 => 0, 1 => unused, 2 => unused + 1, 3 => unused.saturating_sub(1), _ => range(0, unused + 3) };
        Source { left, given: Default::default(), panic_at: if self.faults && chance(1, 4) { range(0, left) } else { usize::MAX }, lie: if chance(1, 3) { draw(5) } else { 0 }, ends: chance(3, 4), after: 2 }
    }

    fn step(&mut self, depth: u32) {
        if sim::failed() || self.budget == 0 { return; }
        self.budget -= 1;
        sim::step();
        if self.vecs.is_empty() || (self.vecs.len() < 4 && chance(1, 12)) { self.new_vec(); return; }
        let Some(i) = self.pick_free() else { return };
        // The entries are boxed, and only removed when not locked.
        let e: &mut Entry<V> = unsafe { &mut *(&mut *self.vecs[i] as *mut Entry<V>) };
        let name = e.name;
        match draw(27) {
            26 => {
                // Elements placed and taken through the pointers to the memory.
                let add = !e.full() && chance(1, 2);
                let n = e.ids.len();
                let Some((a, b, c)) = sim::sut_ok("pointers", || (e.vec.as_ptr() as usize, e.vec.as_mut_ptr() as usize, e.vec.as_slice().as_ptr() as usize)) else { return };
                if a != b || a != c { fail("wrong-place", format!("vector {name}: the pointers to its elements are not the same")); return; }
                if add {
                    let (v, id) = self.value();
                    crate::tr!("vector {name}: {id} placed by its pointer");
                    if sim::sut_ok("set_len", || unsafe { e.vec.as_mut_ptr().add(n).write(v); e.vec.set_len(n + 1) }).is_none() { return; }
                    e.ids.push(id);
                } else if n > 0 {
                    let id = e.ids.pop().unwrap();
                    crate::tr!("vector {name}: {id} taken by its pointer");
                    let Some(v) = sim::sut_ok("set_len", || unsafe { e.vec.set_len(n - 1); e.vec.as_ptr().add(n - 1).read() }) else { return };
                    if v.read() != Some(id) { fail("wrong-value", format!("vector {name}: took {:?} instead of {id}", v.read())); return; }
                    track::set_panics(id, false);
                    drop(v);
                }
                probe("op.by_pointer");
            }
            0..=6 => {
                for _ in 0..range(1, 3) {
                    let (v, id) = self.value();
                    let Some(r) = sim::sut_ok("push", || e.vec.push(v)) else { return };
                    match r {
                        Ok(()) => { crate::tr!("vector {name}: push {id}"); probe("op.pushed"); if e.full() { fail("accepted", format!("vector {name} of capacity {} accepted another element", e.cap)); } e.ids.push(id); }
                        Err(v) => {
                            crate::tr!("vector {name}: push {id} refused");
                            probe("op.push_refused");
                            if !e.full() { fail("refused", format!("vector {name} with {} of {} elements refused another one", e.ids.len(), e.cap)); }
                            if v.read() != Some(id) { fail("wrong-value", "the refused element is not handed back intact".to_string()); std::mem::forget(v); return; }
                            injected(sim::sut(|| drop(v)), "dropping a refused element");
                        }
                    }
                    if sim::failed() { return; }
                }
            }
            7 | 8 => {
                let Some(r) = sim::sut_ok("pop", || e.vec.pop()) else { return };
                let want = e.ids.pop();
                crate::tr!("vector {name}: pop {want:?}");
                probe("op.popped");
                match (&r, want) { (None, None) => {} (Some(v), Some(id)) if v.read() == Some(id) => {} _ => { fail("wrong-value", format!("pop did not give {want:?}")); std::mem::forget(r); return; } }
                injected(sim::sut(|| drop(r)), "dropping");
            }
            9 | 10 => {
                let to = match draw(5) { 0 => 0, 1 => pick(&[usize::MAX, e.ids.len() + 1, e.ids.len()]), _ => range(0, e.ids.len()) };
                let clear = to == 0 && chance(1, 2);
                crate::tr!("vector {name}: truncate {:?} to {to}", e.ids);
                let had = e.ids.clone();
                let from = track::drops();
                if injected(sim::sut(|| if clear { e.vec.clear() } else { e.vec.truncate(to) }), "truncate") {
                    e.resync(&had, "after a panic in truncate");
                    if sim::failed() { return; }
                    if e.ids.len() < to.min(had.len()) || e.ids[..to.min(had.len())] != had[..to.min(had.len())] { fail("wrong-value", format!("truncating {had:?} to {to} left {:?}", e.ids)); return; }
                    // What is no longer in it has been dropped, all of it.
                    probe("op.truncate_panicked");
                } else { e.ids.truncate(to); note((track::drops() - from) as u64); probe("op.truncated"); }
            }
            11 | 12 => {
                let unused = e.cap - e.ids.len();
                let mut s = self.source(unused);
                let given = s.given.clone();
                let (avail, panics) = (s.left, s.panic_at);
                let extend = chance(1, 3);
                // `extend` may ask again after the end.
                if extend { s.ends = true; }
                crate::tr!("vector {name}: {} from {avail} items", if extend { "extend" } else { "fill" });
                let had = e.ids.clone();
                let mut rest = None;
                let r = sim::sut(|| if extend { e.vec.extend(Items(s, Default::default())) } else { rest = Some(e.vec.fill(Items(s, Default::default()))) });
                let took = given.borrow().clone();
                let fits = avail.min(unused);
                let panicked = match r {
                    Ok(()) if extend && avail > unused => { fail("accepted", format!("a vector with room for {unused} more elements was extended by {avail}")); return; }
                    Ok(()) => false,
                    Err(p) if sim::is_injected(&p) => { if panics > avail { fail("panic", "a panic came out of nowhere".to_string()); return; } true }
                    Err(p) => { if !(extend && avail > unused) { fail("panic", format!("filling panicked: {}", sim::panic_text(&p))); return; } probe("op.extend_too_much"); false }
                };
                let mut all = had.clone();
                all.extend_from_slice(&took);
                if panicked {
                    e.resync(&all, "after a panic of the iterator");
                    if sim::failed() { return; }
                    if e.ids.len() < had.len() || e.ids[..had.len()] != had[..] { fail("wrong-value", format!("the vector {had:?} became {:?} by a panicking iterator", e.ids)); return; }
                    probe("op.fill_panicked");
                } else {
                    all.truncate(had.len() + fits);
                    e.ids = all;
                    probe("op.filled");
                    // Nothing is taken that does not fit.
                    if !extend && took.len() != fits { fail(if took.len() < fits { "took-too-little" } else { "took-too-much" }, format!("{} items were taken from the iterator but {fits} fit", took.len())); if let Some(r) = rest { std::mem::forget(r); } return; }
                    // Where it was interrupted by the end, its continuation may be used.
                    if let Some(mut rest) = rest {
                        if avail > fits {
                            let mut next = None;
                            if injected(sim::sut(|| next = rest.next()), "continuing the iterator") { return; }
                            let want = given.borrow().last().copied(); match next { Some(v) if v.read() == want => { injected(sim::sut(|| drop(v)), "dropping"); } x => { fail("wrong-value", "the rest of the iterator does not have the next item".to_string()); std::mem::forget(x); return; } } }
                        drop(rest);
                    }
                }
            }
            13..=15 => self.drain(i, depth),
            16 | 17 => {
                let at = match draw(4) { 0 => e.ids.len(), 1 => e.cap.min(1000), _ => range(0, e.cap.min(if self.big { 700 } else { 10 })) };
                if chance(1, 12) && e.cap < usize::MAX {
                    let beyond = e.cap + range(1, 3);
                    crate::tr!("vector {name}: split beyond its capacity");
                    let r = sim::sut(|| { let v = e.vec.split_and_shrink_to(beyond); std::mem::forget(v) });
                    if r.is_ok() { fail("accepted", format!("a vector of capacity {} was split at {beyond}", e.cap)); }
                    probe("op.split_refused");
                    return;
                }
                crate::tr!("vector {name}: split {:?} of {} at {at}", e.ids, e.cap);
                let Some(v) = sim::sut_ok("split_and_shrink_to", || e.vec.split_and_shrink_to(at)) else { return };
                let ids = e.ids.split_off(at.min(e.ids.len()));
                let cap = if Entry::<V>::is_zst() { usize::MAX } else { e.cap - at };
                if !Entry::<V>::is_zst() { e.cap = at; }
                let name = self.names;
                self.names += 1;
                probe("op.split");
                sim::nontrivial();
                let scope = e.scope;
                self.vecs.push(Box::new(Entry { vec: v, ids, cap, locked: false, name, scope }));
            }
            18 => {
                // Borrowed: this vector is locked meanwhile.
                let at = match draw(4) { 0 => e.ids.len(), 1 => e.cap.min(1000), _ => range(0, e.cap.min(if self.big { 700 } else { 10 })) };
                crate::tr!("vector {name}: split off temporarily at {at}");
                let full: &'static mut FixedVec<'static, V> = unsafe { &mut *(&mut e.vec as *mut _) };
                let Some(v) = sim::sut_ok("split_borrowed", || full.split_borrowed(at)) else { return };
                let ids = e.ids.split_off(at.min(e.ids.len()));
                let cap = if Entry::<V>::is_zst() { usize::MAX } else { e.cap - at };
                e.locked = true;
                let sub = self.names;
                self.names += 1;
                probe("op.split_borrowed");
                self.vecs.push(Box::new(Entry { vec: v, ids, cap, locked: false, name: sub, scope: sub }));
                for _ in 0..range(0, 4) { if depth < 3 { self.step(depth + 1); } if sim::failed() { return; } self.check("while split"); if sim::failed() { return; } }
                // Everything made of the borrowed part is gone before the borrow ends.
                self.spares.retain(|s| s.scope != sub);
                while let Some(j) = self.vecs.iter().rposition(|x| x.scope == sub) {
                    if self.vecs[j].locked { return; }
                    let x = self.vecs.remove(j);
                    self.drop_vec(*x, "the borrowed part");
                }
                if sim::failed() { return; }
                let e = &mut self.vecs[i];
                e.locked = false;
            }
            19 => {
                if Entry::<V>::is_zst() { return; }
                crate::tr!("vector {name}: shrink to fit");
                let Some(mem) = sim::sut_ok("shrink_to_fit", || e.vec.shrink_to_fit()) else { return };
                if mem.size() >= size_of::<V>() && size_of::<V>() > 0 { fail("wrong-capacity", format!("shrinking gave back {} bytes, enough for an element", mem.size())); return; }
                probe("op.shrunk");
                let scope = e.scope;
                self.spare(mem, scope);
            }
            20 => if !self.spares.is_empty() {
                // Memory that was given back is used for another vector.
                let j = draw(self.spares.len() as u32) as usize;
                let s = self.spares.swap_remove(j);
                let (at, bytes) = (s.mem.as_ptr() as usize, s.mem.size());
                let s_mem = s.mem;
                let size = size_of::<V>();
                let pad = at.next_multiple_of(align_of::<V>()) - at;
                let Some(v) = sim::sut_ok("from_unaligned", || FixedVec::from_unaligned(s_mem)) else { return };
                let cap = if size == 0 { usize::MAX } else { bytes.saturating_sub(pad) / size };
                let name = self.names;
                self.names += 1;
                probe("op.memory_reused");
                self.vecs.push(Box::new(Entry { vec: v, ids: vec![], cap, locked: false, name, scope: s.scope }));
            },
            21 => if !e.ids.is_empty() {
                let (v, id) = self.value();
                let j = draw(e.ids.len() as u32) as usize;
                crate::tr!("vector {name}: assign {id} over {}", e.ids[j]);
                let r = sim::sut(|| e.vec[j] = v);
                e.ids[j] = id;
                injected(r, "assigning");
            },
            22 => if e.ids.len() > 1 { crate::tr!("vector {name}: reverse"); if sim::sut_ok("reverse", || e.vec.as_mut_slice().reverse()).is_none() { return; } e.ids.reverse(); },
            23 => if self.vecs.len() > 1 && chance(1, 2) {
                let e = self.vecs.remove(i);
                // Entries behind it moved, thus nobody may hold an index across this: only at the top.
                if depth > 0 { self.vecs.insert(i, e); return; }
                self.drop_vec(*e, "a vector");
            },
            24 => if self.faults && chance(1, 2) && depth == 0 {
                let e = self.vecs.remove(i);
                crate::tr!("unwind out of the owner of vector {name}");
                sim::fault("fault.owner_panics");
                let v = e.vec;
                let _ = sim::sut(move || { let _v = v; sim::inject(16) });
            },
            _ => {
                // From one vector to another one.
                let Some(j) = self.pick_free() else { return };
                if j == i { return; }
                let o: &mut Entry<V> = unsafe { &mut *(&mut *self.vecs[j] as *mut Entry<V>) };
                let (a, b) = { let a = range(0, o.ids.len()); (a, range(a, o.ids.len())) };
                crate::tr!("fill vector {name} from a drain {a}..{b} of vector {}", o.name);
                let n = (e.cap - e.ids.len()).min(b - a);
                if self.faults { for id in &o.ids[a..b] { track::set_panics(*id, false); } }
                let r = sim::sut_ok("fill from drain", || { let rest = e.vec.fill(o.vec.drain(a..b)); rest.as_slice().len() });
                let Some(r) = r else { return };
                if r != b - a - n { fail("took-too-much", format!("{r} elements are left of {} of which {n} fit", b - a)); return; }
                probe("op.moved_between");
                let part: Vec<u32> = o.ids.drain(a..b).collect();
                e.ids.extend_from_slice(&part[..n]);
            }
        }
    }
    fn drop_vec(&mut self, e: Entry<V>, what: &str) {
        crate::tr!("drop vector {} with {:?}", e.name, e.ids);
        let Entry { vec, ids, .. } = e;
        probe("op.vec_dropped");
        injected(sim::sut(move || drop(vec)), "dropping a vector");
        for id in ids { if track::counted(id) && track::is_live(id) { fail("missing-drop", format!("dropping {what} did not drop element {id}")); return; } }
    }
    fn drain(&mut self, i: usize, depth: u32) {
        let e: &mut Entry<V> = unsafe { &mut *(&mut *self.vecs[i] as *mut Entry<V>) };
        let (name, n) = (e.name, e.ids.len());
        if chance(1, 16) {
            let bad = match draw(5) { 3 => (Bound::Included(range(0, n)), Bound::Included(usize::MAX)), 4 => (Bound::Excluded(usize::MAX), if chance(1, 2) { Bound::Unbounded } else { Bound::Excluded(range(0, n)) }), 0 => (Bound::Included(n + 1), Bound::Unbounded), 1 => (Bound::Unbounded, Bound::Excluded(n + 1)), _ => if n > 0 { (Bound::Included(n), Bound::Excluded(n - 1)) } else { (Bound::Included(1), Bound::Excluded(1)) } };
            crate::tr!("vector {name}: drain {bad:?} of {n}");
            let r = sim::sut(|| { let d = e.vec.drain(bad); std::mem::forget(d) });
            if r.is_ok() { fail("accepted", format!("a range {bad:?} was drained from {n} elements")); }
            probe("op.drain_refused");
            return;
        }
        let a = range(0, n);
        let b = range(a, n);
        let bounds = (match draw(3) { 0 if a == 0 => Bound::Unbounded, 1 if a > 0 => Bound::Excluded(a - 1), _ => Bound::Included(a) }, match draw(3) { 0 if b == n => Bound::Unbounded, 1 if b > 0 && b > a => Bound::Included(b - 1), _ => Bound::Excluded(b) });
        crate::tr!("vector {name}: drain {a}..{b} of {:?}", e.ids);
        let Some(mut d) = sim::sut_ok("drain", || e.vec.drain(bounds)) else { return };
        probe("op.drain");
        let all = e.ids.clone();
        let mut inner: std::collections::VecDeque<u32> = all[a..b].iter().copied().collect();
        let tail: Vec<u32> = all[b..].to_vec();
        e.locked = true;
        for _ in 0..range(0, 5) {
            if sim::failed() { std::mem::forget(d); return; }
            match draw(6) {
                x @ (0..=2 | 5) => {
                    let back = x == 2 || x == 5;
                    let Some(v) = sim::sut_ok("next", || if back { d.next_back() } else { d.next() }) else { std::mem::forget(d); return };
                    let want = if back { inner.pop_back() } else { inner.pop_front() };
                    crate::tr!("vector {name}: drained {want:?}");
                    match (&v, want) { (None, None) => {} (Some(v), Some(id)) if v.read() == Some(id) => {} _ => { fail("wrong-value", format!("the drain did not give {want:?}")); std::mem::forget((v, d)); return; } }
                    // The element is owned by the caller now.
                    if want.is_some() { e.ids.remove(if back { a + inner.len() } else { a }); }
                    injected(sim::sut(|| drop(v)), "dropping");
                    probe("op.drained");
                }
                3 => {
                    let ids: Vec<u32> = inner.iter().copied().collect();
                    same(d.as_slice(), &ids, "the drain");
                    same(d.as_mut_slice(), &ids, "the drain");
                    if d.len() != ids.len() || d.size_hint() != (ids.len(), Some(ids.len())) || d.is_empty() != ids.is_empty() { fail("wrong-length", "the drain reports a wrong length".to_string()); }
                }
                _ => if depth < 2 { self.step(depth + 1); if !sim::failed() { self.check("while draining"); } },
            }
        }
        if sim::failed() { std::mem::forget(d); return; }
        let e: &mut Entry<V> = unsafe { &mut *(&mut *self.vecs[i] as *mut Entry<V>) };
        e.locked = false;
        let rest: Vec<u32> = inner.iter().copied().collect();
        let mut exact = all[..a].to_vec();
        exact.extend_from_slice(&tail);
        let had = e.ids.clone();
        let zst = Entry::<V>::is_zst();
        match draw(if self.faults { 4 } else { 8 }) {
            0 => {
                crate::tr!("vector {name}: the drain is leaked");
                sim::fault("fault.drain_leaked");
                std::mem::forget(d);
                e.resync(&had, "after a leaked drain");
                self.lost.extend(had.iter().copied().filter(|x| zst || !e.ids.contains(x)));
            }
            1 if self.faults => {
                crate::tr!("vector {name}: unwind out of the owner of the drain");
                sim::fault("fault.owner_panics");
                let _ = sim::sut(move || { let _d = d; sim::inject(17) });
                e.ids = exact;
            }
            _ => {
                let _ = rest;
                if injected(sim::sut(move || drop(d)), "dropping a drain") {
                    // The elements of the drain or the tail may be lost.
                    e.resync(&had, "after a panic in a drain");
                    self.lost.extend(had.iter().copied().filter(|x| zst || !e.ids.contains(x)));
                    probe("op.drain_panicked");
                } else { e.ids = exact; }
            }
        }
    }
}

fn run<V: Val>(faults: bool) {
    // Some have so many elements that lengths do not fit in small numbers.
    let big = chance(1, 24);
    if big { probe("op.many_elements"); }
    let mut w: World<V> = World { vecs: vec![], spares: vec![], lost: vec![], faults, big, salt: 700, names: 1, budget: if big { range(3, 16) } else { range(3, 40) } as u32 };
    while w.budget > 0 {
        w.step(0);
        if sim::failed() { return std::mem::forget(w); }
        w.check("after an operation");
        if sim::failed() { return std::mem::forget(w); }
    }
    while let Some(e) = w.vecs.pop() { w.drop_vec(*e, "a vector at the end"); if sim::failed() { return std::mem::forget(w); } }
    w.check("at the end");
    arena::check("fixed vectors");
}
/// Lengths at the end of what can be counted, possible without size only.
fn countless() {
    let mut v: FixedVec<'static, ()> = FixedVec::new(Uninit::empty());
    if v.capacity() != usize::MAX { fail("wrong-capacity", format!("a vector of zero-sized elements has a capacity of {}", v.capacity())); return; }
    let n = usize::MAX - range(0, 3);
    unsafe { v.set_len(n); }
    let mut len = n;
    for _ in 0..range(1, 6) {
        match draw(4) {
            0 | 1 => {
                let Some(r) = sim::sut_ok("push", || v.push(())) else { return };
                if r.is_ok() != (len < usize::MAX) { fail("not-the-model", format!("push to {len} elements gave {r:?}")); return; }
                if r.is_ok() { len += 1; }
            }
            2 => { let Some(r) = sim::sut_ok("pop", || v.pop()) else { return }; if r.is_none() { fail("not-the-model", format!("pop of {len} elements gave nothing")); return; } len -= 1; }
            _ => { let room = usize::MAX - len; let mut n = 0; let Some(()) = sim::sut_ok("fill", || { let _ = v.fill(std::iter::repeat_with(|| n += 1)); }) else { return }; if n != room { fail("took-too-much", format!("{n} items were taken where {room} fit")); return; } len += room; }
        }
        if v.len() != len { fail("wrong-length", format!("{} elements instead of {len}", v.len())); return; }
        probe("op.countless");
    }
    unsafe { v.set_len(0); }
}
/// Vectors of very many elements.
fn large<V: Elem>() {
    many::reset();
    let size = size_of::<V>();
    const MOST: usize = 150_000;
    let cap = many::count(MOST);
    let bytes = cap * size;
    let at = arena::place(bytes, 64, 0);
    arena::dirt(at, bytes, 62);
    let Some(v) = sim::sut_ok("from_unaligned", || unsafe { FixedVec::<V>::from_unaligned(Uninit::from_memory(NonNull::new_unchecked(at as *mut u8), bytes)) }) else { return };
    let zst = size == 0;
    let cap = if zst { usize::MAX } else { cap };
    crate::tr!("a vector for {cap} {}", V::NAME);
    let mut vs = vec![(v, Vec::<u32>::new(), cap)];
    for _ in 0..range(2, 8) {
        let k = draw(vs.len() as u32) as usize;
        let (v, ids, cap) = &mut vs[k];
        let room = *cap - ids.len();
        let n = ids.len();
        match draw(9) {
            x @ 0..=2 => {
                let extend = x == 2;
                let avail = if extend { many::count(room.min(MOST)) } else { many::count(MOST) };
                let from = many::take(avail);
                let fits = avail.min(room);
                crate::tr!("vector {k}: {} {n} elements by {avail}, room for {room}", if extend { "extend" } else { "fill" });
                let mut made = 0;
                let it = (0..avail as u32).map(|i| { made += 1; V::make(from + i) });
                let Some(()) = sim::sut_ok("fill", || if extend { v.extend(it) } else { drop(v.fill(it)) }) else { return std::mem::forget(vs) };
                if made != fits { fail("took-too-much", format!("{made} items were taken where {fits} fit")); }
                ids.extend(from..from + fits as u32);
                probe("op.large_fill");
            }
            3 => {
                let to = many::count(n + 1);
                crate::tr!("vector {k}: truncate {n} elements to {to}");
                if sim::sut_ok("truncate", || if to == 0 { v.clear() } else { v.truncate(to) }).is_none() { return std::mem::forget(vs); }
                ids.truncate(to);
                probe("op.large_truncate");
            }
            4 | 5 => {
                let (a, b) = { let a = range(0, n); (a, range(a, n)) };
                let (front, back) = { let f = range(0, b - a); (if chance(1, 2) { 0 } else { f }, if chance(1, 2) { 0 } else { range(0, b - a - f) }) };
                crate::tr!("vector {k}: drain {a}..{b} of {n}, {front} and {back} taken");
                let mut got = (0, 0);
                let mut good = true;
                let r = sim::sut_ok("drain", || {
                    let mut d = v.drain(a..b);
                    while got.0 < front { match d.next() { Some(x) => { good &= x.is(ids[a + got.0]); got.0 += 1; } None => break } }
                    while got.1 < back { match d.next_back() { Some(x) => { good &= x.is(ids[b - 1 - got.1]); got.1 += 1; } None => break } }
                    (d.len(), d.as_slice().len())
                });
                let Some(left) = r else { return std::mem::forget(vs) };
                let want = b - a - front - back;
                if left != (want, want) { fail("wrong-length", format!("a drain of {} elements with {} taken is left with {left:?}", b - a, front + back)); }
                if !good { fail("wrong-value", "the drain gave a wrong element".to_string()); }
                ids.drain(a..b);
                probe("op.large_drain");
            }
            6 => {
                let at = many::count(*cap.min(&mut MOST.clone()));
                crate::tr!("vector {k}: split {n} elements at {at}");
                let Some(o) = sim::sut_ok("split_and_shrink_to", || v.split_and_shrink_to(at)) else { return std::mem::forget(vs) };
                let rest = ids.split_off(at.min(n));
                let left = if zst { usize::MAX } else { *cap - at };
                if !zst { *cap = at; }
                vs.push((o, rest, left));
                probe("op.large_split");
            }
            7 => {
                let at = many::count(*cap.min(&mut MOST.clone()));
                let to = n.saturating_sub(at) / 2;
                crate::tr!("vector {k}: split {n} elements at {at} for a while, drop all but {to} of the second part");
                let mut rest = ids.split_off(at.min(n));
                let mut good = true;
                let r = sim::sut_ok("split_borrowed", || {
                    let mut o = v.split_borrowed(at);
                    let whole = o.len();
                    o.truncate(to);
                    rest.truncate(to);
                    good &= o.iter().zip(&rest).all(|(x, &id)| x.is(id));
                    (whole, o.len(), o.capacity())
                });
                let Some(r) = r else { return std::mem::forget(vs) };
                let want = (n.saturating_sub(at), to, if zst { usize::MAX } else { *cap - at });
                if r != want { fail("wrong-length", format!("the borrowed part had {} elements, then {}, of {} instead of {want:?}", r.0, r.1, r.2)); }
                if !good { fail("wrong-value", "the borrowed part has a wrong element".to_string()); }
                // What the part still held is gone with it.
                probe("op.large_split_borrowed");
            }
            _ => {
                if !zst && chance(1, 2) {
                    crate::tr!("vector {k}: shrink to fit {n} elements");
                    let Some(m) = sim::sut_ok("shrink_to_fit", || v.shrink_to_fit()) else { return std::mem::forget(vs) };
                    if m.size() >= size { fail("wrong-capacity", format!("shrinking gave back {} bytes", m.size())); }
                } else if vs.len() > 1 {
                    let (v, ids, _) = vs.swap_remove(k);
                    crate::tr!("vector {k}: dropped with {} elements", ids.len());
                    if sim::sut_ok("drop", move || drop(v)).is_none() { return std::mem::forget(vs); }
                }
            }
        }
        for (v, ids, cap) in &vs {
            if v.capacity() != *cap { fail("wrong-capacity", format!("a capacity of {} instead of {cap}", v.capacity())); }
            if v.len() != ids.len() { fail("wrong-length", format!("{} elements instead of {}", v.len(), ids.len())); }
            if sim::failed() || !many::same(v.as_slice(), ids, "a large vector") { break; }
        }
        if sim::failed() || !many::alive::<V>(vs.iter().map(|x| &x.1[..]), "large vectors") { return std::mem::forget(vs); }
        note(vs.iter().map(|x| x.1.len() as u64).sum());
        sim::step();
    }
    sim::nontrivial();
    if sim::sut_ok("drop", move || drop(vs)).is_none() { return; }
    many::alive::<V>(std::iter::empty(), "when the large vectors are gone");
    arena::check("large vectors");
}
fn many_elements() { with_elem!(draw(5), V => large::<V>()) }
pub fn c15() {
    if draw(64) == 63 { return countless(); }
    if draw(512) == 511 { return many_elements(); }
    with_any_val!(draw(11), V => run::<V>(chance(1, 8)))
}
pub fn c16() { if draw(512) == 511 { return many_elements(); } with_any_val!(draw(11), V => run::<V>(chance(7, 8))) }
