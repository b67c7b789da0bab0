//! C22 and C23: filling containers from scripted streams.
use crate::sim::{self, chance, draw, fail, pick, probe, range, Payload};
use crate::track::{self, Val, ZST_ID};
use crate::many::{self, Elem};
use crate::{with_elem, with_any_val};
use fill::Fill;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev { Item, Err, End, Panic }
/// What a stream does, and what it has done. After the script there is only what `tail` says.
struct Script { evs: Vec<Ev>, tail: Ev, pos: usize, given: Vec<u32>, lie: u32, polls: usize, dropped: u32 }
impl Script {
    fn at(&self, pos: usize) -> Ev { self.evs.get(pos).copied().unwrap_or(self.tail) }
    fn next(&mut self) -> Ev { let e = self.at(self.pos); self.polls += 1; if self.pos < self.evs.len() || self.tail == Ev::Item { self.pos += 1; } e }
    fn hint(&self) -> (usize, Option<usize>) {
        let left = self.evs.len().saturating_sub(self.pos);
        match self.lie { 0 => (if self.tail == Ev::Item { usize::MAX } else { 0 }, None), 1 => (0, Some(0)), 2 => (usize::MAX, Some(usize::MAX)), 3 => (left + 5, Some(left + 5)), _ => (0, Some(left)) }
    }
}
type Shared = Rc<RefCell<Script>>;
/// The stream. What it gives out depends on the kind of items.
struct Items<T>(Shared, fn(&mut Script) -> T);
impl<T> Iterator for Items<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let q = track::quiet();
        let mut s = self.0.borrow_mut();
        match s.next() {
            Ev::End => None,
            Ev::Panic => { sim::fault("fault.stream_panics"); crate::tr!("      the stream panics"); drop(s); drop(q); sim::inject(18) }
            _ => Some((self.1)(&mut s)),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.borrow().hint() }
}
impl<T> Drop for Items<T> { fn drop(&mut self) { if let Ok(mut s) = self.0.try_borrow_mut() { s.dropped += 1; } } }
fn plain<V: Val>(s: &mut Script) -> V { let v = V::make(); s.given.push(v.read().unwrap()); v }
fn result<V: Val>(s: &mut Script) -> Result<V, V> { let e = s.evs.get(s.pos - 1) == Some(&Ev::Err); let v = plain::<V>(s); if e { Err(v) } else { Ok(v) } }

fn script(fallible: bool, endless: bool, faults: bool, room: usize, big: bool) -> Shared {
    let n = if big && chance(3, 4) { let r = room.min(500); pick(&[r, r + 1, range(0, r + 4)]) } else { match draw(5) { 0 => 0, 1 => room.min(10), 2 => room.min(10) + 1, _ => range(0, room.min(8) + 4) } };
    let other = if n > 20 { 1000 } else { 10 };
    let mut evs: Vec<Ev> = (0..n).map(|_| match draw(other) { 0 => Ev::End, 1 if fallible => Ev::Err, 2 if faults && chance(1, 2) => Ev::Panic, _ => Ev::Item }).collect();
    if chance(1, 2) { evs.push(Ev::End); if chance(1, 2) { evs.push(Ev::Item); } }
    let tail = if endless && chance(1, 4) { Ev::Item } else { Ev::End };
    Rc::new(RefCell::new(Script { evs, tail, pos: 0, given: vec![], lie: draw(5), polls: 0, dropped: 0 }))
}

/// What filling has to do: how many items are taken, why it stops, where the stream is then.
#[derive(PartialEq, Debug, Clone, Copy)]
enum Stop { Full, End, Err, Panic }
fn expected(s: &Script, room: usize) -> (usize, Stop, usize) {
    let (mut pos, mut n) = (s.pos, 0);
    loop {
        if n == room { return (n, Stop::Full, pos); }
        let e = s.at(pos);
        if pos < s.evs.len() || s.tail == Ev::Item { pos += 1; }
        match e { Ev::Item => n += 1, Ev::End => return (n, Stop::End, pos), Ev::Err => return (n, Stop::Err, pos), Ev::Panic => return (n, Stop::Panic, pos) }
    }
}

#[derive(Default)]
struct Got<T> { tail: Option<Items<T>>, count: Option<usize>, checked: Option<bool>, panic: Option<Payload> }
/// Fill in one of the ways there are.
fn fill<C: Fill<T> + ?Sized, T>(c: &mut C, s: &Shared, make: fn(&mut Script) -> T) -> Got<T> {
    let it = Items(s.clone(), make);
    let mut got = Got { tail: None, count: None, checked: None, panic: None };
    let way = draw(5);
    let g = &mut got;
    let r = sim::sut(|| match way {
        0 => c.fill(it),
        1 => { let mut it = it; c.fill(&mut it); g.tail = Some(it); }
        2 => g.tail = Some(c.fill_and_keep_tail(it)),
        3 => g.count = Some(c.fill_count(it)),
        _ => { g.tail = c.checked_fill(it); g.checked = Some(g.tail.is_some()); }
    });
    crate::tr!("  filled {}", ["", "by reference", "keeping the tail", "counting", "checked"][way as usize]);
    if let Err(p) = r { got.panic = Some(p); }
    got
}
/// Judge the outcome. Returns the ids taken, in order, and whether the stream panicked.
fn judge<T>(s: &Shared, before: usize, exp: (usize, Stop, usize), got: Got<T>, item: fn(&T) -> Option<u32>, dropped_panics: bool) -> Option<(Vec<u32>, bool)> {
    let (n, stop, pos) = exp;
    let errs = (stop == Stop::Err) as usize;
    match &got.panic {
        Some(p) if !sim::is_injected(p) => { fail("panic", format!("filling panicked: {}", sim::panic_text(p))); return None; }
        Some(_) if stop != Stop::Panic && !dropped_panics => { fail("panic", "a panic out of nowhere".to_string()); return None; }
        None if stop == Stop::Panic && !dropped_panics => { fail("swallowed", "the panic of the stream did not come through".to_string()); return None; }
        _ => {}
    }
    let (at, given, polls) = { let sc = s.borrow(); (sc.pos, sc.given[before..].to_vec(), sc.polls) };
    if got.panic.is_some() && stop != Stop::Panic || (dropped_panics && got.panic.is_some()) { probe("op.unwound"); return Some((given, true)); }
    if at != pos { fail(if at > pos { "took-too-much" } else { "took-too-little" }, format!("the stream is at {at} instead of {pos}, which stops by {stop:?} after {n} items")); return None; }
    if given.len() != n + errs { fail("took-too-much", format!("{} items were taken instead of {}", given.len(), n + errs)); return None; }
    let _ = polls;
    match stop { Stop::Full => probe("op.full"), Stop::End => probe("op.ended"), Stop::Err => probe("op.error"), Stop::Panic => { probe("op.stream_panicked"); return Some((given, true)); } }
    if let Some(c) = got.count { if c != n + errs { fail("wrong-count", format!("{c} items were reported where {} were taken", n + errs)); return None; } probe("op.counted"); }
    if let Some(c) = got.checked {
        // An error stops the inner container as an end does, but the stream itself has not ended.
        if stop != Stop::Err && c != (stop == Stop::Full) { fail("wrong-exhaustion", format!("the stream was reported as {} but filling stopped by {stop:?}", if c { "not ended" } else { "ended" })); return None; }
        if stop == Stop::Err && !c { fail("wrong-exhaustion", "the stream was reported as ended but it was stopped by an error".to_string()); return None; }
        probe("op.checked");
    }
    // What remains is still in the stream.
    if let Some(mut t) = got.tail { if chance(1, 2) {
        let want = s.borrow().at(pos);
        let mut next = None;
        if let Err(p) = sim::sut(|| next = t.next()) { if want != Ev::Panic || !sim::is_injected(&p) { fail("panic", "continuing the stream panicked".to_string()); return None; } }
        else {
            let last = s.borrow().given.last().copied();
            match &next { None => if want != Ev::End { fail("wrong-value", "the remaining stream has no item".to_string()); return None; }, Some(v) => if want == Ev::End || item(v) != last { fail("wrong-value", "the remaining stream has a wrong item".to_string()); return None; } }
            probe("op.tail");
        }
        if let Err(p) = sim::sut(|| drop(next)) { if !sim::is_injected(&p) { fail("panic", "dropping an item panicked".to_string()); return None; } }
    } }
    Some((given, false))
}

enum C<V: 'static> { Vec(Vec<V>), Deque(VecDeque<V>), Opt(Option<V>), RVec(Result<Vec<V>, V>), RDeque(Result<VecDeque<V>, V>), ROpt(Result<Option<V>, V>), Two(Two<V>), RTwo(Result<Two<V>, V>) }
/// A container of a user, in two parts.
struct Two<V>(Vec<V>, Option<V>);
impl<V> Fill<V> for Two<V> { fn fill<I: IntoIterator<Item = V>>(&mut self, iter: I) { let mut it = iter.into_iter(); self.0.fill(&mut it); self.1.fill(it); } }

fn vec_of<V: Val>(cap: usize, n: usize) -> (Vec<V>, Vec<u32>) {
    let _q = track::quiet();
    let mut v = Vec::with_capacity(cap);
    let mut ids = vec![];
    for _ in 0..n.min(v.capacity()) { let x = V::make(); ids.push(x.read().unwrap()); v.push(x); }
    (v, ids)
}
fn deque_of<V: Val>(cap: usize, n: usize) -> (VecDeque<V>, Vec<u32>) {
    let mut d = { let _q = track::quiet(); VecDeque::with_capacity(cap) };
    // Turn it so that the contents wrap around.
    let turn = if cap > 0 { range(0, cap) } else { 0 };
    for _ in 0..turn { d.push_back(V::make()); drop(d.pop_front()); }
    let _q = track::quiet();
    let mut ids = vec![];
    for _ in 0..n.min(d.capacity()) { let x = V::make(); ids.push(x.read().unwrap()); d.push_back(x); }
    (d, ids)
}
fn ids_of<'a, V: Val>(it: impl Iterator<Item = &'a V>) -> Vec<Option<u32>> { it.map(|v| v.read()).collect() }
fn compare(have: Vec<Option<u32>>, want: &[u32], what: &str) -> bool {
    if have.len() != want.len() || have.iter().zip(want).any(|(h, w)| *h != Some(*w)) { fail("wrong-contents", format!("{what} holds {have:?} instead of {want:?}")); return false; }
    true
}
struct World<V: 'static> { c: Vec<(C<V>, Vec<u32>, usize)>, faults: bool, big: bool, loose: Vec<u32> }
fn contents<V: Val>(c: &C<V>) -> Vec<Option<u32>> {
    match c {
        C::Vec(v) | C::RVec(Ok(v)) => ids_of(v.iter()), C::Deque(v) | C::RDeque(Ok(v)) => ids_of(v.iter()), C::Opt(v) | C::ROpt(Ok(v)) => ids_of(v.iter()),
        C::RVec(Err(e)) | C::RDeque(Err(e)) | C::ROpt(Err(e)) => vec![e.read()],
        C::RTwo(Err(e)) => vec![e.read()],
        C::Two(t) | C::RTwo(Ok(t)) => ids_of(t.0.iter().chain(t.1.iter())),
    }
}
fn place<V>(c: &C<V>) -> (usize, usize) {
    match c { C::Vec(v) | C::RVec(Ok(v)) => (v.as_ptr() as usize, v.capacity()), C::Deque(v) | C::RDeque(Ok(v)) => (0, v.capacity()), C::Two(t) | C::RTwo(Ok(t)) => (t.0.as_ptr() as usize, t.0.capacity()), _ => (0, 0) }
}
fn room<V>(c: &C<V>) -> usize {
    match c { C::Vec(v) | C::RVec(Ok(v)) => v.capacity() - v.len(), C::Deque(v) | C::RDeque(Ok(v)) => v.capacity() - v.len(), C::Opt(v) | C::ROpt(Ok(v)) => v.is_none() as usize, C::Two(t) | C::RTwo(Ok(t)) => (t.0.capacity() - t.0.len()).saturating_add(t.1.is_none() as usize), _ => 0 }
}
impl<V: Val> World<V> {
    fn make(&mut self) {
        let cap = match draw(6) { 0 => 0, 1 => 1, _ if self.big => range(40, 500), _ => range(2, 9) };
        let n = range(0, cap);
        let (c, ids) = match draw(9) {
            0 | 1 => { let (v, i) = vec_of(cap, n); (C::Vec(v), i) }
            2 => { let (v, i) = deque_of(cap, n); (C::Deque(v), i) }
            3 => { let (v, i) = vec_of(1, draw(2) as usize); (C::Opt(v.into_iter().next()), i) }
            4 => { let (v, i) = vec_of(cap, n); (C::RVec(if chance(1, 8) { track::quiet(); let e = V::make(); let id = e.read().unwrap(); self.c.push((C::RVec(Err(e)), vec![id], 0)); return drop((v, i)) } else { Ok(v) }), i) }
            5 => { let (v, i) = deque_of(cap, n); (C::RDeque(Ok(v)), i) }
            6 => { let (v, i) = vec_of(1, draw(2) as usize); (C::ROpt(Ok(v.into_iter().next())), i) }
            7 => { let (v, i) = vec_of(cap, n); (C::Two(Two(v, None)), i) }
            _ => { let (v, i) = vec_of(cap, n); (C::RTwo(Ok(Two(v, None))), i) }
        };
        crate::tr!("a container of {ids:?} with room for {}", room(&c));
        self.c.push((c, ids, 0));
    }
    fn check(&self, when: &str) {
        let _q = track::quiet();
        let mut all = self.loose.clone();
        for (c, ids, _) in &self.c { if !compare(contents(c), ids, when) { return; } all.extend_from_slice(ids); }
        track::expect_owned(&all, when);
    }
    fn fill(&mut self, i: usize) {
        let r = room(&self.c[i].0);
        let (c, ids, _) = &mut self.c[i];
        let fallible = matches!(c, C::RVec(_) | C::RDeque(_) | C::ROpt(_) | C::RTwo(_));
        // An endless stream of items without size would be taken for very long.
        let s = script(fallible, r < 1000, self.faults, r, self.big);
        let before = place(c);
        let exp = expected(&s.borrow(), r);
        // Where the container ends with an error its former items are dropped.
        let is_err = matches!(c, C::RVec(Err(_)) | C::RDeque(Err(_)) | C::ROpt(Err(_)) | C::RTwo(Err(_)));
        let panics = exp.1 == Stop::Err && self.faults;
        crate::tr!("fill {ids:?} with room for {r} from {:?} then {:?}", s.borrow().evs, s.borrow().tail);
        let two_gap = matches!(c, C::Two(_));
        let out = match c {
            C::Vec(v) => { let g = fill(v, &s, plain::<V>); judge(&s, 0, exp, g, |v| v.read(), false) }
            C::Deque(v) => { let g = fill(v, &s, plain::<V>); judge(&s, 0, exp, g, |v| v.read(), false) }
            C::Opt(v) => { let g = fill(v, &s, plain::<V>); judge(&s, 0, exp, g, |v| v.read(), false) }
            C::RVec(v) => { let g = fill(v, &s, result::<V>); judge(&s, 0, exp, g, |v| match v { Ok(v) | Err(v) => v.read() }, panics) }
            C::RDeque(v) => { let g = fill(v, &s, result::<V>); judge(&s, 0, exp, g, |v| match v { Ok(v) | Err(v) => v.read() }, panics) }
            C::ROpt(v) => { let g = fill(v, &s, result::<V>); judge(&s, 0, exp, g, |v| match v { Ok(v) | Err(v) => v.read() }, panics) }
            C::RTwo(v) => { probe("op.two_parts"); let g = fill(v, &s, result::<V>); judge(&s, 0, exp, g, |v| match v { Ok(v) | Err(v) => v.read() }, panics) }
            C::Two(t) => {
                // It asks again after the end: only where the default stops that.
                let it = Items(s.clone(), plain::<V>);
                let mut got = Got { tail: None, count: None, checked: None, panic: None };
                let g = &mut got;
                if let Err(p) = sim::sut(|| { g.tail = t.checked_fill(it); g.checked = Some(g.tail.is_some()); }) { g.panic = Some(p); }
                probe("op.two_parts");
                judge(&s, 0, exp, got, |v| v.read(), false)
            }
        };
        let Some((taken, _panicked)) = out else { return };
        let (c, ids, _) = &mut self.c[i];
        if is_err { if !taken.is_empty() { fail("took-too-much", "items were taken although there is an error".to_string()); } return; }
        if exp.1 == Stop::Err {
            // The error is the last item taken, all else is gone.
            if !matches!(c, C::RVec(Err(_)) | C::RDeque(Err(_)) | C::ROpt(Err(_)) | C::RTwo(Err(_))) { fail("wrong-contents", "the container does not hold the error".to_string()); return; }
            *ids = vec![*taken.last().unwrap()];
            sim::nontrivial();
        } else {
            ids.extend_from_slice(&taken);
            if exp.0 > 0 && exp.1 != Stop::Full || exp.1 == Stop::Panic { sim::nontrivial(); }
            if place(c) != before { fail("reallocated", format!("filling changed the memory of the container: {:x?} instead of {:x?}", place(c), before)); return; }
            let _ = two_gap;
        }
        // What was taken of the tail only for a look is dropped already.
    }
    fn slots(&mut self) {
        let n = range(0, if self.big { 400 } else { 6 });
        let (mut v, mut ids) = vec_of::<V>(n, n);
        let skip = range(0, n);
        let back = range(0, n - skip);
        let r = n - skip - back;
        let s = script(false, true, self.faults, r, self.big);
        if self.faults && r > 0 && chance(1, 3) && track::counted(ids[0]) { track::set_panics(ids[skip + draw(r as u32) as usize], true); }
        let exp = expected(&s.borrow(), r);
        crate::tr!("fill slots {skip}..{} of {ids:?} from {:?}", n - back, s.borrow().evs);
        let mut it = v.iter_mut();
        for _ in 0..skip { it.next(); }
        for _ in 0..back { it.next_back(); }
        let fired = track::reg().panics_fired;
        let g = fill(&mut it, &s, plain::<V>);
        let left = it.len();
        let destructor = track::reg().panics_fired > fired;
        let Some((taken, panicked)) = judge(&s, 0, exp, g, |v| v.read(), destructor) else { return };
        if left + taken.len() != r { fail("wrong-length", format!("{left} of {r} slots are left after {} items", taken.len())); return; }
        let _ = panicked;
        for (i, t) in taken.iter().enumerate() { ids[skip + i] = *t; }
        probe("op.slots");
        if !taken.is_empty() { sim::nontrivial(); }
        if !compare(ids_of(v.iter()), &ids, "after filling slots") { return; }
        self.loose = ids.clone();
        self.check("after filling slots");
        self.loose.clear();
        let _ = sim::sut(|| drop(v));
    }
    fn swap(&mut self) {
        let most = if self.big { 400 } else { 6 };
        let (n, m) = (range(0, most), range(0, most));
        let (mut v, mut ids) = vec_of::<V>(n, n);
        let (mut w, mut from) = vec_of::<V>(m, m);
        let stop = if self.faults && chance(1, 3) { range(0, m) } else { usize::MAX };
        let gap = if chance(1, 3) { range(0, m) } else { usize::MAX };
        crate::tr!("swap {ids:?} with {from:?} until {stop}, ending at {gap}");
        let (mut polls, mut ended) = (0, false);
        let mut src = w.iter_mut();
        let left = {
            let mut it = v.iter_mut();
            let stream = std::iter::from_fn(|| {
                if polls == stop { polls += 1; sim::fault("fault.stream_panics"); sim::inject(19) }
                if polls == gap && !ended { ended = true; return None; }
                polls += 1;
                src.next()
            });
            let r = sim::sut(|| it.fill(stream));
            let want_panic = stop < n && stop <= m && stop <= gap;
            match r { Ok(()) => if want_panic { fail("swallowed", "the panic of the stream did not come through".to_string()); return std::mem::forget((v, w)); }, Err(p) => { if !sim::is_injected(&p) { fail("panic", format!("swapping panicked: {}", sim::panic_text(&p))); return std::mem::forget((v, w)); } if !want_panic { fail("took-too-much", "the stream was asked for more items than needed".to_string()); return std::mem::forget((v, w)); } } }
            it.len()
        };
        let rest = src.len();
        let k = n.min(m).min(stop).min(gap);
        if n - left != k || m - rest != k { fail("took-too-much", format!("{} items were taken for {} slots, instead of {k}", m - rest, n - left)); return std::mem::forget((v, w)); }
        for i in 0..k { std::mem::swap(&mut ids[i], &mut from[i]); }
        probe("op.swapped");
        if k > 0 { sim::nontrivial(); }
        if !compare(ids_of(v.iter()), &ids, "swapped slots") || !compare(ids_of(w.iter()), &from, "swapped items") { return std::mem::forget((v, w)); }
        self.loose = ids; self.loose.extend_from_slice(&from);
        self.check("after swapping");
        self.loose.clear();
        let _ = sim::sut(|| drop(v));
        let _ = sim::sut(|| drop(w));
    }
    fn unit(&mut self) {
        let n = if chance(1, 16) { range(20, 100_000) } else { range(0, 20) };
        let (mut left, mut after) = (n, false);
        let stream = std::iter::from_fn(|| if left > 0 { left -= 1; Some(()) } else if after { panic!("asked again after the end") } else { after = true; None });
        let mut c = ();
        let Some(k) = sim::sut_ok("filling the unit", || c.fill_count(stream)) else { return };
        if k != n { fail("wrong-count", format!("{k} items were taken instead of {n}")); }
        probe("op.unit");
    }
    fn step(&mut self) {
        sim::step();
        match draw(16) {
            _ if self.c.is_empty() => self.make(),
            0 | 1 => if self.c.len() < 4 { self.make() },
            2 => self.slots(),
            3 => self.swap(),
            4 => self.unit(),
            5 | 6 => {
                // Make room again.
                let i = draw(self.c.len() as u32) as usize;
                let n = draw(3);
                let (c, ids, _) = &mut self.c[i];
                crate::tr!("make room in {ids:?}");
                for _ in 0..=n {
                    match c {
                        C::Vec(v) | C::RVec(Ok(v)) => { let x = v.pop(); if x.is_some() { ids.pop(); } let _ = sim::sut(|| drop(x)); }
                        C::Deque(v) | C::RDeque(Ok(v)) => { let x = v.pop_front(); if x.is_some() { ids.remove(0); } let _ = sim::sut(|| drop(x)); }
                        C::Opt(v) | C::ROpt(Ok(v)) => { let x = v.take(); if x.is_some() { ids.pop(); } let _ = sim::sut(|| drop(x)); }
                        C::Two(t) | C::RTwo(Ok(t)) => { let x = t.1.take(); if x.is_some() { ids.pop(); } let _ = sim::sut(|| drop(x)); }
                        _ => {}
                    }
                }
            }
            7 => {
                let i = draw(self.c.len() as u32) as usize;
                let (c, ids, _) = self.c.swap_remove(i);
                crate::tr!("drop the container of {ids:?}");
                if self.faults && !ids.is_empty() && chance(1, 2) { track::set_panics(pick(&ids), true); }
                let _ = sim::sut(|| drop(c));
                probe("op.dropped");
            }
            8 if self.faults => {
                // An item in a container whose destructor panics, when it is replaced by an error.
                let i = draw(self.c.len() as u32) as usize;
                let ids = &self.c[i].1;
                if matches!(self.c[i].0, C::RVec(Ok(_)) | C::RDeque(Ok(_)) | C::ROpt(Ok(_)) | C::RTwo(Ok(_))) && !ids.is_empty() && track::counted(ids[0]) { let id = pick(ids); crate::tr!("the destructor of {id} will panic"); track::set_panics(id, true); }
            }
            _ => { let i = draw(self.c.len() as u32) as usize; self.fill(i) }
        }
    }
}
fn run<V: Val>(faults: bool) {
    let big = chance(1, 24);
    if big { probe("op.many_items"); }
    let mut w: World<V> = World { c: vec![], faults, big, loose: vec![] };
    for _ in 0..if big { range(2, 8) } else { range(2, 24) } {
        w.step();
        if sim::failed() { return std::mem::forget(w); }
        w.check("after a step");
        if sim::failed() { return std::mem::forget(w); }
    }
    for (c, ..) in w.c.drain(..) { let _ = sim::sut(|| drop(c)); }
    w.check("at the end");
}
/// Filling with very many items.
fn large<V: Elem>(faults: bool) {
    many::reset();
    const MOST: usize = 100_000;
    let cap = many::count(MOST);
    let have = if chance(1, 2) { 0 } else { range(0, cap) };
    let zst = std::mem::size_of::<V>() == 0;
    let way = draw(5);
    let (mut v, mut d): (Vec<V>, VecDeque<V>) = (Vec::new(), VecDeque::new());
    let mut ids: Vec<u32> = vec![];
    let first = many::take(have);
    let room;
    if way == 1 {
        d = VecDeque::with_capacity(cap);
        let turn = range(0, cap);
        let t = many::take(turn);
        for i in 0..turn as u32 { d.push_back(V::make(t + i)); drop(d.pop_front()); }
        for i in 0..have as u32 { d.push_back(V::make(first + i)); ids.push(first + i); }
        room = d.capacity() - have;
    } else {
        v = Vec::with_capacity(cap);
        let n = if way == 3 { cap } else { have };
        let first = many::take(n);
        for i in 0..n as u32 { v.push(V::make(first + i)); ids.push(first + i); }
        room = if way == 3 { n } else { v.capacity() - n };
    }
    let avail = many::count(MOST).min(MOST);
    let avail = match draw(3) { 0 if room < MOST => room, 1 if room < MOST => room + 1, _ => avail };
    let stop = if chance(1, 2) { range(0, avail) } else { usize::MAX };
    let err = way == 2 && chance(1, 2);
    let from = many::take(avail + 1);
    let (mut made, mut asked_after) = (0usize, 0);
    let space = (v.as_ptr() as usize, v.capacity(), d.capacity());
    crate::tr!("fill {} of {have} {} with room for {room} from {avail} items, interrupted at {stop}", ["a vector", "a deque", "a fallible vector", "slots", "a vector by reference"][way as usize], V::NAME);
    let panics = faults && way != 2 && stop != usize::MAX && chance(1, 2);
    let ends = !panics && !err && stop != usize::MAX;
    let mut over = false;
    let next = std::iter::from_fn(|| {
        if over { asked_after += 1; return None; }
        if made == avail || ends && made == stop { over = true; return None; }
        if panics && made == stop { over = true; sim::fault("fault.stream_panics"); sim::inject(18) }
        made += 1;
        Some(V::make(from + made as u32 - 1))
    });
    let fits = avail.min(room).min(if stop < usize::MAX && (ends || panics) { stop } else { usize::MAX });
    let (mut count, mut res) = (None, None);
    let mut it = if way == 3 { unsafe { &mut *(&mut v[..] as *mut [V]) }.iter_mut() } else { [].iter_mut() };
    let by = draw(2);
    let r = sim::sut(|| match way {
        0 => if by == 0 { v.fill(next) } else { count = Some(v.fill_count(next)) },
        1 => if by == 0 { d.fill(next) } else { count = Some(d.fill_count(next)) },
        2 => { let mut k = 0; let mut r: Result<Vec<V>, V> = Ok(std::mem::take(&mut v)); let s = next.map(|x| { k += 1; if err && k - 1 == stop { Err(x) } else { Ok(x) } }); if by == 0 { r.fill(s) } else { count = Some(r.fill_count(s)) } res = Some(r); }
        3 => if by == 0 { it.fill(next) } else { count = Some(it.fill_count(next)) },
        _ => { let mut next = next; let mut s = &mut next; if by == 0 { v.fill(&mut s) } else { count = Some(v.fill_count(&mut s)) } }
    });
    let left = it.len();
    let errs = err && stop < fits;
    let got = if errs { stop + 1 } else { fits };
    match r {
        Ok(()) => if panics && stop < avail.min(room) { fail("swallowed", "the panic of the stream did not come through".to_string()); }
        Err(p) => if !(panics && sim::is_injected(&p)) { fail("panic", format!("filling panicked: {}", sim::panic_text(&p))); } else { probe("op.unwound") },
    }
    if sim::failed() { return std::mem::forget((v, d, res)); }
    if made != got { fail("took-too-much", format!("{made} items were taken instead of {got}")); return std::mem::forget((v, d, res)); }
    if count.is_some_and(|c| c != got) { fail("wrong-count", format!("{count:?} items were reported where {got} were taken")); return std::mem::forget((v, d, res)); }
    if asked_after > 0 { fail("asked-again", "the stream was asked again after its end".to_string()); }
    if let Some(r) = res {
        match r {
            Ok(x) if !errs => v = x,
            Err(e) if errs && e.is(from + stop as u32) => { many::alive::<V>(std::iter::once(&[from + stop as u32][..]), "after an error"); return; }
            r => { fail("wrong-contents", "the container does not hold the error".to_string()); return std::mem::forget(r); }
        }
    }
    if way == 3 { for i in 0..fits { ids[i] = from + i as u32; } if left != room - fits { fail("wrong-length", format!("{left} of {room} slots are left after {fits} items")); } }
    else { ids.extend(from..from + fits as u32); }
    if !zst && way != 2 && space != (v.as_ptr() as usize, v.capacity(), d.capacity()) { fail("reallocated", "filling changed the memory of the container".to_string()); }
    if way == 2 && !zst && (space.0, space.1) != (v.as_ptr() as usize, v.capacity()) { fail("reallocated", "filling changed the memory of the container".to_string()); }
    let all: &[V] = if way == 1 { d.make_contiguous() } else { &v };
    if sim::failed() || !many::same(all, &ids, "after filling") || !many::alive::<V>(std::iter::once(&ids[..]), "after filling") { return std::mem::forget((v, d)); }
    probe("op.large");
    sim::nontrivial();
}
pub fn c22() {
    if draw(512) == 511 { return with_elem!(draw(5), V => large::<V>(false)); }
    with_any_val!(draw(11), V => run::<V>(false))
}
pub fn c23() {
    if draw(512) == 511 { return with_elem!(draw(5), V => large::<V>(true)); }
    with_any_val!(draw(11), V => run::<V>(true))
}
