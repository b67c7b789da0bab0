//! C17: graphs of reference counted values, against counts kept outside of them.
use crate::arena;
use crate::sim::{self, chance, draw, fail, pick, probe, range, Global};
use crate::track::{self, Val, ZST_ID};
use crate::many::{self, Elem};
use crate::{with_plain, with_val};
use std::cell::{Cell, RefCell};
use std::mem::{align_of, size_of, ManuallyDrop};
use std::ptr::NonNull;
use without_alloc::rc::{Rc, Weak};
use without_alloc::Uninit;

#[derive(Clone, Copy, PartialEq, Debug)]
enum State { Alive, Dropping, Dead }
/// One allocation with its value.
struct Obj { strong: usize, weak: usize, state: State, mem: usize, extent: usize, val: u32, called: bool, freed: bool }
struct Model { objs: Vec<Obj>, depth: u32 }
static MODEL: Global<Model> = Global::new(Model { objs: Vec::new(), depth: 0 });
fn model() -> &'static mut Model { MODEL.get() }
fn obj(i: u32) -> &'static mut Obj { &mut model().objs[i as usize] }
const MOVED: u32 = u32::MAX;

enum Ref<V: Val> { Strong(Rc<'static, Node<V>>), Weak(Weak<'static, Node<V>>) }
/// A reference the model knows of.
struct H<V: Val> { obj: u32, r: ManuallyDrop<Ref<V>> }
/// The value: it may own references to other values, and to itself.
struct Node<V: Val> { obj: Cell<u32>, val: V, panics: Cell<bool>, links: RefCell<[Option<H<V>>; 3]> }

impl<V: Val> H<V> {
    fn strong(obj: u32, rc: Rc<'static, Node<V>>) -> Self { H { obj, r: ManuallyDrop::new(Ref::Strong(rc)) } }
    fn weak(obj: u32, w: Weak<'static, Node<V>>) -> Self { H { obj, r: ManuallyDrop::new(Ref::Weak(w)) } }
    fn is_strong(&self) -> bool { matches!(*self.r, Ref::Strong(_)) }
    /// Without its destructor, thus without telling the model.
    fn into_inner(self) -> (u32, Ref<V>) { let mut h = ManuallyDrop::new(self); (h.obj, unsafe { ManuallyDrop::take(&mut h.r) }) }
    fn node(&self) -> Option<&Node<V>> { match &*self.r { Ref::Strong(rc) => Some(&**rc), _ => None } }
    fn check(&self, when: &str) {
        if sim::failed() { return; }
        let o = obj(self.obj);
        let (s, w) = match &*self.r { Ref::Strong(rc) => (Rc::strong_count(rc), Rc::weak_count(rc)), Ref::Weak(w) => (w.strong_count(), w.weak_count()) };
        if s != o.strong { fail("wrong-count", format!("{when}: {s} strong references of value {} are reported instead of {}", self.obj, o.strong)); }
        // All strong ones hold the memory together.
        let ok = match o.state { State::Alive => w == o.weak + 1, State::Dropping => w == o.weak || w == o.weak + 1, State::Dead => w == o.weak };
        if !ok { fail("wrong-count", format!("{when}: {w} weak references of value {} are reported instead of {}", self.obj, o.weak)); }
        if let Some(n) = self.node() {
            let at = n as *const _ as usize;
            if o.state != State::Alive || n.obj.get() != self.obj { fail("wrong-value", format!("{when}: a strong reference does not point at its value")); }
            else if at < o.mem || at + size_of::<Node<V>>() > o.mem + o.extent || at % align_of::<Node<V>>() != 0 { fail("wrong-place", format!("{when}: the value is not in its memory")); }
            else if n.val.read() != Some(o.val) { fail("wrong-value", format!("{when}: value {} is not intact", self.obj)); }
        }
    }
    fn upgrade(&self) -> Option<H<V>> {
        let Ref::Weak(w) = &*self.r else { return None };
        let got = w.upgrade();
        let may = obj(self.obj).state == State::Alive;
        crate::tr!("upgrade a weak reference to {}: {}", self.obj, got.is_some());
        if got.is_some() != may {
            fail("wrong-upgrade", format!("upgrading a weak reference to value {} which is {:?} gave {}", self.obj, obj(self.obj).state, if got.is_some() { "a reference" } else { "none" }));
            std::mem::forget(got);
            return None;
        }
        probe(if may { "op.upgraded" } else { "op.upgrade_refused" });
        got.map(|rc| { obj(self.obj).strong += 1; H::strong(self.obj, rc) })
    }
    fn try_free(self) -> Result<(Uninit<'static, ()>, u32), Option<H<V>>> {
        let (o, Ref::Weak(w)) = self.into_inner() else { unreachable!() };
        let m = obj(o);
        let may = m.state == State::Dead && m.weak == 1;
        match w.try_unwrap() {
            Ok(mem) => {
                crate::tr!("memory of {o} is given back");
                if !may { fail("early-free", format!("the memory of value {o} was given back while it is {:?} with {} weak references", m.state, m.weak)); std::mem::forget(mem); return Err(None); }
                m.weak = 0;
                m.freed = true;
                if mem.as_ptr() as usize != m.mem || mem.size() != m.extent { fail("wrong-extent", format!("memory {:#x} with {} bytes was given back instead of {:#x} with {}", mem.as_ptr() as usize, mem.size(), m.mem, m.extent)); return Err(None); }
                probe("op.memory_back");
                Ok((mem, o))
            }
            Err(w) => {
                crate::tr!("memory of {o} is not given back");
                if may { fail("refused", format!("the memory of value {o} was not given back although the last reference asked")); }
                probe("op.memory_kept");
                Err(Some(H::weak(o, w)))
            }
        }
    }
}
impl<V: Val> Drop for H<V> {
    fn drop(&mut self) {
        if sim::failed() { return; }
        let o = obj(self.obj);
        let strong = self.is_strong();
        crate::tr!("  drop a {} reference to {}", if strong { "strong" } else { "weak" }, self.obj);
        let last = if strong { o.strong -= 1; o.strong == 0 } else { o.weak -= 1; false };
        if last { o.state = State::Dropping; }
        let at = self.obj;
        struct After(u32, bool);
        impl Drop for After { fn drop(&mut self) {
            if sim::failed() { return; }
            if self.1 {
                let o = obj(self.0);
                if !o.called { fail("missing-drop", format!("the last strong reference to value {} was dropped but not the value", self.0)); }
                o.state = State::Dead;
            }
        } }
        let _after = After(at, last);
        unsafe { ManuallyDrop::drop(&mut self.r) }
    }
}
impl<V: Val> Drop for Node<V> {
    fn drop(&mut self) {
        if sim::failed() { return; }
        let id = self.obj.get();
        let at = self as *const _ as usize;
        if id != MOVED {
            let o = obj(id);
            crate::tr!("  the value of {id} is dropped");
            if o.state != State::Dropping { fail("early-drop", format!("value {id} is dropped while it has {} strong references", o.strong)); return; }
            if at < o.mem || at >= o.mem + o.extent { fail("moved", format!("value {id} is dropped outside of its memory")); return; }
            if std::mem::replace(&mut o.called, true) { fail("double-drop", format!("value {id} is dropped twice")); return; }
        }
        // The destructor uses what the value owns, especially references to itself.
        model().depth += 1;
        if model().depth < 4 {
            for i in 0..3 {
                let Some(h) = self.links.get_mut()[i].take() else { continue };
                h.check("in a destructor");
                if sim::failed() { return; }
                let mut put = Some(h);
                match draw(6) {
                    0 if !put.as_ref().unwrap().is_strong() => { if let Some(up) = put.as_ref().unwrap().upgrade() { up.check("in a destructor"); drop(up); } }
                    1 if !put.as_ref().unwrap().is_strong() => match put.take().unwrap().try_free() { Ok((mem, _)) => { arena::dirt(mem.as_ptr() as usize, mem.size(), 77); } Err(h) => put = h },
                    2 => { let h = put.as_ref().unwrap(); let c = clone(h); c.check("in a destructor"); drop(c); }
                    3 => { put = None; }
                    4 if id != MOVED && put.as_ref().unwrap().obj == id => probe("op.self_weak_in_destructor"),
                    _ => {}
                }
                if sim::failed() { return std::mem::forget(put); }
                self.links.get_mut()[i] = put;
            }
        }
        model().depth -= 1;
        if self.val.read().is_none() { fail("double-drop", "a value is dropped which is not alive".to_string()); return; }
        if self.panics.get() && !std::thread::panicking() { sim::fault("fault.destructor_panics"); crate::tr!("  the destructor panics"); sim::inject(20) }
    }
}
fn clone<V: Val>(h: &H<V>) -> H<V> {
    match &*h.r {
        Ref::Strong(rc) => { obj(h.obj).strong += 1; H::strong(h.obj, Rc::clone(rc)) }
        Ref::Weak(w) => { obj(h.obj).weak += 1; H::weak(h.obj, w.clone()) }
    }
}

struct World<V: Val> { roots: Vec<H<V>>, raws: Vec<(Uninit<'static, Node<V>>, u32)>, memory: Vec<Uninit<'static, ()>>, faults: bool }
impl<V: Val> World<V> {
    fn node(&mut self) -> (Node<V>, u32) {
        let val = V::make();
        let id = val.read().unwrap();
        if self.faults && chance(1, 10) { track::set_panics(id, true); }
        (Node { obj: Cell::new(MOVED), val, panics: Cell::new(self.faults && chance(1, 10)), links: RefCell::new([None, None, None]) }, id)
    }
    fn memory(&mut self) -> Uninit<'static, ()> {
        let l = Rc::<Node<V>>::layout();
        if !self.memory.is_empty() && chance(2, 3) { let i = draw(self.memory.len() as u32) as usize; probe("op.memory_reused"); return self.memory.swap_remove(i); }
        let extent = l.size() + if chance(1, 3) { range(1, 40) } else { 0 };
        let at = arena::place(extent, l.align(), if chance(1, 2) { l.align() * draw(3) as usize } else { 0 });
        arena::dirt(at, extent, 50);
        unsafe { Uninit::from_memory(NonNull::new_unchecked(at as *mut u8), extent) }
    }
    fn put(&mut self, node: Node<V>, val: u32) {
        if model().objs.len() >= 400 { return; }
        let mem = self.memory();
        let (at, extent) = (mem.as_ptr() as usize, mem.size());
        let id = model().objs.len() as u32;
        node.obj.set(id);
        model().objs.push(Obj { strong: 1, weak: 0, state: State::Alive, mem: at, extent, val, called: false, freed: false });
        let Some(rc) = sim::sut_ok("new", || Rc::new(node, mem)) else { return };
        crate::tr!("value {id} in {extent} bytes");
        probe("op.new");
        let h = H::strong(id, rc);
        h.check("after new");
        self.roots.push(h);
    }
    fn drop_h(&mut self, h: H<V>) {
        if let Err(p) = sim::sut(move || { let _solo = sim::unarmed(); drop(h) }) { if !sim::is_injected(&p) { fail("panic", format!("dropping a reference panicked: {}", sim::panic_text(&p))); } probe("op.unwound"); }
        model().depth = 0;
    }
    fn drop_node(&mut self, n: Node<V>) {
        if let Err(p) = sim::sut(move || { let _solo = sim::unarmed(); drop(n) }) { if !sim::is_injected(&p) { fail("panic", format!("dropping a value panicked: {}", sim::panic_text(&p))); } probe("op.unwound"); }
        model().depth = 0;
    }
    fn step(&mut self) {
        sim::step();
        if self.roots.is_empty() || chance(1, 12) { let (n, v) = self.node(); return self.put(n, v); }
        let i = draw(self.roots.len() as u32) as usize;
        let id = self.roots[i].obj;
        let strong = self.roots[i].is_strong();
        if chance(1, 400) { return self.many(i); }
        match draw(22) {
            0 | 1 => { if self.roots.len() < 12 { crate::tr!("clone a {} reference to {id}", if strong { "strong" } else { "weak" }); let h = clone(&self.roots[i]); probe("op.cloned"); self.roots.push(h); } }
            2..=4 => { let h = self.roots.swap_remove(i); crate::tr!("drop a reference to {id}"); self.drop_h(h); }
            5 | 6 => match &*self.roots[i].r {
                Ref::Strong(rc) => { crate::tr!("downgrade a reference to {id}"); let w = Rc::downgrade(rc); obj(id).weak += 1; probe("op.downgraded"); self.roots.push(H::weak(id, w)); }
                Ref::Weak(_) => if let Some(h) = self.roots[i].upgrade() { self.roots.push(h); },
            },
            7 | 8 => if !strong { if let Some(h) = self.roots[i].upgrade() { self.roots.push(h); } },
            9 | 10 => {
                // Into the value of another one, or the same.
                let owners: Vec<usize> = (0..self.roots.len()).filter(|&j| self.roots[j].is_strong() && (j != i || !strong)).collect();
                if owners.is_empty() { return; }
                let j = pick(&owners);
                let owner = self.roots[j].obj;
                // Without cycles of strong ones.
                if strong && owner >= id { return; }
                let h = self.roots.swap_remove(i);
                let j = if j == self.roots.len() { i } else { j };
                crate::tr!("value {owner} owns a {} reference to {id}", if strong { "strong" } else { "weak" });
                if owner == id { probe("op.own_weak"); }
                sim::nontrivial();
                let slot = draw(3) as usize;
                let old = { let n = self.roots[j].node().unwrap(); let mut l = n.links.borrow_mut(); l[slot].replace(h) };
                if let Some(old) = old { self.drop_h(old); }
            }
            11 => if strong {
                let slot = draw(3) as usize;
                let old = self.roots[i].node().unwrap().links.borrow_mut()[slot].take();
                if let Some(h) = old { crate::tr!("take the reference to {} out of value {id}", h.obj); self.roots.push(h); }
            },
            12 | 13 => if strong {
                // Move the value out.
                let (_, Ref::Strong(rc)) = self.roots.swap_remove(i).into_inner() else { return };
                let may = obj(id).strong == 1;
                crate::tr!("move value {id} out");
                match Rc::try_unwrap(rc) {
                    Ok((node, weak)) => {
                        if !may { fail("early-move", format!("value {id} was moved out although there are {} strong references", obj(id).strong)); return std::mem::forget((node, weak)); }
                        let o = obj(id);
                        o.strong = 0; o.weak += 1; o.state = State::Dead;
                        let val = o.val;
                        if node.obj.get() != id || node.val.read() != Some(val) { fail("wrong-value", format!("the value moved out of {id} is not intact")); return std::mem::forget((node, weak)); }
                        node.obj.set(MOVED);
                        probe("op.moved_out");
                        let w = H::weak(id, weak);
                        w.check("after moving the value out");
                        self.roots.push(w);
                        // No strong cycles: it gets a larger number than what it owns.
                        let clean = node.links.borrow().iter().flatten().all(|h| !h.is_strong());
                        if clean && chance(1, 2) { self.put(node, val); } else { self.drop_node(node); }
                    }
                    Err(rc) => { if may { fail("refused", format!("value {id} was not moved out although there is one strong reference only")); } probe("op.move_refused"); self.roots.push(H::strong(id, rc)); }
                }
            },
            14..=16 => if !strong {
                match self.roots.swap_remove(i).try_free() {
                    Ok((mem, _)) => { arena::dirt(mem.as_ptr() as usize, mem.size(), 51); self.memory.push(mem); }
                    Err(Some(h)) => { h.check("after refusing the memory"); self.roots.push(h); }
                    Err(None) => {}
                }
            },
            17 => if let Ref::Strong(rc) = &mut *self.roots[i].r {
                let may = obj(id).strong == 1 && obj(id).weak == 0;
                let got = Rc::get_mut(rc);
                crate::tr!("mutable access to {id}: {}", got.is_some());
                if got.is_some() != may { fail("wrong-access", format!("mutable access to value {id} with {} strong and {} weak references was {}", obj(id).strong, obj(id).weak, if got.is_some() { "given" } else { "refused" })); return; }
                if let Some(n) = got {
                    probe("op.get_mut");
                    let new = V::make();
                    obj(id).val = new.read().unwrap();
                    let old = std::mem::replace(&mut n.val, new);
                    if let Err(p) = sim::sut(|| drop(old)) { if !sim::is_injected(&p) { fail("panic", "dropping panicked".to_string()); } }
                } else { probe("op.get_mut_refused"); }
            },
            18 => if strong {
                let (_, Ref::Strong(rc)) = self.roots.swap_remove(i).into_inner() else { return };
                let may = obj(id).strong == 1 && obj(id).weak == 0;
                crate::tr!("take {id} apart");
                match Rc::into_raw(rc) {
                    Ok(raw) => {
                        if !may { fail("early-free", format!("value {id} with {} strong and {} weak references was taken apart", obj(id).strong, obj(id).weak)); return; }
                        let o = obj(id);
                        if raw.as_ptr() as usize != o.mem || raw.size() != o.extent { fail("wrong-extent", format!("memory {:#x} with {} bytes was given back instead of {:#x} with {}", raw.as_ptr() as usize, raw.size(), o.mem, o.extent)); return; }
                        probe("op.raw");
                        self.raws.push((raw, id));
                    }
                    Err(rc) => { if may { fail("refused", format!("value {id} was not taken apart although it is unique")); } probe("op.raw_refused"); let h = H::strong(id, rc); h.check("after refusing to take apart"); self.roots.push(h); }
                }
            },
            19 => if !self.raws.is_empty() {
                let j = draw(self.raws.len() as u32) as usize;
                let (mut raw, id) = self.raws.swap_remove(j);
                if chance(1, 3) { let n = unsafe { raw.as_mut() }; let new = V::make(); obj(id).val = new.read().unwrap(); let old = std::mem::replace(&mut n.val, new); let _ = sim::sut(|| drop(old)); }
                crate::tr!("put {id} together again");
                let h = H::strong(id, unsafe { Rc::from_raw(raw) });
                h.check("after putting it together again");
                probe("op.from_raw");
                self.roots.push(h);
            },
            20 => {
                let j = draw(self.roots.len() as u32) as usize;
                if let (Ref::Strong(a), Ref::Strong(b)) = (&*self.roots[i].r, &*self.roots[j].r) { if Rc::ptr_eq(a, b) != (id == self.roots[j].obj) { fail("wrong-identity", format!("references to {id} and {} are confused", self.roots[j].obj)); } }
            }
            _ => if self.faults {
                match draw(3) {
                    0 => { let h = self.roots.swap_remove(i); crate::tr!("unwind out of the owner of a reference to {id}"); sim::fault("fault.owner_panics"); let _ = sim::sut(move || { let _solo = sim::unarmed(); let _h = h; sim::inject(21) }); model().depth = 0; }
                    1 => { let h = self.roots.swap_remove(i); crate::tr!("leak a reference to {id}"); sim::fault("fault.reference_leaked"); std::mem::forget(h); }
                    _ => {
                        // Memory which is not fit is refused, with the value dropped.
                        let l = Rc::<Node<V>>::layout();
                        let (n, val) = self.node();
                        let (skew, short) = if chance(1, 2) { (0, range(1, l.size())) } else { (range(1, l.align() - 1), 0) };
                        let at = arena::place(l.size() + skew, l.align(), 0) + skew;
                        crate::tr!("unfit memory, {skew} from alignment, {short} too short");
                        arena::dirt(at, l.size() - short, 52);
                        let r = sim::sut(|| { let _solo = sim::unarmed(); Rc::new(n, unsafe { Uninit::from_memory(NonNull::new_unchecked(at as *mut u8), l.size() - short) }) });
                        match r { Ok(rc) => { fail("accepted", "memory which does not fit was accepted".to_string()); std::mem::forget(rc); } Err(_) => probe("op.unfit_refused") }
                        model().depth = 0;
                        if unsafe { arena::vsim_dirt_check(at as *const u8, l.size() - short, 52) } >= 0 { fail("corrupted", "memory which does not fit was written to".to_string()); }
                        if val != ZST_ID && track::is_live(val) { fail("missing-drop", "a value refused was not dropped".to_string()); }
                    }
                }
            },
        }
    }
    /// So many references that their number is not a small one.
    fn many(&mut self, i: usize) {
        let id = self.roots[i].obj;
        let n = pick(&[300usize, 1000, 70_000]);
        let weak = chance(1, 2);
        crate::tr!("{n} more references to {id}");
        // They are leaked, and count forever.
        match &*self.roots[i].r {
            Ref::Strong(rc) => {
                if weak { if sim::sut_ok("downgrade", || for _ in 0..n { std::mem::forget(Rc::downgrade(rc)) }).is_none() { return; } obj(id).weak += n; }
                else { if sim::sut_ok("clone", || for _ in 0..n { std::mem::forget(rc.clone()) }).is_none() { return; } obj(id).strong += n; }
            }
            Ref::Weak(w) => {
                let up = obj(id).state == State::Alive && !weak;
                let Some(got) = sim::sut_ok("clone", || { let mut k = 0; for _ in 0..n { if up { if let Some(r) = w.upgrade() { k += 1; std::mem::forget(r) } } else { std::mem::forget(w.clone()); k += 1; } } k }) else { return };
                if got != n { fail("wrong-upgrade", format!("upgrading a weak reference to value {id} failed after {got} times")); return; }
                if up { obj(id).strong += n } else { obj(id).weak += n }
            }
        }
        probe("op.many_references");
        sim::fault("fault.reference_leaked");
        if chance(1, 2) { return; }
        // Or all of them are dropped again.
        self.roots[i].check("with many references");
        if sim::failed() { return; }
        let strong = obj(id).state == State::Alive && obj(id).strong > n;
        crate::tr!("the references to {id} are dropped again");
        // A copy of the reference of the root, which the forgotten ones are as well.
        match &*self.roots[i].r {
            Ref::Strong(rc) if strong && !weak => { if sim::sut_ok("dropping", || for _ in 0..n { drop(unsafe { std::ptr::read(rc) }) }).is_none() { return; } obj(id).strong -= n; }
            Ref::Weak(w) if weak || !strong => { if sim::sut_ok("dropping", || for _ in 0..n { drop(unsafe { std::ptr::read(w) }) }).is_none() { return; } obj(id).weak -= n; }
            _ => {}
        }
    }
    fn check(&self, when: &str) {
        let _q = track::quiet();
        for h in &self.roots { h.check(when); if sim::failed() { return; } }
        let mut alive = vec![];
        for o in &model().objs { if o.state == State::Alive { alive.push(o.val); } if o.state == State::Dropping { fail("missing-drop", format!("{when}: a value is still being dropped")); } }
        track::expect_owned(&alive, when);
        for (i, m) in self.memory.iter().enumerate() { if unsafe { arena::vsim_dirt_check(m.as_ptr() as *const u8, m.size(), 51) } >= 0 { fail("corrupted", format!("{when}: memory {i} given back was written to")); } }
        for (raw, id) in &self.raws { let n = unsafe { raw.as_ref() }; if n.val.read() != Some(obj(*id).val) { fail("wrong-value", format!("{when}: value {id} taken apart is not intact")); } }
    }
}
fn run<V: Val>() {
    let m = model();
    m.objs.clear();
    m.depth = 0;
    let mut w: World<V> = World { roots: vec![], raws: vec![], memory: vec![], faults: chance(1, 2) };
    for _ in 0..range(3, 50) {
        w.step();
        if sim::failed() { return std::mem::forget(w); }
        w.check("after an operation");
        if sim::failed() { return std::mem::forget(w); }
    }
    while let Some(h) = w.roots.pop() { w.drop_h(h); if sim::failed() { return std::mem::forget(w); } }
    while let Some((raw, id)) = w.raws.pop() { let h = H::strong(id, unsafe { Rc::from_raw(raw) }); w.drop_h(h); if sim::failed() { return std::mem::forget(w); } }
    w.check("at the end");
    if sim::failed() { return; }
    for (i, o) in m.objs.iter().enumerate() { if o.state == State::Alive && o.strong == 0 { fail("missing-drop", format!("value {i} is alive without references")); } }
    arena::check("reference counted values");
}
/// Reference counted values which are large, or which have no destructor.
struct Lo<V: Elem> { strong: Vec<Rc<'static, V>>, weak: Vec<Weak<'static, V>>, n: u32, mem: usize, extent: usize }
impl<V: Elem> Lo<V> {
    fn check(&self, alive: &mut Vec<u32>) {
        if !self.strong.is_empty() { alive.push(self.n); }
        for r in &self.strong {
            let at = &**r as *const V as usize;
            if at < self.mem || at + size_of::<V>() > self.mem + self.extent || at % align_of::<V>() != 0 { fail("wrong-place", "a value is not in its memory".to_string()); return; }
            if !r.is(self.n) { fail("wrong-value", "a value is not intact".to_string()); return; }
            if Rc::strong_count(r) != self.strong.len() || Rc::weak_count(r) != self.weak.len() + 1 { fail("wrong-count", format!("{} strong and {} weak references of a value are reported instead of {} and {}", Rc::strong_count(r), Rc::weak_count(r), self.strong.len(), self.weak.len() + 1)); return; }
        }
        for w in &self.weak { if w.strong_count() != self.strong.len() { fail("wrong-count", format!("{} strong references of a value are reported instead of {}", w.strong_count(), self.strong.len())); return; } }
    }
}
fn large<V: Elem>() {
    many::reset();
    // Nothing of these may be dropped once something is wrong.
    let mut os: ManuallyDrop<Vec<Lo<V>>> = ManuallyDrop::new(vec![]);
    for _ in 0..range(3, if size_of::<V>() > 256 { 14 } else { 40 }) {
        sim::step();
        if os.is_empty() || (os.len() < 4 && chance(1, 4)) {
            let l = Rc::<V>::layout();
            let extent = l.size() + if chance(1, 2) { range(1, 100_000) } else { 0 };
            let mem = arena::place(extent, l.align(), if chance(1, 2) { l.align() } else { 0 });
            arena::dirt(mem, extent, 53);
            let n = many::take(1);
            crate::tr!("a reference counted {} in {extent} bytes", V::NAME);
            let Some(rc) = sim::sut_ok("new", || Rc::new(V::make(n), unsafe { Uninit::from_memory(NonNull::new_unchecked(mem as *mut u8), extent) })) else { return };
            os.push(Lo { strong: vec![rc], weak: vec![], n, mem, extent });
            probe("op.large_new");
        } else {
            let k = draw(os.len() as u32) as usize;
            let o = &mut os[k];
            match draw(12) {
                0 if !o.strong.is_empty() => { let Some(r) = sim::sut_ok("clone", || o.strong[0].clone()) else { return }; o.strong.push(r); }
                1 if !o.strong.is_empty() => { let Some(r) = sim::sut_ok("downgrade", || Rc::downgrade(&o.strong[0])) else { return }; o.weak.push(r); }
                2 if !o.weak.is_empty() => {
                    let Some(r) = sim::sut_ok("upgrade", || o.weak[0].upgrade()) else { return };
                    if r.is_some() != !o.strong.is_empty() { fail("wrong-upgrade", format!("upgrading a weak reference of a value with {} strong ones gave {}", o.strong.len(), r.is_some())); std::mem::forget(r); return; }
                    o.strong.extend(r);
                }
                3 | 4 if !o.strong.is_empty() => { let r = o.strong.pop(); crate::tr!("drop a strong reference"); if sim::sut_ok("drop", move || drop(r)).is_none() { return; } }
                5 if !o.weak.is_empty() && (o.strong.len() + o.weak.len() > 1) => { let r = o.weak.pop(); if sim::sut_ok("drop", move || drop(r)).is_none() { return; } }
                6 if !o.strong.is_empty() => {
                    let r = o.strong.pop().unwrap();
                    let may = o.strong.is_empty();
                    crate::tr!("take the value out, {}", if may { "as the only one" } else { "with others" });
                    let Some(r) = sim::sut_ok("try_unwrap", || Rc::try_unwrap(r).map(|(v, w)| (Box::new(v), w))) else { return };
                    match r {
                        Ok((v, w)) => {
                            if !may { fail("early-free", "a shared large value was taken out".to_string()); std::mem::forget((v, w)); return; }
                            if !v.is(o.n) { fail("wrong-value", "a value was not taken intact".to_string()); std::mem::forget((v, w)); return; }
                            o.weak.push(w);
                            drop(v);
                            probe("op.large_taken");
                        }
                        Err(r) => { if may { fail("refused", "the only owner of a value can not take it".to_string()); std::mem::forget(r); return; } o.strong.push(r); }
                    }
                }
                7 if !o.strong.is_empty() => {
                    let may = o.strong.len() == 1 && o.weak.is_empty();
                    let new = many::take(1);
                    let k = draw(o.strong.len() as u32) as usize;
                    let Some(done) = sim::sut_ok("get_mut", || { let v = V::make(new); let r = Rc::get_mut(&mut o.strong[k]); match r { Some(x) => { *x = v; true } None => false } }) else { return };
                    crate::tr!("mutable access is {}", if done { "given" } else { "refused" });
                    if done != may { fail("wrong-access", format!("mutable access to a value with {} strong and {} weak references was {}", o.strong.len(), o.weak.len(), if done { "given" } else { "refused" })); return; }
                    if done { o.n = new; probe("op.plain_get_mut"); }
                }
                8 if !o.strong.is_empty() => {
                    let may = o.strong.len() == 1 && o.weak.is_empty();
                    let r = o.strong.pop().unwrap();
                    crate::tr!("take it apart, {}", if may { "as the only reference" } else { "with others" });
                    let Some(r) = sim::sut_ok("into_raw", || Rc::into_raw(r)) else { return };
                    match r {
                        Ok(raw) => {
                            if !may { fail("early-free", format!("a value with {} strong and {} weak references was taken apart", o.strong.len() + 1, o.weak.len())); return; }
                            if raw.as_ptr() as usize != o.mem || raw.size() != o.extent { fail("wrong-extent", format!("{} bytes were given back of {}", raw.size(), o.extent)); return; }
                            if !unsafe { raw.as_ref() }.is(o.n) { fail("wrong-value", "a value taken apart is not intact".to_string()); return; }
                            let Some(r) = sim::sut_ok("from_raw", || unsafe { Rc::from_raw(raw) }) else { return };
                            o.strong.push(r);
                            probe("op.plain_raw");
                        }
                        Err(r) => { if may { fail("refused", "a unique value was not taken apart".to_string()); std::mem::forget(r); return; } o.strong.push(r); }
                    }
                }
                9 if !o.weak.is_empty() => { let Some(r) = sim::sut_ok("clone", || o.weak[0].clone()) else { return }; o.weak.push(r); }
                _ if !o.weak.is_empty() => {
                    let w = o.weak.pop().unwrap();
                    let may = o.strong.is_empty() && o.weak.is_empty();
                    let Some(r) = sim::sut_ok("try_unwrap", || w.try_unwrap()) else { return };
                    match r {
                        Ok(m) => {
                            if !may { fail("early-free", "the memory of a value was given back while referenced".to_string()); return; }
                            if m.as_ptr() as usize != o.mem || m.size() != o.extent { fail("wrong-extent", format!("{} bytes were given back of {}", m.size(), o.extent)); return; }
                            arena::dirt(o.mem, o.extent, 54);
                            os.swap_remove(k);
                            probe("op.large_back");
                        }
                        Err(w) => { if may { fail("refused", "the memory of a value was not given back".to_string()); std::mem::forget(w); return; } o.weak.push(w); }
                    }
                }
                _ => {}
            }
        }
        let mut alive = vec![];
        for o in &*os { o.check(&mut alive); if sim::failed() { return; } }
        if !many::alive::<V>(std::iter::once(&alive[..]), "reference counted values") { return; }
    }
    sim::nontrivial();
    if sim::sut_ok("drop", || drop(unsafe { ManuallyDrop::take(&mut os) })).is_none() { return; }
    many::alive::<V>(std::iter::empty(), "when the values are gone");
    arena::check("values");
}
pub fn c17() {
    if draw(512) == 511 { return match draw(3) { 0 => large::<many::Lump<70_000, u32>>(), 1 => large::<many::Lump<5000, many::Page>>(), _ => large::<many::Lump<300, u64>>() }; }
    if chance(1, 8) { return with_plain!(draw(5), V => large::<V>()); }
    with_val!(draw(6), V => run::<V>())
}
