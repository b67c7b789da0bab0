//! C19: regions of uninitialized memory split and cast by several owners.
use crate::arena;
use crate::pod;
use crate::shared::PODS;
use crate::sim::{self, chance, draw, fail, probe, range, Config, Global};
use std::alloc::Layout;
use std::mem::{align_of, size_of, MaybeUninit};
use std::ptr::NonNull;
use unsize::{CoerceUnsize, Coercion};
use without_alloc::uninit::UninitView;
use without_alloc::Uninit;

/// Types to cast a part to that was cast to another one before.
macro_rules! again { ($V:ident => $e:expr) => { match draw(8) { 0 => { type $V = u8; $e } 1 => { type $V = u16; $e } 2 => { type $V = [u16; 5]; $e } 3 => { type $V = [u32; 3]; $e } 4 => { type $V = u64; $e } 5 => { type $V = u128; $e } 6 => { type $V = crate::shared::A64; $e } _ => { type $V = [u32; 0]; $e } } } }
type U<T> = Uninit<'static, T>;
/// A part, where it must be, and what its owner wrote into all of it.
struct Part { u: U<()>, at: usize, len: usize, salt: u64 }
struct World { parts: Vec<Part>, salt: u64 }
static W: Global<World> = Global::new(World { parts: Vec::new(), salt: 0 });
fn w() -> &'static mut World { W.get() }

fn head<T: ?Sized>(p: *const T) -> usize { p as *const u8 as usize }
/// Is it that region?
fn is<T: ?Sized>(u: &Uninit<'_, T>, at: usize, len: usize, what: &str) -> bool {
    let (a, n, m) = (head(u.as_ptr()), u.size(), u.byte_capacity());
    let v = u.borrow();
    if a != at || n != len || m != len || head(u.as_non_null().as_ptr()) != at || head(v.as_ptr()) != at || v.size() != len || v.byte_capacity() != len { fail("wrong-part", format!("{what}: a part is offset {} with {n} bytes instead of offset {} with {len}", arena::offset(a), arena::offset(at))); return false; }
    true
}
fn is_view<T: ?Sized>(u: &UninitView<'_, T>, at: usize, len: usize, what: &str) -> bool {
    let (a, n, m) = (head(u.as_ptr()), u.size(), u.byte_capacity());
    if a != at || n != len || m != len || head(u.as_non_null().as_ptr()) != at { fail("wrong-part", format!("{what}: a view is offset {} with {n} bytes instead of offset {} with {len}", arena::offset(a), arena::offset(at))); return false; }
    true
}
/// Slice pointers and capacities must not reach further than the part.
fn slice_in<T>(ptr: *const [T], cap: usize, len: usize, what: &str) -> bool {
    let size = size_of::<T>();
    if size == 0 { return true; }
    if cap != len / size { fail("wrong-capacity", format!("{what}: the capacity is {cap} instead of {}", len / size)); return false; }
    if ptr.len().checked_mul(size).is_none_or(|n| n > len) { fail("wrong-slice", format!("{what}: the slice pointer has {} elements, {size} bytes each, in a part of {len} bytes", ptr.len())); return false; }
    true
}
fn aligned<T>(at: usize, what: &str) -> bool { if at % align_of::<T>() != 0 { fail("misaligned", format!("{what}: the part is not aligned")); return false; } true }
fn back(u: U<()>, at: usize, len: usize) {
    w().salt += 1;
    let salt = w().salt;
    // All of its memory is written by its owner, through its pointer.
    if !is(&u, at, len, "before use") { return; }
    arena::paint(head(u.as_ptr()), u.size(), salt);
    w().parts.push(Part { u, at, len, salt });
}
fn keep(p: Part) { w().parts.push(p) }
fn off(at: usize, align: usize) -> usize { at.wrapping_neg() & (align - 1) }
fn gone<T>(what: &str, got: Option<T>, may: bool) -> Option<Option<T>> {
    if got.is_some() != may { fail(if may { "refused" } else { "accepted" }, format!("{what} was {}", if may { "refused although it is possible" } else { "done although it is impossible" })); return None; }
    if !may { probe("op.refused"); }
    Some(got)
}
fn some_at(len: usize, unit: usize) -> usize {
    match draw(8) { 0 => 0, 1 => len, 2 => len + 1, 3 => usize::MAX - draw(3) as usize, 4 => (usize::MAX / unit.max(1)).wrapping_add(draw(3) as usize), _ => range(0, len) }
}
fn some_layout(len: usize) -> Layout {
    let align = 1usize << match draw(8) { 0 => draw(13), 1 => 40 + draw(23), _ => draw(8) };
    let size = match draw(6) { 0 => 0, 1 => len, 2 => usize::MAX >> draw(20), _ => range(0, len + 8) };
    Layout::from_size_align(size.min(isize::MAX as usize - (align - 1)), align).unwrap()
}

/// As plain memory.
fn memory(p: Part) {
    let Part { mut u, at, len, salt } = p;
    match draw(4) {
        0 => {
            let n = some_at(len, 1);
            crate::tr!("split {len} bytes at byte {n}");
            let Some(r) = sim::sut_ok("split_at_byte", || u.split_at_byte(n)) else { return };
            let Some(r) = gone("split_at_byte", r, n <= len) else { return };
            match r { None => keep(Part { u, at, len, salt }), Some(t) => { probe("op.split_at_byte"); back(u, at, n); back(t, at + n, len - n); } }
        }
        1 | 2 => {
            let l = some_layout(len);
            let o = off(at, l.align());
            let may = o.checked_add(l.size()).is_some_and(|e| e <= len);
            crate::tr!("split {len} bytes for {l:?}");
            let Some(r) = sim::sut_ok("split_layout", || u.split_layout(l)) else { return };
            let Some(r) = gone("split_layout", r, may) else { return };
            match r { None => { if !is(&u, at, len, "after refusing a split") { return; } keep(Part { u, at, len, salt }) } Some(t) => {
                probe("op.split_layout");
                if !t.fits(l) { fail("wrong-part", "the part does not fit the layout".to_string()); return; }
                back(u, at, o); back(t, at + o, len - o);
            } }
        }
        _ => {
            let l = some_layout(len);
            let may = at % l.align() == 0 && l.size() <= len;
            if u.fits(l) != may || u.borrow().fits(l) != may { fail("wrong-fit", format!("{l:?} was said to {}fit {len} bytes at offset {}", if may { "not " } else { "" }, arena::offset(at))); return; }
            probe("op.fits");
            keep(Part { u, at, len, salt });
        }
    }
}
/// As memory for values of a type.
fn sized<T: 'static>(p: Part) {
    let Part { mut u, at, len, salt } = p;
    let (size, align) = (size_of::<T>(), align_of::<T>());
    let u = if chance(1, 2) {
        let o = off(at, align);
        let may = o + size <= len;
        crate::tr!("split {len} bytes for a value of {size} bytes");
        let Some(r) = sim::sut_ok("split_cast", || u.split_cast::<T>()) else { return };
        let Some(r) = gone("split_cast", r, may) else { return };
        let Some(t) = r else { if is(&u, at, len, "after refusing a split") { keep(Part { u, at, len, salt }); } return };
        probe("op.split_cast");
        back(u, at, o);
        (t, at + o, len - o)
    } else {
        let may = at % align == 0 && size <= len;
        crate::tr!("cast {len} bytes for a value of {size} bytes");
        let Some(r) = sim::sut_ok("cast", || u.cast::<T>()) else { return };
        match r {
            Err(u) => { if gone("cast", None::<()>, may).is_some() && is(&u, at, len, "after refusing a cast") { keep(Part { u, at, len, salt }); } return }
            Ok(t) => { if gone("cast", Some(()), may).is_none() { return; } probe("op.cast"); (t, at, len) }
        }
    };
    let (mut u, at, len) = u;
    if sim::failed() || !is(&u, at, len, "cast") || !aligned::<T>(at, "cast") { return; }
    match draw(8) {
        7 => {
            let way = draw(2);
            let Some(rest) = sim::sut_ok("split_to_fit", || u.split_to_fit()) else { return };
            let Some(u) = sim::sut_ok("from a value", || { let m = u.into_maybe_uninit(); if way == 0 { Uninit::from(m) } else { Uninit::from_maybe_uninit(m) } }) else { return };
            crate::tr!("to standard memory of {size} bytes and back");
            if !is(&u, at, size, "memory of a value") { return; }
            probe("op.round_trip");
            back(u.as_memory(), at, size); back(rest, at + size, len - size);
        }
        5 => again!(V => recast::<T, V>(u, at, len)),
        0 | 1 => {
            let Some(t) = sim::sut_ok("split_to_fit", || u.split_to_fit()) else { return };
            crate::tr!("split what is behind the value");
            probe("op.split_to_fit");
            if !is(&u, at, size, "split_to_fit") { return; }
            back(u.as_memory(), at, size); back(t, at + size, len - size);
        }
        2 => {
            let n = some_at(len, 1);
            let Some(r) = sim::sut_ok("split_at_byte", || u.split_at_byte(n)) else { return };
            crate::tr!("split at byte {n} of {len}");
            let Some(r) = gone("split_at_byte", r, n <= len && n >= size) else { return };
            match r { None => back(u.as_memory(), at, len), Some(t) => { probe("op.split_at_byte"); back(u.as_memory(), at, n); back(t, at + n, len - n); } }
        }
        3 => {
            // Writing the value through a shorter borrow, and through standard types.
            let salt = { w().salt += 1; w().salt };
            let b = u.borrow_mut();
            if !is(&b, at, len, "borrowed") { return; }
            let v: MaybeUninit<T> = MaybeUninit::uninit();
            let mut v = v;
            arena::dirt(&mut v as *mut _ as usize, size, salt);
            let (want, rest) = (arena::bytes(&v as *const _ as usize, size).to_vec(), arena::bytes(at + size, (len - size).min(9000)).to_vec());
            let r = if chance(1, 2) { let v = unsafe { v.assume_init() }; sim::sut_ok("init", || b.init(v) as *mut T as usize) } else { sim::sut_ok("into_maybe_uninit", || { let m = b.into_maybe_uninit(); let at = m as *mut _ as usize; *m = v; at }) };
            let Some(r) = r else { return };
            if r != at { fail("wrong-place", "the value was not written to its place".to_string()); return; }
            if arena::bytes(at, size) != want { fail("wrong-value", "the bytes written are not those of the value".to_string()); return; }
            if arena::bytes(at + size, (len - size).min(9000)) != rest { fail("corrupted", "writing a value changed the bytes behind it".to_string()); return; }
            // References to it are to the same place.
            let seen = sim::sut_ok("references", || unsafe {
                let a = u.as_ref() as *const T as usize;
                let b = u.as_mut() as *mut T as usize;
                let c = u.borrow_mut().into_ref() as *const T as usize;
                let d = u.borrow_mut().into_mut() as *mut T as usize;
                let e = u.borrow().as_ref() as *const T as usize;
                let f = u.borrow().into_ref() as *const T as usize;
                let g = Uninit::from_view(u.borrow());
                [a, b, c, d, e, f, g.as_ptr() as usize, at + g.size() - len]
            });
            let Some(seen) = seen else { return };
            if seen.iter().any(|&x| x != at) { fail("wrong-place", "a reference is not to the value".to_string()); return; }
            probe("op.init");
            back(u.as_memory(), at, len);
        }
        4 => {
            // As an unsized one.
            let Some(d) = sim::sut_ok("unsize", || { let d: U<dyn std::any::Any> = u.unsize(Coercion!(to dyn std::any::Any)); d }) else { return };
            crate::tr!("coerced");
            if !is(&d, at, len, "coerced") { return; }
            probe("op.coerced");
            back(d.as_memory(), at, len);
        }
        _ => { views_sized(&u, at, len); if !sim::failed() { back(u.as_memory(), at, len); } }
    }
}
/// As memory for many values of a type.
fn slice<T: 'static>(p: Part) {
    let Part { mut u, at, len, salt } = p;
    let (size, align) = (size_of::<T>(), align_of::<T>());
    let (mut u, at, len) = if chance(1, 2) {
        let o = off(at, align);
        crate::tr!("split {len} bytes for values of {size} bytes");
        let Some(r) = sim::sut_ok("split_slice", || u.split_slice::<T>()) else { return };
        let Some(r) = gone("split_slice", r, o <= len) else { return };
        let Some(t) = r else { if is(&u, at, len, "after refusing a split") { keep(Part { u, at, len, salt }); } return };
        probe("op.split_slice");
        back(u, at, o);
        (t, at + o, len - o)
    } else {
        crate::tr!("cast {len} bytes for values of {size} bytes");
        let Some(r) = sim::sut_ok("cast_slice", || u.cast_slice::<T>()) else { return };
        match r {
            Err(u) => { if gone("cast_slice", None::<()>, at % align == 0).is_some() && is(&u, at, len, "after refusing a cast") { keep(Part { u, at, len, salt }); } return }
            Ok(t) => { if gone("cast_slice", Some(()), at % align == 0).is_none() { return; } probe("op.cast_slice"); (t, at, len) }
        }
    };
    if sim::failed() || !is(&u, at, len, "cast") || !aligned::<T>(at, "cast") || !slice_in(u.as_ptr(), u.capacity(), len, "cast") { return; }
    let cap = if size == 0 { usize::MAX } else { len / size };
    let unit = |e: Option<usize>| e.filter(|&b| b <= len);
    let mut parts: Vec<(U<[T]>, usize, usize)> = vec![];
    let mut mems: Vec<(U<()>, usize, usize)> = vec![];
    match draw(8) {
        0 | 1 => {
            let n = some_at(if size == 0 { 5 } else { cap }, size);
            crate::tr!("split at element {n} of {cap}");
            let Some(r) = sim::sut_ok("split_at", || u.split_at(n)) else { return };
            let bytes = unit(n.checked_mul(size));
            let Some(r) = gone("split_at", r, bytes.is_some()) else { return };
            match r { None => parts.push((u, at, len)), Some(t) => { probe("op.split_at"); sim::nontrivial(); let b = bytes.unwrap(); parts.push((u, at, b)); parts.push((t, at + b, len - b)); } }
        }
        2 | 3 => {
            let last = chance(1, 2);
            crate::tr!("split the {} of {cap}", if last { "last" } else { "first" });
            let Some(r) = sim::sut_ok("split one", || if last { u.split_last() } else { u.split_first() }) else { return };
            let Some(r) = gone("splitting one", r, cap > 0) else { return };
            match r {
                None => parts.push((u, at, len)),
                Some(t) => {
                    probe(if last { "op.split_last" } else { "op.split_first" });
                    sim::nontrivial();
                    if last {
                        // The last one has what is behind it, too.
                        let b = if size == 0 { 0 } else { (cap - 1) * size };
                        if !is(&t, at + b, len - b, "the last") { return; }
                        mems.push((t.as_memory(), at + b, len - b));
                        parts.push((u, at, b));
                    } else {
                        if !is(&t, at, size, "the first") { return; }
                        mems.push((t.as_memory(), at, size));
                        parts.push((u, at + size, len - size));
                    }
                }
            }
        }
        4 => {
            let Some(t) = sim::sut_ok("shrink_to_fit", || u.shrink_to_fit()) else { return };
            crate::tr!("shrink to {cap} elements");
            probe("op.shrink");
            let b = if size == 0 { 0 } else { cap * size };
            parts.push((u, at, b));
            mems.push((t, at + b, len - b));
        }
        5 => {
            let b = u.borrow_mut();
            if !is(&b, at, len, "borrowed") || !slice_in(b.as_ptr(), b.capacity(), len, "borrowed") { return; }
            {
                let Some(m) = sim::sut_ok("into_maybe_uninit_slice", || b.into_maybe_uninit_slice()) else { return };
                if m.as_ptr() as usize != at || m.len() * size > len { fail("wrong-slice", format!("{} elements in a part of {len} bytes", m.len())); return; }
                if m.len() != cap { fail("wrong-slice", format!("{} elements where {cap} fit", m.len())); return; }
                probe("op.as_maybe_uninit");
            }
            parts.push((u, at, len));
        }
        6 => { views_slice(&u, at, len); if sim::failed() { return; } parts.push((u, at, len)); }
        _ => {
            // To standard memory and back, exactly what is covered.
            if size == 0 { parts.push((u, at, len)); } else {
                let rest = u.shrink_to_fit();
                let b = cap * size;
                let Some(u) = sim::sut_ok("from slice", || { let m = u.into_maybe_uninit_slice(); if m.len() % 2 == 0 { Uninit::from(m) } else { Uninit::from_maybe_uninit_slice(m) } }) else { return };
                probe("op.round_trip");
                parts.push((u, at, b));
                mems.push((rest, at + b, len - b));
            }
        }
    }
    for (u, a, l) in parts {
        if sim::failed() || !is(&u, a, l, "a part") || !slice_in(u.as_ptr(), u.capacity(), l, "a part") { return; }
        if head(u.as_begin_ptr()) != a { fail("wrong-part", "the first element is not at the start".to_string()); return; }
        back(u.as_memory(), a, l);
    }
    for (u, a, l) in mems { if sim::failed() { return; } back(u, a, l); }
}
fn view_cast<T: 'static, V: 'static>(v: UninitView<'_, T>, at: usize, len: usize) {
    let may = at % align_of::<V>() == 0 && len >= size_of::<V>();
    let Some(r) = sim::sut_ok("cast of a view", || v.cast::<V>()) else { return };
    match r { Ok(c) => { if gone("cast of a view", Some(()), may).is_some() { is_view(&c, at, len, "a view"); } } Err(e) => { if gone("cast of a view", None::<()>, may).is_some() { is_view(&e, at, len, "a view"); } } }
}
fn view_cast_slice<T: 'static, V: 'static>(v: UninitView<'_, T>, at: usize, len: usize) {
    let may = at % align_of::<V>() == 0;
    let Some(r) = sim::sut_ok("cast of a view", || v.cast_slice::<V>()) else { return };
    match r { Ok(c) => { if gone("cast of a view", Some(()), may).is_some() && is_view(&c, at, len, "a view") { slice_in(c.as_ptr(), c.capacity(), len, "a view"); } } Err(e) => { if gone("cast of a view", None::<()>, may).is_some() { is_view(&e, at, len, "a view"); } } }
}
/// A part for one type becomes one for another type, or for many values of it.
fn recast<T: 'static, V: 'static>(u: U<T>, at: usize, len: usize) {
    if chance(1, 2) {
        let may = at % align_of::<V>() == 0 && len >= size_of::<V>();
        let Some(r) = sim::sut_ok("cast", || u.cast::<V>()) else { return };
        match r {
            Ok(c) => { if gone("cast", Some(()), may).is_some() && is(&c, at, len, "cast again") { probe("op.recast"); back(c.as_memory(), at, len); } }
            Err(e) => { if gone("cast", None::<()>, may).is_some() && is(&e, at, len, "after refusing a cast") { back(e.as_memory(), at, len); } }
        }
    } else {
        let may = at % align_of::<V>() == 0;
        let Some(r) = sim::sut_ok("cast_slice", || u.cast_slice::<V>()) else { return };
        match r {
            Ok(c) => { if gone("cast_slice", Some(()), may).is_some() && is(&c, at, len, "cast again") && slice_in(c.as_ptr(), c.capacity(), len, "cast again") { probe("op.recast"); back(c.as_memory(), at, len); } }
            Err(e) => { if gone("cast_slice", None::<()>, may).is_some() && is(&e, at, len, "after refusing a cast") { back(e.as_memory(), at, len); } }
        }
    }
}
/// The same on views, which leave the region itself alone.
fn views_sized<T: 'static>(u: &U<T>, at: usize, len: usize) {
    let size = size_of::<T>();
    let mut v = u.borrow();
    crate::tr!("view");
    probe("op.view");
    match draw(5) {
        4 => {
            // As standard memory and back, exactly the value. Copies of a view are of the same region.
            let way = draw(3);
            let Some(c) = sim::sut_ok("copy of a view", || match way { 0 => v.clone(), 1 => v.borrow(), _ => v }) else { return };
            if !is_view(&c, at, len, "a copy of a view") { return; }
            let Some(m) = sim::sut_ok("into_maybe_uninit", || c.into_maybe_uninit()) else { return };
            if m as *const _ as usize != at { fail("wrong-place", "a view became memory elsewhere".to_string()); return; }
            let Some(c) = sim::sut_ok("view of a value", || if way == 0 { UninitView::from(m) } else { UninitView::from_maybe_uninit(m) }) else { return };
            if !is_view(&c, at, size, "a view of a value") { return; }
            let Some(t) = sim::sut_ok("view", || UninitView::from(unsafe { Uninit::from_view(v) })) else { return };
            is_view(&t, at, len, "a view");
            probe("op.view_round_trip");
        }
        0 => { let n = some_at(len, 1); let Some(r) = sim::sut_ok("split_at_byte", || v.split_at_byte(n)) else { return }; let Some(r) = gone("split_at_byte of a view", r, n <= len && n >= size) else { return }; if let Some(t) = r { if is_view(&v, at, n, "a view") { is_view(&t, at + n, len - n, "a view"); } } else { is_view(&v, at, len, "a view"); } }
        1 => { let Some(t) = sim::sut_ok("split_to_fit", || v.split_to_fit()) else { return }; if is_view(&v, at, size, "a view") { is_view(&t, at + size, len - size, "a view"); } }
        2 => again!(V => view_cast::<T, V>(v, at, len)),
        _ => again!(V => view_cast_slice::<T, V>(v, at, len)),
    }
}
fn views_mem(u: &U<()>, at: usize, len: usize) {
    let mut v = u.borrow();
    crate::tr!("view");
    probe("op.view");
    match draw(3) {
        0 => { let l = some_layout(len); let o = off(at, l.align()); let may = o.checked_add(l.size()).is_some_and(|e| e <= len); let Some(r) = sim::sut_ok("split_layout", || v.split_layout(l)) else { return }; let Some(r) = gone("split_layout of a view", r, may) else { return }; if let Some(t) = r { if is_view(&v, at, o, "a view") { is_view(&t, at + o, len - o, "a view"); } } else { is_view(&v, at, len, "a view"); } }
        1 => { let o = off(at, 8); let Some(r) = sim::sut_ok("split_cast", || v.split_cast::<[u64; 3]>()) else { return }; let Some(r) = gone("split_cast of a view", r, o + 24 <= len) else { return }; if let Some(t) = r { if is_view(&v, at, o, "a view") { is_view(&t, at + o, len - o, "a view"); } } }
        _ => { let o = off(at, 4); let Some(r) = sim::sut_ok("split_slice", || v.split_slice::<u32>()) else { return }; let Some(r) = gone("split_slice of a view", r, o <= len) else { return }; if let Some(t) = r { if is_view(&v, at, o, "a view") && is_view(&t, at + o, len - o, "a view") { slice_in(t.as_ptr(), t.capacity(), len - o, "a view"); } } }
    }
}
fn views_slice<T: 'static>(u: &U<[T]>, at: usize, len: usize) {
    let size = size_of::<T>();
    let cap = if size == 0 { usize::MAX } else { len / size };
    let mut v = u.borrow();
    if !slice_in(v.as_ptr(), v.capacity(), len, "a view") { return; }
    crate::tr!("view");
    probe("op.view");
    let both = |a: &UninitView<'_, [T]>, b: &UninitView<'_, [T]>, n: usize| { if is_view(a, at, n, "a view") && is_view(b, at + n, len - n, "a view") { slice_in(a.as_ptr(), a.capacity(), n, "a view") && slice_in(b.as_ptr(), b.capacity(), len - n, "a view"); } };
    if head(v.as_begin_ptr()) != at { fail("wrong-part", "the first element of a view is not at its start".to_string()); return; }
    match draw(5) {
        4 => {
            let way = draw(3);
            let Some(c) = sim::sut_ok("copy of a view", || match way { 0 => v.clone(), 1 => v.borrow(), _ => v }) else { return };
            if !is_view(&c, at, len, "a copy of a view") || !slice_in(c.as_ptr(), c.capacity(), len, "a copy of a view") { return; }
            let Some(m) = sim::sut_ok("into_maybe_uninit_slice", || c.into_maybe_uninit_slice()) else { return };
            if m.as_ptr() as usize != at || m.len() != cap { fail("wrong-slice", format!("a view of {cap} elements became {} elements", m.len())); return; }
            if size == 0 { return; }
            let k = range(0, cap);
            let m = &m[k..];
            let Some(c) = sim::sut_ok("view of a slice", || if way == 0 { UninitView::from(m) } else { UninitView::from_maybe_uninit_slice(m) }) else { return };
            let (at, len) = (at + k * size, (cap - k) * size);
            if is_view(&c, at, len, "a view of a slice") { slice_in(c.as_ptr(), c.capacity(), len, "a view of a slice"); }
            probe("op.view_round_trip");
        }
        0 => { let n = some_at(if size == 0 { 5 } else { cap }, size); let b = n.checked_mul(size).filter(|&b| b <= len); let Some(r) = sim::sut_ok("split_at", || v.split_at(n)) else { return }; let Some(r) = gone("split_at of a view", r, b.is_some()) else { return }; if let Some(t) = r { both(&v, &t, b.unwrap()); } }
        1 => { let Some(r) = sim::sut_ok("split_first", || v.split_first()) else { return }; let Some(r) = gone("split_first of a view", r, cap > 0) else { return }; if let Some(t) = r { if is_view(&t, at, size, "a view") && is_view(&v, at + size, len - size, "a view") { slice_in(v.as_ptr(), v.capacity(), len - size, "a view"); } } }
        2 => { let Some(r) = sim::sut_ok("split_last", || v.split_last()) else { return }; let Some(r) = gone("split_last of a view", r, cap > 0) else { return }; if let Some(t) = r { let b = if size == 0 { 0 } else { (cap - 1) * size }; if is_view(&t, at + b, len - b, "a view") && is_view(&v, at, b, "a view") { slice_in(v.as_ptr(), v.capacity(), b, "a view"); } } }
        _ => { let Some(t) = sim::sut_ok("shrink_to_fit", || v.shrink_to_fit()) else { return }; let b = if size == 0 { 0 } else { cap * size }; if is_view(&v, at, b, "a view") { is_view(&t, at + b, len - b, "a view"); } }
    }
}
/// What is made from nothing, or from standard types.
fn made() {
    let bad = pod!(draw(PODS as u32) as usize, T => {
        let size = size_of::<T>();
        let r = sim::sut(|| Uninit::<T>::invent_for_zst());
        match r { Ok(u) => if size > 0 { Some("memory for a type with a size was invented".to_string()) } else if head(u.as_ptr()) % align_of::<T>() != 0 || head(u.as_ptr()) == 0 || u.size() != 0 { Some("wrong invented memory".to_string()) } else { None }, Err(_) => if size == 0 { Some("no memory for a type without size was invented".to_string()) } else { None } }
    });
    if let Some(m) = bad { fail("wrong-part", m); return; }
    let bad = pod!(draw(PODS as u32) as usize, T => {
        let u: U<[T]> = if chance(1, 2) { Uninit::empty() } else { Default::default() };
        if u.size() != 0 || u.as_ptr().len() * size_of::<T>() != 0 || head(u.as_ptr()) % align_of::<T>() != 0 || (size_of::<T>() > 0 && u.capacity() != 0) { Some("an empty region is not empty".to_string()) } else { None }
    });
    if let Some(m) = bad { fail("wrong-part", m); return; }
    let bad = pod!(draw(PODS as u32) as usize, T => {
        let u: UninitView<[T]> = match draw(2) { 0 => UninitView::empty(), _ => Default::default() };
        if u.size() != 0 || u.as_ptr().len() * size_of::<T>() != 0 || head(u.as_ptr()) % align_of::<T>() != 0 || (size_of::<T>() > 0 && u.capacity() != 0) { Some("an empty view is not empty".to_string()) } else { None }
    });
    if let Some(m) = bad { fail("wrong-part", m); return; }
    let bad = pod!(draw(PODS as u32) as usize, T => {
        let size = size_of::<T>();
        let r = sim::sut(|| UninitView::<T>::invent_for_zst());
        match r { Ok(u) => if size > 0 { Some("a view of a type with a size was invented".to_string()) } else if head(u.as_ptr()) % align_of::<T>() != 0 || head(u.as_ptr()) == 0 || u.size() != 0 { Some("wrong invented view".to_string()) } else { None }, Err(_) => if size == 0 { Some("no view of a type without size was invented".to_string()) } else { None } }
    });
    if let Some(m) = bad { fail("wrong-part", m); return; }
    probe("op.made");
}
/// An array as a slice keeps all of its memory.
fn array(p: Part) {
    let Part { u, at, len, salt } = p;
    let u = match u.cast::<[u32; 3]>() { Ok(u) => u, Err(u) => return keep(Part { u, at, len, salt }) };
    crate::tr!("coerce an array in {len} bytes");
    let Some(s) = sim::sut_ok("unsize", || { let s: U<[u32]> = u.unsize(Coercion::to_slice()); s }) else { return };
    if s.as_ptr().len() != 3 { fail("wrong-slice", format!("an array of 3 became a slice of {}", s.as_ptr().len())); return; }
    if !is(&s, at, len, "coerced") || !slice_in(s.as_ptr(), s.capacity(), len, "coerced") { return; }
    probe("op.coerced_slice");
    back(s.as_memory(), at, len);
}
fn step() {
    sim::step();
    if chance(1, 20) { return made(); }
    if w().parts.is_empty() { return; }
    let i = draw(w().parts.len() as u32) as usize;
    let p = w().parts.swap_remove(i);
    if !mine(&p) { return; }
    match draw(12) {
        0..=2 => memory(p),
        3 => array(p),
        4 => { views_mem(&p.u, p.at, p.len); if !sim::failed() { keep(p); } }
        5..=7 => pod!(draw(PODS as u32) as usize, T => sized::<T>(p)),
        _ => pod!(draw(PODS as u32) as usize, T => slice::<T>(p)),
    }
}
/// The part has still what was written to it.
fn mine(p: &Part) -> bool {
    let bad = arena::painted(p.at, p.len, p.salt);
    if bad >= 0 { fail("corrupted", format!("byte {bad} of a part of {} bytes was overwritten by the owner of another part", p.len)); return false; }
    is(&p.u, p.at, p.len, "a part")
}
pub fn c19() {
    w().parts.clear();
    w().salt = 1000;
    let huge = if chance(1, 48) { arena::huge() } else { None };
    if let Some(at) = huge {
        // Sizes that do not fit 32 bits.
        let skew = if chance(1, 2) { draw(256) as usize } else { 0 };
        let len = range(1 << 31, arena::HUGE - 256);
        probe("op.huge");
        back(unsafe { Uninit::from_memory(NonNull::new_unchecked((at + skew) as *mut u8), len) }, at + skew, len);
    }
    for _ in 0..range(1, 2) {
        if huge.is_some() { break; }
        let len = if chance(1, 16) { range(400, 9000) } else { match draw(5) { 0 => range(0, 16), _ => range(8, 400) } };
        let at = arena::place(len, 256, if chance(1, 2) { draw(256) as usize } else { 64 * draw(4) as usize });
        arena::dirt(at, len, 2);
        back(unsafe { Uninit::from_memory(NonNull::new_unchecked(at as *mut u8), len) }, at, len);
    }
    struct Clear(Option<usize>);
    impl Drop for Clear { fn drop(&mut self) { if let Some(at) = self.0 { arena::huge_clear(at); } } }
    let _clear = Clear(huge);
    if sim::failed() { return; }
    let ops = range(4, 40);
    let tasks = range(1, 3);
    for _ in 0..tasks {
        let n = ops / tasks + 1;
        sim::spawn(move || for _ in 0..n { if sim::failed() { return; } step(); sim::maybe_yield(); });
    }
    sim::run_tasks(Config::random());
    if sim::failed() { w().parts.clear(); return; }
    // All owners write at once, then all of them must have what they wrote.
    for p in &mut w().parts { w().salt += 1; p.salt = w().salt; arena::paint(head(p.u.as_ptr()), p.u.size(), p.salt); }
    let parts = std::mem::take(&mut w().parts);
    for p in &parts { if !mine(p) { return; } }
    arena::check("splitting");
}
