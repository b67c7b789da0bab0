//! C09, C10 and parts of C04 and C08: the unsynchronized `MemBump` and `Bump`.
use super::bump_shared::model_layout;
use super::shared::*;
use crate::arena;
use crate::pod;
use crate::sim::{self, chance, draw, fail, note, pick, probe, range, Config, Global};
use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{Bump, MemBump};
use std::alloc::Layout;
use std::mem::{align_of, size_of, MaybeUninit};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MOp { Alloc(Layout), AllocAt(Layout, Level), Get(usize), GetAt(usize, Level), Box(usize), Array(usize, usize), Level }
impl MOp {
    fn at(&self) -> Option<usize> { match *self { MOp::AllocAt(_, l) | MOp::GetAt(_, l) => Some(level_num(l)), _ => None } }
    /// None if it can not be represented.
    pub fn layout(&self) -> Option<Layout> {
        match *self {
            MOp::Alloc(l) | MOp::AllocAt(l, _) => Some(l),
            MOp::Get(v) | MOp::GetAt(v, _) | MOp::Box(v) => Some(pod_layout(v)),
            MOp::Array(v, n) => pod!(v, V => Layout::array::<V>(n).ok()),
            MOp::Level => Some(Layout::new::<()>()),
        }
    }
}
#[derive(Clone, Copy)]
pub struct Block { pub off: usize, pub len: usize, pub salt: u64, pub user: usize, pub level: usize, pub pod: Option<usize> }
pub struct Mem { pub mem: *mut MemBump, pub base: usize, pub len: usize, pub l: usize, pub blocks: Vec<Block>, pub levels: Vec<Level>, pub salt: u64, pub quiet: bool }
static M: Global<Option<Mem>> = Global::new(None);
pub fn m() -> &'static mut Mem { M.get().as_mut().unwrap() }

fn fl(f: Failure) -> Fail { match f { Failure::Exhausted => Fail::Exhausted, Failure::Mismatch { observed } => Fail::Mismatch(level_num(observed)) } }

pub fn raw(mem: &MemBump, op: MOp) -> Res {
    match op {
        MOp::Alloc(l) => match mem.alloc(l) { Some(p) => Res::Ok { addr: p.as_ptr() as usize, level: None, size: l.size() }, None => Res::Err(Fail::Unspecified) },
        MOp::AllocAt(l, at) => match mem.alloc_at(l, at) { Ok(p) => Res::Ok { addr: p.as_ptr() as usize, level: None, size: l.size() }, Err(f) => { let _q = sim::unarmed(); Res::Err(fl(f)) } },
        MOp::Get(v) => pod!(v, V => match mem.get::<V>() { Some(a) => { let _q = sim::unarmed(); Res::Ok { addr: a.ptr.as_ptr() as usize, level: Some(level_num(a.level)), size: size_of::<V>() } } None => Res::Err(Fail::Unspecified) }),
        MOp::GetAt(v, at) => pod!(v, V => match mem.get_at::<V>(at) { Ok(a) => { let _q = sim::unarmed(); Res::Ok { addr: a.ptr.as_ptr() as usize, level: Some(level_num(a.level)), size: size_of::<V>() } } Err(f) => { let _q = sim::unarmed(); Res::Err(fl(f)) } }),
        MOp::Box(v) => pod!(v, V => match mem.bump_box::<V>() { Ok(b) => Res::Ok { addr: LeakBox::into_raw(b) as usize, level: None, size: size_of::<V>() }, Err(f) => { let _q = sim::unarmed(); Res::Err(fl(f)) } }),
        MOp::Array(v, n) => pod!(v, V => match mem.bump_array::<V>(n) {
            Ok(b) => {
                let r: &mut [MaybeUninit<V>] = LeakBox::leak(b);
                let _q = sim::unarmed();
                if r.len() != n { fail("wrong-length", format!("array of {n} elements has {}", r.len())); }
                Res::Ok { addr: r.as_mut_ptr() as usize, level: None, size: n.checked_mul(size_of::<V>()).unwrap_or(usize::MAX) }
            }
            Err(f) => { let _q = sim::unarmed(); Res::Err(fl(f)) }
        }),
        MOp::Level => { let l = mem.level(); let _q = sim::unarmed(); Res::Level(level_num(l)) }
    }
}
pub fn gen(len: usize, left: usize, levels: &[Level], p_at: u32) -> MOp {
    if !levels.is_empty() && chance(p_at, 16) {
        let at = some_level(len, levels);
        return if chance(1, 2) { MOp::GetAt(draw(PODS as u32) as usize, at) } else { MOp::AllocAt(gen_layout(len, left), at) };
    }
    match draw(10) {
        0..=2 => MOp::Get(draw(PODS as u32) as usize),
        3 | 4 => MOp::Alloc(gen_layout(len, left)),
        5 | 6 => MOp::Box(draw(PODS as u32) as usize),
        7 | 8 => {
            let v = draw(PODS as u32) as usize;
            let s = pod_layout(v).size();
            let n = match draw(8) { 0..=3 => range(0, 5), 4 | 5 => left / s.max(1), 6 => left / s.max(1) + 1, _ => pick(&[usize::MAX, usize::MAX / 2, isize::MAX as usize / s.max(1), 1 << 32, 0]) };
            MOp::Array(v, n)
        }
        _ => MOp::Level,
    }
}
fn note_res(base: usize, r: &Res) {
    match *r {
        Res::Ok { size: 0, level, .. } => note(6 ^ (level.unwrap_or(0) as u64) << 8),
        Res::Ok { addr, level, .. } => { note(1 ^ (addr.wrapping_sub(base) as u64) << 8); note(level.unwrap_or(0) as u64) }
        Res::Err(Fail::Mismatch(l)) => note(2 ^ (l as u64) << 8),
        Res::Err(_) => note(3),
        Res::Level(l) => note(5 ^ (l as u64) << 8),
    }
}

/// Call one operation and compare with the model.
pub fn exec(user: usize, op: MOp) -> Option<Res> {
    let st = m();
    let (base, len, l) = (st.base, st.len, st.l);
    let mem = st.mem;
    let r = match sim::sut(|| raw(unsafe { &*mem }, op)) {
        Ok(r) => r,
        Err(p) => { fail("panic", format!("{op:?} at level {l} of {len} panicked: {}", sim::panic_text(&p))); return None; }
    };
    note_res(base, &r);
    let shown = match r { Res::Ok { size: 0, .. } => "Ok without memory".to_string(), Res::Ok { addr, size, level } => format!("Ok at {} size {size} level {level:?}", addr as isize - base as isize), x => format!("{x:?}") };
    crate::tr!("user {user}: {op:?} -> {shown}");
    probe(match r { Res::Ok { .. } => "op.allocated", Res::Err(Fail::Mismatch(_)) => "op.level_mismatch", Res::Err(_) => "op.exhausted", _ => "op.level" });
    let next = match op.layout() {
        // Not a layout at all.
        None => if matches!(r, Res::Err(Fail::Exhausted | Fail::Unspecified)) { vec![l] } else { vec![] },
        Some(lay) => match op { MOp::Level => if r == Res::Level(l) { vec![l] } else { vec![] }, _ => model_layout(base, len, l, lay, op.at(), Some(&r)) },
    };
    let Some(&n) = next.first() else { fail("not-the-model", format!("at level {l} of {len} bytes {op:?} gave {shown}")); return None; };
    let st = m();
    st.l = n;
    let seen = level_num(unsafe { (*mem).level() });
    if seen != n { fail("wrong-level", format!("the level is {seen} instead of {n} after {op:?} at level {l}")); return None; }
    if let Res::Ok { addr, size, .. } = r {
        let align = op.layout().map(|l| l.align()).unwrap_or(1);
        if addr == 0 || addr % align != 0 { fail("misaligned", format!("{op:?} gave an address not aligned to {align}")); return None; }
        if size > 0 {
            if addr < base || addr + size > base + len { fail("out-of-bounds", format!("{op:?} gave {shown}")); return None; }
            let off = addr - base;
            for b in &st.blocks { if off < b.off + b.len && b.off < off + size { fail("overlap", format!("{off}..{} overlaps {}..{}", off + size, b.off, b.off + b.len)); return None; } }
            st.salt += 1;
            let pod = match op { MOp::Get(v) | MOp::GetAt(v, _) | MOp::Box(v) => Some(v), _ => None };
            let b = Block { off, len: size, salt: st.salt, user, level: l, pod };
            arena::paint(addr, size, b.salt);
            st.blocks.push(b);
        }
    }
    Some(r)
}
/// The plain allocation function is documented to panic for a size of zero, and it has no effect.
fn empty_request() {
    let l = std::alloc::Layout::from_size_align(0, 1 << draw(8)).unwrap();
    let mem = m().mem;
    if let Ok(r) = sim::sut(|| raw(unsafe { &*mem }, MOp::Alloc(l))) { fail("empty-request", format!("a request of size zero, alignment {}, gave {r:?} but is documented to panic", l.align())); return; }
    probe("op.empty_refused");
    let (seen, l) = (level_num(unsafe { (*mem).level() }), m().l);
    if seen != l { fail("wrong-level", format!("the level is {seen} instead of {l} after a refused request of size zero")); }
}
pub fn verify(what: &str) {
    let st = m();
    for b in &st.blocks {
        let bad = arena::painted(st.base + b.off, b.len, b.salt);
        if bad >= 0 { fail("corrupted", format!("{what}: byte {bad} of the allocation {}..{} was changed", b.off, b.off + b.len)); return; }
    }
}
pub fn adopt(mem: *mut MemBump) {
    if mem as *mut u8 as usize % align_of::<usize>() != 0 { fail("misaligned", "the allocator itself is not aligned".to_string()); }
    let r = unsafe { &*mem };
    let base = r.data_ptr().as_ptr() as usize;
    let len = r.capacity();
    *M.get() = Some(Mem { mem, base, len, l: 0, blocks: Vec::new(), levels: vec![r.level()], salt: 500, quiet: false });
}

// ---------------------------------------------------------------- construction

#[derive(Clone, Copy)] #[repr(C, align(64))] struct S64([u8; 192]);
#[derive(Clone, Copy)] #[repr(C, align(128))] struct S128([u8; 128]);
#[derive(Clone, Copy)] #[repr(C, align(4))] struct S4([u8; 100]);
macro_rules! ustorages { ($sel:expr, $T:ident => $e:expr) => { match $sel {
    0 => { type $T = [u8; 64]; $e } 1 => { type $T = u8; $e } 2 => { type $T = [u8; 7]; $e } 3 => { type $T = [u64; 4]; $e } 4 => { type $T = [u8; 200]; $e } 5 => { type $T = S64; $e }
    6 => { type $T = [u128; 8]; $e } 7 => { type $T = S4; $e } 8 => { type $T = S128; $e } 9 => { type $T = (); $e } 10 => { type $T = u16; $e } _ => { type $T = [u32; 100]; $e } } } }
const USTORAGES: u32 = 12;

/// A sized allocator in the arena.
fn sized(sel: u32, zeroed: bool) {
    ustorages!(sel, T => {
        let (size, align) = (size_of::<Bump<T>>(), align_of::<Bump<T>>());
        let at = arena::place(size, 4096, align * draw((4096 / align) as u32) as usize);
        arena::dirt(at, size, 99);
        let p = at as *mut Bump<T>;
        unsafe {
            p.write(if zeroed { Bump::zeroed() } else { Bump::uninit() });
            let Some(mem) = sim::sut_ok("deref", || { let m: &mut MemBump = &mut *p; m as *mut MemBump }) else { return };
            adopt(mem);
            let st = m();
            crate::tr!("unsync Bump of {} bytes aligned to {} in an object of {size}: data at {} of capacity {}", size_of::<T>(), align_of::<T>(), st.base as isize - at as isize, st.len);
            note(st.len as u64);
            if st.base < at || st.base + st.len > at + size { fail("out-of-bounds", format!("data of {} bytes at {} is not within the object of {size} bytes", st.len, st.base as isize - at as isize)); return; }
            if zeroed && arena::bytes(st.base, st.len).iter().any(|&b| b != 0) { fail("not-zero", "zeroed memory is not".to_string()); return; }
            // It holds a value of its own type when fresh.
            let r = sim::sut_ok("get", || (*mem).get::<T>().map(|a| a.ptr.as_ptr() as usize));
            match r { Some(Some(a)) if a % align_of::<T>() == 0 => {} Some(x) => { fail("too-small", format!("a fresh allocator can not hold one value of its type: {:?}", x.map(|_| "misaligned"))); return; } None => return }
            (*mem).reset();
        }
    })
}
/// From raw memory of any kind. None if it was refused, rightly.
fn from_raw(addr: usize, len: usize) -> Option<()> {
    let mem = arena::bytes(addr, len);
    let mem: &'static mut [MaybeUninit<u8>] = unsafe { &mut *(mem as *mut [u8] as *mut [MaybeUninit<u8>]) };
    let off = addr.next_multiple_of(align_of::<usize>()) - addr;
    match sim::sut_ok("from_mem", || MemBump::from_mem(mem))? {
        Ok(b) => {
            adopt(LeakBox::into_raw(b));
            let st = m();
            crate::tr!("MemBump from {len} bytes at offset {}: data at {} of capacity {}", arena::offset(addr), st.base as isize - addr as isize, st.len);
            note(st.len as u64);
            if st.base < addr || st.base + st.len > addr + len { fail("out-of-bounds", format!("data of {} bytes at {} is not within the memory of {len} bytes", st.len, st.base as isize - addr as isize)); return None; }
            if st.l != level_num(st.levels[0]) { fail("wrong-level", format!("fresh allocator at level {}", level_num(st.levels[0]))); return None; }
            probe("op.from_mem");
            Some(())
        }
        Err(_) => {
            probe("op.from_mem_refused");
            crate::tr!("MemBump from {len} bytes, {off} from alignment: refused");
            if off + size_of::<usize>() <= len { fail("refused", format!("{len} bytes of which {off} are needed for alignment have space for the header")); }
            None
        }
    }
}
fn gen_raw() -> (usize, usize) {
    let len = match draw(6) { 0 => range(0, 24), 1..=3 => range(16, 160), 4 => range(8, 400), _ => if chance(1, 8) { range(3000, 70_000) } else { range(0, 3000) } };
    let at = arena::place(len, 4096, draw(4096) as usize);
    match draw(4) { 0 => arena::bytes(at, len).fill(0), 1 => arena::bytes(at, len).fill(0xFF), _ => arena::dirt(at, len, 31) }
    (at, len)
}

pub fn users(n: usize, per: usize, p_at: u32) {
    let p_hold = pick(&[4u32, 8]);
    for u in 0..n {
        let ops = range(1, per);
        sim::spawn(move || {
            let mut mine: Vec<Level> = m().levels.clone();
            for _ in 0..ops {
                if sim::failed() { return; }
                if chance(p_hold, 16) { mine.push(unsafe { (*m().mem).level() }); }
                let st = m();
                let op = gen(st.len, st.len - st.l, &mine, p_at);
                exec(u, op);
                if chance(1, 2) { mine.push(unsafe { (*m().mem).level() }); }
                if chance(1, 3) { sim::nontrivial(); sim::yield_now(); }
            }
        });
    }
    let mut cfg = Config::NONE;
    cfg.p_stall = 0;
    sim::run_tasks(cfg);
}
fn exhaust() {
    // What is left is exactly what can still be allocated.
    let st = m();
    let left = st.len - st.l;
    let mut n = 0;
    if left > 400 { exec(80, MOp::Alloc(Layout::from_size_align(left + 1, 1).unwrap())); exec(80, MOp::Alloc(Layout::from_size_align(left, 1).unwrap())); }
    else { while !sim::failed() { match exec(80, MOp::Get(0)) { Some(Res::Ok { .. }) => n += 1, _ => break } } if !sim::failed() && n != left { fail("wrong-capacity", format!("{n} single bytes could be allocated of {left} left")); } }
}

/// Memory of which the size does not fit 32 bits: places and levels only, nothing is written to it.
fn huge() {
    let Some(at) = arena::huge() else { return };
    probe("op.huge");
    let skew = draw(64) as usize;
    let len = range(1 << 31, arena::HUGE - 64);
    let mem: &'static mut [MaybeUninit<u8>] = unsafe { std::slice::from_raw_parts_mut((at + skew) as *mut MaybeUninit<u8>, len) };
    let Some(r) = sim::sut_ok("from_mem", || MemBump::from_mem(mem)) else { return };
    let Ok(b) = r else { fail("refused", format!("{len} bytes were refused")); return };
    adopt(LeakBox::into_raw(b));
    let st = m();
    if st.base < at + skew || st.base + st.len > at + skew + len || st.len + 64 < len { fail("out-of-bounds", format!("data of {} bytes in memory of {len}", st.len)); return; }
    for _ in 0..range(1, 8) {
        let st = m();
        let lv = [unsafe { (*st.mem).level() }];
        let left = st.len - st.l;
        let size = match draw(4) { 0 => left.max(1), 1 => left + 1, 2 => range(1, left.max(1)), _ => range(1, 5000) };
        let Ok(l) = Layout::from_size_align(size, 1 << draw(33)) else { continue };
        match draw(4) { 0 => exec(0, MOp::Alloc(l)), 1 => exec(0, MOp::AllocAt(l, lv[0])), 2 => exec(0, MOp::Array(pick(&[0usize, 1, 3]), size / pick(&[1usize, 2, 8]))), _ => exec(0, gen(st.len, left, &lv, 4)) };
        if sim::failed() { break; }
    }
    if !sim::failed() { exhaust(); }
    if !sim::failed() { verify("at the end"); }
    arena::huge_clear(at);
}

pub fn c09() {
    if chance(1, 64) { return huge(); }
    if chance(1, 2) { sized(draw(USTORAGES), chance(1, 2)) }
    else {
        let (at, len) = gen_raw();
        if from_raw(at, len).is_none() { arena::check("refused creation"); return; }
    }
    if sim::failed() { return; }
    let rounds = range(1, 2);
    for r in 0..rounds {
        users(pick(&[1usize, 2, 3, 4]), pick(&[4usize, 8, 16]), pick(&[2u32, 6, 12]));
        if sim::failed() { return; }
        if chance(1, 6) { empty_request(); }
        if sim::failed() { return; }
        if chance(1, 2) { exhaust(); }
        if sim::failed() { return; }
        verify("at the end");
        arena::check("unsynchronized allocations");
        if r + 1 < rounds {
            let st = m();
            sim::sut_ok("reset", || unsafe { (*st.mem).reset() });
            crate::tr!("reset");
            let st = m();
            st.l = 0;
            st.blocks.clear();
        }
    }
}

// ---------------------------------------------------------------- C04

pub fn interleaved_arrays() {
    if chance(1, 2) { sized(pick(&[0u32, 3, 4, 5, 6, 7, 11]), false) }
    else {
        let len = range(64, 400);
        let at = arena::place(len, 4096, draw(4096) as usize);
        arena::dirt(at, len, 5);
        if from_raw(at, len).is_none() { return; }
    }
    if sim::failed() { return; }
    for u in 0..range(2, 4) {
        let role = draw(3);
        let count = range(2, 7);
        let v = pick(&[0usize, 1, 2, 3, 5, 6, 7]);
        sim::spawn(move || {
            let mut end: Option<usize> = None;
            let mut l = unsafe { (*m().mem).level() };
            for _ in 0..count {
                if sim::failed() { return; }
                if role == 0 { let st = m(); let lv = [l]; exec(u, gen(st.len, st.len - st.l, &lv, 6)); }
                else {
                    let at = level_num(l);
                    let (r, lay) = (exec(u, MOp::GetAt(v, l)), pod_layout(v));
                    match r {
                        Some(Res::Ok { addr, level, size }) => {
                            let want = end.unwrap_or_else(|| (m().base + at).next_multiple_of(lay.align()));
                            if addr != want { fail("gap", format!("element requested at level {at} was placed at {} instead of {}", addr - m().base, want - m().base)); return; }
                            if end.is_some() { probe("check.gap_free_pair"); }
                            end = Some(addr + size);
                            l = level_of(level.unwrap());
                        }
                        Some(Res::Err(Fail::Mismatch(o))) => { end = None; l = level_of(o); }
                        _ => return,
                    }
                }
                if chance(1, 2) { sim::nontrivial(); sim::yield_now(); }
            }
        });
    }
    sim::run_tasks(Config::NONE);
    if sim::failed() { return; }
    verify("at the end");
    arena::check("level exact allocations");
}

// ---------------------------------------------------------------- C08

pub fn reset_like_fresh() {
    let raw_mem = chance(1, 2);
    let sel = draw(USTORAGES);
    let (mut at, mut len) = (0, 0);
    if raw_mem { (at, len) = gen_raw(); if from_raw(at, len).is_none() { return; } } else { sized(sel, chance(1, 2)); }
    if sim::failed() { return; }
    for _ in 0..range(1, 3) {
        users(pick(&[1usize, 2]), 8, 4);
        if sim::failed() { return; }
        let st = m();
        let before = arena::bytes(st.base, st.len).to_vec();
        sim::sut_ok("reset", || unsafe { (*st.mem).reset() });
        probe("op.reset");
        crate::tr!("reset");
        if arena::bytes(st.base, st.len) != &before[..] { fail("bytes-changed", "resetting changed bytes of the storage".to_string()); return; }
        st.l = 0;
        st.blocks.clear();
        let mut l = st.levels.clone();
        l.push(unsafe { (*st.mem).level() });
        st.levels = l;
    }
    // One script, compared to a new instance at the same place.
    let mut known = m().levels.clone();
    let mut script = Vec::new();
    let rel = |r: Res, base: usize| match r { Res::Ok { size: 0, level, .. } => Res::Ok { addr: 0, level, size: 0 }, Res::Ok { addr, level, size } => Res::Ok { addr: addr.wrapping_sub(base), level, size }, x => x };
    for _ in 0..range(1, 10) {
        let st = m();
        let op = gen(st.len, st.len - st.l, &known, 5);
        let Some(r) = exec(70, op) else { return };
        known.push(unsafe { (*m().mem).level() });
        script.push((op, rel(r, m().base), m().l));
    }
    let cap = m().len;
    if raw_mem { if from_raw(at, len).is_none() { fail("differs-from-fresh", "memory that held an allocator was refused".to_string()); return; } }
    else { renew_sized(sel); }
    if sim::failed() { return; }
    if m().len != cap { fail("differs-from-fresh", "another capacity".to_string()); return; }
    for (op, want, level) in script {
        let Some(r) = exec(71, op) else { return };
        let got = rel(r, m().base);
        if got != want || m().l != level { fail("differs-from-fresh", format!("{op:?} gave {want:?} and level {level} after a reset, but {got:?} and level {} on a new allocator", m().l)); return; }
        probe("check.same_as_fresh");
    }
}
fn renew_sized(sel: u32) {
    ustorages!(sel, T => unsafe {
        let p = m().mem as *mut u8 as *mut Bump<T>;
        p.write(Bump::uninit());
        let Some(mem) = sim::sut_ok("deref", || { let m: &mut MemBump = &mut *p; m as *mut MemBump }) else { return };
        adopt(mem);
    })
}

// ---------------------------------------------------------------- C10

pub fn c10() {
    let len = if chance(1, 16) { range(400, 8000) } else { match draw(4) { 0 => range(8, 40), _ => range(24, 400) } };
    let at = arena::place(len, 4096, draw(4096) as usize);
    arena::dirt(at, len, 8);
    if from_raw(at, len).is_none() { return; }
    if sim::failed() { return; }
    // Values are accessible at any place only if their alignment is.
    let mut held: (usize, usize);
    let rounds = range(1, 4);
    let mut relocations_left = range(0, 3);
    for round in 0..rounds {
        // A phase of use, cut off after some operations. Not inside of one: nothing can look at the
        // memory then, how the state is updated is up to the implementation.
        let ops = range(0, 6);
        sim::spawn(move || {
            for _ in 0..ops {
                if sim::failed() { return; }
                let st = m();
                if st.len > 400 && chance(1, 2) { exec(0, MOp::Array(pick(&[0usize, 1, 3]), range(1, 200))); continue; }
                let lv = [unsafe { (*st.mem).level() }];
                let mut op = gen(st.len, st.len - st.l, &lv, 6);
                // After a relocation only the alignment of the header is kept.
                if op.layout().is_some_and(|l| l.align() > 8) { op = MOp::GetAt(pick(&[0usize, 1, 2, 3, 5, 6, 7, 9]), lv[0]); }
                exec(0, op);
                reacquire(3);
            }
        });
        sim::run_tasks(Config::NONE);
        if sim::failed() { return; }
        // Release, or lose track of the handle.
        let st = m();
        let mem: *mut MemBump = st.mem;
        let (base, cap, l) = (st.base, st.len, st.l);
        let handle: LeakBox<'static, MemBump> = unsafe { LeakBox::from_raw(mem) };
        let Some(released) = sim::sut_ok("into_mem", || MemBump::into_mem(handle)) else { return };
        held = (released.as_mut_ptr() as usize, released.len());
        crate::tr!("released {} bytes at offset {}", held.1, arena::offset(held.0));
        probe("op.into_mem");
        // Within the memory it was made from.
        let whole = place_of();
        if round == 0 && whole.is_none() { PLACE.get().replace((at, len)); }
        let (pa, pl) = place_of().unwrap();
        if held.0 < pa || held.0 + held.1 > pa + pl { fail("out-of-bounds", format!("released {} bytes at {} which is not within the memory of {pl} bytes it was created from", held.1, held.0 as isize - pa as isize)); return; }
        if base < held.0 || base + cap > held.0 + held.1 { fail("lost-memory", "the released memory does not contain the allocations".to_string()); return; }
        let mut place = held;
        if relocations_left > 0 && chance(1, 2) {
            relocations_left -= 1;
            // The process restarts with the bytes somewhere else.
            let new = arena::place(held.1, 4096, 8 * draw(512) as usize);
            arena::bytes(new, held.1).copy_from_slice(arena::bytes(held.0, held.1));
            arena::dirt(held.0, held.1, 1234);
            arena::revoke(pa);
            sim::fault("fault.relocated");
            crate::tr!("relocated to offset {}", arena::offset(new));
            place = (new, held.1);
        } else { sim::fault("fault.restarted"); }
        let slice: &'static mut [MaybeUninit<u8>] = unsafe { std::slice::from_raw_parts_mut(place.0 as *mut MaybeUninit<u8>, place.1) };
        let Some(b) = sim::sut_ok("from_mem_unchecked", || unsafe { MemBump::from_mem_unchecked(slice) }) else { return };
        PLACE.get().replace(place);
        let b = LeakBox::into_raw(b);
        let st = m();
        st.mem = b;
        let r = unsafe { &*b };
        st.base = r.data_ptr().as_ptr() as usize;
        st.len = r.capacity();
        if st.len != cap { fail("lost-memory", format!("the capacity was {cap} and is {} after the restart", st.len)); return; }
        if st.base - place.0 != base - held.0 { fail("lost-memory", "the data is at another offset after the restart".to_string()); return; }
        let now = level_num(r.level());
        if now != l { fail("wrong-level", format!("the level was {l} and is {now} after the restart")); return; }
        st.l = now;
        verify("after the restart");
        reacquire(16);
        arena::check("restarting");
        if sim::failed() { return; }
        probe("check.resumed");
    }
    PLACE.get().take();
    exhaust();
    if sim::failed() { return; }
    verify("at the end");
    arena::check("at the end");
}
static PLACE: Global<Option<(usize, usize)>> = Global::new(None);
fn place_of() -> Option<(usize, usize)> { *PLACE.get() }
pub fn c10_entry() { PLACE.get().take(); c10() }

/// Find earlier allocations again by their levels.
fn reacquire(p: u32) {
    let st = m();
    for b in st.blocks.clone() {
        let Some(v) = b.pod else { continue };
        if !chance(p, 16) { continue; }
        let mem = st.mem;
        let (before, end) = (arena::bytes(mem as *mut u8 as usize, st.base + st.len - mem as *mut u8 as usize).to_vec(), st.len);
        // Both at the level at the time of the request, and at the place itself.
        let at = if chance(1, 2) { b.level } else { b.off };
        let lv = level_of(at);
        let r = pod!(v, V => sim::sut_ok("get_unchecked", || unsafe { (*mem).get_unchecked::<V>(lv) }.ptr.as_ptr() as usize));
        let Some(addr) = r else { return };
        if addr != st.base + b.off { fail("wrong-place", format!("the allocation requested at level {} and placed at {} was reacquired at {} of {end}", b.level, b.off, addr as isize - st.base as isize)); return; }
        if arena::bytes(mem as *mut u8 as usize, before.len()) != &before[..] { fail("bytes-changed", "reacquiring an allocation modified the memory".to_string()); return; }
        probe("check.reacquired");
    }
}
