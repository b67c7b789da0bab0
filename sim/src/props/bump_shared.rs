//! C01 to C06 and C08: the shared `Bump`.
use super::lin::{linearizable, Item};
use super::shared::*;
use crate::arena;
use crate::sim::{self, chance, draw, fail, note, pick, probe, range, Config, Global};
use crate::track;
use static_alloc::bump::Level;
use static_alloc::Bump;
use std::alloc::Layout;

#[derive(Clone, Copy, Debug)]
pub struct Rec { pub thread: usize, pub op: Op, pub inv: u64, pub resp: Option<u64>, pub res: Option<Res>, pub points: u64 }
#[derive(Clone, Copy)]
struct Block { addr: usize, layout: Layout, salt: u64, thread: usize, len: usize, line: u64 }
struct Session {
    made: Option<Made>,
    sel: u32,
    hist: Vec<Rec>,
    blocks: Vec<Block>,
    levels: Vec<Level>,
    salt: u64,
    check_blocks: bool,
    owners: Vec<Vec<usize>>,
    left: Vec<usize>,
    /// Bytes which were handed out and then released, a deallocation does not make them available.
    gone: Vec<Block>,
    no_reuse: bool,
}
static S: Global<Session> = Global::new(Session { made: None, sel: 0, hist: Vec::new(), blocks: Vec::new(), levels: Vec::new(), salt: 0, check_blocks: false, owners: Vec::new(), left: Vec::new(), gone: Vec::new(), no_reuse: false });
fn s() -> &'static mut Session { S.get() }
fn bump() -> &'static mut dyn AnyBump { let p: *mut dyn AnyBump = &mut *s().made.as_mut().unwrap().bump; unsafe { &mut *p } }
fn base() -> usize { s().made.as_ref().unwrap().base }
fn len() -> usize { s().made.as_ref().unwrap().len }
fn left() -> usize { len() - level_num(bump().level()).min(len()) }

fn start(sel: u32, init: u32) {
    let st = s();
    st.hist.clear(); st.blocks.clear(); st.levels.clear(); st.owners.clear(); st.left.clear(); st.gone.clear();
    st.no_reuse = false;
    st.sel = sel;
    st.salt = 77;
    st.check_blocks = true;
    st.made = Some(make(sel, init, 4242));
    st.levels.push(bump().level());
}
/// Now and then the large one, not where the number of accesses is bounded.
fn pick_any_storage(min: usize) -> u32 { if chance(1, 96) { probe("storage.large"); LARGE } else { pick_storage(min) } }
fn pick_storage(min: usize) -> u32 {
    loop { let v = draw(STORAGES); if [64, 1, 7, 32, 200, 256, 128, 100, 1000, 33, 5000][v as usize] >= min { return v; } if min > 64 { return 8; } }
}

pub fn show(op: Op, res: Option<Res>) -> String {
    let b = base();
    let r = match res {
        None => "(never returned)".to_string(),
        Some(Res::Ok { level, size: 0, .. }) => format!("Ok without memory{}", level.map(|l| format!(" level {l}")).unwrap_or_default()),
        Some(Res::Ok { addr, level, size }) => format!("Ok at {} size {size}{}", addr as isize - b as isize, level.map(|l| format!(" level {l}")).unwrap_or_default()),
        Some(r) => format!("{r:?}"),
    };
    let o = format!("{op:?}").replace(" (1 << 0)", "");
    format!("{o} -> {r}")
}
fn note_res(r: &Res) {
    match *r {
        Res::Ok { level, size: 0, .. } => note(6 ^ (level.unwrap_or(0) as u64) << 8),
        Res::Ok { addr, level, .. } => { note(1 ^ ((addr.wrapping_sub(base())) as u64) << 8); note(level.unwrap_or(0) as u64) }
        Res::Err(Fail::Mismatch(l)) => note(2 ^ (l as u64) << 8),
        Res::Err(Fail::Exhausted) => note(3), Res::Err(Fail::Unspecified) => note(4),
        Res::Level(l) => note(5 ^ (l as u64) << 8),
    }
}

/// Call an operation under the scheduler and record it.
fn exec(thread: usize, op: Op) -> Option<Res> {
    let st = s();
    let k = st.hist.len();
    st.hist.push(Rec { thread, op, inv: sim::seq(), resp: None, res: None, points: 0 });
    crate::tr!("thread {thread}: call {op:?}");
    let b = bump();
    let r = sim::sut(|| b.op(op));
    let st = s();
    match r {
        Ok(res) => {
            let rec = &mut st.hist[k];
            rec.resp = Some(sim::seq());
            rec.res = Some(res);
            rec.points = sim::op_points();
            note_res(&res);
            if sim::verbose() { sim::trace_line(format!("thread {thread}: {}", show(op, Some(res)))); }
            match res {
                Res::Ok { addr, size, .. } if matches!(op, Op::GlobalRealloc(..) | Op::LocalRealloc(..)) => { probe("op.reallocated"); allocated(thread, addr, size, op.layout().unwrap()); }
                Res::Ok { addr, size, .. } => { probe("op.allocated"); if op.zeroed() && size > 0 { check_zero(addr, size); } allocated(thread, addr, size, op.layout().unwrap()); }
                Res::Err(Fail::Mismatch(_)) => probe("op.level_mismatch"),
                Res::Err(_) => probe("op.exhausted"),
                _ => probe("op.level"),
            }
            Some(res)
        }
        Err(p) => { fail("panic", format!("{op:?} panicked: {}", sim::panic_text(&p))); None }
    }
}
fn check_zero(addr: usize, size: usize) {
    if addr < base() || addr + size > base() + len() { return; }
    if arena::bytes(addr, size).iter().any(|&x| x != 0) { fail("not-zero", format!("memory of a zeroed allocation at {} of size {size} is not zero", addr - base())); }
}
fn in_bounds(addr: usize, size: usize) -> bool { addr >= base() && addr.checked_add(size).is_some_and(|e| e <= base() + len()) }

/// Validate what was handed out. Returns the index of the block.
fn allocated(thread: usize, addr: usize, size: usize, layout: Layout) -> Option<usize> { allocated_from(thread, addr, size, layout, None) }
fn allocated_from(thread: usize, addr: usize, size: usize, layout: Layout, from: Option<Block>) -> Option<usize> {
    if addr == 0 || addr % layout.align() != 0 { fail("misaligned", format!("allocation at {} is not aligned to {}", addr as isize - base() as isize, layout.align())); return None; }
    if size < layout.size() { fail("too-small", format!("allocation of {size} bytes for a request of {}", layout.size())); }
    if layout.size() == 0 { return None; }
    if !in_bounds(addr, size) { fail("out-of-bounds", format!("allocation at {} of size {size} is not within the {} bytes of the storage", addr as isize - base() as isize, len())); return None; }
    let st = s();
    for b in &st.blocks {
        if addr < b.addr + b.len && b.addr < addr + size {
            fail("overlap", format!("allocation {}..{} of thread {thread} overlaps {}..{} of thread {}", addr - base(), addr - base() + size, b.addr - base(), b.addr - base() + b.len, b.thread));
            return None;
        }
    }
    st.salt += 1;
    let line = from.map_or(st.salt, |b| b.line);
    if st.no_reuse {
        if let Some(b) = st.gone.iter().find(|b| b.line != line && addr < b.addr + b.len && b.addr < addr + size) {
            fail("handed-out-again", format!("allocation {}..{} of thread {thread} has bytes of {}..{}, which were handed out before and only deallocated", addr - base(), addr - base() + size, b.addr - base(), b.addr - base() + b.len));
            return None;
        }
    }
    let b = Block { addr, layout, salt: st.salt, thread, len: size, line };
    arena::dirt(addr, size, b.salt);
    st.blocks.push(b);
    Some(st.blocks.len() - 1)
}
fn verify_block(b: &Block, n: usize, what: &str) {
    let bad = unsafe { arena::vsim_dirt_check(b.addr as *const u8, n, b.salt) };
    if bad >= 0 { fail("corrupted", format!("{what}: byte {bad} of the allocation {}..{} of thread {} was changed by someone else", b.addr - base(), b.addr - base() + b.len, b.thread)); }
}
fn verify_all(what: &str) { for b in s().blocks.clone() { verify_block(&b, b.len, what); } }

/// The sequential bump allocator. Gives the states after an operation with that result.
pub fn model(base: usize, len: usize, l: usize, op: &Op, res: Option<&Res>) -> Vec<usize> {
    let Some(layout) = op.layout() else {
        return match res { Some(Res::Level(x)) if *x == l => vec![l], None => vec![l], _ => vec![] };
    };
    if let Op::GlobalRealloc(p, old, _) | Op::LocalRealloc(p, old, _) = *op {
        // It may stay at its place if it gets smaller or nothing was allocated behind it.
        let stays = (p % layout.align() == 0).then(|| {
            if layout.size() <= old.size() { Some(l) } else { (p - base + old.size() == l && p - base + layout.size() <= len).then(|| p - base + layout.size()) }
        }).flatten();
        return match res {
            Some(Res::Ok { addr, .. }) if *addr == p => stays.into_iter().collect(),
            None => [l].into_iter().chain(stays).chain(model_layout(base, len, l, layout, None, None)).collect(),
            _ => model_layout(base, len, l, layout, None, res),
        };
    }
    model_layout(base, len, l, layout, op.at(), res)
}
pub fn model_layout(base: usize, len: usize, l: usize, layout: Layout, at: Option<usize>, res: Option<&Res>) -> Vec<usize> {
    let zst = layout.size() == 0;
    let place = |at: usize| -> Option<(usize, usize)> {
        let p = (base + at).checked_next_multiple_of(layout.align())? - base;
        let e = p.checked_add(layout.size())?;
        (e <= len).then_some((p, e))
    };
    match res {
        // Never returned: it may have succeeded.
        None => match at { Some(x) if x != l => vec![], _ if zst => vec![], _ => place(l).map(|(_, e)| e).into_iter().collect() },
        Some(Res::Ok { addr, level, .. }) => {
            if at.is_some_and(|x| x != l) { return vec![]; }
            if zst { return if level.is_none_or(|x| x == l) { vec![l] } else { vec![] }; }
            match place(l) { Some((p, e)) if base + p == *addr && level.is_none_or(|x| x == e) => vec![e], _ => vec![] }
        }
        Some(Res::Err(f)) => {
            let ok = match at {
                None => !zst && place(l).is_none() && !matches!(f, Fail::Mismatch(_)),
                Some(x) if x == l => !zst && place(l).is_none() && *f == Fail::Exhausted,
                Some(x) => match f { Fail::Mismatch(o) => *o == l, Fail::Exhausted => !zst && (place(x).is_none() || place(l).is_none()), Fail::Unspecified => false },
            };
            if ok { vec![l] } else { vec![] }
        }
        _ => vec![],
    }
}
fn check_linear(what: &str) {
    let (b, n) = (base(), len());
    let items: Vec<Item<Rec>> = s().hist.iter().map(|r| Item { inv: r.inv, resp: r.resp, op: *r }).collect();
    // Histories of one thread may be long.
    if items.len() > 60 {
        let mut l = 0;
        for i in &items { match model(b, n, l, &i.op.op, i.op.res.as_ref()).first() { Some(x) => l = *x, None => { fail("not-linearizable", format!("{what}: at level {l} a bump allocator does not answer {}", show(i.op.op, i.op.res))); return; } } }
        return;
    }
    match linearizable(&items, 0usize, |l, r, pending| model(b, n, *l, &r.op, if pending { None } else { r.res.as_ref() }), 200_000) {
        Some(true) => probe("check.linearized"),
        None => probe("check.given_up"),
        Some(false) => fail("not-linearizable", format!("{what}: no sequential order of the {} operations explains their results", items.len())),
    }
}

fn threads(max: usize) -> usize { match draw(8) { 0 => 1, 1..=3 => 2, 4 | 5 => 3.min(max), 6 => 4.min(max), _ => range(2, max) } }

// ------------------------------------------------------------------------------------------ C01

fn own(thread: usize) -> Option<usize> {
    let mine: Vec<usize> = s().blocks.iter().enumerate().filter(|(_, b)| b.thread == thread).map(|(i, _)| i).collect();
    if mine.is_empty() { None } else { Some(mine[draw(mine.len() as u32) as usize]) }
}
/// Resize, release or inspect one of the blocks of this thread.
fn block_op(thread: usize, local_only: bool) {
    let Some(i) = own(thread) else { return };
    let b = s().blocks[i];
    match draw(if local_only { 2 } else { 4 }) {
        0 => { verify_block(&b, b.len, "inspection"); crate::tr!("thread {thread}: inspects block at {}", b.addr - base()); }
        1 | 3 => {
            let local = chance(1, 2);
            let nl = {
                let l = gen_layout(len(), left());
                let size = match draw(4) { 0 => b.len + range(1, 16), 1 => range(1, b.len), 2 => l.size(), _ => b.len };
                let align = if local { match draw(3) { 0 => l.align(), 1 => 1, _ => b.layout.align() } } else { b.layout.align() };
                Layout::from_size_align(size, align).ok().unwrap_or(b.layout)
            };
            // While it runs nobody owns the block, and if the thread dies the block is lost.
            s().blocks.swap_remove(i);
            s().gone.push(b);
            let old = Layout::from_size_align(b.len, b.layout.align()).unwrap();
            crate::tr!("thread {thread}: realloc ({}) of block {}..{} align {} to {nl:?}", if local { "local" } else { "global" }, b.addr - base(), b.addr - base() + b.len, b.layout.align());
            let bp = bump();
            probe(if local { "op.local_realloc" } else { "op.global_realloc" });
            // As in-place growth could take bytes which another thread gets meanwhile, check against all.
            let r = sim::sut(|| unsafe {
                if local { bp.l_realloc(b.addr, old, nl) } else { match bp.g_realloc(b.addr, old, nl.size()) { 0 => None, p => Some((p, nl)) } }
            });
            match r {
                Err(p) => fail("panic", format!("realloc to {nl:?} panicked: {}", sim::panic_text(&p))),
                Ok(None) => {
                    probe("op.realloc_refused");
                    if b.addr % nl.align() == 0 && nl.size() <= b.len { /* Need not succeed by contract. */ }
                    verify_block(&b, b.len, "after a refused reallocation");
                    if let Some(k) = s().gone.iter().position(|x| x.salt == b.salt) { s().gone.swap_remove(k); }
                    s().blocks.push(b);
                    note(0xF0);
                }
                Ok(Some((addr, l))) => {
                    note(addr.wrapping_sub(base()) as u64);
                    let n = b.len.min(nl.size());
                    if in_bounds(addr, n) {
                        let bad = unsafe { arena::vsim_dirt_check(addr as *const u8, n, b.salt) };
                        if bad >= 0 { fail("realloc-contents", format!("byte {bad} of a reallocated block does not have its old value")); }
                    }
                    crate::tr!("thread {thread}: reallocated to {}", addr as isize - base() as isize);
                    if l.size() < nl.size() { fail("too-small", format!("reallocation to {nl:?} returned {l:?}")); }
                    allocated_from(thread, addr, l.size(), nl, Some(b));
                }
            }
        }
        _ => {
            s().blocks.swap_remove(i);
            s().gone.push(b);
            crate::tr!("thread {thread}: dealloc of block at {}", b.addr - base());
            let bp = bump();
            let old = Layout::from_size_align(b.len, b.layout.align()).unwrap();
            let local = chance(1, 2);
            probe("op.dealloc");
            sim::sut_ok("dealloc", || unsafe { if local { bp.l_dealloc(b.addr, old) } else { bp.g_dealloc(b.addr, old) } });
        }
    }
}

/// Storage of which the size does not fit 32 bits. It is not moved, thus comes from zeroed memory.
fn huge() {
    const N: usize = arena::HUGE - 4096;
    let zero = Bump::<[u8; 64]>::zeroed();
    if unsafe { std::slice::from_raw_parts(&zero as *const _ as *const u8, size_of_val(&zero)) }.iter().any(|&b| b != 0) { return; }
    let Some(at) = arena::huge() else { return };
    probe("op.huge");
    let b: &'static Bump<[u8; N]> = unsafe { &*(at as *const Bump<[u8; N]>) };
    let end = at + size_of::<Bump<[u8; N]>>();
    let mut blocks: Vec<(usize, usize)> = vec![];
    let (mut base, mut l) = (None, 0usize);
    let mut given: Option<Level> = None;
    for _ in 0..range(2, 9) {
        let left = N - l;
        let size = match draw(5) { 0 => left.max(1), 1 => left + 1, 2 => range(1, left.max(1)), 3 => range(1, 1 << 32), _ => range(1, 5000) };
        let Ok(layout) = Layout::from_size_align(size, 1 << if chance(1, 8) { draw(33) } else { draw(7) }) else { continue };
        let way = draw(3);
        // The level given out by one allocation is the one that the next is requested at.
        let Some(r) = sim::sut_ok("alloc", || match way { 0 => b.alloc(layout).map(|p| (p.as_ptr() as usize, None)), 1 => b.get_layout(layout).map(|a| (a.ptr.as_ptr() as usize, Some(a.level))), _ => b.alloc_at(layout, given.unwrap_or(b.level())).ok().map(|a| (a.ptr.as_ptr() as usize, Some(a.level))) }) else { break };
        let now = level_num(b.level());
        crate::tr!("{layout:?} at level {l}: offset {:?}, then level {now}", r.map(|p| p.0.wrapping_sub(at)));
        note(now as u64);
        match r {
            Some((p, g)) => {
                if let Some(g) = g.filter(|g| level_num(*g) != now) { fail("wrong-level", format!("{layout:?} at level {l} was given with level {} instead of {now}", level_num(g))); break; }
                given = g;
                if p % layout.align() != 0 { fail("misaligned", format!("{layout:?} gave an address which is not aligned")); break; }
                if p < at || p.checked_add(size).is_none_or(|e| e > end) { fail("out-of-bounds", format!("{layout:?} at level {l} of {N} is not within the storage")); break; }
                if blocks.iter().any(|x| p < x.0 + x.1 && x.0 < p + size) { fail("overlap", format!("{layout:?} at level {l} overlaps an earlier allocation")); break; }
                if *base.get_or_insert(p.wrapping_sub(now - size)) != p.wrapping_sub(now.wrapping_sub(size)) || now < l + size { fail("wrong-level", format!("the level is {now} after {layout:?} at level {l}")); break; }
                arena::paint(p, size, blocks.len() as u64);
                blocks.push((p, size));
                l = now;
            }
            None => {
                if now != l { fail("wrong-level", format!("a refused allocation changed the level from {l} to {now}")); break; }
                let fits = match base { Some(b) => (b + l).next_multiple_of(layout.align()) - b + size <= N, None => l + size + layout.align() - 1 <= N };
                if fits { fail("refused", format!("{layout:?} at level {l} of {N} was refused")); break; }
            }
        }
    }
    for (i, x) in blocks.iter().enumerate() { if arena::painted(x.0, x.1, i as u64) >= 0 { fail("corrupted", "an allocation was changed".to_string()); break; } }
    arena::huge_clear(at);
}

pub fn c01() {
    if chance(1, 256) { return huge(); }
    let sel = pick_any_storage(1);
    start(sel, draw(3));
    s().no_reuse = true;
    let n = threads(6);
    let cfg = Config::random();
    let rounds = if chance(1, 6) { 2 } else { 1 };
    for round in 0..rounds {
        let p_at = pick(&[2u32, 8, 0]);
        let p_block = pick(&[0u32, 4, 8]);
        for t in 0..n {
            let ops = range(1, 10);
            sim::spawn(move || {
                let mut levels: Vec<Level> = Vec::new();
                for _ in 0..ops {
                    if sim::failed() { return; }
                    if chance(p_block, 16) { block_op(t, false); }
                    else {
                        if chance(1, 4) { levels.clear(); levels.extend(s().levels.iter().copied()); }
                        let op = gen_op(len(), left(), &levels, p_at);
                        let seen = bump().level();
                        levels.push(seen);
                        exec(t, op);
                        levels.push(bump().level());
                        s().levels.push(bump().level());
                    }
                    sim::maybe_yield();
                }
            });
        }
        sim::run_tasks(cfg);
        if sim::failed() { return; }
        verify_all("at the end");
        arena::check("allocating");
        if round + 1 < rounds {
            // All allocations end with the reset.
            crate::tr!("reset");
            bump().reset();
            s().blocks.clear();
            s().gone.clear();
            s().hist.clear();
        }
    }
}

// ------------------------------------------------------------------------------------------ C02, C03

/// The plain allocation function is documented to panic for a size of zero. That it has no effect
/// shows in the history of the other operations.
fn empty_request(thread: usize) {
    let l = Layout::from_size_align(0, 1 << draw(8)).unwrap();
    let b = bump();
    match sim::sut(|| b.op(Op::Alloc(l))) {
        Err(p) if sim::is_injected(&p) => {}
        Err(_) => probe("op.empty_refused"),
        Ok(r) => { fail("empty-request", format!("thread {thread}: a request of size zero, alignment {}, gave {r:?} but is documented to panic", l.align())); }
    }
    note(0xE0);
}

/// Release or resize a block of this thread. Neither makes its bytes available again.
fn release(thread: usize) {
    let Some(i) = own(thread) else { return };
    let b = s().blocks.swap_remove(i);
    s().gone.push(b);
    let old = Layout::from_size_align(b.len, b.layout.align()).unwrap();
    let bp = bump();
    match draw(4) {
        0 => { crate::tr!("thread {thread}: deallocates (local) {}..{}", b.addr - base(), b.addr + b.len - base()); sim::sut_ok("dealloc", || unsafe { bp.l_dealloc(b.addr, old) }); }
        1 => { crate::tr!("thread {thread}: deallocates (global) {}..{}", b.addr - base(), b.addr + b.len - base()); sim::sut_ok("dealloc", || unsafe { bp.g_dealloc(b.addr, old) }); }
        k => {
            let l = gen_layout(len(), left());
            let size = pick(&[b.len + range(1, 16), range(1, b.len), l.size(), b.len]);
            let local = k == 2;
            let Ok(new) = Layout::from_size_align(size, if local { pick(&[l.align(), 1, old.align()]) } else { old.align() }) else { return };
            let r = exec(thread, if local { Op::LocalRealloc(b.addr, old, new) } else { Op::GlobalRealloc(b.addr, old, new) });
            if let Some(Res::Err(_)) = r { s().blocks.push(b); }
            return;
        }
    }
    probe("op.dealloc");
}

fn concurrent(n: usize, per: usize, p_at: u32, cfg: Config) {
    for t in 0..n {
        let ops = range(1, per);
        sim::spawn(move || {
            let mut mine: Vec<Level> = s().levels.clone();
            for _ in 0..ops {
                if sim::failed() { return; }
                if chance(1, 4) { mine.push(bump().level()); }
                if chance(1, 24) { empty_request(t); continue; }
                if chance(1, 10) { release(t); continue; }
                let op = gen_op(len(), left(), &mine, p_at);
                exec(t, op);
                if chance(1, 2) { mine.push(bump().level()); }
                sim::maybe_yield();
            }
        });
    }
    sim::run_tasks(cfg);
}

/// One thread loses against the others again and again.
fn starving() {
    start(pick(&[8u32, 10]), draw(3));
    probe("op.starving");
    sim::nontrivial();
    let n = range(2, 4);
    for t in 0..n {
        let ops = if t == 0 { range(1, 2) } else { range(4, 50 / (n - 1)) };
        sim::spawn(move || for _ in 0..ops {
            if sim::failed() { return; }
            let l = Layout::from_size_align(range(1, 12), 1 << draw(4)).unwrap();
            let v = pick(&[0usize, 1, 2, 3, 5]);
            exec(t, match draw(if t == 0 { 7 } else { 3 }) { 0 => Op::Alloc(l), 1 => Op::Get(v), 2 => Op::GetLayout(l), 3 => Op::Leak(v), 4 => Op::LeakBox(v), 5 => Op::GlobalAlloc(l), _ => Op::LocalZeroed(l) });
            sim::yield_now();
        });
    }
    let mut cfg = Config::NONE;
    cfg.op_limit = 60_000;
    cfg.victim = 0;
    cfg.p_atomic = pick(&[0u32, 0, 8]);
    sim::run_tasks(cfg);
}

pub fn c02() {
    if chance(1, 256) { return huge(); }
    if chance(1, 16) {
        starving();
        if !sim::failed() { check_linear("history with a starved thread"); }
        return;
    }
    let sel = pick_storage(1);
    start(sel, draw(3));
    if chance(1, 8) {
        // One thread, long.
        concurrent(1, 50, pick(&[2u32, 8]), Config::NONE);
        check_linear("sequential history");
        return;
    }
    let n = threads(4).max(2);
    let cfg = Config::random();
    let p_at = pick(&[2u32, 8, 0, 14]);
    concurrent(n, pick(&[3usize, 5, 6]), p_at, cfg);
    if sim::failed() { return; }
    // Observe the final state.
    exec(90, Op::Level);
    exec(91, Op::Alloc(Layout::from_size_align(1, 1).unwrap()));
    check_linear("concurrent history");
}

fn succ_overlap(h: &[Rec], i: usize) -> u64 {
    let r = &h[i];
    h.iter().enumerate().filter(|(k, o)| *k != i && o.thread != r.thread && o.op != Op::Level
        && o.resp.is_none_or(|x| x > r.inv) && r.resp.is_none_or(|x| o.inv < x)
        && !matches!(o.res, Some(Res::Err(_)))).count() as u64
}
fn bounded_steps(what: &str) {
    let h = &s().hist;
    for (i, r) in h.iter().enumerate() {
        if r.resp.is_none() { continue; }
        let size = match r.res { Some(Res::Ok { size, .. }) => size as u64, _ => 0 };
        let bound = 256 * (1 + succ_overlap(h, i)) + 4 * size;
        if r.points > bound { fail("unbounded", format!("{what}: {:?} took {} memory accesses although only {} other allocations succeeded meanwhile", r.op, r.points, succ_overlap(h, i))); return; }
    }
}

pub fn c03() {
    if chance(1, 16) {
        starving();
        if !sim::failed() { bounded_steps("while starved"); }
        if !sim::failed() { check_linear("history with a starved thread"); }
        return;
    }
    let sel = pick_storage(1);
    start(sel, draw(3));
    let n = threads(4).max(2);
    let mut cfg = Config::random();
    cfg.op_limit = 60_000;
    cfg.p_atomic = pick(&[32u32, 48, 16]);
    cfg.kills = range(0, n) as u32;
    cfg.p_kill = if cfg.kills > 0 { pick(&[32u32, 64, 128]) } else { 0 };
    cfg.p_stall = pick(&[64u32, 160, 0]);
    concurrent(n, pick(&[2usize, 4]), pick(&[2u32, 8]), cfg);
    if sim::failed() { return; }
    bounded_steps("under contention");
    // Whatever state the others died in, one more thread gets its work done alone.
    let ops = range(1, 4);
    crate::tr!("all others are done or dead, a thread runs alone");
    sim::spawn(move || {
        let mut mine = s().levels.clone();
        exec(50, Op::Level);
        for _ in 0..ops {
            if sim::failed() { return; }
            let op = gen_op(len(), left(), &mine, 6);
            exec(50, op);
            mine.push(bump().level());
        }
        exec(50, Op::Level);
    });
    let mut alone = Config::NONE;
    alone.op_limit = 60_000;
    sim::run_tasks(alone);
    probe("check.solo_thread_finished");
    if sim::failed() { return; }
    bounded_steps("alone");
    // In particular, operations of dead threads took effect completely or not at all.
    check_linear("history with dead threads");
}

// ------------------------------------------------------------------------------------------ C04

fn array_builder(t: usize) {
    let v = pick(&[0usize, 1, 2, 3, 5, 6, 7, 4, 8]);
    let layout = pod_layout(v);
    let mut l = bump().level();
    if chance(1, 6) { l = pick(&s().levels); }
    let mut end: Option<usize> = None;
    let count = range(2, 7);
    for _ in 0..count {
        if sim::failed() { return; }
        let op = match draw(4) { 0 | 1 => Op::GetAt(v, l), 2 => Op::LeakAt(v, l), _ => Op::GetLayoutAt(layout, l) };
        let Some(r) = exec(t, op) else { return };
        match r {
            Res::Ok { addr, level, size } => {
                let want = end.unwrap_or_else(|| (base() + level_num(l)).next_multiple_of(layout.align()));
                if addr != want { fail("gap", format!("element requested at level {} was placed at {} instead of {}", level_num(l), addr as isize - base() as isize, want - base())); return; }
                let Some(level) = level else { return };
                if level != addr + size - base() { fail("wrong-level", format!("allocation {}..{} reported the level {level}", addr - base(), addr - base() + size)); return; }
                nothing_between(level_num(l), addr, t);
                if end.is_some() { probe("check.gap_free_pair"); }
                end = Some(addr + size);
                l = level_of(level);
                s().levels.push(l);
            }
            Res::Err(Fail::Mismatch(o)) => {
                if o == level_num(l) { fail("wrong-level", format!("mismatch at level {o} observed the same level")); return; }
                if chance(1, 2) { return; }
                // Begin a new array.
                end = None;
                l = level_of(o);
            }
            _ => return,
        }
        sim::maybe_yield();
    }
}
/// No allocation lies between the level and the address.
fn nothing_between(level: usize, addr: usize, t: usize) {
    for b in &s().blocks {
        if b.addr + b.len > base() + level && b.addr < addr { fail("gap", format!("level exact allocation of thread {t} at level {level} has the allocation {}..{} in between", b.addr - base(), b.addr + b.len - base())); }
    }
}

pub fn c04() {
    if chance(1, 256) { return huge(); }
    if chance(1, 4) { return super::unsync_mem::interleaved_arrays(); }
    let sel = pick_any_storage(32);
    start(sel, draw(3));
    let n = threads(4).max(2);
    let cfg = Config::random();
    for t in 0..n {
        let role = draw(3);
        let ops = range(1, 4);
        sim::spawn(move || {
            if role < 2 { array_builder(t) }
            else {
                for _ in 0..ops {
                    if sim::failed() { return; }
                    let mut l = s().levels.clone();
                    l.push(bump().level());
                    if chance(1, 6) { release(t); continue; }
                    exec(t, gen_op(len(), left(), &l, 8));
                    sim::maybe_yield();
                }
            }
        });
    }
    sim::run_tasks(cfg);
    if sim::failed() { return; }
    exec(91, Op::Level);
    verify_all("at the end");
    // Every level exact success against all allocations of the history.
    let h = s().hist.clone();
    for r in &h {
        if let (Some(at), Some(Res::Ok { addr, size, .. })) = (r.op.at(), r.res) {
            if size > 0 && addr >= base() + at { nothing_between(at, addr, r.thread); }
        }
    }
    if s().hist.len() <= 26 { check_linear("history of level exact allocations"); }
}

// ------------------------------------------------------------------------------------------ C05

struct Stored { sel: u32, id: Option<u32>, addr: usize, level: Option<usize> }
static STORED: Global<Vec<Stored>> = Global::new(Vec::new());
static BACK: Global<Vec<u32>> = Global::new(Vec::new());
static ZST_OWNED: Global<i64> = Global::new(0);
static LIMBO: Global<Vec<Option<(u32, i64)>>> = Global::new(Vec::new());

fn leak_op(t: usize, levels: &mut Vec<Level>, p_panic: u32) {
    let sel = draw(11);
    let mode = draw(7);
    let fresh = bump().level();
    let at = if chance(3, 4) || levels.is_empty() { fresh } else { some_level(len(), levels) };
    let next = track::reg().entries.len() as u32;
    let panics = chance(p_panic, 16);
    if chance(1, 3) { sim::yield_now(); }
    // The value gets this identity; whether its destructor panics has to be arranged when it exists.
    track::reg().next_panics = panics;
    LIMBO.get()[t] = Some((sel, track::reg().zst_live));
    let b = bump();
    crate::tr!("thread {t}: leak mode {mode} of a value of type {sel} at level {} (value {next}{})", level_num(at), if panics { ", destructor panics" } else { "" });
    let (id, r) = b.leak_val(sel, mode, at);
    LIMBO.get()[t] = None;
    levels.push(bump().level());
    let zst = val_layout(sel).size() == 0;
    // It has a destructor, which is known to have been called or not.
    let own = id.is_some_and(track::counted);
    let tallied = id == Some(track::ZST_ID);
    let dropped = own && track::life(id.unwrap()) == track::Life::Dropped;
    match r {
        Err(p) => {
            if !sim::is_injected(&p) { fail("panic", format!("leaking mode {mode} panicked: {}", sim::panic_text(&p))); return; }
            if own && !dropped { fail("lost", "a panic of the destructor, but the value is still alive".to_string()); }
            probe("op.refused_and_destructor_panicked");
        }
        Ok(LeakRes::Stored { addr, level }) => {
            probe("op.stored");
            let l = val_layout(sel);
            note(if l.size() == 0 { 7 } else { addr.wrapping_sub(base()) as u64 });
            if dropped { fail("early-drop", format!("value {} was dropped although stored", id.unwrap())); return; }
            if l.size() == 0 { if addr % l.align() != 0 || addr == 0 { fail("misaligned", "reference to a zero-sized value".to_string()); } if tallied { *ZST_OWNED.get() += 1; } return; }
            if addr % l.align() != 0 { fail("misaligned", format!("value at {} aligned to {}", addr as isize - base() as isize, l.align())); return; }
            if !in_bounds(addr, l.size()) { fail("out-of-bounds", format!("value at {}", addr as isize - base() as isize)); return; }
            let got = unsafe { read_val(sel, addr) };
            if got != id { fail("changed", format!("the allocation holds {got:?} instead of value {id:?}")); return; }
            if let Some(x) = level { if x < addr - base() + l.size() { fail("wrong-level", format!("level {x} for a value at {}..{}", addr - base(), addr - base() + l.size())); } }
            for o in STORED.get().iter() {
                let os = val_layout(o.sel).size();
                if addr < o.addr + os && o.addr < addr + l.size() { fail("overlap", format!("values at {} and {} overlap", addr - base(), o.addr - base())); }
            }
            STORED.get().push(Stored { sel, id, addr, level });
        }
        Ok(LeakRes::Back { id: got, kind }) => {
            probe("op.value_handed_back");
            if zst {
                // Given back is only possible for a level mismatch. The harness forgot it.
                if tallied { *ZST_OWNED.get() += 1; }
                if !matches!(kind, Fail::Mismatch(_)) { fail("refused", "a zero-sized value does not need space".to_string()); }
                return;
            }
            if got != id { fail("changed", format!("the error holds {got:?} instead of value {id:?}")); }
            if dropped { fail("early-drop", format!("value {} was dropped although handed back", id.unwrap())); }
            if own { BACK.get().push(id.unwrap()); }
            note(8);
        }
        Ok(LeakRes::Refused(_)) => {
            probe("op.refused");
            note(9);
            if own && !dropped { fail("lost", format!("value {} was neither stored, handed back nor dropped", id.unwrap())); }
        }
    }
}

pub fn c05() {
    let sel = pick_any_storage(7);
    start(sel, 0);
    STORED.get().clear(); BACK.get().clear();
    *ZST_OWNED.get() = 0;
    let n = threads(5);
    *LIMBO.get() = vec![None; n];
    let cfg = Config::random();
    let p_panic = pick(&[0u32, 4, 8]);
    for t in 0..n {
        let ops = range(1, 7);
        sim::spawn(move || {
            let mut levels = Vec::new();
            for _ in 0..ops {
                if sim::failed() { return; }
                if chance(1, 8) { let op = gen_op(len(), left(), &levels, 0); s().check_blocks = false; let b = bump(); if !matches!(op, Op::Level) && op.layout().unwrap().size() < 32 { let v = pick(&[0usize, 1, 2]); let _ = sim::sut(|| b.op(Op::Get(v))); } }
                leak_op(t, &mut levels, p_panic);
                sim::maybe_yield();
            }
        });
    }
    sim::run_tasks(cfg);
    if sim::failed() { return; }
    // Values which were in the hands of a thread that died may be anywhere.
    let limbo = LIMBO.get().iter().flatten().count();
    if limbo > 0 { probe("check.thread_died_holding_a_value"); }
    let check = |what: &str| {
        for o in STORED.get().iter() {
            let got = unsafe { read_val(o.sel, o.addr) };
            if got != o.id { fail("changed", format!("{what}: the allocation at {} holds {got:?} instead of value {:?}", o.addr - base(), o.id)); }
        }
        let mut want: Vec<u32> = STORED.get().iter().filter_map(|o| o.id).filter(|&i| track::counted(i)).chain(BACK.get().iter().copied()).collect();
        want.sort();
        let have = track::live();
        let extra = have.iter().filter(|x| !want.contains(x)).count();
        if want.iter().any(|x| !have.contains(x)) { fail("early-drop", format!("{what}: a stored value was dropped")); }
        if extra > limbo { fail("missing-drop", format!("{what}: {extra} values are alive that were neither stored nor handed back")); }
        let z = track::reg().zst_live;
        if z < *ZST_OWNED.get() || z > *ZST_OWNED.get() + limbo as i64 { fail("zst-count", format!("{what}: {} zero-sized values are owned, but {z} alive", ZST_OWNED.get())); }
    };
    check("at the end");
    if sim::failed() { return; }
    // Values were leaked: nothing drops them, also not resetting the allocator.
    bump().reset();
    check("after reset");
    arena::check("leaking");
}

// ------------------------------------------------------------------------------------------ C06

pub fn c06() {
    let sel = pick_any_storage(7);
    start(sel, draw(3));
    let n = threads(4);
    let cfg = Config::random();
    let rounds = range(1, 3);
    for round in 0..rounds {
        for t in 0..n {
            let ops = range(2, 9);
            let p_block = pick(&[6u32, 10]);
            sim::spawn(move || {
                for _ in 0..ops {
                    if sim::failed() { return; }
                    if chance(p_block, 16) { block_op(t, false) }
                    else {
                        let l = gen_layout(len(), left());
                        exec(t, match draw(4) { 0 => Op::GlobalZeroed(l), 1 => Op::LocalZeroed(l), 2 => Op::GlobalAlloc(l), _ => Op::LocalAlloc(l) });
                    }
                    sim::maybe_yield();
                }
            });
        }
        sim::run_tasks(cfg);
        if sim::failed() { return; }
        verify_all("at the end");
        arena::check("global and local allocations");
        if round + 1 < rounds {
            // The storage is now full of old data.
            crate::tr!("reset");
            bump().reset();
            s().blocks.clear();
            s().gone.clear();
            s().hist.clear();
            probe("op.storage_reused");
        }
    }
}

// ------------------------------------------------------------------------------------------ C08

fn raw_exec(op: Op) -> Option<Res> {
    let b = bump();
    match sim::sut(|| b.op(op)) { Ok(r) => Some(r), Err(p) => { fail("panic", format!("{op:?} panicked: {}", sim::panic_text(&p))); None } }
}
fn relative(r: Option<Res>) -> Option<Res> {
    match r { Some(Res::Ok { size: 0, level, .. }) => Some(Res::Ok { addr: 0, level, size: 0 }), Some(Res::Ok { addr, level, size }) => Some(Res::Ok { addr: addr.wrapping_sub(base()), level, size }), x => x }
}

pub fn c08() {
    match draw(4) { 0 => return super::unsync_mem::reset_like_fresh(), 1 => return c08_bytes(), _ => {} }
    let sel = pick_any_storage(1);
    start(sel, draw(3));
    let n = threads(4);
    let cfg = Config::random();
    for _ in 0..range(1, 2) {
        for t in 0..n {
            let ops = range(1, 6);
            sim::spawn(move || {
                let mut l = s().levels.clone();
                for _ in 0..ops {
                    if sim::failed() { return; }
                    if chance(1, 5) { block_op(t, false) } else { exec(t, gen_op(len(), left(), &l, 6)); }
                    l.push(bump().level());
                    s().levels.push(bump().level());
                    sim::maybe_yield();
                }
            });
        }
        sim::run_tasks(cfg);
        if sim::failed() { return; }
        let before = arena::bytes(base(), len()).to_vec();
        crate::tr!("reset");
        sim::sut_ok("reset", || bump().reset());
        probe("op.reset");
        if arena::bytes(base(), len()) != &before[..] { fail("bytes-changed", "resetting changed bytes of the storage".to_string()); return; }
        s().blocks.clear();
            s().gone.clear();
        s().hist.clear();
    }
    // One script on the reset allocator and on a new one at the same place.
    let mut known = s().levels.clone();
    let mut script = Vec::new();
    let mut held: Vec<(usize, Layout)> = Vec::new();
    for _ in 0..range(1, 12) {
        let mut op = gen_op(len(), left(), &known, 6);
        if !held.is_empty() && chance(1, 4) {
            // A block of this script is resized, or released, which is shown as a resize to no layout.
            let k = draw(held.len() as u32) as usize;
            let (p, old) = held.swap_remove(k);
            let size = pick(&[old.size() + range(1, 16), range(1, old.size()), old.size()]);
            op = match draw(4) { 0 | 1 => Op::LocalRealloc(p, old, Layout::from_size_align(size, pick(&[1, old.align(), 8])).unwrap()), 2 => Op::GlobalRealloc(p, old, Layout::from_size_align(size, old.align()).unwrap()), _ => {
                let b = bump();
                sim::sut_ok("dealloc", || unsafe { b.g_dealloc(p, old) });
                Op::Level
            } };
            if op == Op::Level { script.push((Op::GlobalRealloc(p, old, Layout::new::<()>()), None, level_num(bump().level()))); continue; }
        }
        let r = relative(raw_exec(op));
        if let (Some(Res::Ok { addr, size, .. }), Some(l)) = (r, op.layout()) { if size > 0 { held.push((base() + addr, Layout::from_size_align(size, l.align()).unwrap())); } }
        if sim::failed() { return; }
        if let Some(r) = &r { note_res(r); }
        known.push(bump().level());
        crate::tr!("after reset: {op:?} -> {r:?}");
        script.push((op, r, level_num(bump().level())));
    }
    let at = bump().object().0;
    s().made = Some(unsafe { renew(sel, at) });
    for (op, want, level) in script {
        let got = match op {
            Op::GlobalRealloc(p, old, new) if new.size() == 0 => { let b = bump(); sim::sut_ok("dealloc", || unsafe { b.g_dealloc(p, old) }); None }
            _ => relative(raw_exec(op)),
        };
        let l = level_num(bump().level());
        if got != want || l != level { fail("differs-from-fresh", format!("{op:?} gave {want:?} and level {level} after a reset, but {got:?} and level {l} on a new allocator")); return; }
        probe("check.same_as_fresh");
    }
}
/// Storage of given or zeroed content keeps it until it is handed out and written.
fn c08_bytes() {
    let sel = pick_any_storage(1);
    let init = range(1, 2) as u32;
    start(sel, init);
    let n = threads(3);
    let cfg = Config::random();
    let want: Vec<u8> = if init == 1 { vec![0; len()] } else { let mut v = vec![0u8; len()]; arena::dirt(v.as_mut_ptr() as usize, len(), 4242); v };
    if arena::bytes(base(), len()) != &want[..] { fail("bytes-changed", "the storage does not have the bytes it was created with".to_string()); return; }
    EXPECT.get().clear();
    EXPECT.get().extend_from_slice(&want);
    for t in 0..n {
        let ops = range(1, 6);
        sim::spawn(move || {
            for _ in 0..ops {
                if sim::failed() { return; }
                let l = gen_layout(len(), left());
                let op = match draw(4) { 0 => Op::Alloc(l), 1 => Op::GetLayout(l), 2 => Op::Get(pick(&[0usize, 1, 2, 3, 5, 6])), _ => Op::GetLayoutAt(l, bump().level()) };
                crate::tr!("thread {t}: {op:?}");
                let r = raw_exec(op);
                if let Some(Res::Ok { addr, size, .. }) = r {
                    if size > 0 && in_bounds(addr, size) {
                        let off = addr - base();
                        note(off as u64);
                        if arena::bytes(addr, size) != &EXPECT.get()[off..off + size] { fail("bytes-changed", format!("allocation {off}..{} does not hold the bytes the storage was created with", off + size)); return; }
                        probe("check.initial_bytes");
                        for (i, b) in arena::bytes(addr, size).iter_mut().enumerate() { *b = !*b; EXPECT.get()[off + i] = *b; }
                    }
                }
                sim::maybe_yield();
            }
        });
    }
    sim::run_tasks(cfg);
    if sim::failed() { return; }
    if arena::bytes(base(), len()) != &EXPECT.get()[..] { fail("bytes-changed", "bytes of the storage changed that nobody wrote".to_string()); }
    sim::sut_ok("reset", || bump().reset());
    if arena::bytes(base(), len()) != &EXPECT.get()[..] { fail("bytes-changed", "resetting changed bytes of the storage".to_string()); }
    // Everything is handed out again with its bytes.
    if let Some(Res::Ok { addr, size, .. }) = raw_exec(Op::GetLayout(Layout::from_size_align(len(), 1).unwrap())) {
        if addr != base() || arena::bytes(addr, size) != &EXPECT.get()[..] { fail("bytes-changed", "the storage is not handed out with its bytes after a reset".to_string()); }
    } else { fail("differs-from-fresh", "the complete storage is not available after a reset".to_string()); }
}
static EXPECT: Global<Vec<u8>> = Global::new(Vec::new());
