//! C11: heap-backed `MemBump` and `Chain` on a failing and dirty heap.
use super::unsync_mem;
use crate::arena;
use crate::heap;
use crate::sim::{self, chance, draw, fail, note, pick, probe, range};
use crate::track::{self, Val};
use crate::with_any_val;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{Chain, MemBump};
use std::mem::{align_of, size_of};

struct Link { cap: usize, level: usize, base: Option<usize>, block: usize }
struct Value { addr: usize, len: usize, check: Box<dyn Fn() -> Result<(), String>>, drop: Box<dyn FnOnce()> }
struct Own { chain: Chain, links: Vec<Link> }

fn setup_heap() {
    let h = heap::state();
    h.dirty = pick(&[0xA5u8, 0xFF, 0x00, 0x01, 0x80]);
    h.p_fail = pick(&[0u32, 0, 4, 8]);
    if chance(1, 4) { h.fail_at = range(1, 6) as u32; }
}
fn capacity() -> usize {
    match draw(10) { 0 => 0, 1 => range(0, 16), 2..=5 => range(8, 96), 6 | 7 => range(0, 300), 8 => pick(&[4096usize, 4096, 4096, 70_000, 300_000, 3 << 20]), _ => pick(&[usize::MAX, isize::MAX as usize, usize::MAX - 7, usize::MAX - 15, isize::MAX as usize - 15, isize::MAX as usize - 16, isize::MAX as usize - 24, (1 << 62) + 3, 1 << 30]) }
}
fn live() -> Vec<usize> { heap::live_blocks().iter().map(|b| b.0).collect() }

/// A new chain of one link, or a failure without a trace.
fn create(what: &str) -> Option<Own> {
    let cap = capacity();
    let before = live();
    let (failures, n) = (heap::state().failures, heap::state().requests);
    let r = sim::sut_ok(what, || heap::tracked(|| Chain::new(cap)))?;
    let failed = heap::state().failures > failures;
    note(failed as u64);
    match r {
        Ok(chain) => {
            crate::tr!("{what} of {cap} bytes");
            probe("op.chain_created");
            let new: Vec<usize> = live().into_iter().filter(|b| !before.contains(b)).collect();
            // The link, and it is the only thing.
            if new.is_empty() || cap > heap::live_blocks().iter().filter(|b| new.contains(&b.0)).map(|b| b.1.size).max().unwrap_or(0) { fail("no-memory", format!("a chain of {cap} bytes without memory for it")); return None; }
            let own = Own { chain, links: vec![Link { cap, level: 0, base: None, block: new[new.len() - 1] }] };
            state_is(&own, "a new chain");
            Some(own)
        }
        Err(e) => {
            crate::tr!("{what} of {cap} bytes failed");
            probe("op.chain_refused");
            let size = e.allocation_size();
            if size < cap || failed && size != heap::state().failed_size { fail("wrong-report", format!("{what} of {cap} bytes failed reporting {size} bytes")); return None; }
            if !failed && heap::state().requests == n && cap < isize::MAX as usize - 64 { fail("refused", format!("a chain of {cap} bytes was refused without asking the heap")); }
            else if !failed && heap::state().requests > n { fail("refused", format!("a chain of {cap} bytes was refused although the heap had memory")); }
            if live() != before { fail("leak", "a failed creation left memory allocated or released other memory".to_string()); }
            None
        }
    }
}
fn state_is(own: &Own, what: &str) -> bool {
    let Some((cap, left)) = sim::sut_ok("capacity", || (own.chain.capacity(), own.chain.remaining_capacity())) else { return false };
    let l = &own.links[0];
    if cap != l.cap { fail("wrong-capacity", format!("{what}: the capacity is {cap} instead of {}", l.cap)); }
    else if left != l.cap - l.level { fail("wrong-capacity", format!("{what}: {left} bytes remain instead of {} of {cap}", l.cap - l.level)); }
    !sim::failed()
}

fn allocate<V: Val>(own: &mut Own, values: &mut Vec<Value>) {
    let l = &own.links[0];
    let (size, align) = (size_of::<V>(), align_of::<V>());
    let (cap, level, base) = (l.cap, l.level, l.base);
    let chain: &Chain = &own.chain;
    let chain: &'static Chain = unsafe { &*(chain as *const Chain) };
    let reqs = heap::state().requests;
    let Some(r) = sim::sut_ok("bump_box", || heap::tracked(|| chain.bump_box::<V>())) else { return };
    let left = chain.remaining_capacity();
    let block = l.block;
    match r {
        Ok(b) => {
            let addr = b.as_ptr() as usize;
            let consumed = cap.wrapping_sub(left).wrapping_sub(level);
            crate::tr!("allocated {size} bytes aligned to {align}, {left} of {cap} remain");
            probe("op.allocated");
            note(left as u64);
            if addr == 0 || addr % align != 0 { fail("misaligned", format!("a {} is not aligned", V::NAME)); return; }
            if left > cap - level || consumed > size + align - 1 || consumed < size { fail("wrong-level", format!("an allocation of {size} bytes aligned to {align} at level {level} of {cap} leaves {left} bytes")); return; }
            if size > 0 {
                for v in values.iter() { if addr < v.addr + v.len && v.addr < addr + size { fail("overlap", "an allocation overlaps an earlier one".to_string()); return; } }
                let b = addr + size - (cap - left);
                if base.is_some_and(|x| x != b) { fail("not-the-model", format!("the allocation is {} bytes away from where it belongs", b as isize - base.unwrap() as isize)); return; }
                own.links[0].base = Some(b);
                match heap::block_of(addr) {
                    Some((i, blk)) if b >= blk.ptr && b + cap <= blk.ptr + blk.size && i == block => {}
                    Some((i, _)) if i != block => { fail("wrong-link", "the allocation is not from the latest link".to_string()); return; }
                    _ => { fail("out-of-bounds", "the memory of a link is not within its heap block".to_string()); return; }
                }
            }
            own.links[0].level = cap - left;
            let v = V::make();
            let id = v.read();
            if let Some(i) = id { track::pin_at(i, addr); }
            let Some(b) = sim::sut_ok("write", || LeakBox::write(b, v)) else { return };
            let p = &*b as *const V;
            if chance(1, 4) {
                // Leaked, it must stay intact all the same.
                let r: *mut V = LeakBox::into_raw(b);
                values.push(Value { addr, len: size, check: Box::new(move || same(r, id)), drop: Box::new(move || unsafe { std::ptr::drop_in_place(r) }) });
            } else {
                values.push(Value { addr, len: size, check: Box::new(move || same(p, id)), drop: Box::new(move || drop(b)) });
            }
        }
        Err(_) => {
            crate::tr!("refused {size} bytes aligned to {align} at level {level} of {cap}");
            probe("op.exhausted");
            let fits = match base { Some(b) => (b + level).next_multiple_of(align) - b + size <= cap, None => level + size + align - 1 <= cap };
            if fits { fail("refused", format!("{size} bytes aligned to {align} at level {level} of {cap} bytes were refused")); return; }
            if left != cap - level { fail("wrong-level", "a refused allocation changed the level".to_string()); }
        }
    }
    let _ = reqs;
}
/// Most of the memory at once.
fn bulk(own: &mut Own, values: &mut Vec<Value>) {
    let l = &own.links[0];
    let (cap, level, base) = (l.cap, l.level, l.base);
    if cap > 1 << 20 || cap - level < 64 { return; }
    let chain: &'static Chain = unsafe { &*(&own.chain as *const Chain) };
    for _ in 0..(cap - level).saturating_sub(range(0, 300)) / 256 {
        let Some(r) = sim::sut_ok("bump_box", || heap::tracked(|| chain.bump_box::<[u8; 256]>())) else { return };
        let l = &mut own.links[0];
        let Ok(b) = r else { fail("refused", format!("256 bytes at level {} of {cap} were refused", l.level)); return };
        let addr = b.as_ptr() as usize;
        let at = *l.base.get_or_insert(addr.wrapping_sub(l.level));
        if addr != at.wrapping_add(l.level) { fail("not-the-model", format!("256 bytes are at {} instead of {}", addr.wrapping_sub(at), l.level)); return; }
        match heap::block_of(addr) { Some((i, blk)) if i == l.block && addr + 256 <= blk.ptr + blk.size => {} _ => { fail("out-of-bounds", "bulk memory is not in the block of the link".to_string()); return; } }
        l.level += 256;
        let p: *mut u8 = LeakBox::into_raw(b) as *mut u8;
        let salt = 9000 + l.level as u64;
        arena::dirt(addr, 256, salt);
        let ok = move || if unsafe { arena::vsim_dirt_check(p, 256, salt) } < 0 { Ok(()) } else { Err("bulk memory was changed".to_string()) };
        values.push(Value { addr, len: 256, check: Box::new(ok), drop: Box::new(|| ()) });
        if !state_is(own, "after bulk allocation") { return; }
    }
    let _ = base;
    probe("op.bulk");
}
/// One large part at once, so that levels do not fit 16 or 20 bits.
fn jump<const N: usize>(own: &mut Own, values: &mut Vec<Value>) {
    let chain: &'static Chain = unsafe { &*(&own.chain as *const Chain) };
    let l = &mut own.links[0];
    let Some(r) = sim::sut_ok("bump_box", || heap::tracked(|| chain.bump_box::<[u8; N]>())) else { return };
    match r {
        Err(_) => { if l.cap - l.level >= N { fail("refused", format!("{N} bytes at level {} of {} were refused", l.level, l.cap)); } }
        Ok(b) => {
            let addr = b.as_ptr() as usize;
            let at = *l.base.get_or_insert(addr.wrapping_sub(l.level));
            if addr != at.wrapping_add(l.level) { fail("not-the-model", format!("{N} bytes are at {} instead of {}", addr.wrapping_sub(at), l.level)); return; }
            match heap::block_of(addr) { Some((i, blk)) if i == l.block && addr + N <= blk.ptr + blk.size => {} _ => { fail("out-of-bounds", "a large part is not in the block of the link".to_string()); return; } }
            l.level += N;
            let p: *mut u8 = LeakBox::into_raw(b) as *mut u8;
            let salt = 19000 + l.level as u64;
            arena::dirt(addr, N, salt);
            let ok = move || if unsafe { arena::vsim_dirt_check(p, N, salt) } < 0 { Ok(()) } else { Err("a large part was changed".to_string()) };
            values.push(Value { addr, len: N, check: Box::new(ok), drop: Box::new(|| ()) });
            probe("op.jump");
        }
    }
    state_is(own, "after a large allocation");
}
fn same<V: Val>(p: *const V, id: Option<u32>) -> Result<(), String> {
    let got = unsafe { (*p).read() };
    if got == id { Ok(()) } else { Err(format!("value {id:?} is not intact but {got:?}")) }
}
fn check_values(values: &[Value], when: &str) {
    let _q = track::quiet();
    for v in values { if let Err(e) = (v.check)() { fail("corrupted", format!("{when}: {e}")); return; } }
}

fn chains() {
    setup_heap();
    let mut main: Option<Own> = None;
    let mut values: Vec<Value> = Vec::new();
    let mut spare: Vec<Own> = Vec::new();
    let stop = |main: Option<Own>, values: Vec<Value>, spare: Vec<Own>| { std::mem::forget((main, values, spare)) };
    let ops = range(3, 40);
    for _ in 0..ops {
        if sim::failed() { return stop(main, values, spare); }
        sim::step();
        match draw(8) {
            0 | 1 => {
                if let Some(own) = create("Chain::new") { if main.is_none() { main = Some(own) } else { spare.push(own) } }
                if let Some(m) = &main { state_is(m, "after creating another chain"); }
                check_values(&values, "after creating a chain");
            }
            2 => if let (Some(m), Some(mut s)) = (main.as_mut(), spare.pop()) {
                let n = s.links.len();
                crate::tr!("chain one with {n} links to one with {}", m.links.len());
                if n > 1 { probe("op.chain_with_tail"); }
                let c = s.chain;
                if sim::sut_ok("chain", || heap::tracked(|| m.chain.chain(c))).is_none() { continue; }
                probe("op.chained");
                sim::nontrivial();
                s.links.truncate(1);
                s.links.append(&mut m.links);
                m.links = s.links;
                let blocks = live();
                for l in &m.links { if !blocks.contains(&l.block) { fail("early-free", "chaining released a link that is in use".to_string()); } }
                if sim::failed() { continue; }
                state_is(m, "after chaining");
                check_values(&values, "after chaining");
            },
            3 => if spare.len() > 1 {
                // Chain spare ones to each other: the new one may have links of its own.
                let new = spare.pop().unwrap();
                let at = draw(spare.len() as u32) as usize;
                let to = &mut spare[at];
                let mut links = new.links;
                let c = new.chain;
                if sim::sut_ok("chain", || heap::tracked(|| to.chain.chain(c))).is_none() { continue; }
                links.truncate(1);
                links.append(&mut to.links);
                to.links = links;
                state_is(to, "after chaining spare ones");
            },
            4 => if let (Some(_), true) = (&main, chance(1, 4)) {
                // Values are dropped before their memory.
                drop_chain(main.take().unwrap(), &mut values);
            } else if !spare.is_empty() && chance(1, 4) { drop_chain(spare.pop().unwrap(), &mut Vec::new()); },
            _ => if let Some(m) = main.as_mut() {
                if m.links[0].cap >= 512 && chance(1, 4) {
                    if m.links[0].cap > 8192 && chance(7, 8) { match draw(3) { 0 => jump::<65536>(m, &mut values), 1 => jump::<66001>(m, &mut values), _ => jump::<{ 1 << 20 }>(m, &mut values) } } else { bulk(m, &mut values); }
                    continue;
                }
                let sel = draw(11);
                with_any_val!(sel, V => allocate::<V>(m, &mut values));
                if !sim::failed() { check_values(&values, "after allocating"); }
            },
        }
    }
    if sim::failed() { return stop(main, values, spare); }
    if let Some(m) = main { drop_chain(m, &mut values); }
    for s in spare { if !sim::failed() { drop_chain(s, &mut Vec::new()); } else { std::mem::forget(s) } }
    if sim::failed() { return; }
    if !live().is_empty() { fail("leak", format!("{} heap blocks are still allocated after dropping all chains", live().len())); }
    track::expect_owned(&[], "after dropping all chains");
}
fn drop_chain(own: Own, values: &mut Vec<Value>) {
    check_values(values, "before dropping");
    if sim::failed() { std::mem::forget(own); return; }
    for v in values.drain(..) { if sim::sut_ok("dropping a value", || (v.drop)()).is_none() { std::mem::forget(own); return; } }
    let links: Vec<usize> = own.links.iter().map(|l| l.block).collect();
    let chain = own.chain;
    crate::tr!("drop a chain of {} links", links.len());
    sim::sut_ok("dropping a chain", || heap::tracked(|| drop(chain)));
    let after = live();
    if links.iter().any(|b| after.contains(b)) { fail("leak", format!("of {} links some were not released by dropping the chain", links.len())); }
    probe("op.chain_dropped");
}

/// So many links that any recursion over them runs out of stack.
fn long() {
    let links = range(8000, 12000);
    let way = draw(3);
    sim::nontrivial();
    probe("op.long_chain");
    heap::state().p_fail = 0;
    sim::spawn(move || {
        let cap = range(0, 24);
        crate::tr!("a chain of {links} links, way {way}");
        heap::tracked(|| {
            let Some(chain) = sim::sut_ok("building", || { let c = Chain::new(cap).ok(); if let Some(c) = &c { for _ in 1..links { if let Ok(n) = Chain::new(cap) { c.chain(n) } } } c }) else { return };
            let Some(chain) = chain else { fail("refused", "a chain was refused".to_string()); return };
            match way {
                // Its tail is dropped when it is chained to something else.
                0 => { sim::sut_ok("chaining a long chain", || { let short = Chain::new(8).ok().unwrap(); short.chain(chain); drop(short) }); }
                1 => { sim::sut_ok("extending a long chain", || { chain.chain(Chain::new(8).ok().unwrap()); drop(chain) }); }
                _ => { sim::sut_ok("dropping a long chain", || drop(chain)); }
            }
        });
    });
    let mut cfg = sim::Config::NONE;
    cfg.op_limit = u64::MAX;
    sim::run_tasks(cfg);
    if !sim::failed() && !live().is_empty() { fail("leak", format!("{} heap blocks are still allocated after dropping a long chain", live().len())); }
}

/// `MemBump::new`.
fn boxed() {
    setup_heap();
    // Failure of the heap aborts the process in this constructor.
    heap::state().p_fail = 0;
    heap::state().fail_at = u32::MAX;
    let cap = match draw(4) { 0 => range(0, 16), 1 => pick(&[4096, 4096, 4096, 70_001, 300_000]), _ => range(0, 300) };
    let Some(mut b) = sim::sut_ok("MemBump::new", || heap::tracked(|| MemBump::new(cap))) else { return };
    probe("op.membump_created");
    crate::tr!("MemBump::new({cap})");
    let p: *mut MemBump = &mut *b;
    unsync_mem::adopt(p);
    let st = unsync_mem::m();
    if st.len != cap { fail("wrong-capacity", format!("the capacity is {} instead of {cap}", st.len)); }
    if super::shared::level_num(st.levels[0]) != 0 { fail("wrong-level", format!("a new MemBump is at level {}", super::shared::level_num(st.levels[0]))); }
    match heap::block_of(p as *mut u8 as usize) {
        Some((_, blk)) if st.base >= blk.ptr && st.base + st.len <= blk.ptr + blk.size => {}
        _ => fail("out-of-bounds", format!("the data of {} bytes is not within the heap block", st.len)),
    }
    if sim::failed() { std::mem::forget(b); return; }
    unsync_mem::users(range(1, 3), 8, pick(&[2u32, 8]));
    if !sim::failed() { unsync_mem::verify("at the end"); }
    if sim::failed() { std::mem::forget(b); return; }
    sim::sut_ok("dropping a MemBump", || heap::tracked(|| drop(b)));
    if !live().is_empty() { fail("leak", "the heap block was not released".to_string()); }
}

pub fn c11() {
    match draw(64) { 63 => long(), 48..=62 => boxed(), _ => chains() }
}
