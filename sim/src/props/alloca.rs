//! C14: `Alloca`.
use crate::arena;
use crate::pod;
use crate::shared::{A128, PODS};
use crate::sim::{self, chance, draw, fail, note, pick, probe, range, Config, Global};
use static_alloc::leaked::Alloca;
use std::mem::{align_of, size_of, MaybeUninit};

struct Live { addr: usize, len: usize, salt: u64, task: usize }
struct World { live: Vec<Live>, salt: u64, used: Vec<usize>, budget: usize, total: usize, huge: bool }
static W: Global<World> = Global::new(World { live: Vec::new(), salt: 0, used: Vec::new(), budget: 0, total: 0, huge: false });
const LIMIT: usize = 1 << 20;

fn verify(when: &str) {
    for l in &W.get().live {
        let bad = unsafe { arena::vsim_dirt_check(l.addr as *const u8, l.len, l.salt) };
        if bad >= 0 { fail("corrupted", format!("{when}: byte {bad} of {} of a live stack allocation was changed", l.len)); return; }
    }
}
/// Use some of the stack.
#[inline(never)]
fn clobber(depth: u32) {
    let mut a = [0u64; 64];
    for (i, x) in a.iter_mut().enumerate() { *x = 0xC10B_BE12_0000_0000 ^ ((depth as u64) << 8) ^ i as u64; }
    std::hint::black_box(&mut a);
    if depth > 0 { clobber(depth - 1); }
    std::hint::black_box(&a);
}

fn length(size: usize) -> usize {
    let s = size.max(1);
    match if W.get().huge { draw(12) } else { pick(&[0u32, 1, 2, 3, 4, 5, 6, 7, 8, 11]) } {
        0 => 0, 1 => 1, 2..=4 => range(0, 20),
        // The boundaries of powers of two, with one element of slack.
        5..=7 => { let c = 1usize << range(3, 14); (c / s).wrapping_add(range(0, 4)).saturating_sub(2) }
        8 => range(0, 4096) / s,
        9 => { let c = 1usize << range(14, 20); (c / s).wrapping_add(range(0, 4)).saturating_sub(3) }
        10 => (LIMIT / s).wrapping_add(range(0, 3)).wrapping_sub(1),
        _ => { let m = isize::MAX as usize; pick(&[usize::MAX, usize::MAX - 1, m, m / s, (m / s).wrapping_add(1), (m / s).wrapping_sub(1), usize::MAX / s, (usize::MAX / s).wrapping_add(1), usize::MAX / 2 + 1, 1 << 40]) }
    }
}

fn one<T: Copy + 'static>(task: usize, depth: u32) -> bool {
    let (size, align) = (size_of::<T>(), align_of::<T>());
    let n = length(size);
    let Some(a) = sim::sut_ok("Alloca::new", || Alloca::<T>::new(n)) else { return false };
    note(a.is_some() as u64);
    let max = isize::MAX as usize - (align - 1);
    let padded = n.checked_add(1).and_then(|m| m.checked_mul(size)).filter(|&b| b <= max);
    let Some(a) = a else {
        probe("op.refused");
        crate::tr!("task {task}: {n} elements of {size} bytes refused");
        if padded.is_some() { fail("refused", format!("{n} elements of {size} bytes were refused")); }
        return true;
    };
    if n.checked_mul(size).is_none_or(|b| b > isize::MAX as usize) { fail("accepted", format!("{n} elements of {size} bytes were accepted, which can not be represented")); return false; }
    let need = padded.unwrap_or(usize::MAX);
    if need > 8 * LIMIT && size > 0 { probe("op.too_big"); return true; }
    let times = if chance(1, 6) { 2 } else { 1 };
    for _ in 0..times {
        // Nested allocations may take twice their size from the stack, at most.
        let w = W.get();
        if w.used[task] + 2 * need.min(LIMIT) + 0x4000 > w.budget { probe("op.no_stack_left"); return true; }
        if need > LIMIT && w.used[task] > 0 { return true; }
        w.used[task] += 2 * need.min(LIMIT) + 0x4000;
        let ok = call::<T>(&a, task, depth, n, need);
        W.get().used[task] -= 2 * need.min(LIMIT) + 0x4000;
        if !ok || sim::failed() { return ok; }
    }
    true
}
#[inline(never)]
fn call<T: Copy + 'static>(a: &Alloca<T>, task: usize, depth: u32, n: usize, need: usize) -> bool {
    let (size, align) = (size_of::<T>(), align_of::<T>());
    let guard = [0x6A4Du64 ^ task as u64; 8];
    std::hint::black_box(&guard);
    let mut runs = 0u32;
    let panics = chance(1, 8);
    let twin = chance(1, 6);
    let answer = 0xA5A5_0000_0000u64 ^ n as u64;
    crate::tr!("task {task}: run with {n} elements of {size} bytes aligned to {align}, depth {depth}");
    let live_before = W.get().live.len();
    let r = {
        let runs = &mut runs;
        sim::sut(move || {
            let _u = sim::unarmed();
            a.run(move |s: &mut [MaybeUninit<T>]| {
                *runs += 1;
                if sim::failed() { return answer; }
                let addr = s.as_mut_ptr() as usize;
                let bytes = s.len().wrapping_mul(size);
                if s.len() != n { fail("wrong-length", format!("the slice has {} elements instead of {n}", s.len())); return answer; }
                if addr == 0 || addr % align != 0 { fail("misaligned", format!("the slice of elements aligned to {align} is not aligned")); return answer; }
                probe("op.ran");
                if bytes == 0 { probe("op.ran_empty"); }
                if bytes > 0 {
                    for l in &W.get().live { if addr < l.addr + l.len && l.addr < addr + bytes { fail("overlap", format!("the slice overlaps one of {}", if l.task == task { "the same task" } else { "another suspended task" })); return answer; } }
                    let w = W.get();
                    w.salt += 1;
                    arena::dirt(addr, bytes, w.salt);
                    let salt = w.salt;
                    w.live.push(Live { addr, len: bytes, salt, task });
                    clobber(3);
                    verify("inside of the closure");
                }
                for _ in 0..range(0, 2) {
                    if sim::failed() { break; }
                    if chance(1, 2) { sim::nontrivial(); probe("op.suspended"); sim::yield_now(); }
                    else if depth < 5 { probe("op.nested"); if twin { again(a, task, depth, n, need); } else { any(task, depth + 1); } }
                    if !sim::failed() { verify("after a pause"); }
                }
                if bytes > 0 { let i = W.get().live.iter().position(|l| l.addr == addr && l.task == task); if let Some(i) = i { W.get().live.remove(i); } }
                if panics { sim::fault("fault.closure_panics"); crate::tr!("task {task}: the closure panics"); sim::inject(14) }
                answer
            })
        })
    };
    if guard.iter().any(|&g| g != 0x6A4D ^ task as u64) { fail("corrupted", "the stack of the caller was changed".to_string()); }
    if sim::failed() { return false; }
    match r {
        Ok(x) => {
            if runs != 1 { fail("runs", format!("the closure was run {runs} times")); return false; }
            if panics { fail("no-panic", "a panic of the closure vanished".to_string()); return false; }
            if x != answer { fail("wrong-result", "the result of the closure was changed".to_string()); return false; }
        }
        Err(p) if sim::is_injected(&p) => {
            if !panics || runs != 1 { fail("panic", "a panic came from elsewhere".to_string()); return false; }
        }
        Err(p) => {
            // Documented: too big for the stack.
            probe("op.too_big");
            if need <= LIMIT || runs != 0 { fail("panic", format!("{n} elements of {size} bytes: {}", sim::panic_text(&p))); return false; }
        }
    }
    if W.get().live.len() != live_before && W.get().total == 1 { fail("corrupted", "live allocations were lost".to_string()); }
    verify("after the closure");
    !sim::failed()
}
/// The same instance runs within itself.
fn again<T: Copy + 'static>(a: &Alloca<T>, task: usize, depth: u32, n: usize, need: usize) {
    let w = W.get();
    let cost = 2 * need.min(LIMIT) + 0x4000;
    if need > LIMIT || w.used[task] + cost > w.budget { return; }
    w.used[task] += cost;
    probe("op.nested_same");
    call(a, task, depth + 1, n, need);
    W.get().used[task] -= cost;
}
fn any(task: usize, depth: u32) {
    let v = draw(PODS as u32 + 2) as usize;
    match v { 13 => one::<A128>(task, depth), 14 => one::<[u8; 5000]>(task, depth), _ => pod!(v, V => one::<V>(task, depth)) };
}

pub fn c14() {
    sim::big_stacks();
    let tasks = range(1, 3);
    let w = W.get();
    w.live.clear();
    w.used = vec![0; tasks];
    w.budget = 12 << 20;
    w.total = tasks;
    w.huge = chance(1, 24);
    for t in 0..tasks {
        let ops = range(1, 5);
        sim::spawn(move || {
            for _ in 0..ops {
                if sim::failed() { return; }
                any(t, 0);
                sim::maybe_yield();
            }
        });
    }
    sim::run_tasks(Config::NONE);
    if sim::failed() { return; }
    if !W.get().live.is_empty() { fail("corrupted", "live allocations remain".to_string()); }
}
