//! The simulator: choice tape, trace, faults, scheduler and simulated threads.
//!
//! Everything here runs in one OS thread. Each nondeterministic decision of a run is drawn from the
//! choice tape, which either comes from a seeded generator or from a recorded file. A draw of zero
//! is always the simplest choice (no preemption, no fault, smallest value).
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Global<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub const fn new(t: T) -> Self { Global(UnsafeCell::new(t)) }
    /// Single threaded process, and references are never kept across calls.
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T { unsafe { &mut *self.0.get() } }
}

// ---------------------------------------------------------------- tape

enum Source { Rng(u64), Recorded }
struct Tape { source: Source, data: Vec<u32>, pos: usize }
static TAPE: Global<Tape> = Global::new(Tape { source: Source::Recorded, data: Vec::new(), pos: 0 });

static MIRROR: Global<(*mut u32, usize, Option<&'static std::sync::atomic::AtomicU64>)> = Global::new((std::ptr::null_mut(), 0, None));
/// Write all draws there as well, so that they survive the process.
pub fn mirror_tape(p: *mut u32, cap: usize, len: &'static std::sync::atomic::AtomicU64) { *MIRROR.get() = (p, cap, Some(len)); }

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 { let mut s = a ^ b.rotate_left(32).wrapping_mul(0xD6E8FEB86659FD93); splitmix(&mut s) }

/// A number in `0..n`.
pub fn draw(n: u32) -> u32 {
    let t = TAPE.get();
    if n <= 1 { return 0; }
    let v = match &mut t.source {
        Source::Rng(state) => {
            let v = ((splitmix(state) >> 32) * n as u64 >> 32) as u32;
            t.data.push(v);
            v
        }
        Source::Recorded => t.data.get(t.pos).copied().unwrap_or(0) % n,
    };
    t.pos += 1;
    let m = MIRROR.get();
    if let Some(len) = m.2 { if t.pos <= m.1 { unsafe { *m.0.add(t.pos - 1) = v; } len.store(t.pos as u64, std::sync::atomic::Ordering::SeqCst); } }
    note((v as u64) << 32 | n as u64);
    v
}
pub fn range(lo: usize, hi: usize) -> usize { lo + draw((hi - lo + 1) as u32) as usize }
/// True with probability `num / den`, false being the simple choice.
pub fn chance(num: u32, den: u32) -> bool { num > 0 && draw(den) >= den - num.min(den) }
pub fn pick<T: Copy>(of: &[T]) -> T { of[draw(of.len() as u32) as usize] }
/// An index by weight.
pub fn weighted(w: &[u32]) -> usize {
    let total: u32 = w.iter().sum();
    let mut v = draw(total.max(1));
    for (i, &x) in w.iter().enumerate() { if v < x { return i; } v -= x; }
    0
}

// ---------------------------------------------------------------- run state

pub struct Violation { pub class: String, pub msg: String }
#[derive(Default)]
pub struct Stats { pub counts: BTreeMap<&'static str, u64> }
pub struct Run {
    pub violation: Option<Violation>,
    pub hash: u64,
    pub steps: u64,
    pub nontrivial: bool,
    pub verbose: bool,
    pub trace: Vec<String>,
}
static RUN: Global<Run> = Global::new(Run { violation: None, hash: 0, steps: 0, nontrivial: false, verbose: false, trace: Vec::new() });
static STATS: Global<Stats> = Global::new(Stats { counts: BTreeMap::new() });

/// Called with the first violation immediately, so that it is known even if the process dies later.
pub static ON_VIOLATION: Global<Option<fn(&str, &str)>> = Global::new(None);

pub fn fail(class: &str, msg: impl Into<String>) {
    let r = RUN.get();
    if r.violation.is_none() {
        let msg = msg.into();
        if let Some(f) = ON_VIOLATION.get() { f(class, &msg); }
        if r.verbose { trace_line(format!("!! VIOLATION {class}: {msg}")); }
        r.violation = Some(Violation { class: class.to_string(), msg });
    }
}
pub fn failed() -> bool { RUN.get().violation.is_some() }
pub fn note(x: u64) { let r = RUN.get(); r.hash = mix(r.hash, x); }
pub fn verbose() -> bool { RUN.get().verbose }
static STREAM: Global<bool> = Global::new(false);
/// Print trace lines immediately.
pub fn stream_trace(on: bool) { *STREAM.get() = on; }
pub fn trace_line(s: String) {
    if *STREAM.get() {
        use std::io::Write;
        static LINES: Global<u32> = Global::new(0);
        *LINES.get() += 1;
        if *LINES.get() > 2000 { return; }
        println!("{s}"); let _ = std::io::stdout().flush();
        return;
    }
    RUN.get().trace.push(s);
}
#[macro_export]
macro_rules! tr { ($($a:tt)*) => { if $crate::sim::verbose() { $crate::sim::trace_line(format!($($a)*)); } } }
#[macro_export]
macro_rules! ensure { ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { $crate::sim::fail($class, format!($($a)*)); } } }
/// Count a fault that actually took place in this run.
pub fn fault(kind: &'static str) { *STATS.get().counts.entry(kind).or_insert(0) += 1; RUN.get().nontrivial = true; }
/// Count that some interesting condition was reached.
pub fn probe(kind: &'static str) { *STATS.get().counts.entry(kind).or_insert(0) += 1; }
pub fn nontrivial() { RUN.get().nontrivial = true; }
/// One step of simulated time.
pub fn step() { RUN.get().steps += 1; }
pub fn take_stats() -> Stats { std::mem::take(STATS.get()) }

pub struct RunResult { pub violation: Option<Violation>, pub hash: u64, pub steps: u64, pub nontrivial: bool, pub trace: Vec<String>, pub tape: Vec<u32> }

pub enum Input<'a> { Seed(u64), Tape(&'a [u32]) }

/// Execute one run, entirely decided by the input.
pub fn execute(f: fn(), input: Input, verbose: bool) -> RunResult {
    let t = TAPE.get();
    t.data.clear();
    t.pos = 0;
    match input {
        Input::Seed(s) => t.source = Source::Rng(s),
        Input::Tape(d) => { t.source = Source::Recorded; t.data.extend_from_slice(d); }
    }
    let r = RUN.get();
    if let Some(len) = MIRROR.get().2 { len.store(0, std::sync::atomic::Ordering::SeqCst); }
    r.violation = None; r.hash = 0; r.steps = 0; r.nontrivial = false; r.verbose = verbose; r.trace = Vec::new();
    crate::track::begin();
    crate::arena::begin();
    crate::heap::begin();
    if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
        fail("panic", format!("unexpected panic outside of a simulated operation: {}", panic_text(&p)));
    }
    unsafe { vsim_armed = 0; }
    sched_clear();
    crate::arena::end();
    crate::heap::end();
    let r = RUN.get();
    let tape = match t.source { Source::Rng(_) => t.data.clone(), Source::Recorded => t.data[..t.pos.min(t.data.len())].to_vec() };
    RunResult { violation: r.violation.take(), hash: r.hash, steps: r.steps, nontrivial: r.nontrivial, trace: std::mem::take(&mut r.trace), tape }
}

// ---------------------------------------------------------------- panics

/// Payload of injected panics.
pub struct Injected(pub u32);
static LAST_PANIC: Global<String> = Global::new(String::new());
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = unsafe { vsim_armed };
        unsafe { vsim_armed = 0; }
        if !info.payload().is::<Injected>() { *LAST_PANIC.get() = info.to_string().replace('\n', " "); }
        unsafe { vsim_armed = was; }
    }));
}
pub type Payload = Box<dyn std::any::Any + Send>;
pub fn is_injected(p: &Payload) -> bool { p.is::<Injected>() }
pub fn panic_text(p: &Payload) -> String {
    if p.is::<Injected>() { "injected panic".into() }
    else { LAST_PANIC.get().clone() }
}
pub fn inject(id: u32) -> ! {
    let p: Payload = { let _g = crate::track::quiet(); Box::new(Injected(id)) };
    std::panic::resume_unwind(p)
}
/// No scheduling points while unwinding.
pub fn disarm_for_unwind() {}

// ---------------------------------------------------------------- scheduler

extern "C" {
    pub static mut vsim_armed: i32;
    static mut vsim_stack_lo: usize;
    static mut vsim_stack_hi: usize;
    fn vsim_switch(save: *mut *mut u8, load: *mut u8);
    fn vsim_prepare(top: *mut u8) -> *mut u8;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State { Ready, Stalled(u32), Done, Dead }

struct Task {
    sp: *mut u8,
    stack: *mut u8,
    stack_size: usize,
    state: State,
    entry: Option<Box<dyn FnOnce()>>,
    /// Points passed within the current operation.
    op_points: u64,
    in_op: bool,
}

pub const STACK: usize = 256 << 10;
pub const BIG_STACK: usize = 16 << 20;
static BIG: Global<bool> = Global::new(false);
/// Tasks of this run get larger stacks.
pub fn big_stacks() { *BIG.get() = true; }
#[derive(Clone, Copy)]
pub struct Config {
    /// Probability out of 64 to preempt at an atomic access.
    pub p_atomic: u32,
    /// Probability out of 64 to preempt at another access.
    pub p_plain: u32,
    /// Probability out of 256 to stall the thread for a while when preempting.
    pub p_stall: u32,
    /// Threads that may be killed, and the probability out of 256 to do so at a point within an operation.
    pub kills: u32,
    pub p_kill: u32,
    /// Points within one operation after which it counts as stuck.
    pub op_limit: u64,
    /// A thread that is preempted at every atomic access, mostly until another one has run.
    pub victim: usize,
    /// A weak compare-exchange fails for no reason, out of 64. Only with the feature `weak`.
    pub p_spurious: u32,
}
impl Config {
    pub const NONE: Config = Config { p_atomic: 0, p_plain: 0, p_stall: 0, kills: 0, p_kill: 0, op_limit: 20_000_000, victim: NOBODY, p_spurious: 0 };
    /// Randomly tuned, per run.
    pub fn random() -> Config {
        let mut c = Config::NONE;
        c.p_atomic = pick(&[16u32, 32, 48, 4, 1, 56]);
        c.p_plain = pick(&[0u32, 4, 16, 1]);
        c.p_stall = pick(&[0u32, 0, 32, 128]);
        c.kills = pick(&[0u32, 0, 0, 1, 2]);
        c.p_kill = if c.kills > 0 { pick(&[8u32, 32, 96]) } else { 0 };
        if cfg!(feature = "weak") { c.p_spurious = pick(&[0u32, 8, 24, 48]); }
        c
    }
}

struct Sched { tasks: Vec<Task>, free: [Vec<*mut u8>; 2], main_sp: *mut u8, cur: usize, cfg: Config, kills_left: u32, stuck: bool, switches: u64 }
const NOBODY: usize = usize::MAX;
static SCHED: Global<Sched> = Global::new(Sched { tasks: Vec::new(), free: [Vec::new(), Vec::new()], main_sp: std::ptr::null_mut(), cur: NOBODY, cfg: Config::NONE, kills_left: 0, stuck: false, switches: 0 });

fn give_back(free: &mut [Vec<*mut u8>; 2], stack: *mut u8, size: usize) {
    let f = &mut free[(size == BIG_STACK) as usize];
    f.push(stack);
    f.sort_by(|a, b| b.cmp(a));
}
fn sched_clear() {
    *BIG.get() = false;
    let s = SCHED.get();
    for t in s.tasks.drain(..) {
        give_back(&mut s.free, t.stack, t.stack_size);
        // An entry that has never been started can be dropped, a started one is gone.
        drop(t.entry);
    }
    s.cur = NOBODY;
    s.stuck = false;
}

pub fn current() -> usize { SCHED.get().cur }
pub fn in_task() -> bool { SCHED.get().cur != NOBODY }

pub fn spawn(f: impl FnOnce() + 'static) {
    let s = SCHED.get();
    let big = *BIG.get();
    let stack_size = if big { BIG_STACK } else { STACK };
    let stack = s.free[big as usize].pop().unwrap_or_else(|| {
        static NEXT: Global<[usize; 2]> = Global::new([0x2100_0000_0000, 0x2200_0000_0000]);
        let next = &mut NEXT.get()[big as usize];
        let p = crate::arena::map_at(*next, stack_size);
        *next += stack_size + 0x10000;
        p as *mut u8
    });
    let sp = unsafe { vsim_prepare(stack.add(stack_size)) };
    s.tasks.push(Task { sp, stack, stack_size, state: State::Ready, entry: Some(Box::new(f)), op_points: 0, in_op: false });
}

#[no_mangle]
extern "C" fn vsim_coro_entry() -> ! {
    let s = SCHED.get();
    let f = s.tasks[s.cur].entry.take().unwrap();
    if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
        fail("panic", format!("unexpected panic in a simulated thread: {}", panic_text(&p)));
    }
    let s = SCHED.get();
    s.tasks[s.cur].state = State::Done;
    leave();
    unreachable!()
}

/// Back to the scheduler loop.
fn leave() {
    let s = SCHED.get();
    let cur = s.cur;
    let save: *mut *mut u8 = &mut s.tasks[cur].sp;
    unsafe { vsim_switch(save, s.main_sp) }
}

/// Run the spawned tasks until each is finished or dead. Returns false if one is stuck.
pub fn run_tasks(cfg: Config) -> bool {
    let s = SCHED.get();
    s.cfg = cfg;
    s.kills_left = cfg.kills;
    s.stuck = false;
    let mut last = NOBODY;
    loop {
        if s.stuck { break; }
        let ready: Vec<usize> = (0..s.tasks.len()).filter(|&i| s.tasks[i].state == State::Ready).collect();
        let next = if ready.is_empty() {
            // Stalls end when nobody else can run.
            let mut woken = false;
            for t in s.tasks.iter_mut() { if let State::Stalled(_) = t.state { t.state = State::Ready; woken = true; } }
            if woken { continue; }
            break;
        } else if ready.len() == 1 { ready[0] }
        else {
            let ready: Vec<usize> = if last == cfg.victim && chance(7, 8) { ready.into_iter().filter(|&i| i != last).collect() } else { ready };
            // Zero means the first one after the last that ran.
            let from = ready.iter().position(|&i| last != NOBODY && i > last).unwrap_or(0);
            ready[(from + draw(ready.len() as u32) as usize) % ready.len()]
        };
        for t in s.tasks.iter_mut() { if let State::Stalled(n) = t.state { t.state = if n <= 1 { State::Ready } else { State::Stalled(n - 1) }; } }
        note(0x5C00 + next as u64);
        s.cur = next;
        s.switches += 1;
        last = next;
        unsafe {
            vsim_stack_lo = s.tasks[next].stack as usize;
            vsim_stack_hi = vsim_stack_lo + s.tasks[next].stack_size;
            let load = s.tasks[next].sp;
            vsim_switch(&mut s.main_sp, load);
        }
        let s = SCHED.get();
        if s.tasks[s.cur].state == State::Done { tr!("   [thread {} finished]", s.cur); }
        s.cur = NOBODY;
    }
    let ok = !s.stuck;
    sched_clear_done();
    ok
}
fn sched_clear_done() {
    let s = SCHED.get();
    for t in s.tasks.drain(..) { give_back(&mut s.free, t.stack, t.stack_size); }
    s.cur = NOBODY;
}

/// A scheduling point outside of any operation.
pub fn yield_now() {
    let s = SCHED.get();
    if s.cur == NOBODY { return; }
    step();
    leave();
}
/// Maybe yield between operations.
pub fn maybe_yield() { if in_task() && chance(3, 4) { yield_now(); } }

#[no_mangle]
extern "C" fn vsim_point(_addr: *const u8, kind: u32) {
    let s = SCHED.get();
    if s.cur == NOBODY || std::thread::panicking() { return; }
    step();
    let cur = s.cur;
    s.tasks[cur].op_points += 1;
    if s.tasks[cur].op_points > s.cfg.op_limit {
        s.stuck = true;
        s.tasks[cur].state = State::Dead;
        fail("stuck", format!("thread {cur}: an operation did not finish within {} memory accesses", s.cfg.op_limit));
        leave();
        return;
    }
    if s.kills_left > 0 && chance(s.cfg.p_kill, 256) {
        s.kills_left -= 1;
        s.tasks[cur].state = State::Dead;
        fault("fault.thread_killed_mid_operation");
        tr!("   [thread {cur} dies at access {} of its operation]", s.tasks[cur].op_points);
        note(0xDEAD);
        leave();
        return;
    }
    let p = if kind >= 2 && cur == s.cfg.victim { 64 } else if kind >= 2 { s.cfg.p_atomic } else { s.cfg.p_plain };
    let others = s.tasks.iter().enumerate().any(|(i, t)| i != cur && t.state == State::Ready);
    if others && chance(p, 64) {
        fault("sched.preempted_mid_operation");
        tr!("   [thread {cur} preempted at access {} (kind {kind}) of its operation]", s.tasks[cur].op_points);
        if chance(s.cfg.p_stall, 256) {
            let n = range(2, 40) as u32;
            s.tasks[cur].state = State::Stalled(n);
            fault("fault.thread_stalled_mid_operation");
            tr!("   [thread {cur} stalls for {n}]");
        }
        leave();
    }
}

/// Does this weak compare-exchange fail although the value is the expected one?
#[no_mangle]
extern "C" fn vsim_spurious() -> i32 {
    let s = SCHED.get();
    if unsafe { vsim_armed } == 0 || s.cur == NOBODY || s.cfg.p_spurious == 0 || std::thread::panicking() { return 0; }
    let _solo = unarmed();
    if !chance(s.cfg.p_spurious, 64) { return 0; }
    fault("fault.spurious_failure");
    tr!("   [a weak compare-exchange of thread {} fails for no reason]", s.cur);
    1
}

/// Execute an operation of the code under test: each of its memory accesses is a scheduling point.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Payload> {
    let task = in_task();
    step();
    if task {
        let s = SCHED.get();
        s.tasks[s.cur].op_points = 0;
        s.tasks[s.cur].in_op = true;
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        if task { unsafe { vsim_armed = 1; } }
        let r = f();
        unsafe { vsim_armed = 0; }
        r
    }));
    unsafe { vsim_armed = 0; }
    if task { let s = SCHED.get(); s.tasks[s.cur].in_op = false; }
    crate::arena::poll("operation");
    r
}
/// Points passed by the current, or last, operation of this thread.
pub fn op_points() -> u64 { let s = SCHED.get(); if s.cur == NOBODY { 0 } else { s.tasks[s.cur].op_points } }

/// Suspends arming in user code called from within an operation.
pub struct Unarmed(i32);
pub fn unarmed() -> Unarmed { unsafe { let w = vsim_armed; vsim_armed = 0; Unarmed(w) } }
impl Drop for Unarmed { fn drop(&mut self) { unsafe { vsim_armed = self.0; } } }

/// Like `sut` but a panic is a violation.
pub fn sut_ok<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match sut(f) {
        Ok(r) => Some(r),
        Err(p) => { fail("panic", format!("{what} panicked: {}", panic_text(&p))); None }
    }
}

// ---------------------------------------------------------------- small helpers

thread_local! { static SEQ: Cell<u64> = const { Cell::new(0) }; }
/// A sequence number ordering all events of the process.
pub fn seq() -> u64 { SEQ.with(|s| { s.set(s.get() + 1); s.get() }) }
