//! Runs batches of simulations in forked workers, finds, minimises and replays violations.
//! Nothing in here decides anything within a run.
pub struct Prop { pub id: &'static str, pub run: fn() }
use crate::sim::{self, Input};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn setitimer(which: i32, new: *const [u64; 4], old: *mut [u64; 4]) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn personality(p: u64) -> i32;
    fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

const NONE: u64 = u64::MAX;
const TAPE_CAP: usize = 1 << 20;
#[repr(C)]
struct Slot { cur: AtomicU64, done: AtomicU64, viol_run: AtomicU64, class: [u8; 64], msg: [u8; 1024], tape_len: AtomicU64, finished: AtomicU64, hash: AtomicU64 }
#[repr(C)]
struct Shared { stop_after: AtomicU64, slots: [Slot; 64], tape: [u32; TAPE_CAP] }

static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut SLOT: usize = 0;
fn shared() -> &'static mut Shared { unsafe { &mut *SHARED } }
fn slot(i: usize) -> &'static mut Slot { &mut shared().slots[i] }

fn put(dst: &mut [u8], s: &str) { let n = s.len().min(dst.len() - 1); dst[..n].copy_from_slice(&s.as_bytes()[..n]); dst[n] = 0; }
fn get(src: &[u8]) -> String { let n = src.iter().position(|&b| b == 0).unwrap_or(src.len()); String::from_utf8_lossy(&src[..n]).into_owned() }

fn on_violation(class: &str, msg: &str) {
    let s = slot(unsafe { SLOT });
    if s.viol_run.load(SeqCst) == NONE {
        put(&mut s.class, class);
        put(&mut s.msg, msg);
        s.viol_run.store(s.cur.load(SeqCst), SeqCst);
        // The run ends soon, unless the state is so bad that it never does.
        cpu_limit(1);
    }
}
fn reset_slot(i: usize) { let s = slot(i); s.cur.store(NONE, SeqCst); s.done.store(0, SeqCst); s.viol_run.store(NONE, SeqCst); s.tape_len.store(0, SeqCst); s.finished.store(0, SeqCst); s.hash.store(0, SeqCst); put(&mut s.class, ""); put(&mut s.msg, ""); }

/// End this process by a signal after some seconds of computing.
fn cpu_limit(secs: u32) { unsafe { setitimer(2, &[0, 0, secs as u64, 0], std::ptr::null_mut()); } }
/// Seconds of computing of another process.
fn cpu_of(pid: i32) -> u64 {
    let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}
fn silence() { unsafe { let fd = open(c"/dev/null".as_ptr(), 1); if fd >= 0 { dup2(fd, 2); } } }
fn child_setup(quiet: bool) {
    unsafe { prctl(1, 9, 0, 0, 0); }
    if quiet { silence(); }
    *sim::ON_VIOLATION.get() = Some(on_violation);
}

pub fn run_seed(seed: u64, prop: &Prop, run: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.id.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    sim::mix(sim::mix(seed, h), run)
}

#[derive(Clone)]
enum What { Seed(u64), Tape(Vec<u32>), Sequence { seed: u64, start: u64, stride: u64, end: u64 } }
#[derive(Clone, PartialEq, Debug)]
struct Outcome { class: Option<String>, msg: String, tape: Vec<u32>, hash: u64 }

fn describe(status: i32) -> Option<(String, String)> {
    let sig = status & 0x7f;
    if sig == 14 || sig == 9 || sig == 27 { return Some(("hang".into(), "the run did not finish".into())); }
    if sig != 0 { return Some(("crash".into(), format!("the process died of signal {sig}{}", match sig { 6 => " (abort)", 11 => " (invalid memory access)", 4 => " (illegal instruction)", 7 => " (bus error)", _ => "" }))); }
    let code = (status >> 8) & 0xff;
    if code != 0 { return Some(("crash".into(), format!("the process exited with {code}"))); }
    None
}

/// Execute in a child of its own.
fn isolate(prop: &'static Prop, what: &What, secs: u32) -> Outcome {
    const S: usize = 63;
    reset_slot(S);
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { SLOT = S; alarm(secs * 8); }
        cpu_limit(secs);
        child_setup(true);
        slot(S).cur.store(0, SeqCst);
        sim::mirror_tape(shared().tape.as_mut_ptr(), TAPE_CAP, &slot(S).tape_len);
        let r = match what {
            What::Seed(s) => sim::execute(prop.run, Input::Seed(*s), false),
            What::Tape(t) => sim::execute(prop.run, Input::Tape(t), false),
            What::Sequence { seed, start, stride, end } => {
                let mut i = *start;
                loop {
                    let r = sim::execute(prop.run, Input::Seed(run_seed(*seed, prop, i)), false);
                    if r.violation.is_some() || i >= *end { break r; }
                    i += stride;
                }
            }
        };
        slot(S).hash.store(r.hash, SeqCst);
        slot(S).finished.store(1, SeqCst);
        unsafe { _exit(0) }
    }
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0); }
    let s = slot(S);
    let n = (s.tape_len.load(SeqCst) as usize).min(TAPE_CAP);
    let tape = shared().tape[..n].to_vec();
    if s.viol_run.load(SeqCst) != NONE { return Outcome { class: Some(get(&s.class)), msg: get(&s.msg), tape, hash: s.hash.load(SeqCst) }; }
    match describe(st) {
        Some((class, msg)) => Outcome { class: Some(class), msg, tape, hash: 0 },
        None => Outcome { class: None, msg: String::new(), tape, hash: s.hash.load(SeqCst) },
    }
}

fn shrink(prop: &'static Prop, first: Outcome, budget: Duration) -> (Outcome, u64) {
    let t0 = Instant::now();
    let class = first.class.clone();
    let limit = if class.as_deref() == Some("hang") { 2 } else { 5 };
    let mut best = first;
    let mut execs = 0u64;
    let mut attempt = |cand: Vec<u32>, best: &mut Outcome| -> bool {
        execs += 1;
        let o = isolate(prop, &What::Tape(cand), limit);
        let key = |t: &Vec<u32>| { let mut e = t.len(); while e > 0 && t[e - 1] == 0 { e -= 1; } (e, t.iter().map(|&x| x as u64).sum::<u64>()) };
        if o.class == class && key(&o.tape) < key(&best.tape) { *best = o; true } else { false }
    };
    loop {
        let before = best.tape.clone();
        while best.tape.last() == Some(&0) { best.tape.pop(); }
        for mode in 0..3 {
            let mut size = (best.tape.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.tape.len() {
                    if t0.elapsed() > budget { return (best, execs); }
                    let e = (i + size).min(best.tape.len());
                    let mut c = best.tape.clone();
                    let ok = match mode {
                        0 => { c.drain(i..e); attempt(c, &mut best) }
                        1 => { if c[i..e].iter().all(|&x| x == 0) { false } else { c[i..e].iter_mut().for_each(|x| *x = 0); attempt(c, &mut best) } }
                        _ => { if size > 1 || c[i] == 0 { false } else {
                            c[i] /= 2;
                            let a = attempt(c, &mut best);
                            if a { true } else { let mut c = best.tape.clone(); if i < c.len() { c[i] -= 1; attempt(c, &mut best) } else { false } }
                        } }
                    };
                    if !ok { i += size; }
                }
                if size == 1 { break; }
                size /= 2;
            }
        }
        if best.tape == before { return (best, execs); }
    }
}

struct Args { map: BTreeMap<String, String>, free: Vec<String> }
fn args() -> Args {
    let mut a = Args { map: BTreeMap::new(), free: Vec::new() };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        if let Some(k) = x.strip_prefix("--") { let v = it.next().expect("value"); a.map.insert(k.to_string(), v); } else { a.free.push(x); }
    }
    a
}
impl Args {
    fn num(&self, k: &str, d: u64) -> u64 { self.map.get(k).map(|v| v.parse().expect("number")).unwrap_or(d) }
    fn what(&self) -> What {
        if let Some(f) = self.map.get("tape") {
            let t = std::fs::read_to_string(f).expect("tape file");
            What::Tape(t.split_whitespace().map(|x| x.parse().expect("number")).collect())
        } else if self.map.contains_key("start") {
            What::Sequence { seed: self.num("seed", 1), start: self.num("start", 0), stride: self.num("stride", 1), end: self.num("end", 0) }
        } else { What::Seed(self.num("runseed", 0)) }
    }
}

pub fn main(props: &'static [Prop]) {
    unsafe {
        // The same addresses in each process, as far as that is up to us.
        let cur = personality(0xffffffff);
        if cur >= 0 && cur & 0x0040000 == 0 && std::env::var_os("VSIM_REEXEC").is_none() && personality(cur as u64 | 0x0040000) >= 0 {
            use std::os::unix::process::CommandExt;
            let _ = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env("VSIM_REEXEC", "1").exec();
        }
        setrlimit(4, &[0, 0]);
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        SHARED = p as *mut Shared;
    }
    sim::install_panic_hook();
    let a = args();
    let cmd = a.free.first().map(|s| s.as_str()).unwrap_or("");
    if cmd == "list" { for p in props { println!("{}", p.id); } return; }
    let prop = a.free.get(1).and_then(|id| props.iter().find(|p| p.id == id));
    let Some(prop) = prop else { eprintln!("usage: vsim list | batch|run|hashes PROP [--key value]"); std::process::exit(2) };
    match cmd {
        "batch" => batch(prop, &a),
        "run" => run(prop, &a),
        "hashes" => {
            let seed = a.num("seed", 1);
            for i in a.num("from", 0)..a.num("to", 100) {
                let o = isolate(prop, &What::Seed(run_seed(seed, prop, i)), 30);
                println!("{i} {:016x}", o.hash);
            }
        }
        _ => std::process::exit(2),
    }
}

/// Execute one input and print its trace, in a child such that crashes are part of it.
fn run(prop: &'static Prop, a: &Args) {
    let what = match a.map.get("run") { Some(r) => What::Seed(run_seed(a.num("seed", 1), prop, r.parse().unwrap())), None => a.what() };
    let o = isolate(prop, &what, if let What::Sequence { .. } = what { 240 } else { 10 });
    if let What::Sequence { .. } = what {} else {
        // Once more for its trace. The trace is printed while it is recorded if the run does not survive.
        reset_slot(62);
        let _ = std::io::stdout().flush();
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { SLOT = 62; alarm(80); }
            cpu_limit(10);
            child_setup(false);
            sim::stream_trace(o.class.is_some());
            let input = match &what { What::Seed(s) => Input::Seed(*s), What::Tape(t) => Input::Tape(t), _ => unreachable!() };
            let r = sim::execute(prop.run, input, true);
            for l in r.trace { println!("{l}"); }
            let _ = std::io::stdout().flush();
            unsafe { _exit(0) }
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0); }
    }
    println!("tape {}", o.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    println!("hash {:016x}", o.hash);
    match o.class {
        Some(c) => { println!("result violation {c}: {}", o.msg.replace('\n', " ")); std::process::exit(1) }
        None => println!("result ok"),
    }
}

fn batch(prop: &'static Prop, a: &Args) {
    let seed = a.num("seed", 1);
    let workers = a.num("workers", 8).clamp(1, 60);
    let secs = a.num("secs", 10);
    let min_runs = a.num("min-runs", 0);
    let max_runs = a.num("runs", u64::MAX);
    let hard = a.num("hard-secs", 240);
    let keep = a.num("hashes", 64);
    let out = a.map.get("out").expect("--out").clone();
    let t0 = Instant::now();
    shared().stop_after.store(NONE, SeqCst);
    let mut pids = Vec::new();
    for w in 0..workers {
        reset_slot(w as usize);
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { SLOT = w as usize; }
            child_setup(true);
            worker(prop, seed, w, workers, min_runs, max_runs, Duration::from_secs(secs), keep, &format!("{out}.w{w}"));
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    let mut alive: Vec<bool> = vec![true; pids.len()];
    let mut last: Vec<(u64, Instant, Option<u64>)> = vec![(0, Instant::now(), None); pids.len()];
    let mut found: Vec<(u64, String, String)> = Vec::new();
    while alive.iter().any(|&x| x) {
        std::thread::sleep(Duration::from_millis(5));
        for w in 0..pids.len() {
            if !alive[w] { continue; }
            let s = slot(w);
            let mut st = 0;
            let r = unsafe { waitpid(pids[w], &mut st, 1) };
            let ended = r == pids[w];
            let v = s.viol_run.load(SeqCst);
            if ended {
                alive[w] = false;
                if v != NONE { found.push((v, get(&s.class), get(&s.msg))); }
                else if let Some((c, m)) = describe(st) { found.push((s.cur.load(SeqCst), c, m)); }
            } else {
                let d = s.done.load(SeqCst);
                if d != last[w].0 { last[w] = (d, Instant::now(), None); }
                else if last[w].1.elapsed() > Duration::from_secs(2) && last[w].2.is_none() { last[w].2 = Some(cpu_of(pids[w])); }
                else if last[w].2.is_some_and(|c| last[w].1.elapsed() > Duration::from_secs(8) && cpu_of(pids[w]) > c + 6) || t0.elapsed() > Duration::from_secs(hard) + Duration::from_secs(60) {
                    unsafe { kill(pids[w], 9); waitpid(pids[w], &mut st, 0); }
                    alive[w] = false;
                    found.push((s.cur.load(SeqCst), "hang".into(), "a run made no progress for several seconds".into()));
                }
            }
            if let Some(m) = found.iter().map(|f| f.0).min() { shared().stop_after.store(m, SeqCst); }
        }
        if t0.elapsed() > Duration::from_secs(hard) { shared().stop_after.store(0, SeqCst); }
    }
    let wall = t0.elapsed();
    // Merge.
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct = HashSet::new();
    let mut nontrivial = HashSet::new();
    let (mut runs, mut steps) = (0u64, 0u64);
    let mut hashes = BTreeMap::new();
    for w in 0..workers {
        let f = format!("{out}.w{w}");
        if let Ok(t) = std::fs::read_to_string(&f) {
            for l in t.lines() {
                let p: Vec<&str> = l.split(' ').collect();
                match p[0] {
                    "runs" => runs += p[1].parse::<u64>().unwrap(),
                    "steps" => steps += p[1].parse::<u64>().unwrap(),
                    "count" => *counts.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
                    "h" => { hashes.insert(p[1].parse::<u64>().unwrap(), p[2].to_string()); }
                    _ => {}
                }
            }
        }
        if let Ok(b) = std::fs::read(format!("{f}.bin")) {
            for c in b.chunks_exact(9) {
                let h = u64::from_le_bytes(c[..8].try_into().unwrap());
                distinct.insert(h);
                if c[8] == 1 { nontrivial.insert(h); }
            }
        }
        let _ = std::fs::remove_file(&f);
        let _ = std::fs::remove_file(format!("{f}.bin"));
    }
    let mut o = String::new();
    o += &format!("runs {runs}\nsteps {steps}\ndistinct {}\nnontrivial {}\nwall_ms {}\nworkers {workers}\n", distinct.len(), nontrivial.len(), wall.as_millis());
    for (k, v) in &counts { o += &format!("count {k} {v}\n"); }
    for (k, v) in &hashes { o += &format!("h {k} {v}\n"); }
    found.sort();
    if let Some((run, class, msg)) = found.first() {
        let rs = run_seed(seed, prop, *run);
        o += &format!("found {run} {rs} {class}: {}\n", msg.replace('\n', " "));
        let iso = isolate(prop, &What::Seed(rs), 8);
        if iso.class.is_some() {
            let from_tape = isolate(prop, &What::Tape(iso.tape.clone()), 8);
            let start = if from_tape.class == iso.class { from_tape } else { iso.clone() };
            let len = start.tape.len();
            let (best, execs) = shrink(prop, start, Duration::from_secs(a.num("shrink-secs", 30)));
            o += &format!("shrunk {} {} {}\n", len, best.tape.len(), execs);
            o += &format!("tape {}\n", best.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            o += &format!("class {}\nmsg {}\nkind tape\n", best.class.clone().unwrap_or_default(), best.msg.replace('\n', " "));
        } else {
            // Only after the runs before it in the same process.
            let start = run % workers;
            let s = What::Sequence { seed, start, stride: workers, end: *run };
            let o2 = isolate(prop, &s, 240);
            if o2.class.is_some() {
                o += &format!("class {}\nmsg {}\nkind sequence {start} {workers} {run}\n", o2.class.unwrap(), o2.msg.replace('\n', " "));
            } else { o += "kind none\n"; }
        }
    }
    std::fs::write(&out, o).unwrap();
}

#[allow(clippy::too_many_arguments)]
fn worker(prop: &'static Prop, seed: u64, w: u64, stride: u64, min_runs: u64, max_runs: u64, time: Duration, keep: u64, file: &str) {
    let t0 = Instant::now();
    let s = slot(w as usize);
    let mut i = w;
    let (mut runs, mut steps) = (0u64, 0u64);
    let mut bin: Vec<u8> = Vec::new();
    let mut text = String::new();
    sim::take_stats();
    while i < max_runs {
        if i > shared().stop_after.load(SeqCst) { break; }
        if runs % 16 == 0 && t0.elapsed() > time && i >= min_runs { break; }
        s.cur.store(i, SeqCst);
        let r = sim::execute(prop.run, Input::Seed(run_seed(seed, prop, i)), false);
        runs += 1;
        steps += r.steps;
        if bin.len() < 9 * 4_000_000 { bin.extend_from_slice(&r.hash.to_le_bytes()); bin.push(r.nontrivial as u8); }
        if i < keep { text += &format!("h {i} {:016x}\n", r.hash); }
        s.done.store(runs, SeqCst);
        if r.violation.is_some() { break; }
        i += stride;
    }
    text += &format!("runs {runs}\nsteps {steps}\n");
    for (k, v) in sim::take_stats().counts { text += &format!("count {k} {v}\n"); }
    std::fs::write(file, text).unwrap();
    std::fs::write(format!("{file}.bin"), bin).unwrap();
}
