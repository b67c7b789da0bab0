//! Tracked values: each has an identity, knows whether it is alive, and reports double drops, drops
//! of garbage, drops at the wrong address and can panic in its destructor when the run asks for it.
use crate::sim::{self, fail, Global};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Life { Live, Dropped }
pub struct Entry { pub life: Life, pub panics: bool, pub pinned: usize, pub size: usize }
pub struct Registry {
    pub entries: Vec<Entry>,
    /// Identities in the order of their destructor calls.
    pub dropped: Vec<u32>,
    pub zst_live: i64,
    pub zst_made: i64,
    pub zst_panic_at: i64,
    pub plain_made: u32,
    pub on_drop: Option<fn(u32)>,
    pub panics_fired: u32,
    /// The destructor of the next value made panics.
    pub next_panics: bool,
}
static REG: Global<Registry> = Global::new(Registry { entries: Vec::new(), dropped: Vec::new(), zst_live: 0, zst_made: 0, zst_panic_at: -1, plain_made: 0, on_drop: None, panics_fired: 0, next_panics: false });
pub fn reg() -> &'static mut Registry { REG.get() }

pub fn begin() {
    let r = reg();
    r.entries.clear(); r.dropped.clear();
    r.zst_live = 0; r.zst_made = 0; r.zst_panic_at = -1; r.plain_made = 0; r.on_drop = None; r.panics_fired = 0; r.next_panics = false;
}

pub const ZST_ID: u32 = u32::MAX;
/// Values without a destructor have this bit and their contents as an identity. Nobody knows how
/// many there are of them.
const PLAIN: u32 = 1 << 30;
pub fn is_plain(id: u32) -> bool { id != ZST_ID && id & PLAIN != 0 }
/// It has an entry of its own.
pub fn counted(id: u32) -> bool { id != ZST_ID && id & PLAIN == 0 }

fn new_id(size: usize) -> u32 {
    let _g = quiet();
    let r = reg();
    let panics = std::mem::take(&mut r.next_panics);
    r.entries.push(Entry { life: Life::Live, panics, pinned: 0, size });
    (r.entries.len() - 1) as u32
}
pub fn life(id: u32) -> Life { reg().entries[id as usize].life }
pub fn is_live(id: u32) -> bool { life(id) == Life::Live }
pub fn live() -> Vec<u32> { reg().entries.iter().enumerate().filter(|(_, e)| e.life == Life::Live).map(|(i, _)| i as u32).collect() }
pub fn set_panics(id: u32, p: bool) { if is_plain(id) {} else if id == ZST_ID { reg().zst_panic_at = if p { reg().zst_live } else { -1 } } else { reg().entries[id as usize].panics = p; } }
/// From now on this value may only be dropped at that address.
pub fn pin_at(id: u32, addr: usize) { if counted(id) { reg().entries[id as usize].pinned = addr; } }
pub fn unpin(id: u32) { pin_at(id, 0) }
pub fn drops() -> usize { reg().dropped.len() }

/// Neither scheduling points nor tracked heap operations while alive.
pub struct Quiet(#[allow(dead_code)] sim::Unarmed, #[allow(dead_code)] crate::heap::Paused);
pub fn quiet() -> Quiet { Quiet(sim::unarmed(), crate::heap::pause()) }

fn dropping(id: Option<u32>, addr: usize, what: &'static str) {
    let g = quiet();
    let Some(id) = id else { fail("garbage-drop", format!("a destructor was called on memory that holds no {what}")); return; };
    let r = reg();
    if id as usize >= r.entries.len() { fail("garbage-drop", format!("a destructor was called on memory that holds no {what}")); return; }
    let e = &mut r.entries[id as usize];
    if e.life == Life::Dropped { fail("double-drop", format!("value {id} was dropped twice")); return; }
    e.life = Life::Dropped;
    if e.pinned != 0 && e.pinned != addr { fail("moved", format!("value {id} was dropped at another address than the one it was placed at")); }
    r.dropped.push(id);
    sim::note(0xD0 ^ ((id as u64) << 8));
    crate::tr!("      drop of value {id}");
    let panics = e.panics && !std::thread::panicking();
    if let Some(f) = r.on_drop { f(id); }
    if panics {
        reg().panics_fired += 1;
        sim::fault("fault.destructor_panics");
        crate::tr!("      destructor of value {id} panics");
        sim::disarm_for_unwind();
        let p: sim::Payload = Box::new(sim::Injected(id));
        drop(g);
        std::panic::resume_unwind(p);
    }
}

/// A value type for workloads.
pub trait Val: Sized + 'static {
    const NAME: &'static str;
    fn make() -> Self;
    /// None if it is not intact.
    fn read(&self) -> Option<u32>;
}

macro_rules! check_alive { ($id:expr) => {{ let id = $id; if (id as usize) < reg().entries.len() && is_live(id) { Some(id) } else { None } }} }

fn tag(id: u32) -> u32 { id.wrapping_mul(0x9E37_79B1) ^ 0x5EED_C0DE }

/// 8 bytes.
#[repr(C)]
pub struct T8 { id: u32, tag: u32 }
impl T8 { fn ident(&self) -> Option<u32> { (self.tag == tag(self.id)).then_some(self.id) } }
impl Val for T8 {
    const NAME: &'static str = "8 byte value";
    fn make() -> Self { let _g = quiet(); let id = new_id(8); T8 { id, tag: tag(id) } }
    fn read(&self) -> Option<u32> { let _g = quiet(); self.ident().and_then(|id| check_alive!(id)) }
}
impl Drop for T8 { fn drop(&mut self) { dropping({ let _g = quiet(); self.ident() }, self as *const _ as usize, Self::NAME) } }

/// 3 bytes without alignment.
#[repr(C)]
pub struct T3 { b: [u8; 3] }
impl T3 { fn ident(&self) -> Option<u32> { let id = self.b[0] as u32 | (self.b[1] as u32) << 8; (self.b[2] == (tag(id) >> 24) as u8 | 1).then_some(id) } }
impl Val for T3 {
    const NAME: &'static str = "3 byte value";
    fn make() -> Self { let _g = quiet(); let id = new_id(3); assert!(id < 65536); T3 { b: [id as u8, (id >> 8) as u8, (tag(id) >> 24) as u8 | 1] } }
    fn read(&self) -> Option<u32> { let _g = quiet(); self.ident().and_then(|id| check_alive!(id)) }
}
impl Drop for T3 { fn drop(&mut self) { dropping({ let _g = quiet(); self.ident() }, self as *const _ as usize, Self::NAME) } }

/// Many bytes.
#[repr(C)]
pub struct TB { id: u32, body: [u32; 12] }
impl TB { fn ident(&self) -> Option<u32> { self.body.iter().enumerate().all(|(i, &b)| b == tag(self.id).rotate_left(i as u32)).then_some(self.id) } }
impl Val for TB {
    const NAME: &'static str = "52 byte value";
    fn make() -> Self { let _g = quiet(); let id = new_id(52); let mut body = [0; 12]; for (i, b) in body.iter_mut().enumerate() { *b = tag(id).rotate_left(i as u32); } TB { id, body } }
    fn read(&self) -> Option<u32> { let _g = quiet(); self.ident().and_then(|id| check_alive!(id)) }
}
impl Drop for TB { fn drop(&mut self) { dropping({ let _g = quiet(); self.ident() }, self as *const _ as usize, Self::NAME) } }

/// Over-aligned.
#[repr(C, align(32))]
pub struct TA { id: u32, tag: u32 }
impl TA { fn ident(&self) -> Option<u32> { (self.tag == tag(self.id) && placed(self as *const _ as usize, 32)).then_some(self.id) } }
impl Val for TA {
    const NAME: &'static str = "32 aligned value";
    fn make() -> Self { let _g = quiet(); let id = new_id(32); TA { id, tag: tag(id) } }
    fn read(&self) -> Option<u32> { let _g = quiet(); self.ident().and_then(|id| check_alive!(id)) }
}
impl Drop for TA { fn drop(&mut self) { dropping({ let _g = quiet(); self.ident() }, self as *const _ as usize, Self::NAME) } }

macro_rules! zero_sized { ($(#[$m:meta])* $T:ident, $align:expr, $name:expr) => {
    /// Zero-sized: only counted.
    $(#[$m])*
    pub struct $T(());
    impl Val for $T {
        const NAME: &'static str = $name;
        fn make() -> Self { let r = reg(); r.zst_live += 1; r.zst_made += 1; r.next_panics = false; $T(()) }
        fn read(&self) -> Option<u32> { if reg().zst_live > 0 && placed(self as *const _ as usize, $align) { Some(ZST_ID) } else { None } }
    }
    impl Drop for $T { fn drop(&mut self) { dropping_zst(self as *const _ as usize, $align) } }
} }
zero_sized!(TZ, 1, "zero-sized value");
zero_sized!(#[repr(align(16))] TY, 16, "16 aligned zero-sized value");

/// Without a destructor.
fn plain_id() -> u32 { let r = reg(); r.plain_made = (r.plain_made + 1) % PLAIN; r.next_panics = false; r.plain_made }
macro_rules! plain { ($(#[$m:meta])* $T:ident($inner:ty), $name:expr, $align:expr, $make:expr, $read:expr) => {
    $(#[$m])*
    pub struct $T($inner);
    impl Val for $T {
        const NAME: &'static str = $name;
        fn make() -> Self { let _g = quiet(); let f: fn(u32) -> $inner = $make; $T(f(plain_id())) }
        fn read(&self) -> Option<u32> { let _g = quiet(); if !placed(self as *const _ as usize, $align) { return None; } let f: fn(&$inner) -> Option<u32> = $read; f(&self.0).map(|x| PLAIN | x & (PLAIN - 1)) }
    }
} }
plain!(P1(u8), "plain byte", 1, |n| n as u8, |x| Some(*x as u32));
plain!(P2(u16), "plain 2 byte value", 2, |n| n as u16, |x| Some(*x as u32));
plain!(P16([u64; 2]), "plain 16 byte value", 8, |n| [n as u64, !(n as u64)], |x| (x[0] == !x[1]).then_some(x[0] as u32));
plain!(PZ(()), "plain zero-sized value", 1, |_| (), |_| Some(0));
plain!(#[repr(align(32))] PY([u32; 0]), "plain 32 aligned zero-sized value", 32, |_| [], |_| Some(0));

/// The compiler must not conclude from the type.
#[inline(never)]
fn placed(addr: usize, align: usize) -> bool { std::hint::black_box(addr) % align == 0 }

fn dropping_zst(addr: usize, align: usize) {
    let g = quiet();
    let r = reg();
    if !placed(addr, align) { fail("misaligned", "a zero-sized value was dropped at an address which is not aligned for it"); }
    r.zst_live -= 1;
    if r.zst_live < 0 { fail("double-drop", "more zero-sized values were dropped than made"); }
    sim::note(0x25D0);
    if let Some(f) = r.on_drop { f(ZST_ID); }
    if r.zst_panic_at == r.zst_live + 1 && !std::thread::panicking() {
        r.zst_panic_at = -1;
        r.panics_fired += 1;
        sim::fault("fault.destructor_panics");
        sim::disarm_for_unwind();
        let p: sim::Payload = Box::new(sim::Injected(ZST_ID));
        drop(g);
        std::panic::resume_unwind(p);
    }
}

/// A check that values were conserved: exactly these are alive.
pub fn expect_live(expect: &[u32], what: &str) {
    let _g = quiet();
    let mut want: Vec<u32> = expect.to_vec();
    want.sort();
    let have = live();
    if want != have {
        let lost: Vec<u32> = have.iter().copied().filter(|x| !want.contains(x)).collect();
        let gone: Vec<u32> = want.iter().copied().filter(|x| !have.contains(x)).collect();
        if !gone.is_empty() { fail("early-drop", format!("{what}: values {gone:?} were dropped although still owned")); }
        if !lost.is_empty() { fail("missing-drop", format!("{what}: values {lost:?} were not dropped although nobody owns them")); }
    }
}

pub type Counts = BTreeMap<u32, u32>;

#[macro_export]
macro_rules! with_val { ($sel:expr, $V:ident => $e:expr) => { match $sel % 6 {
    0 => { type $V = $crate::track::T8; $e } 1 => { type $V = $crate::track::T3; $e } 2 => { type $V = $crate::track::TB; $e } 3 => { type $V = $crate::track::TA; $e } 4 => { type $V = $crate::track::TZ; $e } _ => { type $V = $crate::track::TY; $e } } } }

/// These, and those without a destructor.
#[macro_export]
macro_rules! with_any_val { ($sel:expr, $V:ident => $e:expr) => { match $sel % 11 {
    6 => { type $V = $crate::track::P1; $e } 7 => { type $V = $crate::track::P2; $e } 8 => { type $V = $crate::track::P16; $e } 9 => { type $V = $crate::track::PZ; $e } 10 => { type $V = $crate::track::PY; $e }
    n => $crate::with_val!(n, $V => $e) } } }

/// Exactly these values, with `ZST_ID` once for each zero-sized one, are alive.
pub fn expect_owned(ids: &[u32], what: &str) {
    let zst = ids.iter().filter(|&&i| i == ZST_ID).count() as i64;
    let sized: Vec<u32> = ids.iter().copied().filter(|&i| counted(i)).collect();
    expect_live(&sized, what);
    let have = reg().zst_live;
    if have < zst { fail("early-drop", format!("{what}: {} zero-sized values were dropped although still owned", zst - have)); }
    if have > zst { fail("missing-drop", format!("{what}: {} zero-sized values were not dropped although nobody owns them", have - zst)); }
}

/// For trait objects.
pub trait AnyVal { fn ident(&self) -> Option<u32>; fn addr(&self) -> usize; }
impl<V: Val> AnyVal for V { fn ident(&self) -> Option<u32> { self.read() } fn addr(&self) -> usize { self as *const V as usize } }
