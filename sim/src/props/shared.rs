//! The synchronized `Bump` behind one interface for all storage types.
use crate::with_any_val;
use crate::arena;
use crate::sim::{self, draw, pick, range};
use crate::track::{self, Val};
use alloc_traits::{LocalAlloc, NonZeroLayout};
use static_alloc::bump::{Allocation, Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;
use std::alloc::{GlobalAlloc, Layout};
use std::mem::{align_of, size_of};

/// The number inside, which is private.
pub fn level_num(l: Level) -> usize {
    let s = format!("{l:?}");
    let d: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
    d.parse().expect("Debug of a Level shows a number")
}
thread_local! {}
/// Construct a `Level` value of a number, from a throwaway allocator whose storage starts at aligned
/// memory and is large enough.
pub fn level_of(n: usize) -> Level {
    #[repr(align(64))]
    struct S([u8; 8192]);
    let b = Bump::<S>::uninit();
    if n == 0 { return b.level(); }
    match b.get_layout(Layout::from_size_align(n, 1).unwrap()) { Some(a) => a.level, None => b.level() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fail { Exhausted, Mismatch(usize), Unspecified }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Ok { addr: usize, level: Option<usize>, size: usize }, Err(Fail), Level(usize) }
fn fl(f: Failure) -> Fail { match f { Failure::Exhausted => Fail::Exhausted, Failure::Mismatch { observed } => Fail::Mismatch(level_num(observed)) } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Alloc(Layout), AllocAt(Layout, Level), GetLayout(Layout), GetLayoutAt(Layout, Level),
    Get(usize), GetAt(usize, Level), Leak(usize), LeakAt(usize, Level), LeakBox(usize), LeakBoxAt(usize, Level),
    Level, GlobalAlloc(Layout), GlobalZeroed(Layout), LocalAlloc(Layout), LocalZeroed(Layout),
    /// Of the block at an offset with a layout.
    GlobalRealloc(usize, Layout, Layout), LocalRealloc(usize, Layout, Layout),
}
impl Op {
    /// The layout requested.
    pub fn layout(&self) -> Option<Layout> {
        match *self {
            Op::Alloc(l) | Op::AllocAt(l, _) | Op::GetLayout(l) | Op::GetLayoutAt(l, _) | Op::GlobalAlloc(l) | Op::GlobalZeroed(l) | Op::LocalAlloc(l) | Op::LocalZeroed(l) => Some(l),
            Op::Get(v) | Op::GetAt(v, _) | Op::Leak(v) | Op::LeakAt(v, _) | Op::LeakBox(v) | Op::LeakBoxAt(v, _) => Some(pod_layout(v)),
            Op::GlobalRealloc(_, _, l) | Op::LocalRealloc(_, _, l) => Some(l),
            Op::Level => None,
        }
    }
    pub fn at(&self) -> Option<usize> {
        match *self { Op::AllocAt(_, l) | Op::GetLayoutAt(_, l) | Op::GetAt(_, l) | Op::LeakAt(_, l) | Op::LeakBoxAt(_, l) => Some(level_num(l)), _ => None }
    }
    pub fn zeroed(&self) -> bool { matches!(self, Op::GlobalZeroed(_) | Op::LocalZeroed(_)) }
}

#[derive(Clone, Copy)] #[repr(C, align(64))] pub struct A64(pub [u8; 64]);
#[derive(Clone, Copy)] #[repr(C, align(128))] pub struct A128(pub [u8; 384]);
pub const PODS: usize = 13;
#[macro_export]
macro_rules! pod { ($v:expr, $V:ident => $e:expr) => { match $v {
    0 => { type $V = u8; $e } 1 => { type $V = u16; $e } 2 => { type $V = u32; $e } 3 => { type $V = u64; $e } 4 => { type $V = u128; $e }
    5 => { type $V = [u8; 3]; $e } 6 => { type $V = [u8; 13]; $e } 7 => { type $V = [u64; 3]; $e } 8 => { type $V = $crate::shared::A64; $e } 9 => { type $V = (); $e } 10 => { type $V = [u64; 0]; $e } 11 => { type $V = [u16; 7]; $e } _ => { type $V = [u32; 5]; $e } } } }
pub fn pod_layout(v: usize) -> Layout { pod!(v, V => Layout::new::<V>()) }

pub enum LeakRes { Stored { addr: usize, level: Option<usize> }, Back { id: Option<u32>, kind: Fail }, Refused(Fail) }

/// Any `Bump<T>`.
pub trait AnyBump {
    fn storage(&self) -> (usize, usize);
    fn object(&self) -> (usize, usize);
    fn op(&self, op: Op) -> Res;
    fn level(&self) -> Level;
    fn reset(&mut self);
    unsafe fn g_realloc(&self, p: usize, l: Layout, n: usize) -> usize;
    unsafe fn g_dealloc(&self, p: usize, l: Layout);
    unsafe fn l_realloc(&self, p: usize, l: Layout, n: Layout) -> Option<(usize, Layout)>;
    unsafe fn l_dealloc(&self, p: usize, l: Layout);
    /// mode 0 leak, 1 leak_at, 2 leak_box, 3 leak_box_at, 4 get+leak, 5 get+boxed, 6 get_at+uninit+write
    fn leak_val(&self, sel: u32, mode: u32, at: Level) -> (Option<u32>, Result<LeakRes, sim::Payload>);
    unsafe fn local_alloc(&self, l: Layout, zero: bool) -> Option<(usize, Layout)>;
}

fn from_alloc<V>(a: Allocation<'_, V>) -> Res { Res::Ok { addr: a.ptr.as_ptr() as usize, level: Some(level_num(a.level)), size: size_of::<V>() } }
fn nz(l: Layout) -> NonZeroLayout { NonZeroLayout::from_layout(l.into()).unwrap() }

impl<T> AnyBump for Bump<T> {
    fn storage(&self) -> (usize, usize) {
        // Where the storage is relative to the object is found out with another instance.
        let other = Bump::<T>::uninit();
        let off = match other.get_layout(Layout::from_size_align(1, 1).unwrap()) { Some(a) => a.ptr.as_ptr() as usize - &other as *const _ as usize, None => 0 };
        (self as *const _ as usize + off, size_of::<T>())
    }
    fn object(&self) -> (usize, usize) { (self as *const _ as usize, size_of::<Self>()) }
    fn level(&self) -> Level { Bump::level(self) }
    fn reset(&mut self) { Bump::reset(self) }
    fn op(&self, op: Op) -> Res {
        // Only the calls themselves are under the scheduler, see `exec`.
        match op {
            Op::Alloc(l) => match Bump::alloc(self, l) { Some(p) => Res::Ok { addr: p.as_ptr() as usize, level: None, size: l.size() }, None => Res::Err(Fail::Unspecified) },
            Op::AllocAt(l, at) => match Bump::alloc_at(self, l, at) { Ok(a) => { let _q = sim::unarmed(); Res::Ok { addr: a.ptr.as_ptr() as usize, level: Some(level_num(a.level)), size: l.size() } }, Err(f) => { let _q = sim::unarmed(); Res::Err(fl(f)) } },
            Op::GetLayout(l) => match self.get_layout(l) { Some(a) => { let _q = sim::unarmed(); Res::Ok { addr: a.ptr.as_ptr() as usize, level: Some(level_num(a.level)), size: l.size() } }, None => Res::Err(Fail::Unspecified) },
            Op::GetLayoutAt(l, at) => match self.get_layout_at(l, at) { Ok(a) => { let _q = sim::unarmed(); Res::Ok { addr: a.ptr.as_ptr() as usize, level: Some(level_num(a.level)), size: l.size() } }, Err(f) => { let _q = sim::unarmed(); Res::Err(fl(f)) } },
            Op::Get(v) => pod!(v, V => match self.get::<V>() { Some(a) => { let _q = sim::unarmed(); from_alloc(a) } None => Res::Err(Fail::Unspecified) }),
            Op::GetAt(v, at) => pod!(v, V => match self.get_at::<V>(at) { Ok(a) => { let _q = sim::unarmed(); from_alloc(a) } Err(f) => { let _q = sim::unarmed(); Res::Err(fl(f)) } }),
            Op::Leak(v) => pod!(v, V => match self.leak::<V>(unsafe { std::mem::zeroed() }) { Ok(r) => { let _q = sim::unarmed(); Res::Ok { addr: r as *mut V as usize, level: None, size: size_of::<V>() } } Err(e) => { let _q = sim::unarmed(); Res::Err(fl(e.kind())) } }),
            Op::LeakAt(v, at) => pod!(v, V => match self.leak_at::<V>(unsafe { std::mem::zeroed() }, at) { Ok((r, l)) => { let _q = sim::unarmed(); Res::Ok { addr: r as *mut V as usize, level: Some(level_num(l)), size: size_of::<V>() } } Err(e) => { let _q = sim::unarmed(); Res::Err(fl(e.kind())) } }),
            Op::LeakBox(v) => pod!(v, V => match self.leak_box::<V>(unsafe { std::mem::zeroed() }) { Some(r) => { let _q = sim::unarmed(); Res::Ok { addr: LeakBox::into_raw(r) as usize, level: None, size: size_of::<V>() } } None => Res::Err(Fail::Unspecified) }),
            Op::LeakBoxAt(v, at) => pod!(v, V => match self.leak_box_at::<V>(unsafe { std::mem::zeroed() }, at) { Ok(r) => { let _q = sim::unarmed(); Res::Ok { addr: LeakBox::into_raw(r) as usize, level: None, size: size_of::<V>() } } Err(f) => { let _q = sim::unarmed(); Res::Err(fl(f)) } }),
            Op::Level => { let l = Bump::level(self); let _q = sim::unarmed(); Res::Level(level_num(l)) }
            Op::GlobalAlloc(l) => { let p = unsafe { GlobalAlloc::alloc(self, l) }; if p.is_null() { Res::Err(Fail::Unspecified) } else { Res::Ok { addr: p as usize, level: None, size: l.size() } } }
            Op::GlobalZeroed(l) => { let p = unsafe { GlobalAlloc::alloc_zeroed(self, l) }; if p.is_null() { Res::Err(Fail::Unspecified) } else { Res::Ok { addr: p as usize, level: None, size: l.size() } } }
            Op::LocalAlloc(l) => match LocalAlloc::alloc(self, nz(l)) { Some(a) => Res::Ok { addr: a.ptr.as_ptr() as usize, level: None, size: a.layout.size().get() }, None => Res::Err(Fail::Unspecified) },
            Op::GlobalRealloc(p, l, n) => { let p = unsafe { self.g_realloc(p, l, n.size()) }; if p == 0 { Res::Err(Fail::Unspecified) } else { Res::Ok { addr: p, level: None, size: n.size() } } }
            Op::LocalRealloc(p, l, n) => match unsafe { self.l_realloc(p, l, n) } { Some((p, n)) => Res::Ok { addr: p, level: None, size: n.size() }, None => Res::Err(Fail::Unspecified) },
            Op::LocalZeroed(l) => match LocalAlloc::alloc_zeroed(self, nz(l)) { Some(a) => Res::Ok { addr: a.ptr.as_ptr() as usize, level: None, size: a.layout.size().get() }, None => Res::Err(Fail::Unspecified) },
        }
    }
    unsafe fn g_realloc(&self, p: usize, l: Layout, n: usize) -> usize { GlobalAlloc::realloc(self, p as *mut u8, l, n) as usize }
    unsafe fn g_dealloc(&self, p: usize, l: Layout) { GlobalAlloc::dealloc(self, p as *mut u8, l) }
    unsafe fn l_realloc(&self, p: usize, l: Layout, n: Layout) -> Option<(usize, Layout)> {
        let a = alloc_traits::Allocation { ptr: std::ptr::NonNull::new(p as *mut u8).unwrap(), layout: nz(l), lifetime: Default::default() };
        LocalAlloc::realloc(self, a, nz(n)).map(|a| (a.ptr.as_ptr() as usize, a.layout.into()))
    }
    unsafe fn l_dealloc(&self, p: usize, l: Layout) {
        let a = alloc_traits::Allocation { ptr: std::ptr::NonNull::new(p as *mut u8).unwrap(), layout: nz(l), lifetime: Default::default() };
        LocalAlloc::dealloc(self, a)
    }
    unsafe fn local_alloc(&self, l: Layout, zero: bool) -> Option<(usize, Layout)> {
        let a = if zero { LocalAlloc::alloc_zeroed(self, nz(l)) } else { LocalAlloc::alloc(self, nz(l)) }?;
        Some((a.ptr.as_ptr() as usize, a.layout.into()))
    }
    fn leak_val(&self, sel: u32, mode: u32, at: Level) -> (Option<u32>, Result<LeakRes, sim::Payload>) {
        with_any_val!(sel, V => {
            let v = V::make();
            let id = v.read();
            let r = sim::sut(|| match mode {
                0 => match self.leak(v) {
                    Ok(r) => LeakRes::Stored { addr: r as *mut V as usize, level: None },
                    Err(e) => { let kind = e.kind(); let v = e.into_inner(); let _q = sim::unarmed(); let id = v.read(); std::mem::forget(v); LeakRes::Back { id, kind: fl(kind) } }
                },
                1 => match self.leak_at(v, at) {
                    Ok((r, l)) => { let _q = sim::unarmed(); LeakRes::Stored { addr: r as *mut V as usize, level: Some(level_num(l)) } }
                    Err(e) => { let kind = e.kind(); let v = e.into_inner(); let _q = sim::unarmed(); let id = v.read(); std::mem::forget(v); LeakRes::Back { id, kind: fl(kind) } }
                },
                2 => match self.leak_box(v) {
                    Some(b) => LeakRes::Stored { addr: LeakBox::into_raw(b) as usize, level: None },
                    None => LeakRes::Refused(Fail::Unspecified),
                },
                3 => match self.leak_box_at(v, at) {
                    Ok(b) => LeakRes::Stored { addr: LeakBox::into_raw(b) as usize, level: None },
                    Err(f) => { let _q = sim::unarmed(); LeakRes::Refused(fl(f)) }
                },
                4 => match self.get::<V>() {
                    Some(a) => LeakRes::Stored { addr: unsafe { a.leak(v) } as *mut V as usize, level: None },
                    None => { let _q = sim::unarmed(); let id = v.read(); std::mem::forget(v); LeakRes::Back { id, kind: Fail::Exhausted } }
                },
                5 => match self.get::<V>() {
                    Some(a) => LeakRes::Stored { addr: LeakBox::into_raw(unsafe { a.boxed(v) }) as usize, level: None },
                    None => { let _q = sim::unarmed(); let id = v.read(); std::mem::forget(v); LeakRes::Back { id, kind: Fail::Exhausted } }
                },
                _ => match self.get_at::<V>(at) {
                    Ok(a) => {
                        let b: LeakBox<'_, std::mem::MaybeUninit<V>> = unsafe { a.uninit() }.into();
                        LeakRes::Stored { addr: LeakBox::into_raw(LeakBox::write(b, v)) as usize, level: None }
                    }
                    Err(f) => { let _q = sim::unarmed(); let id = v.read(); std::mem::forget(v); LeakRes::Back { id, kind: fl(f) } }
                },
            });
            (id, r)
        })
    }
}

/// Read a value that was stored.
pub unsafe fn read_val(sel: u32, addr: usize) -> Option<u32> { with_any_val!(sel, V => { if addr % align_of::<V>() != 0 { return None; } (*(addr as *const V)).read() }) }
pub unsafe fn drop_val(sel: u32, addr: usize) { with_any_val!(sel, V => std::ptr::drop_in_place(addr as *mut V)) }
pub fn val_layout(sel: u32) -> Layout { with_any_val!(sel, V => Layout::new::<V>()) }

pub struct Made { pub bump: &'static mut dyn AnyBump, pub base: usize, pub len: usize, pub name: &'static str }

#[derive(Clone, Copy)] #[repr(C, align(64))] struct S64([u8; 256]);
#[derive(Clone, Copy)] #[repr(C, align(4))] struct S4([u8; 100]);
macro_rules! storages { ($sel:expr, $T:ident => $e:expr) => { match $sel {
    0 => { type $T = [u8; 64]; $e } 1 => { type $T = [u8; 1]; $e } 2 => { type $T = [u8; 7]; $e } 3 => { type $T = [u64; 4]; $e } 4 => { type $T = [u8; 200]; $e } 5 => { type $T = S64; $e }
    6 => { type $T = [u128; 8]; $e } 7 => { type $T = S4; $e } 8 => { type $T = [u8; 1000]; $e } 9 => { type $T = [u8; 33]; $e } 10 => { type $T = [u16; 2500]; $e } _ => { type $T = [u32; 40_000]; $e } } } }
pub const STORAGES: u32 = 11;
static NAMES: [&str; 12] = ["[u8; 64]", "[u8; 1]", "[u8; 7]", "[u64; 4]", "[u8; 200]", "256 bytes aligned to 64", "[u128; 8]", "100 bytes aligned to 4", "[u8; 1000]", "[u8; 33]", "[u16; 2500]", "[u32; 40000]"];

/// Many pages, only used now and then.
pub const LARGE: u32 = STORAGES;
/// Create an allocator in the arena. init: 0 uninit in dirty memory, 1 zeroed, 2 new with given bytes.
pub fn make(sel: u32, init: u32, salt: u64) -> Made {
    storages!(sel, T => {
        let size = size_of::<Bump<T>>();
        let align = align_of::<Bump<T>>();
        let at = arena::place(size, 4096, align * draw((4096 / align) as u32) as usize);
        arena::dirt(at, size, salt ^ 0xABCD);
        let p = at as *mut Bump<T>;
        unsafe {
            match init {
                0 => p.write(Bump::uninit()),
                1 => p.write(Bump::zeroed()),
                _ => {
                    let mut t: T = std::mem::zeroed();
                    arena::dirt(&mut t as *mut T as usize, size_of::<T>(), salt);
                    p.write(Bump::new(t));
                }
            }
            let bump: &'static mut dyn AnyBump = &mut *p;
            let (base, len) = bump.storage();
            crate::tr!("Bump<{}> at arena offset {}, storage at {}..{}", NAMES[sel as usize], arena::offset(at), arena::offset(base), arena::offset(base + len));
            Made { bump, base, len, name: NAMES[sel as usize] }
        }
    })
}
/// Replace it by a new instance at the same place.
pub unsafe fn renew(sel: u32, at: usize) -> Made {
    storages!(sel, T => {
        let p = at as *mut Bump<T>;
        let storage: (usize, usize) = (*p).storage();
        // Keep the bytes of the storage, which is uninitialized for the new instance.
        p.write(Bump::uninit());
        let bump: &'static mut dyn AnyBump = &mut *p;
        Made { bump, base: storage.0, len: storage.1, name: NAMES[sel as usize] }
    })
}

/// A layout for a request, relative to what is left.
pub fn gen_layout(len: usize, left: usize) -> Layout {
    let align = match draw(8) { 0..=2 => 1usize, 3 => 2, 4 => 4, 5 => 8, 6 => 16, _ => pick(&[32usize, 64, 128, 256, 1024, 4096, 1 << 16, 1 << 30, 1 << 40, 1 << 62]) };
    let size = match draw(16) {
        0..=7 => range(1, 16),
        8 | 9 => range(1, (len / 3).max(1)),
        10 => left.max(1),
        11 => left + 1,
        12 => left.saturating_sub(range(0, 16)).max(1),
        13 => len.max(1),
        14 => range(1, len + 8),
        _ => pick(&[len + 1, 1 << 20, (isize::MAX as usize) - 4096, isize::MAX as usize, (1 << 62) + 1, 1 << 48]),
    };
    match Layout::from_size_align(size, align) { Ok(l) => l, Err(_) => Layout::from_size_align(size.min(1 << 20), align.min(4096)).unwrap() }
}
/// A recent level, an older one, or any: levels are also kept from before a reset, and then may not be reached yet.
pub fn some_level(len: usize, levels: &[Level]) -> Level {
    match draw(10) { 0..=6 => levels[levels.len() - 1], 7 | 8 => pick(levels), _ => level_of(range(0, len.min(8192))) }
}
pub fn gen_op(len: usize, left: usize, levels: &[Level], p_at: u32) -> Op {
    let at = if levels.is_empty() { None } else { Some(some_level(len, levels)) };
    if let Some(at) = at {
        if sim::chance(p_at, 16) {
            return match draw(6) {
                0 => Op::AllocAt(gen_layout(len, left), at), 1 => Op::GetLayoutAt(gen_layout(len, left), at),
                2 | 3 => Op::GetAt(draw(PODS as u32) as usize, at), 4 => Op::LeakAt(draw(PODS as u32) as usize, at), _ => Op::LeakBoxAt(draw(PODS as u32) as usize, at),
            };
        }
    }
    match draw(12) {
        0 | 1 => Op::Alloc(gen_layout(len, left)),
        2 => Op::GetLayout(gen_layout(len, left)),
        3 | 4 => Op::Get(draw(PODS as u32) as usize),
        5 => Op::Leak(draw(PODS as u32) as usize),
        6 => Op::LeakBox(draw(PODS as u32) as usize),
        7 => Op::Level,
        8 => Op::GlobalAlloc(gen_layout(len, left)),
        9 => Op::GlobalZeroed(gen_layout(len, left)),
        10 => Op::LocalAlloc(gen_layout(len, left)),
        _ => Op::LocalZeroed(gen_layout(len, left)),
    }
}
