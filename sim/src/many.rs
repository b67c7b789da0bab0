//! Elements by the hundred thousand, where those of `track` would be too slow: values which know
//! their number, and a table of which of them are alive.
use crate::sim::{fail, Global};

static TABLE: Global<(Vec<u8>, i64, u64)> = Global::new((Vec::new(), 0, 0));
pub fn reset() { *TABLE.get() = (Vec::new(), 0, 0); }
/// The next `n` values are numbered from here.
pub fn take(n: usize) -> u32 { let t = TABLE.get(); let at = t.0.len(); t.0.resize(at + n, 0); at as u32 }
fn born(n: u32) { TABLE.get().0[n as usize] += 1; }
fn dead(n: u32) { let t = TABLE.get(); match t.0.get_mut(n as usize) { Some(x) if *x == 1 => *x = 2, _ => t.2 += 1 } }

pub trait Elem: 'static {
    const NAME: &'static str;
    /// Whether drops are counted.
    const COUNTED: bool = false;
    /// Whether only their number is.
    const TALLIED: bool = false;
    fn make(n: u32) -> Self;
    fn is(&self, n: u32) -> bool;
}
fn mix(n: u32) -> u64 { (n as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x55 }
macro_rules! plain { ($($t:ty),*) => { $(impl Elem for $t {
    const NAME: &'static str = stringify!($t);
    fn make(n: u32) -> Self { (mix(n) >> 20) as $t }
    fn is(&self, n: u32) -> bool { *self == Self::make(n) }
})* } }
plain!(u8, u16, u64);
/// Neither any bytes nor a destructor.
impl Elem for () {
    const NAME: &'static str = "()";
    fn make(_: u32) -> Self {}
    fn is(&self, _: u32) -> bool { std::hint::black_box(true) }
}
/// Aligned, without a destructor.
#[repr(C, align(32))]
pub struct Plain(u32, u64);
impl Elem for Plain {
    const NAME: &'static str = "Plain";
    fn make(n: u32) -> Self { Plain(n, mix(n)) }
    fn is(&self, n: u32) -> bool { self.0 == n && self.1 == mix(n) && std::hint::black_box(self as *const _ as usize) % 32 == 0 }
}
/// Of four bytes and with a destructor.
pub struct Counted(u32);
impl Elem for Counted {
    const NAME: &'static str = "Counted";
    const COUNTED: bool = true;
    fn make(n: u32) -> Self { born(n); Counted(n) }
    fn is(&self, n: u32) -> bool { self.0 == n }
}
impl Drop for Counted { fn drop(&mut self) { dead(self.0) } }
/// Without any bytes but with a destructor.
pub struct Nothing(());
impl Elem for Nothing {
    const NAME: &'static str = "Nothing";
    const TALLIED: bool = true;
    fn make(_: u32) -> Self { TABLE.get().1 += 1; Nothing(()) }
    fn is(&self, _: u32) -> bool { true }
}
impl Drop for Nothing { fn drop(&mut self) { TABLE.get().1 -= 1; } }

/// So many bytes, aligned like `A`, that neither fits in small numbers.
#[repr(C)]
pub struct Lump<const N: usize, A> { _a: [A; 0], body: [u8; N], n: Counted }
#[repr(C, align(4096))]
pub struct Page;
impl<const N: usize, A: 'static> Elem for Lump<N, A> {
    const NAME: &'static str = if N > 1 << 16 { "Lump" } else { "Page" };
    const COUNTED: bool = true;
    fn make(n: u32) -> Self {
        let mut l = Lump { _a: [], body: [mix(n) as u8; N], n: Counted::make(n) };
        l.body[N / 2] = !(mix(n) >> 8) as u8;
        l
    }
    fn is(&self, n: u32) -> bool {
        let (b, m) = (mix(n) as u8, !(mix(n) >> 8) as u8);
        self.n.is(n) && std::hint::black_box(self as *const _ as usize) % std::mem::align_of::<Self>() == 0 && self.body[N / 2] == m && self.body[..N / 2].iter().all(|&x| x == b) && self.body[N / 2 + 1..].iter().all(|&x| x == b)
    }
}

/// All of these and no others are there, in this order.
pub fn same<V: Elem>(s: &[V], want: &[u32], what: &str) -> bool {
    if s.len() != want.len() { fail("wrong-length", format!("{what}: {} elements instead of {}", s.len(), want.len())); return false; }
    if s.as_ptr() as usize % std::mem::align_of::<V>() != 0 { fail("misaligned", format!("{what}: elements are not aligned")); return false; }
    for (i, (v, &n)) in s.iter().zip(want).enumerate() { if !v.is(n) { fail("wrong-value", format!("{what}: element {i} of {} is not number {n}", want.len())); return false; } }
    true
}
/// These and no others are alive, and none was dropped twice.
pub fn alive<'a, V: Elem>(want: impl Iterator<Item = &'a [u32]>, what: &str) -> bool {
    let t = TABLE.get();
    if t.2 > 0 { fail("double-drop", format!("{what}: {} drops of what is not alive", t.2)); return false; }
    if !V::COUNTED && !V::TALLIED { return true; }
    let mut n = 0i64;
    for part in want { for &i in part { n += 1; if V::COUNTED && t.0[i as usize] != 1 { fail("early-drop", format!("{what}: element number {i} was dropped although still owned")); return false; } } }
    let have = if V::COUNTED { t.0.iter().filter(|&&x| x == 1).count() as i64 } else { t.1 };
    if have > n { fail("missing-drop", format!("{what}: {} elements were not dropped", have - n)); return false; }
    if have < n { fail("early-drop", format!("{what}: {} elements were dropped although still owned", n - have)); return false; }
    true
}
/// Counts around those which do not fit in small numbers.
pub fn count(most: usize) -> usize {
    use crate::sim::{draw, pick, range};
    let n = match draw(4) { 0 => pick(&[255, 256, 257, 1023, 1024, 4095, 4096, 4097, 8192, 65_535, 65_536, 65_537]), 1 => range(0, 5000), _ => range(0, most) };
    n.min(most)
}
#[macro_export]
macro_rules! with_elem {
    ($sel:expr, $v:ident => $e:expr) => { match $sel % 5 {
        0 => { type $v = $crate::many::Counted; $e } 1 => { type $v = u8; $e } 2 => { type $v = u16; $e } 3 => { type $v = u64; $e } _ => { type $v = $crate::many::Nothing; $e }
    } };
}
/// Types without a destructor, of few bytes.
#[macro_export]
macro_rules! with_plain {
    ($sel:expr, $v:ident => $e:expr) => { match $sel % 5 {
        0 => { type $v = u8; $e } 1 => { type $v = u16; $e } 2 => { type $v = u64; $e } 3 => { type $v = (); $e } _ => { type $v = $crate::many::Plain; $e }
    } };
}
/// Types of which one value is large already, too.
#[macro_export]
macro_rules! with_lump {
    ($sel:expr, $v:ident => $e:expr) => { match $sel % 8 {
        0..=4 => $crate::with_elem!(draw(5), $v => $e), 5 | 6 => { type $v = $crate::many::Lump<70_000, u32>; $e } _ => { type $v = $crate::many::Lump<5000, $crate::many::Page>; $e }
    } };
}
