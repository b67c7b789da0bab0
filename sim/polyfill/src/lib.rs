//! The atomics of targets where a weak compare-exchange may fail for no reason.
//!
//! The code under test takes its atomic type from `atomic-polyfill` if its feature `polyfill` is on. Here this is the
//! usual type, except that the simulator decides if a weak compare-exchange fails although the value is the expected
//! one. (The compiler's instrumentation does not tell weak from strong ones, so this needs a seam of its own.)
#![no_std]
use core::ops::{Deref, DerefMut};
use core::sync::atomic::AtomicUsize as Real;
pub use core::sync::atomic::*;

extern "C" { fn vsim_spurious() -> i32; }

#[derive(Debug, Default)]
#[repr(transparent)]
pub struct AtomicUsize(Real);

impl AtomicUsize {
    pub const fn new(v: usize) -> Self { AtomicUsize(Real::new(v)) }
    pub const fn into_inner(self) -> usize { self.0.into_inner() }
    pub fn compare_exchange_weak(&self, current: usize, new: usize, success: Ordering, failure: Ordering) -> Result<usize, usize> {
        if unsafe { vsim_spurious() } != 0 { return Err(self.0.load(failure)); }
        self.0.compare_exchange(current, new, success, failure)
    }
    pub fn fetch_update(&self, set: Ordering, fetch: Ordering, mut f: impl FnMut(usize) -> Option<usize>) -> Result<usize, usize> {
        let mut prev = self.0.load(fetch);
        while let Some(next) = f(prev) {
            match self.compare_exchange_weak(prev, next, set, fetch) { Ok(v) => return Ok(v), Err(v) => prev = v }
        }
        Err(prev)
    }
}
impl Deref for AtomicUsize { type Target = Real; fn deref(&self) -> &Real { &self.0 } }
impl DerefMut for AtomicUsize { fn deref_mut(&mut self) -> &mut Real { &mut self.0 } }
impl From<usize> for AtomicUsize { fn from(v: usize) -> Self { Self::new(v) } }
