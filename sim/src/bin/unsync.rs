#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[macro_use]
#[path = "../props/shared.rs"]
pub mod shared;
#[path = "../props/lin.rs"]
pub mod lin;
#[path = "../props/bump_shared.rs"]
pub mod bump_shared;
#[path = "../props/unsync_mem.rs"]
pub mod unsync_mem;
#[path = "../props/chain.rs"]
pub mod chain;

fn main() {
    runner::main(&[
        runner::Prop { id: "C09", run: unsync_mem::c09 },
        runner::Prop { id: "C10", run: unsync_mem::c10_entry },
        runner::Prop { id: "C11", run: chain::c11 },
    ])
}
