#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[macro_use]
#[path = "../props/shared.rs"]
pub mod shared;
#[path = "../props/lin.rs"]
pub mod lin;
#[path = "../props/bump_shared.rs"]
pub mod bump_shared;
#[path = "../props/unsync_mem.rs"]
pub mod unsync_mem;

fn main() {
    runner::main(&[
        runner::Prop { id: "C01", run: bump_shared::c01 },
        runner::Prop { id: "C02", run: bump_shared::c02 },
        runner::Prop { id: "C03", run: bump_shared::c03 },
        runner::Prop { id: "C04", run: bump_shared::c04 },
        runner::Prop { id: "C05", run: bump_shared::c05 },
        runner::Prop { id: "C06", run: bump_shared::c06 },
        runner::Prop { id: "C08", run: bump_shared::c08 },
    ])
}
