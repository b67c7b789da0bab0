#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[macro_use]
#[path = "../props/shared.rs"]
pub mod shared;
#[path = "../props/split.rs"]
pub mod split;

fn main() {
    runner::main(&[
        runner::Prop { id: "C19", run: split::c19 },
    ])
}
