#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[path = "../props/rcs.rs"]
pub mod rcs;

fn main() {
    runner::main(&[
        runner::Prop { id: "C17", run: rcs::c17 },
    ])
}
