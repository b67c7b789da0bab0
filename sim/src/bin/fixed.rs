#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[path = "../props/fixed.rs"]
pub mod fixed;

fn main() {
    runner::main(&[
        runner::Prop { id: "C15", run: fixed::c15 },
        runner::Prop { id: "C16", run: fixed::c16 },
    ])
}
