#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[macro_use]
#[path = "../props/shared.rs"]
pub mod shared;
#[path = "../props/local.rs"]
pub mod local;

fn main() {
    runner::main(&[
        runner::Prop { id: "C20", run: local::c20 },
        runner::Prop { id: "C21", run: local::c21 },
    ])
}
