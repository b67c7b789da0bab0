#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[macro_use]
#[path = "../props/shared.rs"]
pub mod shared;
#[path = "../props/alloca.rs"]
pub mod alloca;

fn main() {
    runner::main(&[
        runner::Prop { id: "C14", run: alloca::c14 },
    ])
}
