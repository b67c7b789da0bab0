#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[path = "../props/unsizing.rs"]
pub mod unsizing;

fn main() {
    runner::main(&[
        runner::Prop { id: "C24", run: unsizing::c24 },
    ])
}
