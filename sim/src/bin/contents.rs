#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[path = "../props/contents.rs"]
pub mod contents;

fn main() {
    runner::main(&[
        runner::Prop { id: "C25", run: contents::c25 },
    ])
}
