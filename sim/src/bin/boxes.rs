#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[path = "../props/boxes.rs"]
pub mod boxes;

fn main() {
    runner::main(&[
        runner::Prop { id: "C18", run: boxes::c18 },
    ])
}
