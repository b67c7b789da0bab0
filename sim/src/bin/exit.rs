#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[path = "../props/exit.rs"]
pub mod exit;

fn main() {
    runner::main(&[
        runner::Prop { id: "C12", run: exit::c12 },
        runner::Prop { id: "C13", run: exit::c13 },
    ])
}
