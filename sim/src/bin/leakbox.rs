#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[path = "../props/leakbox.rs"]
pub mod leakbox;

fn main() {
    runner::main(&[
        runner::Prop { id: "C07", run: leakbox::c07 },
    ])
}
