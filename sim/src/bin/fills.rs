#![feature(sanitize, fn_traits, unboxed_closures, ptr_metadata)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
use vsim::*;
#[path = "../props/fills.rs"]
pub mod fills;

fn main() {
    runner::main(&[
        runner::Prop { id: "C22", run: fills::c22 },
        runner::Prop { id: "C23", run: fills::c23 },
    ])
}
