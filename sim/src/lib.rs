#![feature(sanitize)]
#![sanitize(thread = "off")]
#![allow(dead_code)]
//! Deterministic simulation of the crates of the static-alloc repository. See ../../DESIGN.md.
#[macro_use]
pub mod sim;
#[macro_use]
pub mod track;
pub mod arena;
pub mod heap;
pub mod many;
pub mod runner;
