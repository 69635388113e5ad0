#![feature(rustc_private, internal_output_capture)]
#![allow(dead_code)]
extern crate either;
extern crate rustc_abi;
extern crate rustc_borrowck;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_middle;
extern crate rustc_mir_dataflow;
extern crate rustc_span;

mod checks;
mod driver;
mod interp;
mod real;
mod session;
mod spec;

fn main() {
  driver::main()
}
