#![allow(unused_imports)]
include!("props.rs");
fn main() { symrt::raw::main(TABLE) }
