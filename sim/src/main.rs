#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
mod exec;
mod gen;
mod model;
mod props;
mod refine;
mod rng;
mod rt;
mod scen;
mod driver;

fn main() {
    driver::main();
}
