//! Executor for the stand-alone modules. `core MODE IN OUT`: performs the calls
//! described by the model-generated lines of IN (plus seeded random ones) on
//! the implementation and records each with its outcome in OUT.
#![allow(dead_code, unused, non_snake_case)]

extern crate failure;
extern crate num;
extern crate rand;
extern crate rand_distr;
extern crate special_fun;

#[path = "/repo/src/consts.rs"]
mod consts;
#[path = "/repo/src/utils.rs"]
mod utils;

#[macro_use]
#[path = "/repo/src/params/mod.rs"]
pub mod params;

#[path = "/repo/src/normal"]
pub mod normal {
    #[path = "linalg.rs"]
    pub(crate) mod linalg;
}

mod admit;
mod comb;
mod cons;
mod lin;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    vj::quiet_panics();
    let mut out = vj::Out::create(&a[3]);
    match a[1].as_str() {
        "cons" => cons::run(&a[2], &mut out),
        "admit" => admit::run(&a[2], &mut out),
        "comb" => comb::run(&a[2], &mut out),
        "lin" => lin::run(&a[2], &mut out),
        m => panic!("mode {}", m),
    }
    eprintln!("{} events", out.1);
    out.done();
}
