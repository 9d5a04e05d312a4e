//! Executor for the whole crate. `full MODE IN OUT`: performs the calls described
//! by the model-generated lines of IN (plus seeded random ones) on the
//! implementation and records each with its outcome in OUT.
#![allow(dead_code, non_snake_case)]
mod conv;
mod fit;
mod laws;
mod mix;
mod mv;
mod prob;
mod sampling;
mod serial;
mod simplex;


fn main() {
    let a: Vec<String> = std::env::args().collect();
    vj::quiet_panics();
    let mut out = vj::Out::create(&a[3]);
    match a[1].as_str() {
        "conv" => conv::run(&a[2], &mut out),
        "fit" => fit::run(&a[2], &mut out),
        "mix" => mix::run(&a[2], &mut out),
        "prob" => prob::run(&a[2], &mut out),
        "sample" => sampling::run(&a[2], &mut out),
        "serial" => serial::run(&a[2], &mut out),
        "simplex" => simplex::run(&a[2], &mut out),
        m if m.starts_with("mv:") => mv::run(&m[3..], &a[2], &mut out),
        m if m.starts_with("laws:") => laws::run(&m[5..], &a[2], &mut out),
        m => panic!("mode {}", m),
    }
    eprintln!("{} events", out.1);
    out.done();
}
