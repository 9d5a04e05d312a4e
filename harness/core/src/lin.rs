use crate::normal::linalg::*;
use std::convert::TryInto;
use vj::{guard, json, Value};

fn read<const N: usize>(v: &Value) -> [[f64; N]; N] {
    let rows: Vec<[f64; N]> = v.as_array().unwrap().iter().map(|r| vj::fs(r).try_into().unwrap()).collect();
    rows.try_into().unwrap()
}

fn obs<const N: usize>(l: [[f64; N]; N], v: [f64; N], m: [[f64; N]; N]) -> Value {
    // A = L L^T, formed here (exactly, when the entries are small integers).
    let mut a = [[0.0; N]; N];
    for i in 0..N { for j in 0..N { for k in 0..N { a[i][j] += l[i][k] * l[j][k]; } } }
    let r = |x: Result<[[f64; N]; N], String>| match x { Ok(m) => vj::mat(&m), Err(m) => vj::panicked(&m) };
    json!({
        "ev": "lin", "n": N, "l": vj::mat(&l), "a": vj::mat(&a), "m": vj::mat(&m), "v": vj::nums(&v),
        "chol": r(guard(|| unsafe { cholesky(a) })),
        "inv": r(guard(|| unsafe { inverse_lt(l) })),
        "sq": r(guard(|| unsafe { mm_square(&m) })),
        "prec": r(guard(|| unsafe { mm_square(&inverse_lt(cholesky(a))) })),
        "mv": match guard(|| unsafe { mv_mult(&l, v) }) { Ok(x) => vj::nums(&x), Err(m) => vj::panicked(&m) },
    })
}

fn go<const N: usize>(e: &Value) -> Value {
    obs(read::<N>(&e["l"]), vj::fs(&e["v"]).try_into().unwrap(), read::<N>(&e["m"]))
}

fn random<const N: usize>(g: &mut rand::rngs::StdRng) -> Value {
    use rand::Rng;
    let int = g.gen::<bool>();
    let mut l = [[0.0; N]; N];
    let mut m = [[0.0; N]; N];
    let mut v = [0.0; N];
    for i in 0..N {
        for j in 0..N {
            let x = if int { g.gen_range(-3i32..4) as f64 } else { g.gen_range(-2.0..2.0) };
            if j < i { l[i][j] = x; }
            if j == i { l[i][j] = if int { g.gen_range(1i32..4) as f64 } else { g.gen_range(0.4..3.0) }; }
            m[i][j] = if int { g.gen_range(-3i32..4) as f64 } else { g.gen_range(-2.0..2.0) };
        }
        v[i] = if int { g.gen_range(-3i32..4) as f64 } else { g.gen_range(-2.0..2.0) };
    }
    obs(l, v, m)
}

pub fn run(input: &str, out: &mut vj::Out) {
    for e in vj::lines(input) {
        out.put(match vj::u(&e["n"]) {
            1 => go::<1>(&e), 2 => go::<2>(&e), 3 => go::<3>(&e), 4 => go::<4>(&e), n => panic!("n {}", n),
        });
    }
    use rand::SeedableRng;
    let mut g = rand::rngs::StdRng::seed_from_u64(vj::seed() ^ 0x11);
    for _ in 0..(if vj::thorough() { 400 } else { 60 }) {
        out.put(random::<1>(&mut g));
        out.put(random::<2>(&mut g));
        out.put(random::<3>(&mut g));
        out.put(random::<4>(&mut g));
        out.put(random::<5>(&mut g));
        out.put(random::<6>(&mut g));
        out.put(random::<8>(&mut g));
    }
}
