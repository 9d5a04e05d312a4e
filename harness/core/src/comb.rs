use vj::{guard, json, Value};
use crate::utils;

fn int(g: impl FnOnce() -> u64) -> Value {
    match guard(g) { Ok(x) => json!(x.to_string()), Err(m) => vj::panicked(&m) }
}

pub fn run(_input: &str, out: &mut vj::Out) {
    use rand::{Rng, SeedableRng};
    let rows = if vj::thorough() { 130 } else { 80 };
    // Row by row: the walk the model makes down Pascal's triangle.
    for n in 0..rows as u64 {
        let row: Vec<Value> = (0..=n + 2).map(|k| int(|| utils::choose(n, k))).collect();
        let mut e = json!({"ev": "row", "n": n, "choose": row,
            "lf": vj::gnum(|| utils::log_factorial_stirling(n))});
        if n <= 20 {
            e["fact"] = int(|| utils::factorial(n));
            e["exact"] = int(|| utils::factorial_exact(n));
        }
        out.put(e);
    }
    let top = if vj::thorough() { 4000 } else { 600 };
    for n in rows as u64..top {
        out.put(json!({"ev": "lf", "n": n, "lf": vj::gnum(|| utils::log_factorial_stirling(n))}));
    }
    let mut g = rand::rngs::StdRng::seed_from_u64(vj::seed() ^ 0xc0);
    for _ in 0..(if vj::thorough() { 3000 } else { 400 }) {
        let n = 10f64.powf(g.gen_range(2.0..12.0)) as u64;
        out.put(json!({"ev": "lfbig", "n": n.to_string(), "lf": vj::gnum(|| utils::log_factorial_stirling(n))}));
        // far from the triangle's top, still representable
        let k = g.gen_range(0u64..7);
        let cap = match k { 0 | 1 => u64::MAX, 2 => 6_000_000_000, 3 => 4_000_000, 4 => 130_000, 5 => 16_000, _ => 4000 };
        let n = k + (g.gen::<f64>().powi(2) * (cap - k) as f64) as u64;
        for k in [k, n - k].iter() {
            out.put(json!({"ev": "big", "n": n.to_string(), "k": k.to_string(), "m": k.min(&(n - k)), "c": int(|| utils::choose(n, *k))}));
        }
    }
}
