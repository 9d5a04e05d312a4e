//! Chains of probability arithmetic, each step through every by-value and
//! by-reference form of the operator.
use rand::{Rng, SeedableRng};
use rstat::{params::Param, Probability};
use std::convert::TryFrom;
use vj::{guard, json, Value};

/// 18 significant digits: a subnormal keeps its value too.
fn n(x: f64) -> Value {
    Value::String(if x == 0.0 || !x.is_finite() { format!("{:?}", x) } else { format!("{:.17e}", x) })
}
fn gn(g: impl FnOnce() -> f64) -> Value { vj::gval(|| n(g())) }
type R = Result<Probability, rstat::InvalidProbabilityError>;
trait Outcome { fn out(self) -> Value; }
impl Outcome for R {
    fn out(self) -> Value { match self { Ok(p) => json!({"r": "ok", "v": n(p.unwrap())}), Err(_) => json!({"r": "err"}) } }
}
impl Outcome for Probability { fn out(self) -> Value { json!({"r": "ok", "v": n(self.unwrap())}) } }
fn go<T: Outcome>(g: impl FnOnce() -> T) -> Value {
    match guard(|| g().out()) { Ok(v) => v, Err(m) => json!({"r": "panic", "v": vj::panicked(&m)}) }
}

macro_rules! forms {
    ($p:expr, $q:expr, $op:tt) => {{
        let (p, q) = ($p, $q);
        let (x, y): (f64, f64) = (p.unwrap(), q.unwrap());
        (vec![go(|| p $op q), go(|| p $op &q), go(|| &p $op q), go(|| &p $op &q)],
         vec![gn(|| x $op q), gn(|| x $op &q), gn(|| &x $op q), gn(|| &x $op &q),
              gn(|| p $op y), gn(|| p $op &y), gn(|| &p $op y), gn(|| &p $op &y)])
    }};
}
macro_rules! real_forms {
    ($p:expr, $y:expr, $op:tt) => {{
        let (p, y): (Probability, f64) = ($p, $y);
        (vec![gn(|| y $op p), gn(|| y $op &p), gn(|| &y $op p), gn(|| &y $op &p)],
         vec![gn(|| p $op y), gn(|| p $op &y), gn(|| &p $op y), gn(|| &p $op &y)])
    }};
}
fn apply(op: &str, p: Probability, q: Probability) -> (Vec<Value>, Vec<Value>) {
    match op {
        "add" => forms!(p, q, +), "sub" => forms!(p, q, -), "mul" => forms!(p, q, *),
        "div" => forms!(p, q, /), "rem" => forms!(p, q, %), _ => panic!("op {}", op),
    }
}
fn apply_real(op: &str, p: Probability, y: f64) -> (Vec<Value>, Vec<Value>) {
    match op {
        "add" => real_forms!(p, y, +), "sub" => real_forms!(p, y, -), "mul" => real_forms!(p, y, *),
        "div" => real_forms!(p, y, /), "rem" => real_forms!(p, y, %), _ => panic!("op {}", op),
    }
}

fn chain(start: f64, steps: &[(String, f64)], out: &mut vj::Out) {
    let made = guard(|| Probability::new(start)).map(|r| r.ok());
    let tried = guard(|| Probability::try_from(start)).map(|r| r.ok());
    let show = |r: &Result<Option<Probability>, String>| match r {
        Ok(Some(p)) => json!({"r": "ok", "v": n(p.unwrap())}),
        Ok(None) => json!({"r": "err"}),
        Err(m) => json!({"r": "panic", "v": vj::panicked(m)}),
    };
    let un = Probability::new_unchecked(start);
    out.put(json!({"ev": "begin", "v": n(start), "new": show(&made), "try": show(&tried),
        "unchecked": n(un.unwrap()), "valid": un.is_valid(),
        "cons": Probability::constraints().iter().all(|c| c.is_satisfied_by(&start)),
        "zero": n(Probability::zero().unwrap()), "half": n(Probability::half().unwrap()),
        "one": n(Probability::one().unwrap()), "default": n(Probability::default().unwrap())}));
    let mut cur = match made { Ok(Some(p)) => p, _ => return };
    for (op, q) in steps {
        let q = Probability::new_unchecked(*q);
        let p = cur;
        let (pp, mixed, next) = if op == "not" {
            let f = vec![go(|| !p), go(|| !&p)];
            (f, vec![], Some((!p).unwrap()))
        } else {
            let (pp, mixed) = apply(op, p, q);
            let next = pp[0]["v"].as_str().and_then(|s| s.parse().ok());
            (pp, mixed, next)
        };
        out.put(json!({"ev": "step", "op": op, "p": n(p.unwrap()), "q": n(q.unwrap()), "pp": pp, "mixed": mixed}));
        match next { Some(x) => cur = Probability::new_unchecked(x), None => return }
    }
}

fn fun(x: f64, others: &[f64], out: &mut vj::Out) {
    let p = Probability::new_unchecked(x);
    let back: f64 = p.into();
    let pows = [0.0, 0.5, 1.0, 2.5, -0.5, -1.0, 10.0, 17.25];
    let ints = [0, 1, 2, 3, 7, -1, -2, 12];
    out.put(json!({"ev": "fun", "p": n(x), "ln": gn(|| p.ln()), "log2": gn(|| p.log2()), "unwrap": n(p.unwrap()),
        "into": n(back), "value": n(*p.value()), "into_value": n(p.into_value()), "disp": format!("{}", p),
        "clone": n(p.clone().unwrap()), "valid": p.is_valid(),
        "powf": pows.iter().map(|e| json!([n(*e), gn(|| p.powf(*e))])).collect::<Vec<_>>(),
        "powi": ints.iter().map(|e| json!([e.to_string(), gn(|| p.powi(*e))])).collect::<Vec<_>>()}));
    for &y in others {
        let q = Probability::new_unchecked(y);
        out.put(json!({"ev": "cmp", "p": n(x), "q": n(y), "eq": p == q, "ne": p != q, "lt": p < q, "le": p <= q,
            "gt": p > q, "ge": p >= q, "eqf": p == y, "nef": p != y,
            "pc": match p.partial_cmp(&q) { Some(o) => format!("{:?}", o), None => "None".into() }}));
    }
}

pub fn run(input: &str, out: &mut vj::Out) {
    let mut vals = vec![];
    for e in vj::lines(input) {
        match vj::s(&e["ev"]) {
            "chain" => {
                let steps: Vec<(String, f64)> = e["steps"].as_array().unwrap().iter()
                    .map(|s| (vj::s(&s["op"]).to_string(), vj::f(&s["q"]))).collect();
                chain(vj::f(&e["v"]), &steps, out);
            },
            "grid" => vals = vj::fs(&e["vs"]),
            "real" => {
                let (p, y) = (vj::f(&e["p"]), vj::f(&e["y"]));
                let (fp, pf) = apply_real(vj::s(&e["op"]), Probability::new_unchecked(p), y);
                out.put(json!({"ev": "real", "op": e["op"], "p": n(p), "y": n(y), "fp": fp, "pf": pf}));
            },
            k => panic!("{}", k),
        }
    }
    let ok: Vec<f64> = vals.iter().cloned().filter(|x| *x >= 0.0 && *x <= 1.0).collect();
    for &x in &ok { fun(x, &vals, out); }
    let mut g = rand::rngs::StdRng::seed_from_u64(vj::seed() ^ 0x50);
    let k = if vj::thorough() { 4000 } else { 400 };
    let draw = |g: &mut rand::rngs::StdRng| -> f64 {
        match g.gen_range(0..4) {
            0 => g.gen::<f64>(),
            1 => ok[g.gen_range(0..ok.len())],
            2 => 10f64.powf(g.gen_range(-300.0..0.0)),
            _ => 1.0 - 10f64.powf(g.gen_range(-17.0..0.0)),
        }
    };
    for _ in 0..k {
        let start = draw(&mut g);
        let steps: Vec<(String, f64)> = (0..g.gen_range(1..8)).map(|_| {
            let op = ["add", "sub", "mul", "div", "rem", "not"][g.gen_range(0..6)];
            (op.to_string(), draw(&mut g))
        }).collect();
        chain(start, &steps, out);
        let (p, y) = (draw(&mut g), g.gen_range(-3.0..3.0));
        let op = ["add", "sub", "mul", "div", "rem"][g.gen_range(0..5)];
        let (fp, pf) = apply_real(op, Probability::new_unchecked(p), y);
        out.put(json!({"ev": "real", "op": op, "p": n(p), "y": n(y), "fp": fp, "pf": pf}));
        fun(draw(&mut g), &[draw(&mut g)], out);
        let xs: Vec<Probability> = (0..g.gen_range(0..9)).map(|_| Probability::new_unchecked(draw(&mut g))).collect();
        let refs: f64 = xs.iter().sum();
        let owned: f64 = xs.iter().cloned().sum();
        out.put(json!({"ev": "sum", "xs": xs.iter().map(|p| n(p.unwrap())).collect::<Vec<_>>(), "refs": n(refs), "owned": n(owned)}));
    }
}
