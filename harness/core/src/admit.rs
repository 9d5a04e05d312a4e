use crate::cons::{self, Val};
use crate::params::{constraints::Constraint, *};
use std::convert::TryInto;
use vj::{guard, json, s, Value};

/// Everything observable about admitting `v` as a parameter of one kind.
macro_rules! observe {
    ($P:ident, $T:ty, $v:expr, $disp:expr) => {{
        let v = <$T>::read($v);
        let mut o = match guard(|| match $P::new(v.clone()) {
            Ok(p) => {
                let mut o = json!({"res": "ok", "value": p.value().show(), "field": p.0.show(),
                    "same": p.clone().0.show()});
                let d: Box<dyn Fn(&$P<$T>) -> Value> = $disp;
                let x = d(&p);
                if !x.is_null() { o["disp"] = x }
                o["into"] = p.into_value().show();
                o
            },
            Err(e) => cons::outcome::<$T>(Err(e)),
        }) {
            Ok(o) => o,
            Err(m) => json!({"res": vj::panicked(&m)}),
        };
        o["unchecked"] = vj::gval(|| $P::new_unchecked(v.clone()).into_value().show());
        o["cons"] = vj::gval(|| {
            let cs = <$P<$T> as Param>::constraints();
            json!(cs.iter().all(|c| c.is_satisfied_by(&v)))
        });
        o
    }};
}
macro_rules! kinds {
    ($T:ty, $k:expr, $v:expr, $disp:expr) => {
        match $k {
            "loc" => observe!(Loc, $T, $v, $disp),
            "scale" => observe!(Scale, $T, $v, $disp),
            "rate" => observe!(Rate, $T, $v, $disp),
            "shape" => observe!(Shape, $T, $v, $disp),
            "dof" => observe!(DOF, $T, $v, $disp),
            "count" => observe!(Count, $T, $v, $disp),
            k => panic!("kind {}", k),
        }
    };
}


macro_rules! arrays {
    ($k:expr, $v:expr, $($n:literal),*) => {
        match $v.as_array().unwrap().len() {
            $($n => if $k == "conc" { conc::<$n>($v) } else { kinds!([f64; $n], $k, $v, Box::new(|_| Value::Null)) },)*
            n => panic!("length {}", n),
        }
    };
}

fn conc<const N: usize>(v: &Value) -> Value {
    let v = <[f64; N]>::read(v);
    let mut o = match guard(|| match Concentrations::new(v) {
        Ok(p) => json!({"res": "ok", "value": p.value().show(), "field": p.0.show(),
            "same": p.clone().0.show(), "into": p.into_value().show()}),
        Err(e) => cons::outcome(Err(e)),
    }) {
        Ok(o) => o,
        Err(m) => json!({"res": vj::panicked(&m)}),
    };
    o["unchecked"] = v.show();
    o["cons"] = vj::gval(|| json!(<Concentrations<N> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&v))));
    o
}

fn corr(v: &Value) -> Value {
    let v = f64::read(v);
    let mut o = match guard(|| match Corr::new(v) {
        Ok(p) => json!({"res": "ok", "value": p.value().show(), "field": p.0.show(),
            "same": p.clone().0.show(), "into": p.into_value().show()}),
        Err(e) => cons::outcome(Err(e)),
    }) {
        Ok(o) => o,
        Err(m) => json!({"res": vj::panicked(&m)}),
    };
    o["unchecked"] = v.show();
    o["cons"] = vj::gval(|| json!(Corr::constraints().iter().all(|c| c.is_satisfied_by(&v))));
    o
}

mod sets {
    pub mod ls { locscale_params! { Params { mu<f64>, sigma<f64> } } }
    pub mod sh { shape_params! { Params<f64> { a, b, c } } }
    pub mod mx {
        use crate::params::{Count, Loc, Rate, DOF};
        params! { Params { nu: DOF<f64>, mu: Loc<f64>, n: Count<usize>, lambda: Rate<f64> } }
    }
}

fn set(kind: &str, v: &Value) -> Value {
    let r = |i: usize| vj::f(&v[i]);
    let (new, raw): (Result<Result<Value, String>, String>, Value) = match kind {
        "locscale" => (
            guard(|| sets::ls::Params::new(r(0), r(1)).map(|p| json!([p.mu.0.show(), p.sigma.0.show()])).map_err(|e| e.to_string())),
            { let p = sets::ls::Params::new_unchecked(r(0), r(1)); json!([p.mu.0.show(), p.sigma.0.show()]) },
        ),
        "shapes" => (
            guard(|| sets::sh::Params::new(r(0), r(1), r(2)).map(|p| json!([p.a.0.show(), p.b.0.show(), p.c.0.show()])).map_err(|e| e.to_string())),
            { let p = sets::sh::Params::new_unchecked(r(0), r(1), r(2)); json!([p.a.0.show(), p.b.0.show(), p.c.0.show()]) },
        ),
        "mixed" => {
            let n: usize = s(&v[2]).parse().unwrap();
            (
                guard(|| sets::mx::Params::new(r(0), r(1), n, r(3))
                    .map(|p| json!([p.nu.0.show(), p.mu.0.show(), p.n.0.show(), p.lambda.0.show()])).map_err(|e| e.to_string())),
                { let p = sets::mx::Params::new_unchecked(r(0), r(1), n, r(3));
                  json!([p.nu.0.show(), p.mu.0.show(), p.n.0.show(), p.lambda.0.show()]) },
            )
        },
        k => panic!("set {}", k),
    };
    match new {
        Ok(Ok(got)) => json!({"res": "ok", "value": got, "unchecked": raw}),
        Ok(Err(text)) => json!({"res": "err", "text": text, "unchecked": raw,
            "names": v.as_array().unwrap().iter().map(|x| json!(text.contains(&format!("{:?}", vj::f(x))))).collect::<Vec<_>>()}),
        Err(m) => json!({"res": vj::panicked(&m)}),
    }
}

fn admit(e: &Value) -> Value {
    let k = s(&e["kind"]);
    let v = &e["v"];
    match s(&e["ty"]) {
        "f64" if k == "corr" => corr(v),
        "f64" => kinds!(f64, k, v, Box::new(|p| json!(p.to_string() == format!("{}", p.0) && **p == p.0 || p.0.is_nan()))),
        "i64" => kinds!(i64, k, v, Box::new(|p| json!(p.to_string() == format!("{}", p.0) && **p == p.0))),
        "usize" => kinds!(usize, k, v, Box::new(|p| json!(p.to_string() == format!("{}", p.0) && **p == p.0))),
        "vec" => kinds!(Vec<f64>, k, v, Box::new(|_| Value::Null)),
        "arr" => arrays!(k, v, 0, 1, 2, 3, 4, 5),
        t => panic!("type {}", t),
    }
}

pub fn run(input: &str, out: &mut vj::Out) {
    let mut go = |mut e: Value| {
        e["obs"] = if s(&e["ev"]) == "paramset" { set(s(&e["kind"]), &e["v"]) } else { admit(&e) };
        out.put(e)
    };
    for e in vj::lines(input) { go(e) }
    use rand::{Rng, SeedableRng};
    let mut g = rand::rngs::StdRng::seed_from_u64(vj::seed() ^ 0xad);
    let n = if vj::thorough() { 20000 } else { 2000 };
    for _ in 0..n {
        let mut real = || match g.gen_range(0..5) {
            0 => f64::from_bits(g.gen()),
            1 => g.gen_range(-1.0..1.0),
            2 => f64::from_bits(g.gen_range(0u64..20)) * if g.gen() { -1.0 } else { 1.0 },
            3 => (1.0 + f64::EPSILON * g.gen_range(-4i32..5) as f64) * if g.gen() { -1.0 } else { 1.0 },
            _ => 10f64.powf(g.gen_range(-300.0..300.0)),
        };
        let (a, mut xs) = (real(), vec![]);
        for _ in 0..5 { xs.push(real()) }
        let k = ["loc", "scale", "rate", "shape", "dof", "count", "corr"][g.gen_range(0..7)];
        go(json!({"ev": "admit", "kind": k, "ty": "f64", "v": vj::num(a)}));
        let k = ["loc", "scale", "rate", "shape", "dof", "count", "conc"][g.gen_range(0..7)];
        xs.truncate(g.gen_range(0..6));
        // mostly positive, so that a lone offender anywhere matters
        let at = g.gen_range(0..6);
        let xs: Vec<f64> = xs.iter().enumerate().map(|(i, x)| if i == at { *x } else { x.abs() }).collect();
        go(json!({"ev": "admit", "kind": k, "ty": "arr", "v": vj::nums(&xs)}));
        if k != "conc" { go(json!({"ev": "admit", "kind": k, "ty": "vec", "v": vj::nums(&xs)})); }
    }
}
