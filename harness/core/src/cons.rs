use crate::params::constraints::*;
use std::convert::TryInto;
use std::fmt::{Debug, Display};
use vj::{guard, json, s, Value};

type Dyn<T> = Box<dyn Constraint<T>>;

/// Values the model names, in each of the types rstat constrains.
pub trait Val: Debug + Clone + PartialOrd + Send + Sync + 'static {
    fn read(v: &Value) -> Self;
    fn show(&self) -> Value;
    /// Atoms and element-wise terms specific to the type.
    fn atom(t: &Value) -> Dyn<Self>;
    /// The same, checked without a box around the element-wise combinator.
    fn observe_atom(t: &Value, v: Self) -> Value;
}
macro_rules! ordered_atoms {
    ($t:expr, $T:ty) => {{
        let t = $t;
        let c = || <$T>::read(&t["c"]);
        let b: Dyn<$T> = match s(&t["op"]) {
            "eq" => Box::new(Equal(c())),
            "lt" => Box::new(LessThan(c())),
            "le" => Box::new(LessThanOrEqual(c())),
            "gt" => Box::new(GreaterThan(c())),
            "ge" => Box::new(GreaterThanOrEqual(c())),
            "in" => Box::new(Interval { lb: <$T>::read(&t["lb"]), ub: <$T>::read(&t["ub"]) }),
            "neg" => Box::new(Negative),
            "nonpos" => Box::new(NonPositive),
            "pos" => Box::new(Positive),
            "nonneg" => Box::new(NonNegative),
            "all1" => Box::new(All(build::<$T>(&t["a"]))),
            o => panic!("atom {}", o),
        };
        b
    }};
}
macro_rules! observe_all {
    ($name:literal, $E:ty) => {
        fn observe_atom(t: &Value, v: Self) -> Value {
            if s(&t["op"]) == $name {
                match s(&t["a"]["op"]) {
                    "pos" => observe(All(Positive), v),
                    "nonneg" => observe(All(NonNegative), v),
                    _ => observe(All(build::<$E>(&t["a"])), v),
                }
            } else {
                observe(Self::atom(t), v)
            }
        }
    };
}
impl Val for f64 {
    fn read(v: &Value) -> f64 { vj::f(v) }
    fn show(&self) -> Value { vj::num(*self) }
    fn atom(t: &Value) -> Dyn<f64> { ordered_atoms!(t, f64) }
    observe_all!("all1", f64);
}
macro_rules! int_val {
    ($T:ty) => {
        impl Val for $T {
            fn read(v: &Value) -> $T { s(v).parse().unwrap() }
            fn show(&self) -> Value { json!(self.to_string()) }
            fn atom(t: &Value) -> Dyn<$T> {
                if s(&t["op"]) == "natural" { Box::new(Natural) } else { ordered_atoms!(t, $T) }
            }
            observe_all!("all1", $T);
        }
    };
}
int_val!(i64);
int_val!(usize);
impl Val for Vec<f64> {
    fn read(v: &Value) -> Self { vj::fs(v) }
    fn show(&self) -> Value { vj::nums(self) }
    fn atom(t: &Value) -> Dyn<Self> {
        match s(&t["op"]) {
            "all" => Box::new(All(build::<f64>(&t["a"]))),
            "empty" => Box::new(Empty),
            o => panic!("atom {}", o),
        }
    }
    observe_all!("all", f64);
}
impl<const N: usize> Val for [f64; N] {
    fn read(v: &Value) -> Self { vj::fs(v).try_into().unwrap() }
    fn show(&self) -> Value { vj::nums(self) }
    fn atom(t: &Value) -> Dyn<Self> {
        match s(&t["op"]) {
            "all" => Box::new(All(build::<f64>(&t["a"]))),
            "empty" => Box::new(Empty),
            o => panic!("atom {}", o),
        }
    }
    observe_all!("all", f64);
}

pub fn build<T: Val>(t: &Value) -> Dyn<T> {
    match s(&t["op"]) {
        "not" => Box::new(Not(build::<T>(&t["a"]))),
        "and" => Box::new(And((build::<T>(&t["a"]), build::<T>(&t["b"])))),
        "or" => Box::new(Or((build::<T>(&t["a"]), build::<T>(&t["b"])))),
        _ => T::atom(t),
    }
}

/// `check` is a by-value method each combinator may override, so the outer two
/// levels of a term are built statically and only what is below is boxed.
pub fn observe_term<T: Val>(t: &Value, v: T) -> Value {
    let (a, b) = (&t["a"], &t["b"]);
    let op = |v: &Value| v.get("op").map(|o| s(o).to_string()).unwrap_or_default();
    let bin = |v: &Value| (build::<T>(&v["a"]), build::<T>(&v["b"]));
    let bx = |v: &Value| build::<T>(v);
    match (op(t).as_str(), op(a).as_str(), op(b).as_str()) {
        ("and", "and", "and") => observe(And((And(bin(a)), And(bin(b)))), v),
        ("and", "and", "or") => observe(And((And(bin(a)), Or(bin(b)))), v),
        ("or", "or", "and") => observe(Or((Or(bin(a)), And(bin(b)))), v),
        ("or", "or", "or") => observe(Or((Or(bin(a)), Or(bin(b)))), v),
        ("and", "and", _) => observe(And((And(bin(a)), bx(b))), v),
        ("and", "or", _) => observe(And((Or(bin(a)), bx(b))), v),
        ("or", "and", _) => observe(Or((And(bin(a)), bx(b))), v),
        ("or", "or", _) => observe(Or((Or(bin(a)), bx(b))), v),
        ("and", _, "and") => observe(And((bx(a), And(bin(b)))), v),
        ("and", _, "or") => observe(And((bx(a), Or(bin(b)))), v),
        ("or", _, "and") => observe(Or((bx(a), And(bin(b)))), v),
        ("or", _, "or") => observe(Or((bx(a), Or(bin(b)))), v),
        ("and", "not", _) => observe(And((Not(bx(&a["a"])), bx(b))), v),
        ("or", "not", _) => observe(Or((Not(bx(&a["a"])), bx(b))), v),
        ("and", _, _) => observe(And(bin(t)), v),
        ("or", _, _) => observe(Or(bin(t)), v),
        ("not", "and", _) => observe(Not(And(bin(a))), v),
        ("not", "or", _) => observe(Not(Or(bin(a))), v),
        ("not", "not", _) => observe(Not(Not(bx(&a["a"]))), v),
        ("not", _, _) => observe(Not(bx(a)), v),
        _ => T::observe_atom(t, v),
    }
}

/// One `is_satisfied_by` and one `check` of `c` on `v`.
fn observe<T: Val, C: Constraint<T> + 'static>(c: C, v: T) -> Value {
    let shown = v.show();
    let sat = match guard(|| c.is_satisfied_by(&v)) {
        Ok(b) => json!(b),
        Err(m) => vj::panicked(&m),
    };
    let mut o = match guard(move || outcome(c.check(v))) {
        Ok(j) => j,
        Err(m) => json!({"res": vj::panicked(&m)}),
    };
    o["v"] = shown;
    o["sat"] = sat;
    o
}

pub fn outcome<T: Val>(r: std::result::Result<T, UnsatisfiedConstraintError<T>>) -> Value {
    match r {
        Ok(v) => json!({"res": "ok", "back": v.show()}),
        Err(e) => {
            let says = {
                let text = e.to_string();
                text.contains(&e.constraint.to_string()) && text.contains(&format!("{:?}", e.value))
            };
            let culprit = e.constraint.is_satisfied_by(&e.value);
            let back = e.value.show();
            // naming the target changes nothing else
            let e = e.with_target("theta");
            let text = e.to_string();
            let named = e.target.as_deref() == Some("theta")
                && text.contains("theta")
                && format!("{:?}", e).contains("theta")
                && text.contains(&e.constraint.to_string())
                && e.value.show() == back
                && e.constraint.is_satisfied_by(&e.value) == culprit;
            json!({"res": "err", "back": back, "culprit": culprit, "says": says, "named": named})
        },
    }
}

fn term<T: Val>(t: &Value, vs: &[Value]) -> Value {
    Value::Array(vs.iter().map(|v| observe_term(t, T::read(v))).collect())
}

macro_rules! by_len {
    ($n:expr, $f:ident($($a:expr),*)) => {
        match $n {
            0 => $f::<[f64; 0]>($($a),*),
            1 => $f::<[f64; 1]>($($a),*),
            2 => $f::<[f64; 2]>($($a),*),
            3 => $f::<[f64; 3]>($($a),*),
            4 => $f::<[f64; 4]>($($a),*),
            5 => $f::<[f64; 5]>($($a),*),
            n => panic!("length {}", n),
        }
    };
}

pub fn one<T: Val>(t: &Value, v: &Value) -> Value { observe_term(t, T::read(v)) }

pub fn run(input: &str, out: &mut vj::Out) {
    for mut e in vj::lines(input) {
        let t = e["term"].clone();
        let vs = e["vs"].as_array().unwrap().clone();
        let obs = match s(&e["ty"]) {
            "f64" => term::<f64>(&t, &vs),
            "i64" => term::<i64>(&t, &vs),
            "usize" => term::<usize>(&t, &vs),
            "vec" => term::<Vec<f64>>(&t, &vs),
            "arr" => Value::Array(
                vs.iter().map(|v| by_len!(v.as_array().unwrap().len(), one(&t, v))).collect(),
            ),
            x => panic!("type {}", x),
        };
        out.put(json!({"ev": "term", "ty": e["ty"], "term": t, "obs": obs}));
    }
    random(out);
    squares(out);
    macros(out);
}

/// Seeded terms and values beyond the enumerated grid.
fn random(out: &mut vj::Out) {
    use rand::{Rng, SeedableRng};
    let mut g = rand::rngs::StdRng::seed_from_u64(vj::seed());
    let n = if vj::thorough() { 6000 } else { 600 };
    fn real(g: &mut rand::rngs::StdRng) -> f64 {
        match g.gen_range(0..4) {
            0 => f64::from_bits(g.gen()),
            1 => g.gen_range(-4i32..5) as f64 / 2.0,
            2 => g.gen_range(-1.0..1.0),
            _ => 10f64.powf(g.gen_range(-300.0..300.0)) * if g.gen() { 1.0 } else { -1.0 },
        }
    }
    fn gen(g: &mut rand::rngs::StdRng, d: u32) -> Value {
        match if d == 0 { g.gen_range(4..6) } else { g.gen_range(0..7) } {
            0 => json!({"op": "not", "a": gen(g, d - 1)}),
            1 => json!({"op": "and", "a": gen(g, d - 1), "b": gen(g, d - 1)}),
            2 => json!({"op": "or", "a": gen(g, d - 1), "b": gen(g, d - 1)}),
            3 => json!({"op": "all1", "a": gen(g, d - 1)}),
            4 => json!({"op": (["neg", "nonpos", "pos", "nonneg"])[g.gen_range(0..4)]}),
            5 => json!({"op": (["eq", "lt", "le", "gt", "ge"])[g.gen_range(0..5)], "c": vj::num(real(g))}),
            _ => {
                let (a, b) = (real(g), real(g));
                json!({"op": "in", "lb": vj::num(a.min(b)), "ub": vj::num(a.max(b))})
            },
        }
    }
    for _ in 0..n {
        let t = gen(&mut g, 4);
        // values near the constants of the term as well as anywhere
        let mut vs: Vec<Value> = (0..6).map(|_| vj::num(real(&mut g))).collect();
        fn consts(t: &Value, out: &mut Vec<Value>) {
            for k in ["c", "lb", "ub"].iter() {
                if let Some(c) = t.get(*k) { out.push(c.clone()) }
            }
            for k in ["a", "b"].iter() {
                if let Some(c) = t.get(*k) { consts(c, out) }
            }
        }
        consts(&t, &mut vs);
        vs.truncate(12);
        let obs = term::<f64>(&t, &vs);
        out.put(json!({"ev": "term", "ty": "f64", "term": t, "obs": obs}));
    }
}

fn squares(out: &mut vj::Out) {
    macro_rules! sq {
        ($($n:literal),*) => {$({
            let m = [[0.5f64; $n]; $n];
            let sat = Constraint::<[[f64; $n]; $n]>::is_satisfied_by(&Square, &m);
            let pos = Constraint::<[[f64; $n]; $n]>::is_satisfied_by(&All(All(Positive)), &m);
            let mut m2 = m;
            m2[$n - 1][0] = -1.0;
            let bad = Constraint::<[[f64; $n]; $n]>::is_satisfied_by(&All(All(Positive)), &m2);
            out.put(json!({"ev": "square", "n": $n, "sat": sat, "pos": pos, "bad": bad}));
        })*}
    }
    sq!(1, 2, 3, 4);
}

/// The assertion macro: each comparison form, on integers and reals.
fn macros(out: &mut vj::Out) {
    macro_rules! forms {
        ($T:ty, $($c:tt),*) => {$(
            for x in [-3i64, -1, 0, 1, 2, 7].iter() {
                let x = *x as $T;
                let mut put = |op: &str, r: std::result::Result<$T, UnsatisfiedConstraintError<$T>>| {
                    let mut o = outcome(r);
                    o["v"] = x.show();
                    let sat = s(&o["res"]) == "ok";
                    o["sat"] = json!(sat);
                    let t = if op == "pos" { json!({"op": op}) } else { json!({"op": op, "c": Val::show(&($c as $T))}) };
                    out.put(json!({"ev": "term", "ty": stringify!($T), "term": t, "obs": [o]}));
                };
                put("pos", assert_constraint!(x+));
                put("eq", assert_constraint!(x == $c));
                put("lt", assert_constraint!(x < $c));
                put("le", assert_constraint!(x <= $c));
                put("gt", assert_constraint!(x > $c));
                put("ge", assert_constraint!(x >= $c));
            }
        )*}
    }
    forms!(i64, 0, 1, 2);
    forms!(f64, 0.0, 1.0, 2.0);
}
