//! Distributions over vectors.
use crate::laws::{shown, Has, Pt};
use crate::sampling::{history, summary};
use rand::{rngs::StdRng, RngCore, SeedableRng};
use rstat::distance::Mahalanobis;
use rstat::multivariate::{dirichlet::Dirichlet, lognormal::LogNormal, multinomial::{self, Multinomial}};
use rstat::normal::{BvNormal, Covariance, DiagonalNormal, IsotropicNormal, Loc, MvNormal, PairedNormal, Params, UvNormal};
use rstat::params::Param;
use rstat::statistics::{Modes, MvMoments, ShannonEntropy, UvMoments};
use rstat::univariate as uv;
use rstat::{ContinuousDistribution, DiscreteDistribution, Distribution, Multivariate, Sample};
use spaces::{OrderedSpace, Space};
use vj::{gnum, guard, gval, json, mat, num, nums, panicked, Value};

type Pars<D> = <D as Distribution>::Params;
type A = [f64];
type M = [Vec<f64>];
fn arr<const N: usize>(v: &A) -> [f64; N] { let mut a = [0.0; N]; a.copy_from_slice(v); a }
fn sq<const N: usize>(m: &M) -> [[f64; N]; N] { let mut s = [[0.0; N]; N]; for i in 0..N { s[i] = arr(&m[i]); } s }
fn show(v: Value) -> Value { v }
fn none() -> Value { json!("-") }
fn rows(m: Vec<Vec<f64>>) -> Value { Value::Array(m.iter().map(|r| nums(r)).collect()) }

/// What can be asked of every one of them.
trait Vd: Distribution + Clone {
    /// Ok: made; Err(Some): refused; Err(None): there is no such constructor
    fn make(fam: &str, a: &A, m: &M) -> Result<Self, ()>;
    fn raw(fam: &str, a: &A, m: &M) -> Self;
    fn default() -> Option<Self> { None }
    fn par(q: &Pars<Self>) -> (Value, Value);
    fn to(x: &A) -> Sample<Self>;
    fn of(x: &Sample<Self>) -> Vec<f64>;
    fn den(&self, x: &Sample<Self>) -> (Value, Value);
    fn mom(&self) -> Value;
    fn bounds(&self) -> (Vec<Value>, Vec<Value>);
    fn inside(&self, x: &Sample<Self>) -> bool;
    fn dist(&self, _: &Sample<Self>) -> (Value, Value) { (none(), none()) }
    /// a density (mass) a univariate family assigns to the same point
    fn uni(&self, _: &Sample<Self>) -> Value { none() }
    fn info(&self) -> Value { json!({"h": none(), "modes": none(), "prec": none()}) }
    fn text(&self) -> Value { none() }
}
fn bound<V: Pt>(v: Option<V>, none: &str) -> Value { v.map(|x| x.show()).unwrap_or(json!(none)) }
fn box_of<S: OrderedSpace<Value = T> + Copy, T: Pt, const N: usize>(s: [S; N]) -> (Vec<Value>, Vec<Value>) {
    (s.iter().map(|s| bound(s.inf(), "-inf")).collect(), s.iter().map(|s| bound(s.sup(), "inf")).collect())
}
fn boxed<S: Has<T>, T, const N: usize>(s: &[S; N], x: &[T; N]) -> bool { s.iter().zip(x.iter()).all(|(s, v)| s.has(v)) }
fn cden<D: ContinuousDistribution>(d: &D, x: &Sample<D>) -> (Value, Value) { (gnum(|| d.pdf(x)), gnum(|| d.log_pdf(x))) }
fn vmom<const N: usize, D: MvMoments<N>>(d: &D) -> Value {
    json!({"dim": d.dimensionality().to_string(), "mean": gval(|| nums(&d.mean())), "var": gval(|| nums(&d.variance())), "cov": gval(|| mat(&d.covariance())), "corr": gval(|| mat(&d.correlation()))})
}
fn maha<D: Mahalanobis>(d: &D, x: &Sample<D>) -> (Value, Value) { (gnum(|| d.d_mahalanobis(x)), gnum(|| d.d_mahalanobis_squared(x))) }
fn info<const N: usize, D: ShannonEntropy + Modes>(d: &D) -> Value where D: Distribution, Vec<Sample<D>>: Into<Vec<[f64; N]>> {
    json!({"h": gnum(|| d.shannon_entropy()), "modes": gval(|| Value::Array(d.modes().into().iter().map(|m| nums(m)).collect())), "prec": none()})
}
macro_rules! plain { ($N:expr) => {
    fn to(x: &A) -> [f64; $N] { arr(x) }
    fn of(x: &[f64; $N]) -> Vec<f64> { x.to_vec() }
    fn den(&self, x: &[f64; $N]) -> (Value, Value) { cden(self, x) }
    fn mom(&self) -> Value { vmom::<{ $N }, Self>(self) }
    fn bounds(&self) -> (Vec<Value>, Vec<Value>) { box_of(self.support()) }
    fn inside(&self, x: &[f64; $N]) -> bool { boxed(&self.support(), x) }
} }
fn uni_normal(a: f64, v: f64, x: f64) -> Value { gnum(|| UvNormal::new(a, v).unwrap().pdf(&x)) }
fn uni_log(a: f64, v: f64, x: f64) -> Value { gnum(|| uv::lognormal::LogNormal::new(a, v).unwrap().pdf(&x)) }

impl Vd for UvNormal {
    fn text(&self) -> Value { shown(self) }
    fn make(_: &str, a: &A, m: &M) -> Result<Self, ()> { UvNormal::new(a[0], m[0][0]).map_err(|_| ()) }
    fn raw(_: &str, a: &A, m: &M) -> Self { UvNormal::new_unchecked(a[0], m[0][0]) }
    fn par(q: &Pars<Self>) -> (Value, Value) { (nums(&[*q.mu.value()]), rows(vec![vec![*q.Sigma.value()]])) }
    fn to(x: &A) -> f64 { x[0] }
    fn of(x: &f64) -> Vec<f64> { vec![*x] }
    fn den(&self, x: &f64) -> (Value, Value) { cden(self, x) }
    fn mom(&self) -> Value {
        json!({"dim": "1", "mean": nums(&[UvMoments::mean(self)]), "var": nums(&[UvMoments::variance(self)]), "cov": rows(vec![vec![self.standard_deviation().powi(2)]]), "corr": rows(vec![vec![1.0]])})
    }
    fn bounds(&self) -> (Vec<Value>, Vec<Value>) { box_of([self.support()]) }
    fn inside(&self, x: &f64) -> bool { self.support().has(x) }
    fn dist(&self, x: &f64) -> (Value, Value) { (gnum(|| self.z(*x).abs()), gnum(|| self.z(*x).powi(2))) }
    fn info(&self) -> Value { json!({"h": gnum(|| self.shannon_entropy()), "modes": gval(|| Value::Array(self.modes().iter().map(|m| nums(&[*m])).collect())), "prec": gnum(|| self.precision())}) }
}
impl<const N: usize> Vd for MvNormal<N> {
    fn make(_: &str, a: &A, m: &M) -> Result<Self, ()> { MvNormal::new(arr(a), sq(m)).map_err(|_| ()) }
    fn raw(_: &str, a: &A, m: &M) -> Self { MvNormal::new_unchecked(arr(a), sq(m)) }
    fn par(q: &Pars<Self>) -> (Value, Value) { (nums(&q.mu.0), mat(q.Sigma.value())) }
    plain!(N);
    fn dist(&self, x: &[f64; N]) -> (Value, Value) { maha(self, x) }
    fn uni(&self, x: &[f64; N]) -> Value { if N == 1 { uni_normal(self.params().mu.0[0], self.params().Sigma.0[0][0], x[0]) } else { none() } }
    fn info(&self) -> Value { info::<N, Self>(self) }
}
impl<const N: usize> Vd for DiagonalNormal<N> {
    fn make(_: &str, a: &A, m: &M) -> Result<Self, ()> { DiagonalNormal::diagonal(arr(a), arr(&m[0])).map_err(|_| ()) }
    fn raw(_: &str, a: &A, m: &M) -> Self { DiagonalNormal::diagonal_unchecked(arr(a), arr(&m[0])) }
    fn par(q: &Pars<Self>) -> (Value, Value) { (nums(&q.mu.0), rows(vec![q.Sigma.value().to_vec()])) }
    plain!(N);
    fn dist(&self, x: &[f64; N]) -> (Value, Value) { maha(self, x) }
    fn uni(&self, x: &[f64; N]) -> Value { if N == 1 { uni_normal(self.params().mu.0[0], self.params().Sigma.0[0], x[0]) } else { none() } }
    fn info(&self) -> Value { info::<N, Self>(self) }
}
impl<const N: usize> Vd for IsotropicNormal<N> {
    fn make(f: &str, a: &A, m: &M) -> Result<Self, ()> {
        match f {
            "isotropic" => IsotropicNormal::isotropic(arr(a), m[0][0]),
            "homogeneous" => IsotropicNormal::<N>::homogeneous(a[0], m[0][0]),
            _ => IsotropicNormal::<N>::standard(),
        }.map_err(|_| ())
    }
    fn raw(f: &str, a: &A, m: &M) -> Self {
        match f {
            "isotropic" => IsotropicNormal::isotropic_unchecked(arr(a), m[0][0]),
            "homogeneous" => IsotropicNormal::<N>::homogeneous_unchecked(a[0], m[0][0]),
            _ => IsotropicNormal::<N>::standard_unchecked(),
        }
    }
    fn par(q: &Pars<Self>) -> (Value, Value) { (nums(&q.mu.0), rows(vec![vec![*q.Sigma.value()]])) }
    plain!(N);
    fn dist(&self, x: &[f64; N]) -> (Value, Value) { maha(self, x) }
    fn uni(&self, x: &[f64; N]) -> Value { if N == 1 { uni_normal(self.params().mu.0[0], self.params().Sigma.0, x[0]) } else { none() } }
    fn info(&self) -> Value { info::<N, Self>(self) }
}
impl Vd for PairedNormal {
    fn text(&self) -> Value { shown(self) }
    fn make(f: &str, a: &A, m: &M) -> Result<Self, ()> {
        match f {
            "paired" => PairedNormal::new(arr(a), arr(&m[0])),
            "paired_isotropic" => PairedNormal::isotropic(arr(a), m[0][0]),
            _ => return Ok(PairedNormal::standard()),
        }.map_err(|_| ())
    }
    fn raw(f: &str, a: &A, m: &M) -> Self {
        match f {
            "paired" => PairedNormal::new_unchecked(arr(a), arr(&m[0])),
            "paired_isotropic" => PairedNormal::isotropic_unchecked(arr(a), m[0][0]),
            _ => PairedNormal::standard(),
        }
    }
    fn default() -> Option<Self> { Some(Default::default()) }
    fn par(q: &Pars<Self>) -> (Value, Value) { (nums(&q.mu.0), rows(vec![q.Sigma.value().to_vec()])) }
    plain!(2);
    fn dist(&self, x: &[f64; 2]) -> (Value, Value) { (none(), gnum(|| self.z(x))) }
    fn info(&self) -> Value { info::<2, Self>(self) }
}
impl Vd for BvNormal {
    fn text(&self) -> Value { shown(self) }
    fn make(f: &str, a: &A, m: &M) -> Result<Self, ()> {
        match f {
            "bivariate" => BvNormal::new(arr(a), arr(&m[0]), m[1][0]),
            "bivariate_independent" => BvNormal::independent(arr(a), arr(&m[0])),
            "bivariate_isotropic" => BvNormal::isotropic(arr(a), m[0][0]),
            _ => return Ok(BvNormal::standard()),
        }.map_err(|_| ())
    }
    fn raw(f: &str, a: &A, m: &M) -> Self {
        match f {
            "bivariate" => BvNormal::new_unchecked(arr(a), arr(&m[0]), m[1][0]),
            "bivariate_independent" => BvNormal::independent_unchecked(arr(a), arr(&m[0])),
            "bivariate_isotropic" => BvNormal::isotropic_unchecked(arr(a), m[0][0]),
            _ => BvNormal::standard(),
        }
    }
    fn default() -> Option<Self> { Some(Default::default()) }
    fn par(q: &Pars<Self>) -> (Value, Value) { let (s, r) = *q.Sigma.value(); (nums(&q.mu.0), rows(vec![s.to_vec(), vec![r]])) }
    plain!(2);
    fn dist(&self, x: &[f64; 2]) -> (Value, Value) { (none(), gnum(|| self.z(x))) }
    fn info(&self) -> Value { info::<2, Self>(self) }
}
impl<const N: usize> Vd for LogNormal<N, [[f64; N]; N]> {
    fn make(_: &str, a: &A, m: &M) -> Result<Self, ()> { LogNormal::<N, [[f64; N]; N]>::new(arr(a), sq(m)).map_err(|_| ()) }
    fn raw(_: &str, a: &A, m: &M) -> Self { LogNormal::<N, [[f64; N]; N]>::new_unchecked(arr(a), sq(m)) }
    fn par(q: &Pars<Self>) -> (Value, Value) { (nums(&q.mu.0), mat(q.Sigma.value())) }
    plain!(N);
    fn uni(&self, x: &[f64; N]) -> Value { if N == 1 { uni_log(self.params().mu.0[0], self.params().Sigma.0[0][0], x[0]) } else { none() } }
}
impl<const N: usize> Vd for LogNormal<N, [f64; N]> {
    fn make(_: &str, a: &A, m: &M) -> Result<Self, ()> { LogNormal::<N, [f64; N]>::diagonal(arr(a), arr(&m[0])).map_err(|_| ()) }
    fn raw(_: &str, a: &A, m: &M) -> Self { LogNormal::<N, [f64; N]>::diagonal_unchecked(arr(a), arr(&m[0])) }
    fn par(q: &Pars<Self>) -> (Value, Value) { (nums(&q.mu.0), rows(vec![q.Sigma.value().to_vec()])) }
    plain!(N);
}
impl<const N: usize> Vd for LogNormal<N, f64> {
    fn text(&self) -> Value { shown(self) }
    fn make(f: &str, a: &A, m: &M) -> Result<Self, ()> {
        match f {
            "ln_isotropic" => LogNormal::<N, f64>::isotropic(arr(a), m[0][0]),
            "ln_homogeneous" => LogNormal::<N, f64>::homogeneous(a[0], m[0][0]),
            _ => LogNormal::<N, f64>::standard(),
        }.map_err(|_| ())
    }
    fn raw(f: &str, a: &A, m: &M) -> Self {
        match f {
            "ln_isotropic" => LogNormal::<N, f64>::isotropic_unchecked(arr(a), m[0][0]),
            "ln_homogeneous" => LogNormal::<N, f64>::homogeneous_unchecked(a[0], m[0][0]),
            _ => LogNormal::<N, f64>::standard_unchecked(),
        }
    }
    fn par(q: &Pars<Self>) -> (Value, Value) { (nums(&q.mu.0), rows(vec![vec![*q.Sigma.value()]])) }
    plain!(N);
}
impl<const N: usize> Vd for Dirichlet<N> {
    fn text(&self) -> Value { shown(self) }
    fn make(_: &str, a: &A, _: &M) -> Result<Self, ()> { Dirichlet::new(arr(a)).map_err(|_| ()) }
    fn raw(_: &str, a: &A, _: &M) -> Self { Dirichlet::new_unchecked(arr(a)) }
    fn par(q: &Pars<Self>) -> (Value, Value) { (nums(q.value()), json!([])) }
    plain!(N);
    fn uni(&self, x: &[f64; N]) -> Value {
        if N != 2 || (x[0] + x[1] - 1.0).abs() > 1e-12 { return none(); }
        let a = self.params().0;
        gnum(|| uv::beta::Beta::new(a[0], a[1]).unwrap().pdf(&x[0]))
    }
    fn info(&self) -> Value { json!({"h": none(), "modes": gval(|| Value::Array(self.modes().iter().map(|m| nums(m)).collect())), "prec": none()}) }
}
impl<const N: usize> Vd for Multinomial<N> {
    fn text(&self) -> Value { shown(self) }
    fn make(_: &str, a: &A, m: &M) -> Result<Self, ()> { Multinomial::new(m[0][0] as usize, arr(a)).map_err(|_| ()) }
    fn raw(_: &str, a: &A, m: &M) -> Self { Multinomial::new_unchecked(m[0][0] as usize, arr(a)) }
    fn par(q: &Pars<Self>) -> (Value, Value) {
        let q: &multinomial::Params<N> = q;
        (Value::Array(q.ps().iter().map(|p| num(*p)).collect()), json!([[q.n().value().to_string()]]))
    }
    fn to(x: &A) -> [usize; N] { let mut a = [0; N]; for i in 0..N { a[i] = x[i] as usize; } a }
    fn of(x: &[usize; N]) -> Vec<f64> { x.iter().map(|v| *v as f64).collect() }
    fn den(&self, x: &[usize; N]) -> (Value, Value) { (gnum(|| self.pmf(x).unwrap()), gnum(|| self.log_pmf(x))) }
    fn mom(&self) -> Value { vmom::<N, Self>(self) }
    fn bounds(&self) -> (Vec<Value>, Vec<Value>) { box_of(self.support()) }
    fn inside(&self, x: &[usize; N]) -> bool { boxed(&self.support(), x) }
    fn uni(&self, x: &[usize; N]) -> Value {
        let q = self.params();
        if N != 2 || x[0] + x[1] != *q.n.value() { return none(); }
        let p: Vec<f64> = q.ps().iter().map(|p| *p).collect();
        gnum(|| uv::binomial::Binomial::new(*q.n.value(), rstat::Probability::new(p[0]).unwrap()).unwrap().pmf(&x[0]).unwrap())
    }
    fn info(&self) -> Value { json!({"h": none(), "modes": none(), "prec": none(), "cats": Multinomial::<N>::n_categories().to_string()}) }
}

struct Ctx<'a> { e: &'a Value, hist: &'a [Value], prop: &'a str, seed: u64, n: usize }
fn vec_of(v: &Value) -> Vec<f64> { vj::fs(v) }
fn vecs(v: &Value) -> Vec<Vec<f64>> { v.as_array().unwrap().iter().map(vj::fs).collect() }
fn reals(v: &[f64]) -> Value { nums(v) }

fn ask<D: Vd + From<Pars<D>>>(c: &Ctx, d: &D, checked: bool, out: &mut vj::Out) {
    let xs: Vec<Vec<f64>> = vecs(&c.e["xs"]);
    let pts: Vec<Sample<D>> = xs.iter().map(|x| D::to(x)).collect();
    if c.prop == "C16" || c.prop == "C18" {
        for x in &pts {
            let (den, lden) = d.den(x);
            let (m, m2) = d.dist(x);
            out.put(json!({"ev": "pt", "x": reals(&D::of(x)), "den": den, "lden": lden, "d": m, "d2": m2, "uni": d.uni(x)}));
        }
        let mut e = d.mom();
        e["ev"] = json!("mom");
        out.put(e);
        let mut e = d.info();
        e["ev"] = json!("info");
        out.put(e);
        if vj::s(&c.e["fam"]) == "multinomial" {
            let mut seen: Vec<Vec<f64>> = vec![];
            for x in &pts { let v = D::of(x); if !seen.contains(&v) { seen.push(v); } }
            out.put(json!({"ev": "total", "masses": seen.iter().map(|v| d.den(&D::to(v)).0).collect::<Vec<_>>()}));
        }
    }
    if c.prop == "C20" {
        let mut e = d.text();
        if e.is_object() { e["ev"] = json!("show"); out.put(e); }
        return;
    }
    if c.prop == "C14" {
        let (lo, hi) = d.bounds();
        out.put(json!({"ev": "sup", "inf": lo, "sup": hi, "has": pts.iter().map(|x| json!([reals(&D::of(x)), d.inside(x)])).collect::<Vec<_>>()}));
        let mut twin = |how: &str, e: Result<D, String>| match e {
            Ok(e) => {
                let (a, m) = D::par(&e.params());
                let (l1, h1) = d.bounds();
                let (l2, h2) = e.bounds();
                out.put(json!({"ev": "par", "how": how, "a": a, "m": m, "bounds": [[l1, h1], [l2, h2]],
                    "same": pts.iter().map(|x| json!([reals(&D::of(x)), d.den(x).0, e.den(x).0])).collect::<Vec<_>>(), "mom": [d.mom(), e.mom()]}));
            },
            Err(m) => out.put(json!({"ev": "par", "how": how, "a": [], "m": [], "bounds": [panicked(&m), ""], "same": [], "mom": ["", ""]})),
        };
        twin("new", Ok(d.clone()));
        twin("params", guard(|| D::from(d.params())));
        twin("into_params", guard(|| D::from(d.clone().into_params())));
    }
    if !checked || c.prop == "C14" { return; }
    if let Err(m) = guard(|| { d.sample(&mut StdRng::seed_from_u64(c.seed)); }) {
        out.put(json!({"ev": "nosample", "why": m}));
        return;
    }
    let mut g = StdRng::seed_from_u64(c.seed);
    let log = vj::s(&c.e["fam"]).starts_with("ln_");
    match guard(|| { let v: Vec<Sample<D>> = (0..c.n).map(|_| d.sample(&mut g)).collect(); v }) {
        Ok(v) => {
            let outside = v.iter().filter(|x| !d.inside(x)).count();
            let vs: Vec<Vec<f64>> = v.iter().map(|x| { let y = D::of(x); if log { y.iter().map(|v| v.ln()).collect() } else { y } }).collect();
            let off = vs.iter().map(|y| (y.iter().sum::<f64>() - 1.0).abs()).fold(0.0, f64::max);
            for w in vecs(&c.e["ws"]) {
                let p: Vec<f64> = vs.iter().map(|y| y.iter().zip(w.iter()).filter(|(_, w)| **w != 0.0).map(|(v, w)| v * w).sum()).collect();
                let mut e = summary(p, |_| true);
                e["outside"] = json!(outside.to_string());
                e["off"] = num(off);
                e["w"] = nums(&w);
                out.put(e);
            }
        },
        Err(m) => { out.put(json!({"ev": "nosample", "why": m})); return },
    }
    if c.prop != "C07" { return; }
    for t in c.hist {
        out.put(history(d, t, || StdRng::seed_from_u64(c.seed ^ 77), |x| reals(&D::of(x)), |d| { let (a, m) = D::par(&d.params()); json!([a, m]) }));
    }
}
fn run_d<D: Vd + From<Pars<D>>>(c: &Ctx, out: &mut vj::Out) {
    let e = c.e;
    let fam = vj::s(&e["fam"]);
    let (a, m) = (vec_of(&e["a"]), vecs(&e["m"]));
    let begin = |kind: &str, made: Value| json!({"ev": "begin", "kind": kind, "fam": fam, "n": e["n"], "a": nums(&a), "m": rows(m.clone()), "made": made});
    let kind = vj::s(&e["kind"]);
    let made = guard(|| D::make(fam, &a, &m));
    out.put(begin(kind, match &made { Ok(Ok(_)) => json!("ok"), Ok(Err(_)) => json!("err"), Err(p) => panicked(p) }));
    if kind != "law" { return; }
    if let Ok(Ok(d)) = made { ask(c, &d, true, out); }
    if c.prop == "C07" { return; }
    let raw = guard(|| D::raw(fam, &a, &m));
    out.put(begin("raw", match &raw { Ok(_) => json!("ok"), Err(p) => panicked(p) }));
    if let Ok(d) = raw { ask(c, &d, false, out); }
    if fam.ends_with("_standard") {
        if let Some(d) = D::default() {
            out.put(begin("default", json!("ok")));
            ask(c, &d, false, out);
        }
    }
}
macro_rules! dims { ($c:ident, $out:ident, $N:ident, $T:ty) => { {
    match vj::u(&$c.e["n"]) {
        1 => { const $N: usize = 1; run_d::<$T>($c, $out) }, 2 => { const $N: usize = 2; run_d::<$T>($c, $out) },
        3 => { const $N: usize = 3; run_d::<$T>($c, $out) }, 4 => { const $N: usize = 4; run_d::<$T>($c, $out) },
        5 => { const $N: usize = 5; run_d::<$T>($c, $out) }, n => panic!("dimension {}", n) } } } }
fn job(c: &Ctx, out: &mut vj::Out) {
    match vj::s(&c.e["fam"]) {
        "scalar" => run_d::<UvNormal>(c, out),
        "full" => dims!(c, out, N, MvNormal<N>),
        "diagonal" => dims!(c, out, N, DiagonalNormal<N>),
        "isotropic" | "homogeneous" | "standard" => dims!(c, out, N, IsotropicNormal<N>),
        "ln_full" => dims!(c, out, N, LogNormal<N, [[f64; N]; N]>),
        "ln_diagonal" => dims!(c, out, N, LogNormal<N, [f64; N]>),
        "ln_isotropic" | "ln_homogeneous" | "ln_standard" => dims!(c, out, N, LogNormal<N, f64>),
        "dirichlet" => dims!(c, out, N, Dirichlet<N>),
        "multinomial" => dims!(c, out, N, Multinomial<N>),
        f if f.starts_with("paired") => run_d::<PairedNormal>(c, out),
        f if f.starts_with("bivariate") => run_d::<BvNormal>(c, out),
        f => panic!("family {}", f),
    }
}
const LATER: [&str; 5] = ["dirichlet", "multinomial", "ln_full", "ln_diagonal", "ln_isotropic"];
pub fn run(prop: &str, input: &str, out: &mut vj::Out) {
    let mine = |f: &str| match prop {
        "C16" => !(LATER.contains(&f) || f.starts_with("ln_")),
        "C18" => LATER.contains(&f) || f.starts_with("ln_"),
        _ => true,
    };
    let all: Vec<(usize, Value)> = vj::lines(input).enumerate().filter(|(_, e)| mine(vj::s(&e["fam"])) && (e["kind"] == "law" || prop == "C14")).collect();
    let hist: Vec<Value> = if prop == "C07" { vj::lines(&input.replace("mv.in", "hist.in")).collect() } else { vec![] };
    let n = if vj::thorough() { 600_000 } else { 100_000 };
    vj::parallel(&all, out, |(i, e), o| {
        let few: Vec<Value> = if hist.is_empty() { vec![] } else { (0..4).map(|k| hist[(i * 37 + k * 53) % hist.len()].clone()).collect() };
        job(&Ctx { e, hist: &few, prop, seed: vj::seed().wrapping_mul(1_000_003) ^ (*i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15), n }, o);
    });
    let _ = (show(none()), StdRng::seed_from_u64(0).next_u64());
    let _: Option<(Loc<f64>, Covariance<f64>, Option<Params<f64, f64>>)> = None;
}
