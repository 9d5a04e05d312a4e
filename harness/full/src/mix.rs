//! Mixtures.
use crate::laws::{int, Has, Pt};
use crate::sampling::{history, summary};
use rand::{rngs::StdRng, SeedableRng};
use rstat::params::Param;
use rstat::statistics::UvMoments;
use rstat::univariate as uv;
use rstat::{ContinuousDistribution, Distribution, Mixture, Probability, Sample};
use spaces::{ops::{Closure, Union}, OrderedSpace, Space};
use vj::{gnum, guard, json, num, panicked, Value};

type Pars<D> = <D as Distribution>::Params;
type Den<D> = fn(&D, &Sample<D>) -> (Value, Value);
struct Ctx<'a> { e: &'a Value, hist: &'a [Value], seed: u64, n: usize }
struct How<D: Distribution> {
    /// weights and component parameters, as they travel
    show: fn(&Pars<D>) -> (Value, Value),
    den: Option<Den<D>>,
    mom: Option<fn(&D) -> Value>,
    copy: fn(&D) -> D,
    /// parameters with too few or too many components
    wrong: Vec<fn(Pars<D>) -> Pars<D>>,
    n: fn() -> usize,
}
fn bound<V: Pt>(v: Option<V>, none: &str) -> Value { v.map(|x| x.show()).unwrap_or(json!(none)) }
fn ends<D: Distribution>(d: &D) -> Value where D::Support: OrderedSpace, Sample<D>: Pt { let s = d.support(); json!([bound(s.inf(), "-inf"), bound(s.sup(), "inf")]) }
fn cdf<D: Distribution>(d: &D, x: &Sample<D>) -> Value { gnum(|| d.cdf(x).unwrap()) }

fn ask<D: Distribution>(c: &Ctx, h: &How<D>, d: &D, out: &mut vj::Out) where Sample<D>: Pt + Send, D::Support: Has<Sample<D>> + OrderedSpace {
    let mut xs: Vec<Sample<D>> = c.e["xs"].as_array().unwrap().iter().filter_map(|v| Pt::parse(vj::s(v))).collect();
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    xs.dedup_by(|a, b| a == b);
    for x in &xs {
        let (den, lden) = h.den.map(|f| f(d, x)).unwrap_or((json!("-"), json!("-")));
        out.put(json!({"ev": "pt", "x": x.show(), "cdf": cdf(d, x), "ccdf": gnum(|| d.ccdf(x).unwrap()), "lcdf": gnum(|| d.log_cdf(x)), "den": den, "lden": lden}));
    }
    if let Some(f) = h.mom { let mut e = f(d); e["ev"] = json!("mom"); out.put(e); }
    let s = d.support();
    out.put(json!({"ev": "sup", "inf": bound(s.inf(), "-inf"), "sup": bound(s.sup(), "inf"), "has": xs.iter().map(|x| json!([x.show(), s.has(x)])).collect::<Vec<_>>()}));
    let step = (xs.len() / 6).max(1);
    let mut twin = |how: &str, e: Result<D, String>| match e {
        Ok(e) => {
            let (w, ps) = (h.show)(&e.params());
            let den = |d: &D, x: &Sample<D>| h.den.map(|f| f(d, x).0).unwrap_or(json!("-"));
            out.put(json!({"ev": "par", "how": how, "w": w, "ps": ps, "bounds": [ends(d), ends(&e)],
                "same": xs.iter().step_by(step).map(|x| json!([x.show(), cdf(d, x), cdf(&e, x), den(d, x), den(&e, x)])).collect::<Vec<_>>()}));
        },
        Err(m) => out.put(json!({"ev": "par", "how": how, "w": [], "ps": [], "bounds": [panicked(&m), ""], "same": []})),
    };
    twin("new", Ok((h.copy)(d)));
    twin("params", guard(|| D::from(d.params())));
    twin("into_params", guard(|| D::from((h.copy)(d).into_params())));
    for w in &h.wrong {
        let r = guard(|| { D::from(w(d.params())); });
        out.put(json!({"ev": "mismatch", "made": match r { Ok(_) => json!("ok"), Err(m) => panicked(&m) }}));
    }
    if c.n == 0 { return; }
    let mut g = StdRng::seed_from_u64(c.seed);
    if guard(|| { d.sample(&mut StdRng::seed_from_u64(c.seed)); }).is_err() { return; }
    match guard(|| { let v: Vec<Sample<D>> = (0..c.n).map(|_| d.sample(&mut g)).collect(); v }) {
        Ok(v) => out.put(summary(v, |x| s.has(x))),
        Err(m) => out.put(json!({"ev": "nosample", "why": m})),
    }
    for t in c.hist { out.put(history(d, t, || StdRng::seed_from_u64(c.seed ^ 77), |x| x.show(), |d| { let (w, p) = (h.show)(&d.params()); json!([w, p]) })); }
}

/// A family of components.
trait Comp: Distribution + Clone { fn make(p: &[String]) -> Option<Self>; fn par(q: &Self::Params) -> Vec<Value>; fn show(q: &Self::Params) -> Value { Value::Array(Self::par(q)) } }
fn fl(p: &[String], i: usize) -> f64 { p[i].parse().unwrap() }
fn us(p: &[String], i: usize) -> usize { int(&p[i]).unwrap() as usize }
macro_rules! comp { ($T:ty, |$p:ident| $mk:expr, |$q:ident| [$($par:expr),*]) => {
    impl Comp for $T { fn make($p: &[String]) -> Option<Self> { $mk } fn par($q: &Self::Params) -> Vec<Value> { vec![$($par),*] } } } }
macro_rules! c1 { ($T:ty, $a:ident) => { comp!($T, |p| <$T>::new(fl(p, 0)).ok(), |q| [num(*q.$a.value())]); } }
macro_rules! c2 { ($T:ty, $a:ident, $b:ident) => { comp!($T, |p| <$T>::new(fl(p, 0), fl(p, 1)).ok(), |q| [num(*q.$a.value()), num(*q.$b.value())]); } }
macro_rules! c3 { ($T:ty, $a:ident, $b:ident, $c:ident) => { comp!($T, |p| <$T>::new(fl(p, 0), fl(p, 1), fl(p, 2)).ok(), |q| [num(*q.$a.value()), num(*q.$b.value()), num(*q.$c.value())]); } }
c2!(uv::normal::Normal, mu, Sigma);
c2!(uv::uniform::Uniform<f64>, lb, width);
comp!(uv::uniform::Uniform<i64>, |p| Self::new(int(&p[0]).unwrap() as i64, us(p, 1) as u64).ok(), |q| [json!(q.lb.value().to_string()), json!(q.width.value().to_string())]);
c1!(uv::exponential::Exponential, lambda);
c2!(uv::gamma::Gamma, alpha, beta);
c2!(uv::beta::Beta, alpha, beta);
c3!(uv::triangular::Triangular, a, a2c, c2b);
c2!(uv::pareto::Pareto, x_m, alpha);
c2!(uv::cauchy::Cauchy, x0, gamma);
c2!(uv::laplace::Laplace, mu, b);
c3!(uv::gpd::GeneralisedPareto, mu, sigma, zeta);
c1!(uv::student_t::StudentT, nu);
comp!(uv::weibull::Weibull, |p| uv::weibull::Params::new(fl(p, 0), fl(p, 1)).ok().map(Self::from), |q| [num(*q.lambda.value()), num(*q.k.value())]);
c1!(uv::poisson::Poisson, lambda);
comp!(uv::binomial::Binomial, |p| Self::new(us(p, 0), Probability::new(fl(p, 1)).ok()?).ok(), |q| [json!(q.n.value().to_string()), num(q.p.unwrap())]);
comp!(uv::bernoulli::Bernoulli, |p| Self::new(fl(p, 0)).ok(), |q| [num(q.p.unwrap())]);
comp!(uv::geometric::Geometric, |p| Self::new(fl(p, 0)).ok(), |q| [num(q.p.unwrap())]);
comp!(uv::degenerate::Degenerate<f64>, |p| Some(Self::new(fl(p, 0))), |q| [num(*q.value())]);
c2!(uv::cosine::Cosine, mu, s);
c2!(uv::levy::Levy, mu, c);
c2!(uv::lognormal::LogNormal, mu, Sigma);
comp!(uv::chi_sq::ChiSq, |p| Self::new(us(p, 0)).ok(), |q| [json!(q.k.value().to_string())]);

fn den<D: ContinuousDistribution>(d: &D, x: &Sample<D>) -> (Value, Value) { (gnum(|| d.pdf(x)), gnum(|| d.log_pdf(x))) }
fn mom<D: UvMoments>(d: &D) -> Value { json!({"mean": gnum(|| d.mean()), "variance": gnum(|| d.variance()), "sd": gnum(|| d.standard_deviation())}) }

fn strs(v: &Value) -> Vec<String> { v.as_array().unwrap().iter().map(|x| vj::s(x).to_string()).collect() }
fn arr<const N: usize>(v: &[f64]) -> [f64; N] { let mut a = [0.0; N]; a.copy_from_slice(v); a }
fn comps<const N: usize, C: Comp>(ps: &Value) -> Option<[C; N]> {
    use std::convert::TryInto;
    let v: Option<Vec<C>> = ps.as_array().unwrap().iter().map(|p| C::make(&strs(p))).collect();
    v.and_then(|v| v.try_into().ok())
}
fn begin(kind: &Value, fam: &Value, w: &[f64], ps: &Value, made: Value, n: usize) -> Value {
    json!({"ev": "begin", "kind": kind, "fam": fam, "w": w.iter().map(|x| num(*x)).collect::<Vec<_>>(), "ps": ps, "made": made, "n": n.to_string()})
}
fn run_n<const N: usize, C: Comp>(c: &Ctx, dn: Option<Den<Mixture<N, C>>>, mm: Option<fn(&Mixture<N, C>) -> Value>, out: &mut vj::Out)
where C::Support: Union<C::Support> + Clone + Has<Sample<C>> + OrderedSpace, <C::Support as Union<C::Support>>::Output: Closure<Output = C::Support>, Sample<C>: Pt + Send {
    let e = c.e;
    let w: Vec<f64> = vj::fs(&e["w"]);
    let cs: [C; N] = comps(&e["ps"]).expect("components");
    let h: How<Mixture<N, C>> = How {
        show: |q| (q.ps.iter().map(|x| num(*x)).collect(), q.component_params.iter().map(|p| C::show(p)).collect()),
        den: dn, mom: mm, copy: |d| d.clone(),
        wrong: vec![|mut q| { q.component_params.pop(); q }, |mut q| { q.component_params.clear(); q },
            |mut q| { let t: C = q.component_params.remove(0).into(); q.component_params.insert(0, t.params()); q.component_params.push(t.params()); q }],
        n: Mixture::<N, C>::n_components,
    };
    let made = guard(|| Mixture::new(arr::<N>(&w), cs.clone()));
    let m = match &made { Ok(Ok(_)) => json!("ok"), Ok(Err(_)) => json!("err"), Err(m) => panicked(m) };
    out.put(begin(&e["kind"], &e["fam"], &w, &e["ps"], m, (h.n)()));
    if let Ok(Ok(d)) = made { ask(c, &h, &d, out); }
    if e["kind"] != "mix" { return; }
    let raw = guard(|| Mixture::new_unchecked(arr::<N>(&w), cs.clone()));
    let m = match &raw { Ok(_) => json!("ok"), Err(m) => panicked(m) };
    out.put(begin(&json!("raw"), &e["fam"], &w, &e["ps"], m, (h.n)()));
    if let Ok(d) = raw { ask(&Ctx { n: 0, ..*c }, &h, &d, out); }
}
type N2 = Mixture<2, uv::normal::Normal>;
fn nested(c: &Ctx, out: &mut vj::Out) {
    let e = c.e;
    let w: Vec<f64> = vj::fs(&e["w"]);
    let inner: Vec<N2> = e["inner"].as_array().unwrap().iter().map(|m| Mixture::new(arr::<2>(&vj::fs(&m["w"])), comps::<2, uv::normal::Normal>(&m["ps"]).unwrap()).unwrap()).collect();
    let fw: Vec<f64> = e["inner"].as_array().unwrap().iter().enumerate().flat_map(|(i, m)| { let o = w[i]; vj::fs(&m["w"]).into_iter().map(move |x| o * x) }).collect();
    let fp: Vec<Value> = e["inner"].as_array().unwrap().iter().flat_map(|m| m["ps"].as_array().unwrap().clone()).collect();
    let h: How<Mixture<2, N2>> = How {
        show: |q| (q.component_params.iter().zip(q.ps.iter()).flat_map(|(p, o)| p.ps.iter().map(|x| num(o * *x)).collect::<Vec<_>>()).collect(),
                   q.component_params.iter().flat_map(|p| p.component_params.iter().map(|r| <uv::normal::Normal as Comp>::show(r)).collect::<Vec<_>>()).collect()),
        den: Some(den), mom: Some(mom), copy: |d| d.clone(),
        wrong: vec![|mut q| { q.component_params.pop(); q }],
        n: || 2 * Mixture::<2, N2>::n_components(),
    };
    let made = guard(|| Mixture::new(arr::<2>(&w), [inner[0].clone(), inner[1].clone()]));
    let m = match &made { Ok(Ok(_)) => json!("ok"), Ok(Err(_)) => json!("err"), Err(m) => panicked(m) };
    out.put(begin(&e["kind"], &e["fam"], &fw, &Value::Array(fp), m, (h.n)()));
    if let Ok(Ok(d)) = made { ask(c, &h, &d, out); }
}
macro_rules! sized { ($c:ident, $out:ident, $T:ty, $den:expr, $mom:expr) => { match $c.e["w"].as_array().unwrap().len() {
    1 => run_n::<1, $T>($c, $den, $mom, $out), 2 => run_n::<2, $T>($c, $den, $mom, $out),
    3 => run_n::<3, $T>($c, $den, $mom, $out), 5 => run_n::<5, $T>($c, $den, $mom, $out), n => panic!("{} components", n) } } }
fn job(c: &Ctx, out: &mut vj::Out) {
    if c.e["kind"] == "nested" { return nested(c, out); }
    macro_rules! cont { ($T:ty) => { sized!(c, out, $T, Some(den), Some(mom)) } }
    macro_rules! disc { ($T:ty) => { sized!(c, out, $T, None, Some(mom)) } }
    match vj::s(&c.e["fam"]) {
        "normal" => cont!(uv::normal::Normal), "uniform" => cont!(uv::uniform::Uniform<f64>), "exponential" => cont!(uv::exponential::Exponential),
        "gamma" => cont!(uv::gamma::Gamma), "beta" => cont!(uv::beta::Beta), "triangular" => cont!(uv::triangular::Triangular),
        "pareto" => cont!(uv::pareto::Pareto), "cauchy" => sized!(c, out, uv::cauchy::Cauchy, Some(den), None), "laplace" => cont!(uv::laplace::Laplace),
        "gpd" => cont!(uv::gpd::GeneralisedPareto), "student_t" => cont!(uv::student_t::StudentT), "weibull" => cont!(uv::weibull::Weibull),
        "cosine" => cont!(uv::cosine::Cosine), "levy" => cont!(uv::levy::Levy), "lognormal" => cont!(uv::lognormal::LogNormal), "chi_sq" => cont!(uv::chi_sq::ChiSq),
        "uniform_int" => disc!(uv::uniform::Uniform<i64>), "poisson" => disc!(uv::poisson::Poisson), "binomial" => disc!(uv::binomial::Binomial),
        "bernoulli" => disc!(uv::bernoulli::Bernoulli), "geometric" => disc!(uv::geometric::Geometric), "degenerate_f" => cont!(uv::degenerate::Degenerate<f64>),
        f => panic!("family {}", f),
    }
}
pub fn run(input: &str, out: &mut vj::Out) {
    let all: Vec<(usize, Value)> = vj::lines(input).enumerate().collect();
    let hist: Vec<Value> = vj::lines(&input.replace("mix.in", "hist.in")).collect();
    let n = if vj::thorough() { 1_000_000 } else { 150_000 };
    vj::parallel(&all, out, |(i, e), o| {
        let few: Vec<Value> = (0..4).map(|k| hist[(i * 37 + k * 53) % hist.len()].clone()).collect();
        job(&Ctx { e, hist: &few, seed: vj::seed().wrapping_mul(1_000_003) ^ (*i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15), n }, o);
    });
}
