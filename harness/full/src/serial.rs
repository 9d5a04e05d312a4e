//! Writing and reading parameters, in JSON (as a value and as text) and in a
//! positional binary format; and reading documents derived from written ones.
use bincode::Options;
use rstat::Mixture;
use rstat::multivariate::{dirichlet::Dirichlet, multinomial::{self, Multinomial}};
use rstat::normal::{self as nm, Covariance};
use rstat::params::{Concentrations, Corr, Count, Loc, Param, Rate, Scale, Shape, DOF};
use rstat::univariate as uv;
use rstat::{Distribution, Probability, SimplexVector};
use serde::{de::DeserializeOwned, Serialize};
use vj::{guard, json, num, panicked, Value};

fn node(k: &str, names: Vec<String>, kids: Vec<Value>, s: String) -> Value { json!({"k": k, "names": names, "kids": kids, "s": s}) }
fn tree(v: &Value) -> Value {
    match v {
        Value::Null => node("null", vec![], vec![], "".into()),
        Value::Bool(b) => node("bool", vec![], vec![], b.to_string()),
        Value::Number(n) => node("num", vec![], vec![], n.to_string()),
        Value::String(s) => node("str", vec![], vec![], s.clone()),
        Value::Array(a) => node("arr", vec![], a.iter().map(tree).collect(), "".into()),
        Value::Object(o) => node("obj", o.keys().cloned().collect(), o.values().map(tree).collect(), "".into()),
    }
}
/// A document as text, the fields of every record as ordered by the tree.
fn text(t: &Value) -> String {
    let kids: Vec<String> = t["kids"].as_array().unwrap().iter().map(text).collect();
    match t["k"].as_str().unwrap() {
        "null" => "null".into(),
        "str" => serde_json::to_string(&t["s"]).unwrap(),
        "arr" => format!("[{}]", kids.join(",")),
        "obj" => {
            let fs: Vec<String> = t["names"].as_array().unwrap().iter().zip(kids).map(|(n, k)| format!("{}:{}", n, k)).collect();
            format!("{{{}}}", fs.join(","))
        },
        _ => t["s"].as_str().unwrap().into(),
    }
}
fn leaf(k: &str, s: &str) -> Value { node(k, vec![], vec![], s.into()) }
fn with(t: &Value, names: Vec<Value>, kids: Vec<Value>) -> Value { json!({"k": t["k"], "names": names, "kids": kids, "s": t["s"]}) }
/// What a document can be turned into at its root.
fn turned(t: &Value) -> Vec<Value> {
    let kids = t["kids"].as_array().unwrap();
    let names = t["names"].as_array().unwrap();
    let less = |i: usize| {
        let (mut n, mut k) = (names.clone(), kids.clone());
        k.remove(i);
        if !n.is_empty() { n.remove(i); }
        with(t, n, k)
    };
    let mut r = vec![];
    match t["k"].as_str().unwrap() {
        "arr" => {
            let l = kids.len();
            for i in 0..l { if i < 3 || i + 3 > l { r.push(less(i)); } }
            r.push(node("arr", vec![], vec![], "".into()));
            let more = |x: Value| { let mut k = kids.clone(); k.push(x); with(t, vec![], k) };
            r.push(more(leaf("null", "")));
            r.push(more(leaf("num", "0.5")));
            r.push(more(leaf("num", "1")));
            if l > 0 {
                r.push(more(kids[l - 1].clone()));
                let mut k = kids.clone();
                k.insert(0, kids[0].clone());
                r.push(with(t, vec![], k));
                let mut k = kids.clone();
                k.extend(kids.iter().cloned());
                r.push(with(t, vec![], k));
            }
            r.push(leaf("num", "1"));
            r.push(node("obj", vec![], vec![], "".into()));
        },
        "obj" => {
            for i in 0..kids.len() { r.push(less(i)); }
            r.push(node("obj", vec![], vec![], "".into()));
            r.push(node("arr", vec![], kids[..kids.len() - 1].to_vec(), "".into()));
            r.push(leaf("num", "1"));
            r.push(leaf("str", "x"));
            let (mut n, mut k) = (names.clone(), kids.clone());
            n.reverse();
            k.reverse();
            r.push(with(t, n, k));
            let (mut n, mut k) = (names.clone(), kids.clone());
            n.rotate_left(1);
            k.rotate_left(1);
            r.push(with(t, n, k));
        },
        _ => {
            r.push(leaf("null", ""));
            r.push(leaf("str", t["s"].as_str().unwrap()));
            r.push(leaf("bool", "true"));
            r.push(node("arr", vec![], vec![], "".into()));
            r.push(node("obj", vec![], vec![], "".into()));
        },
    }
    r
}
fn anywhere(t: &Value) -> Vec<Value> {
    let mut r = turned(t);
    let kids = t["kids"].as_array().unwrap();
    for (i, k) in kids.iter().enumerate() {
        if kids.len() > 8 && i > 1 && i + 2 < kids.len() { continue; }
        for x in anywhere(k) {
            let mut k = kids.clone();
            k[i] = x;
            r.push(with(t, t["names"].as_array().unwrap().clone(), k));
        }
    }
    r
}

type Flat<'a, T> = &'a dyn Fn(&T) -> Vec<Value>;
fn told<T>(r: Result<Result<T, String>, String>, flat: Flat<T>) -> Value {
    match r {
        Ok(Ok(t)) => Value::Array(flat(&t)),
        Ok(Err(_)) => json!("rejected"),
        Err(m) => panicked(&m),
    }
}
fn s<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> { r.map_err(|e| e.to_string()) }

fn case<T: Serialize + DeserializeOwned, E>(site: &str, args: &[Value], full: bool, made: Result<T, E>, flat: Flat<T>, via: Option<&dyn Fn(T) -> T>, out: &mut vj::Out) {
    let x = match made { Ok(x) => x, Err(_) => return };
    let orig = flat(&x);
    // as the fields stand in the written text
    let written = match guard(|| s(serde_json::to_value(&x))) {
        Ok(Ok(v)) => v,
        Ok(Err(m)) | Err(m) => { out.put(json!({"ev": "begin", "site": site, "args": args, "orig": orig, "doc": leaf("null", ""), "value": m, "text": m, "pretty": m, "binary": m, "varint": m, "via": "-"})); return },
    };
    let doc = tree(&written);
    let fix = || bincode::DefaultOptions::new().with_fixint_encoding();
    let bytes = fix().serialize(&x).unwrap_or_default();
    let value = told(guard(|| s(serde_json::from_value::<T>(written.clone()))), flat);
    let txt = told(guard(|| s(serde_json::to_string(&x)).and_then(|t| s(serde_json::from_str::<T>(&t)))), flat);
    let pretty = told(guard(|| s(serde_json::to_vec_pretty(&x)).and_then(|t| s(serde_json::from_reader::<_, T>(&t[..])))), flat);
    let binary = told(guard(|| s(fix().serialize(&x)).and_then(|t| s(fix().deserialize::<T>(&t)))), flat);
    let varint = told(guard(|| s(bincode::DefaultOptions::new().serialize(&x)).and_then(|t| s(bincode::DefaultOptions::new().deserialize::<T>(&t)))), flat);
    let via = match via { Some(via) => told(guard(|| s(fix().deserialize::<T>(&bytes)).map(|x| via(x))), flat), None => json!("-") };
    out.put(json!({"ev": "begin", "site": site, "args": args, "orig": orig, "doc": doc, "value": value, "text": txt, "pretty": pretty,
                   "binary": binary, "varint": varint, "via": via}));
    if !full { return; }
    let step = if bytes.len() > 400 { 7 } else { 1 };
    let accepted: Vec<usize> = (0..bytes.len()).step_by(step).filter(|k| match guard(|| s(fix().deserialize::<T>(&bytes[..*k])).is_ok()) { Ok(b) => b, Err(_) => true }).collect();
    let mut longer = bytes.clone();
    longer.extend(1.0f64.to_le_bytes());
    out.put(json!({"ev": "bytes", "site": site, "len": bytes.len(), "accepted": accepted,
                   "longer": told(guard(|| s(fix().deserialize::<T>(&longer))), flat)}));
    if orig.iter().any(|v| ["inf", "-inf", "NaN"].contains(&v.as_str().unwrap())) { return; }
    for d in anywhere(&doc) {
        let t = text(&d);
        let v: Value = serde_json::from_str(&t).unwrap();
        out.put(json!({"ev": "read", "site": site, "doc": d, "value": told(guard(|| s(serde_json::from_value::<T>(v))), flat),
                       "text": told(guard(|| s(serde_json::from_str::<T>(&t))), flat)}));
    }
}
fn via<D: Distribution>(p: D::Params) -> D::Params { D::from(p).params() }
/// ... in both ways of asking for the parameters
fn via2<D: Distribution>(p: D::Params) -> D::Params { D::from(via::<D>(p)).into_params() }

fn v<T: std::fmt::Display + Copy>(x: T) -> Value { Value::String(x.to_string()) }
macro_rules! fields { ($p:ident; $($e:expr),*) => { vec![$($e),*] } }

fn array<const N: usize>(a: &[Value]) -> [f64; N] { let mut r = [0.0; N]; for i in 0..N { r[i] = vj::f(&a[i]); } r }
fn square<const N: usize>(a: &[Value]) -> [[f64; N]; N] { let mut r = [[0.0; N]; N]; for i in 0..N { r[i] = array(&a[i * N..]); } r }
fn flat(x: &[f64]) -> Vec<Value> { x.iter().map(|x| num(*x)).collect() }

/// Types of a given number of entries.
fn sized<const N: usize>(t: &str, a: &[Value], full: bool, out: &mut vj::Out) -> bool {
    let site = format!("{}[{}]", t, N);
    match t {
        "Concentrations" => case(&site, a, full, Concentrations::<N>::new(array(a)), &|p| flat(&p.0), None, out),
        "dirichlet" => case(&site, a, full, Concentrations::<N>::new(array(a)), &|p| flat(p.value()), Some(&via2::<Dirichlet<N>>), out),
        "SimplexVector" => case(&site, a, full, if N == 0 { Ok(SimplexVector::<N>::new_unchecked(array(a))) } else { SimplexVector::<N>::new(array(a)) }, &|p| flat(p.value()), None, out),
        "categorical" => case(&site, a, full, uv::categorical::Params::<N>::new(array(a)), &|p| flat(p.ps.value()), Some(&via2::<uv::categorical::Categorical<N>>), out),
        "multinomial" => case(&site, a, full, multinomial::Params::<N>::new(vj::u(&a[0]) as usize, array(&a[1..])),
            &|p| { let mut r = vec![v(p.n.0)]; r.extend(flat(p.ps.value())); r }, Some(&via2::<Multinomial<N>>), out),
        _ => return false,
    }
    true
}
macro_rules! small { ($n:literal, $t:expr, $a:expr, $full:expr, $out:expr) => {{
    let (t, a, full, out): (&str, &[Value], bool, &mut vj::Out) = ($t, $a, $full, $out);
    let site = format!("{}[{}]", t, $n);
    match t {
        "diagonal" => case(&site, a, full, nm::DiagonalNormalParams::<$n>::diagonal(array(a), array(&a[$n..])),
            &|p| { let mut r = flat(&p.mu.0); r.extend(flat(&p.Sigma.0)); r }, None, out),
        "isotropic" => case(&site, a, full, nm::IsotropicNormalParams::<$n>::isotropic(array(a), vj::f(&a[$n])),
            &|p| { let mut r = flat(&p.mu.0); r.push(num(p.Sigma.0)); r }, Some(&via2::<nm::IsotropicNormal<$n>>), out),
        "Loc<array>" => case(&site, a, full, Loc::<[f64; $n]>::new(array(a)), &|p| flat(&p.0), None, out),
        "full" => case(&site, a, full, nm::MvNormalParams::<$n>::multivariate(array(a), square(&a[$n..])),
            &|p| { let mut r = flat(&p.mu.0); for x in p.Sigma.0.iter() { r.extend(flat(x)); } r }, None, out),
        "full.Grad" => case(&site, a, full, Ok::<_, ()>(nm::Grad::<[f64; $n], [[f64; $n]; $n]> { mu: array(a), Sigma: square(&a[$n..]) }),
            &|p| { let mut r = flat(&p.mu); for x in p.Sigma.iter() { r.extend(flat(x)); } r }, None, out),
        t => panic!("type {}", t),
    }
}} }

type Mp2 = <Mixture<2, uv::exponential::Exponential> as Distribution>::Params;
type Mp3 = <Mixture<3, uv::cauchy::Cauchy> as Distribution>::Params;

fn one(t: &str, a: &[Value], full: bool, out: &mut vj::Out) {
    use uv::*;
    macro_rules! fr { ($x:ident, f) => { vj::f($x) }; ($x:ident, u) => { vj::u($x) as usize }; ($x:ident, i) => { vj::i($x) }; }
    macro_rules! show { ($x:expr, f) => { num($x) }; ($x:expr, u) => { v($x) }; ($x:expr, i) => { v($x) }; }
    // a record built by its constructor, its fields, and the distribution it parameterises
    macro_rules! p {
        ($d:ty, $p:ty: $($id:ident $k:ident),*) => {{
            let mut it = a.iter();
            $(let $id = { let x = it.next().unwrap(); fr!(x, $k) };)*
            case(t, a, full, <$p>::new($($id),*), &|p| fields![p; $(show!(*p.$id.value(), $k)),*], Some(&via2::<$d>), out)
        }};
    }
    macro_rules! w { ($p:ty, $k:ident) => {{
        let x = &a[0];
        case(t, a, full, <$p>::new(fr!(x, $k)), &|p| vec![show!(*p.value(), $k)], None, out)
    }} }
    match t {
        "Probability" => case(t, a, full, Probability::new(vj::f(&a[0])), &|p| vec![num(p.unwrap())], None, out),
        "Corr" => w!(Corr, f), "Loc" => w!(Loc<f64>, f), "Loc<i64>" => w!(Loc<i64>, i), "Scale" => w!(Scale<f64>, f),
        "Rate" => w!(Rate<f64>, f), "Shape" => w!(Shape<f64>, f), "DOF" => w!(DOF<usize>, u), "Count" => w!(Count<usize>, u),
        "Covariance" => case(t, a, full, Covariance::<f64>::isotropic(vj::f(&a[0])), &|p| vec![num(p.0)], None, out),
        "arcsine" => p!(arcsine::Arcsine, arcsine::Params: a f, w f),
        "bernoulli" => case(t, a, full, bernoulli::Params::new(vj::f(&a[0])), &|p| vec![num(p.p.unwrap())], Some(&via2::<bernoulli::Bernoulli>), out),
        "beta" => p!(beta::Beta, beta::Params: alpha f, beta f),
        "beta_binomial" => p!(beta_binomial::BetaBinomial, beta_binomial::Params: n u, alpha f, beta f),
        "beta_prime" => p!(beta_prime::BetaPrime, beta_prime::Params: alpha f, beta f),
        "binomial" => case(t, a, full, binomial::Params::new(vj::u(&a[0]) as usize, vj::f(&a[1])), &|p| vec![v(p.n.0), num(p.p.unwrap())], Some(&via2::<binomial::Binomial>), out),
        "cauchy" => p!(cauchy::Cauchy, cauchy::Params: x0 f, gamma f),
        "chi" => p!(chi::Chi, chi::Params: k u),
        "chi_sq" => p!(chi_sq::ChiSq, chi_sq::Params: k u),
        "cosine" => p!(cosine::Cosine, cosine::Params: mu f, s f),
        "erlang" => p!(erlang::Erlang, erlang::Params: k u, lambda f),
        "exponential" => p!(exponential::Exponential, exponential::Params: lambda f),
        "f_dist" => p!(f_dist::FDist, f_dist::Params: d1 u, d2 u),
        "folded_normal" => p!(folded_normal::FoldedNormal, folded_normal::Params: mu f, sigma f),
        "frechet" => p!(frechet::Frechet, frechet::Params: alpha f),
        "gamma" => p!(gamma::Gamma, gamma::Params: alpha f, beta f),
        "geometric" => case(t, a, full, geometric::Params::new(vj::f(&a[0])), &|p| vec![num(p.p.unwrap())], Some(&via2::<geometric::Geometric>), out),
        "gev" => p!(gev::GeneralisedExtremeValue, gev::Params: mu f, sigma f, zeta f),
        "gpd" => p!(gpd::GeneralisedPareto, gpd::Params: mu f, sigma f, zeta f),
        "gumbel" => p!(gumbel::Gumbel, gumbel::Params: mu f, beta f),
        "inverse_gamma" => p!(inverse_gamma::InvGamma, inverse_gamma::Params: alpha f, beta f),
        "inverse_normal" => p!(inverse_normal::InvNormal, inverse_normal::Params: mu f, lambda f),
        "kumaraswamy" => p!(kumaraswamy::Kumaraswamy, kumaraswamy::Params: a f, b f),
        "laplace" => p!(laplace::Laplace, laplace::Params: mu f, b f),
        "levy" => p!(levy::Levy, levy::Params: mu f, c f),
        "logistic" => p!(logistic::Logistic, logistic::Params: mu f, s f),
        "lognormal" => case(t, a, full, lognormal::Params::new(vj::f(&a[0]), vj::f(&a[1])), &|p| vec![num(p.mu.0), num(p.Sigma.0)], Some(&via2::<lognormal::LogNormal>), out),
        "normal" => case(t, a, full, nm::UvNormalParams::new(vj::f(&a[0]), vj::f(&a[1])), &|p| vec![num(p.mu.0), num(p.Sigma.0)], Some(&via2::<nm::UvNormal>), out),
        "normal.Grad" => case(t, a, full, Ok::<_, ()>(nm::Grad { mu: vj::f(&a[0]), Sigma: vj::f(&a[1]) }), &|p| vec![num(p.mu), num(p.Sigma)], None, out),
        "pareto" => p!(pareto::Pareto, pareto::Params: x_m f, alpha f),
        "poisson" => p!(poisson::Poisson, poisson::Params: lambda f),
        "rayleigh" => p!(rayleigh::Rayleigh, rayleigh::Params: sigma f),
        "student_t" => p!(student_t::StudentT, student_t::Params: nu f),
        "triangular" => p!(triangular::Triangular, triangular::Params: a f, a2c f, c2b f),
        "uniform" => p!(uniform::Uniform<f64>, uniform::Params<f64>: lb f, width f),
        "uniform<i64>" => p!(uniform::Uniform<i64>, uniform::Params<i64>: lb i, width i),
        "weibull" => p!(weibull::Weibull, weibull::Params: lambda f, k f),
        "degenerate" => case(t, a, full, Loc::new(vj::f(&a[0])), &|p| vec![num(p.0)], Some(&via2::<degenerate::Degenerate<f64>>), out),
        "degenerate<i64>" => case(t, a, full, Loc::new(vj::i(&a[0])), &|p| vec![v(p.0)], Some(&via2::<degenerate::Degenerate<i64>>), out),
        "bivariate" => case(t, a, full, nm::BvNormalParams::bivariate(array(a), array(&a[2..]), vj::f(&a[4])),
            &|p| { let mut r = flat(&p.mu.0); r.extend(flat(&(p.Sigma.0).0)); r.push(num((p.Sigma.0).1)); r }, Some(&via2::<nm::BvNormal>), out),
        "paired" => case(t, a, full, nm::PairedNormalParams::paired(array(a), array(&a[2..])),
            &|p| { let mut r = flat(&p.mu.0); r.extend(flat(&p.Sigma.0)); r }, Some(&via2::<nm::PairedNormal>), out),
        "mixture.exponential" => {
            let q = vj::f(&a[0]);
            let ps = [q, 1.0 - q];
            let args: Vec<Value> = vec![num(ps[0]), num(ps[1]), a[1].clone(), a[2].clone()];
            let cs: Result<Vec<_>, failure::Error> = a[1..].iter().map(|x| exponential::Params::new(vj::f(x))).collect();
            case(t, &args, full, cs.map(|cs| Mp2 { ps: SimplexVector::new_unchecked(ps), component_params: cs }),
                &|p| { let mut r = flat(p.ps.value()); r.extend(p.component_params.iter().map(|c| num(c.lambda.0))); r },
                Some(&via2::<Mixture<2, exponential::Exponential>>), out)
        },
        "mixture.cauchy" => {
            let q = vj::f(&a[0]);
            let ps = [q / 2.0, 1.0 - q, q / 2.0];
            let mut args: Vec<Value> = flat(&ps);
            args.extend(a[1..].iter().cloned());
            let cs: Result<Vec<_>, failure::Error> = a[1..].chunks(2).map(|x| cauchy::Params::new(vj::f(&x[0]), vj::f(&x[1]))).collect();
            case(t, &args, full, cs.map(|cs| Mp3 { ps: SimplexVector::new_unchecked(ps), component_params: cs }),
                &|p| { let mut r = flat(p.ps.value()); for c in p.component_params.iter() { r.push(num(c.x0.0)); r.push(num(c.gamma.0)); } r },
                Some(&via2::<Mixture<3, cauchy::Cauchy>>), out)
        },
        t => panic!("type {}", t),
    }
}
macro_rules! by_size { ($n:expr, $t:expr, $a:expr, $full:expr, $out:expr; $($k:literal)*) => {
    match $n { $($k => sized::<$k>($t, $a, $full, $out),)* n => panic!("size {}", n) }
} }

pub fn run(input: &str, out: &mut vj::Out) {
    let mut seen = std::collections::HashMap::<String, usize>::new();
    for l in vj::lines(input) {
        let t = vj::s(&l["type"]);
        let n = vj::i(&l["n"]) as usize;
        let a = l["args"].as_array().unwrap();
        // documents around the first few values of each type, bare round trips around the rest
        let k = seen.entry(format!("{}/{}", t, n)).or_insert(0);
        *k += 1;
        let full = *k <= if vj::thorough() { 12 } else { 3 };
        match t {
            "Concentrations" | "SimplexVector" | "categorical" | "multinomial" | "dirichlet" => {
                by_size!(n, t, a, full, out; 0 1 2 3 4 5 8 16 31 32 33 40 64);
            },
            "diagonal" | "isotropic" | "Loc<array>" | "full" | "full.Grad" => match n {
                1 => small!(1, t, a, full, out), 2 => small!(2, t, a, full, out), 3 => small!(3, t, a, full, out),
                4 => small!(4, t, a, full, out), 5 => small!(5, t, a, full, out), n => panic!("size {}", n),
            },
            _ => one(t, a, full, out),
        }
    }
}
