//! Likelihoods, scores and maximum-likelihood fits.
use crate::laws::Pt;
use rstat::fitting::{Likelihood, Score, MLE};
use rstat::params::Param;
use rstat::univariate as uv;
use rstat::{Distribution, Sample};
use vj::{gnum, guard, json, num, nums, panicked, Value};

fn reals(v: &Value) -> Vec<f64> { vj::fs(v) }
fn lists(e: &Value) -> &Vec<Value> { e["lists"].as_array().unwrap() }

fn liks<D: Likelihood + Score>(d: &D, e: &Value, parse: impl Fn(&Value) -> Option<Sample<D>>, grad: impl Fn(D::Grad) -> Vec<f64>, out: &mut vj::Out)
where Sample<D>: Clone {
    for l in lists(e) {
        let xs: Option<Vec<Sample<D>>> = l.as_array().unwrap().iter().map(|x| parse(x)).collect();
        let xs = match xs { Some(x) => x, None => continue };
        let mut rev = xs.clone();
        rev.reverse();
        out.put(json!({"ev": "lik", "xs": l, "ll": gnum(|| d.log_likelihood(&xs)), "rev": gnum(|| d.log_likelihood(&rev)),
            "lik": gnum(|| d.likelihood(&xs)),
            "score": match guard(|| grad(d.score(&xs))) { Ok(g) => nums(&g), Err(m) => json!([panicked(&m)]) }}));
    }
}
fn fits<D: MLE>(e: &Value, parse: impl Fn(&Value) -> Option<Sample<D>>, par: impl Fn(D::Params) -> Vec<f64>, out: &mut vj::Out) {
    for l in lists(e) {
        let xs: Option<Vec<Sample<D>>> = l.as_array().unwrap().iter().map(|x| parse(x)).collect();
        let xs = match xs { Some(x) => x, None => continue };
        let (made, p) = match guard(|| D::fit_mle(&xs).map(|d| par(d.params()))) {
            Ok(Ok(p)) => (json!("ok"), nums(&p)),
            Ok(Err(_)) => (json!("err"), json!([])),
            Err(m) => (panicked(&m), json!([])),
        };
        out.put(json!({"ev": "fit", "xs": l, "made": made, "p": p}));
    }
}
fn one<V: Pt>(v: &Value) -> Option<V> { V::parse(vj::s(v)) }
fn two(v: &Value) -> Option<[f64; 2]> { let r = reals(v); Some([r[0], r[1]]) }

fn job(e: &Value, out: &mut vj::Out) {
    let fam = vj::s(&e["fam"]);
    let p = reals(&e["p"]);
    let begin = |made: bool, out: &mut vj::Out| out.put(json!({"ev": "begin", "fam": fam, "p": e["p"], "made": if made { "ok" } else { "err" }}));
    macro_rules! go { ($d:expr, $parse:expr, $grad:expr) => { {
        let d = guard(|| $d.ok()).ok().and_then(|x| x);
        begin(d.is_some(), out);
        if let Some(d) = d { liks(&d, e, $parse, $grad, out); }
    } } }
    match fam {
        "bernoulli" => {
            go!(uv::bernoulli::Bernoulli::new(p[0]), one, |g| vec![g.p]);
            fits::<uv::bernoulli::Bernoulli>(e, one, |q| vec![q.p.unwrap()], out);
        },
        "beta" => go!(uv::beta::Beta::new(p[0], p[1]), one, |g| vec![g.alpha, g.beta]),
        "gamma" => go!(uv::gamma::Gamma::new(p[0], p[1]), one, |g| vec![g.alpha, g.beta]),
        "normal" => {
            go!(uv::normal::Normal::new(p[0], p[1]), one, |g| vec![g.mu, g.Sigma]);
            fits::<uv::normal::Normal>(e, one, |q| vec![*q.mu.value(), *q.Sigma.value()], out);
        },
        "poisson" => {
            go!(uv::poisson::Poisson::new(p[0]), one, |g| vec![g.lambda]);
            fits::<uv::poisson::Poisson>(e, one, |q| vec![*q.lambda.value()], out);
        },
        "paired_normal" => go!(rstat::normal::PairedNormal::new([p[0], p[1]], [p[2], p[3]]), two, |g| vec![g.mu[0], g.mu[1], g.Sigma[0], g.Sigma[1]]),
        f => panic!("family {}", f),
    }
}
pub fn run(input: &str, out: &mut vj::Out) {
    let ls: Vec<Value> = vj::lines(input).collect();
    vj::parallel(&ls, out, |e, o| job(e, o));
    let _ = num;
}
