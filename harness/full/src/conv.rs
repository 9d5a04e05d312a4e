//! Histories of convolutions.
use rstat::params::Param;
use rstat::statistics::UvMoments;
use rstat::univariate::{bernoulli::Bernoulli, binomial::Binomial, cauchy::Cauchy, chi_sq::ChiSq, exponential::Exponential, gamma::Gamma, normal::Normal, poisson::Poisson};
use rstat::{ContinuousDistribution, Convolution, DiscreteDistribution, Distribution, Probability};
use vj::{gnum, guard, json, num, panicked, Value};

#[derive(Clone)]
enum Rv { Bern(Bernoulli), Bin(Binomial), Cau(Cauchy), Chi(ChiSq), Exp(Exponential), Gam(Gamma), Nor(Normal), Poi(Poisson) }
use Rv::*;
type R = Result<Rv, String>;

fn make(e: &Value) -> R {
    let p: Vec<String> = e["p"].as_array().unwrap().iter().map(|v| vj::s(v).to_string()).collect();
    let f = |i: usize| p[i].parse::<f64>().unwrap();
    let u = |i: usize| crate::laws::int(&p[i]).unwrap() as usize;
    let er = |e: failure::Error| e.to_string();
    match vj::s(&e["fam"]) {
        "bernoulli" => Bernoulli::new(f(0)).map(Bern).map_err(er),
        "binomial" => Binomial::new(u(0), Probability::new(f(1)).unwrap()).map(Bin).map_err(er),
        "cauchy" => Cauchy::new(f(0), f(1)).map(Cau).map_err(er),
        "chi_sq" => ChiSq::new(u(0)).map(Chi).map_err(er),
        "exponential" => Exponential::new(f(0)).map(Exp).map_err(er),
        "gamma" => Gamma::new(f(0), f(1)).map(Gam).map_err(er),
        "normal" => Normal::new(f(0), f(1)).map(Nor).map_err(er),
        "poisson" => Poisson::new(f(0)).map(Poi).map_err(er),
        x => panic!("family {}", x),
    }
}
fn one(a: Rv, b: Rv) -> R {
    let e = |e: failure::Error| e.to_string();
    match (a, b) {
        (Bern(a), Bern(b)) => a.convolve(b).map(Bin).map_err(e),
        (Bin(a), Bern(b)) => a.convolve(b).map(Bin).map_err(e),
        (Bin(a), Bin(b)) => a.convolve(b).map(Bin).map_err(e),
        (Cau(a), Cau(b)) => a.convolve(b).map(Cau).map_err(e),
        (Chi(a), Chi(b)) => a.convolve(b).map(Chi).map_err(e),
        (Gam(a), Gam(b)) => a.convolve(b).map(Gam).map_err(e),
        (Gam(a), Exp(b)) => a.convolve(b).map(Gam).map_err(e),
        (Nor(a), Nor(b)) => a.convolve(b).map(Nor).map_err(e),
        (Poi(a), Poi(b)) => a.convolve(b).map(Poi).map_err(e),
        _ => panic!("not offered"),
    }
}
macro_rules! all { ($v:expr, $K:ident) => { $v.into_iter().map(|x| if let $K(y) = x { y } else { panic!("mixed") }).collect::<Vec<_>>() } }
/// `like` is a member of the family that is added
fn many(a: Rv, bs: Vec<Rv>, like: &Rv) -> R {
    let e = |e: failure::Error| e.to_string();
    match (a, like) {
        (Bern(a), Bern(_)) => a.convolve_many(all!(bs, Bern)).map(Bin).map_err(e),
        (Bin(a), Bern(_)) => a.convolve_many(all!(bs, Bern)).map(Bin).map_err(e),
        (Bin(a), Bin(_)) => a.convolve_many(all!(bs, Bin)).map(Bin).map_err(e),
        (Cau(a), Cau(_)) => a.convolve_many(all!(bs, Cau)).map(Cau).map_err(e),
        (Chi(a), Chi(_)) => a.convolve_many(all!(bs, Chi)).map(Chi).map_err(e),
        (Gam(a), Gam(_)) => a.convolve_many(all!(bs, Gam)).map(Gam).map_err(e),
        (Gam(a), Exp(_)) => a.convolve_many(all!(bs, Exp)).map(Gam).map_err(e),
        (Nor(a), Nor(_)) => a.convolve_many(all!(bs, Nor)).map(Nor).map_err(e),
        (Poi(a), Poi(_)) => a.convolve_many(all!(bs, Poi)).map(Poi).map_err(e),
        _ => panic!("not offered"),
    }
}
fn cpts<D: Distribution + ContinuousDistribution>(d: &D, xs: Vec<f64>, show: impl Fn(&D, f64) -> Value) -> Value { Value::Array(xs.into_iter().map(|x| show(d, x)).collect()) }
const ZS: [f64; 6] = [-4.0, -1.5, -0.2, 0.3, 1.0, 5.0];
fn seen(r: &Rv, res: &mut Value) {
    macro_rules! cont { ($d:expr, $m:expr, $s:expr) => { { let d = $d; let (m, s) = ($m, $s);
        cpts(d, ZS.iter().map(|z| m + z * s).collect(), |d, x| json!([num(x), gnum(|| d.cdf(&x).unwrap()), gnum(|| d.pdf(&x))])) } } }
    macro_rules! disc { ($d:expr, $t:ty, $m:expr, $s:expr) => { { let d = $d; let (m, s): (f64, f64) = ($m, $s);
        let mut ks: Vec<$t> = ZS.iter().map(|z| (m + z * s).max(0.0) as $t).collect(); ks.dedup();
        Value::Array(ks.iter().map(|k| json!([format!("{}", k), gnum(|| d.cdf(k).unwrap()), gnum(|| d.pmf(k).unwrap())])).collect()) } } }
    let (fam, p, pts, mean, var) = match r {
        Bern(d) => { let q = d.params(); ("bernoulli", vec![num(q.p.unwrap())], json!([]), gnum(|| d.mean()), gnum(|| d.variance())) },
        Exp(d) => { let q = d.params(); ("exponential", vec![num(*q.lambda.value())], json!([]), gnum(|| d.mean()), gnum(|| d.variance())) },
        Bin(d) => { let q = d.params(); ("binomial", vec![json!(q.n.value().to_string()), num(q.p.unwrap())],
            disc!(d, usize, *q.n.value() as f64 * q.p.unwrap(), (*q.n.value() as f64 * q.p.unwrap() * (1.0 - q.p.unwrap())).sqrt()), gnum(|| d.mean()), gnum(|| d.variance())) },
        Poi(d) => { let q = d.params(); ("poisson", vec![num(*q.lambda.value())], disc!(d, u64, *q.lambda.value(), q.lambda.value().sqrt()), gnum(|| d.mean()), gnum(|| d.variance())) },
        Cau(d) => { let q = d.params(); ("cauchy", vec![num(*q.x0.value()), num(*q.gamma.value())], cont!(d, *q.x0.value(), *q.gamma.value()), json!("NaN"), json!("NaN")) },
        Nor(d) => { let q = d.params(); ("normal", vec![num(*q.mu.value()), num(*q.Sigma.value())], cont!(d, *q.mu.value(), q.Sigma.value().sqrt()), gnum(|| d.mean()), gnum(|| d.variance())) },
        Chi(d) => { let q = d.params(); let k = *q.k.value(); ("chi_sq", vec![json!(k.to_string())], cont!(d, k as f64, (2.0 * k as f64).sqrt()), gnum(|| d.mean()), gnum(|| d.variance())) },
        Gam(d) => { let q = d.params(); let (a, b) = (*q.alpha.value(), *q.beta.value());
            ("gamma", vec![num(a), num(b)], cont!(d, a / b, a.sqrt() / b), gnum(|| d.mean()), gnum(|| d.variance())) },
    };
    res["fam"] = json!(fam);
    res["p"] = Value::Array(p);
    res["pts"] = pts;
    res["mean"] = mean;
    res["var"] = var;
}
fn job(h: &Value, out: &mut vj::Out) {
    let made: Vec<R> = h["start"].as_array().unwrap().iter().map(|e| guard(|| make(e)).unwrap_or_else(|m| Err(m))).collect();
    let ok = made.iter().all(|r| r.is_ok());
    out.put(json!({"ev": "begin", "start": h["start"], "made": if ok { "ok" } else { "err" }}));
    if !ok { return; }
    let mut pool: Vec<Rv> = made.into_iter().map(|r| r.unwrap()).collect();
    for s in h["steps"].as_array().unwrap() {
        let i = vj::u(&s["i"]) as usize - 1;
        let js: Vec<usize> = s["js"].as_array().unwrap().iter().map(|j| vj::u(j) as usize - 1).collect();
        let bs: Vec<Rv> = js.iter().map(|j| pool[*j].clone()).collect();
        let a = pool[i].clone();
        // a single operand goes both ways
        for k in if js.len() == 1 { vec!["many", "one"] } else { vec!["many"] } {
            let like = bs.get(0).cloned().unwrap_or(a.clone());
            let (a, bs) = (a.clone(), bs.clone());
            let many_ok = !matches!((&a, &like), (Exp(_), _));
            if !many_ok { continue; }
            let r = guard(|| if k == "one" { one(a, bs[0].clone()) } else { many(a, bs, &like) });
            let mut e = json!({"ev": "add", "k": k, "i": s["i"], "js": s["js"]});
            match &r {
                Ok(Ok(v)) => { e["res"] = json!("ok"); seen(v, &mut e); },
                Ok(Err(_)) => e["res"] = json!("err"),
                Err(m) => e["res"] = panicked(m),
            }
            let last = k == "one" || js.len() != 1;
            if !last { e["ev"] = json!("try"); }
            out.put(e);
            if last {
                match r { Ok(Ok(v)) => pool[i] = v, _ => return }
                let mut d = js.clone();
                d.sort();
                for j in d.iter().rev() { pool.remove(*j); }
            }
        }
    }
}
pub fn run(input: &str, out: &mut vj::Out) {
    let hs: Vec<Value> = vj::lines(input).collect();
    vj::parallel(&hs, out, |h, o| job(h, o));
}
