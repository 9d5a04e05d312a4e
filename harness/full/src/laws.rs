//! Univariate distributions: everything a user can ask of one, on given laws.
use rstat::params::Param;
use rstat::statistics::{FisherInformation, Modes, Quantiles, ShannonEntropy, UvMoments};
use rstat::univariate as uv;
use rstat::{ContinuousDistribution, DiscreteDistribution, Distribution, Probability, Sample};
use spaces::{intervals::Interval, OrderedSpace, Space};
use vj::{gnum, guard, json, num, panicked, Value};

/// A point of the sample space as it travels.
pub trait Pt: Sized + Clone + PartialOrd {
    fn parse(s: &str) -> Option<Self>;
    fn show(&self) -> Value;
    fn real(&self) -> f64;
}
impl Pt for f64 {
    fn parse(s: &str) -> Option<f64> { s.parse().ok().filter(|x: &f64| !x.is_nan()) }
    fn show(&self) -> Value { num(*self) }
    fn real(&self) -> f64 { *self }
}
pub fn int(s: &str) -> Option<i128> {
    if let Ok(i) = s.parse::<i128>() { return Some(i); }
    s.parse::<f64>().ok().filter(|x| x.fract() == 0.0 && x.abs() < 1e30).map(|x| x as i128)
}
macro_rules! pt_int { ($($t:ty),*) => {$(impl Pt for $t {
    fn parse(s: &str) -> Option<$t> { use std::convert::TryFrom; int(s).and_then(|i| <$t>::try_from(i).ok()) }
    fn show(&self) -> Value { Value::String(format!("{}", self)) }
    fn real(&self) -> f64 { *self as f64 }
})*} }
pt_int!(u64, usize, i64);
impl Pt for bool {
    fn parse(s: &str) -> Option<bool> { match int(s) { Some(0) => Some(false), Some(1) => Some(true), _ => None } }
    fn show(&self) -> Value { Value::String(if *self { "1" } else { "0" }.into()) }
    fn real(&self) -> f64 { *self as u8 as f64 }
}
pub trait Has<V> { fn has(&self, v: &V) -> bool; }
impl<L: spaces::bounds::Bound, R: spaces::bounds::Bound<Value = L::Value>> Has<L::Value> for Interval<L, R> {
    fn has(&self, v: &L::Value) -> bool { self.contains(v) }
}
impl Has<bool> for spaces::discrete::Binary { fn has(&self, _: &bool) -> bool { true } }

/// A quantity read off a distribution: its name, what it was asked at, and the answer.
pub type Reading = (&'static str, f64, Value);
fn rd(name: &'static str, f: impl Fn() -> f64) -> Reading { (name, 0.0, gnum(f)) }
const ZS: [f64; 4] = [0.0, 1.0, -2.5, 1e6];

pub struct Obs<D: Distribution> {
    pub fam: &'static str,
    pub new: Box<dyn Fn(&[String]) -> Result<D, ()>>,
    pub raw: Box<dyn Fn(&[String]) -> D>,
    pub par: fn(&D::Params) -> Vec<Value>,
    pub den: Option<fn(&D, &Sample<D>) -> Value>,
    pub lden: Option<fn(&D, &Sample<D>) -> Value>,
    pub mom: Option<fn(&D) -> Value>,
    pub quant: Option<fn(&D, &[f64]) -> Value>,
    pub quart: Option<fn(&D) -> Value>,
    pub modes: Option<fn(&D) -> Value>,
    pub ent: Option<fn(&D) -> Value>,
    pub fisher: Option<fn(&D) -> Value>,
    pub copy: Option<fn(&D) -> D>,
    pub def: Option<fn() -> D>,
    pub text: Option<fn(&D) -> String>,
    pub acc: Option<fn(&D) -> Vec<Reading>>,
}
impl<D: Distribution> Obs<D> {
    pub fn of(fam: &'static str, new: impl Fn(&[String]) -> Result<D, ()> + 'static, raw: impl Fn(&[String]) -> D + 'static,
          par: fn(&D::Params) -> Vec<Value>) -> Obs<D> {
        Obs { fam, new: Box::new(new), raw: Box::new(raw), par, den: None, lden: None, mom: None, quant: None, quart: None,
              modes: None, ent: None, fisher: None, copy: None, def: None, text: None, acc: None }
    }
    pub fn cont(mut self) -> Self where D: ContinuousDistribution {
        self.den = Some(|d, x| gnum(|| d.pdf(x)));
        self.lden = Some(|d, x| gnum(|| d.log_pdf(x)));
        self
    }
    pub fn disc(mut self) -> Self where D: DiscreteDistribution {
        self.den = Some(|d, x| gnum(|| d.pmf(x).unwrap()));
        self.lden = Some(|d, x| gnum(|| d.log_pmf(x)));
        self
    }
    pub fn mom(mut self) -> Self where D: UvMoments {
        self.mom = Some(|d| json!({"mean": gnum(|| d.mean()), "variance": gnum(|| d.variance()),
            "standard_deviation": gnum(|| d.standard_deviation()), "skewness": gnum(|| d.skewness()),
            "kurtosis": gnum(|| d.kurtosis()), "excess_kurtosis": gnum(|| d.excess_kurtosis())}));
        self
    }
    pub fn quant(mut self) -> Self where D: Quantiles {
        self.quant = Some(|d, ps| Value::Array(ps.iter().map(|p| { let q = Probability::new(*p).unwrap();
            json!({"p": num(*p), "q": gnum(|| d.quantile(q)), "cq": gnum(|| d.cquantile(q))}) }).collect()));
        self.quart = Some(|d| json!({"median": gnum(|| d.median()), "lower_quartile": gnum(|| d.lower_quartile()),
            "upper_quartile": gnum(|| d.upper_quartile()), "iqr": gnum(|| d.iqr()),
            "lower_fence": gnum(|| d.lower_fence()), "upper_fence": gnum(|| d.upper_fence())}));
        self
    }
    pub fn modes(mut self) -> Self where D: Modes, Sample<D>: Pt {
        self.modes = Some(|d| match guard(|| d.modes()) {
            Ok(m) => Value::Array(m.iter().map(|x| x.show()).collect()),
            Err(m) => panicked(&m),
        });
        self
    }
    pub fn ent(mut self) -> Self where D: ShannonEntropy { self.ent = Some(|d| gnum(|| d.shannon_entropy())); self }
    pub fn fisher<const N: usize>(mut self) -> Self where D: FisherInformation<N> {
        self.fisher = Some(|d| match guard(|| d.fisher_information()) {
            Ok(m) => vj::mat(&m),
            Err(m) => panicked(&m),
        });
        self
    }
    pub fn copy(mut self) -> Self where D: Clone { self.copy = Some(|d| d.clone()); self }
    pub fn show(mut self) -> Self where D: std::fmt::Display { self.text = Some(|d| format!("{}", d)); self }
    pub fn acc(mut self, f: fn(&D) -> Vec<Reading>) -> Self { self.acc = Some(f); self }
    pub fn def(mut self) -> Self where D: Default { self.def = Some(D::default); self }
}
/// A printed text with every number replaced by #, and the numbers.
pub fn skeleton(t: &str) -> (String, Vec<Value>) {
    let c: Vec<char> = t.chars().collect();
    let (mut skel, mut ns, mut i) = (String::new(), vec![], 0);
    while i < c.len() {
        let at = |k: usize| c.get(k).copied().unwrap_or(' ');
        let fresh = i == 0 || !at(i - 1).is_alphanumeric();
        let s = if at(i) == '-' { i + 1 } else { i };
        if fresh && (at(s).is_ascii_digit() || (s > i && at(s) == 'i')) || (fresh && c[s..].starts_with(&['i', 'n', 'f'])) {
            let mut j = s;
            while j < c.len() && (at(j).is_ascii_alphanumeric() || (at(j) == '.' && at(j + 1).is_ascii_digit()) || (at(j) == '-' && at(j - 1) == 'e')) { j += 1; }
            ns.push(Value::String(c[i..j].iter().collect()));
            skel.push('#');
            i = j;
        } else {
            skel.push(c[i]);
            i += 1;
        }
    }
    (skel, ns)
}
pub fn shown(d: &impl std::fmt::Display) -> Value {
    match guard(|| format!("{}", d)) {
        Ok(t) => { let (s, n) = skeleton(&t); json!({"text": s, "nums": n}) },
        Err(m) => json!({"text": panicked(&m), "nums": []}),
    }
}
fn cdf<D: Distribution>(d: &D, x: &Sample<D>) -> Value { gnum(|| d.cdf(x).unwrap()) }

/// Which events a property needs.
pub struct Ask { pub prop: String }
impl Ask { fn any(&self, ps: &[&str]) -> bool { ps.contains(&self.prop.as_str()) } }

const QS: [f64; 17] = [0.0, 1e-9, 1e-4, 0.01, 0.05, 0.1, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 0.95, 0.99, 0.9999, 0.999999999, 1.0];

fn bound<V: Pt>(v: Option<V>, none: &str) -> Value { v.map(|x| x.show()).unwrap_or(json!(none)) }

fn interrogate<D: Distribution>(o: &Obs<D>, d: &D, ask: &Ask, xs: &[Sample<D>], out: &mut vj::Out)
where Sample<D>: Pt, D::Support: Has<Sample<D>> + OrderedSpace {
    if ask.any(&["C08", "C09"]) {
        for x in xs {
            out.put(json!({"ev": "pt", "x": x.show(), "cdf": cdf(d, x), "ccdf": gnum(|| d.ccdf(x).unwrap()),
                "lcdf": gnum(|| d.log_cdf(x)), "lccdf": gnum(|| d.log_ccdf(x)),
                "den": (o.den.unwrap())(d, x), "lden": (o.lden.unwrap())(d, x)}));
        }
    }
    if ask.any(&["C10"]) { if let Some(f) = o.mom { out.put(json!({"ev": "mom", "m": f(d)})); } }
    if ask.any(&["C17"]) {
        if let Some(f) = o.ent { out.put(json!({"ev": "ent", "h": f(d)})); }
        if let Some(f) = o.fisher { out.put(json!({"ev": "fisher", "i": f(d)})); }
    }
    if ask.any(&["C11"]) {
        if let Some(f) = o.modes { out.put(json!({"ev": "modes", "at": f(d), "xs": xs.iter().map(|x| x.show()).collect::<Vec<_>>()})); }
        if let Some(f) = o.quant { out.put(json!({"ev": "q", "qs": f(d, &QS)})); }
        if let Some(f) = o.quart { out.put(json!({"ev": "quart", "v": f(d)})); }
    }
    if ask.any(&["C20"]) {
        if let Some(f) = o.text {
            let (t, n) = match guard(|| f(d)) { Ok(t) => skeleton(&t), Err(m) => (format!("panic: {}", m), vec![]) };
            out.put(json!({"ev": "show", "text": t, "nums": n}));
        }
        if let Some(f) = o.acc {
            for (name, x, v) in f(d) { out.put(json!({"ev": "acc", "name": name, "x": num(x), "v": v})); }
        }
    }
    if ask.any(&["C14"]) {
        let s = d.support();
        out.put(json!({"ev": "sup", "inf": bound(s.inf(), "-inf"), "sup": bound(s.sup(), "inf"),
            "has": xs.iter().map(|x| json!([x.show(), s.has(x)])).collect::<Vec<_>>()}));
        let mut few: Vec<Sample<D>> = vec![];
        let mut inside: Vec<&Sample<D>> = xs.iter().filter(|x| s.has(x)).collect();
        if inside.len() > 24 { inside = inside.into_iter().skip(6).collect(); }
        let step = (inside.len() / 5).max(1);
        for x in inside.iter().step_by(step) { few.push((*x).clone()); }
        let mut twin = |how: &str, e: Result<D, String>| match e {
            Ok(e) => {
                let t = e.support();
                out.put(json!({"ev": "twin", "how": how, "par": (o.par)(&e.params()), "inf": bound(t.inf(), "-inf"), "sup": bound(t.sup(), "inf"),
                    "same": few.iter().map(|x| json!([x.show(), cdf(d, x), cdf(&e, x), (o.den.unwrap())(d, x), (o.den.unwrap())(&e, x)])).collect::<Vec<_>>(),
                    "mom": o.mom.map(|f| json!([f(d), f(&e)])).unwrap_or(json!([]))}))
            },
            Err(m) => out.put(json!({"ev": "twin", "how": how, "par": [panicked(&m)], "inf": "NaN", "sup": "NaN", "same": [], "mom": []})),
        };
        twin("params", guard(|| D::from(d.params())));
        if let Some(c) = o.copy {
            twin("clone", guard(|| c(d)));
            twin("into_params", guard(|| D::from(c(d).into_params())));
            let t = c(d).into_support();
            out.put(json!({"ev": "sup", "inf": bound(t.inf(), "-inf"), "sup": bound(t.sup(), "inf"), "has": []}));
        }
    }
}

pub fn run_law<D: Distribution>(o: &Obs<D>, e: &Value, ask: &Ask, out: &mut vj::Out)
where Sample<D>: Pt, D::Support: Has<Sample<D>> + OrderedSpace {
    let p: Vec<String> = e["p"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
    let (made, d) = match guard(|| (o.new)(&p)) {
        Ok(Ok(d)) => (json!("ok"), Some(d)),
        Ok(Err(_)) => (json!("err"), None),
        Err(m) => (panicked(&m), None),
    };
    let got = |d: &D| match guard(|| (o.par)(&d.params())) { Ok(v) => Value::Array(v), Err(m) => json!([panicked(&m)]) };
    out.put(json!({"ev": "begin", "kind": e["kind"], "fam": o.fam, "p": p, "made": made, "got": d.as_ref().map(|d| got(d)).unwrap_or(json!([]))}));
    if e["kind"] == "make" { return; }
    let mut xs: Vec<Sample<D>> = e["xs"].as_array().unwrap().iter().filter_map(|v| Pt::parse(v.as_str().unwrap())).collect();
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    xs.dedup_by(|a, b| a == b);
    if let Some(d) = &d { interrogate(o, d, ask, &xs, out); }
    if ask.any(&["C14"]) {
        match guard(|| (o.raw)(&p)) {
            Ok(d) => {
                out.put(json!({"ev": "begin", "kind": "raw", "fam": o.fam, "p": p, "made": "ok", "got": got(&d)}));
                interrogate(o, &d, ask, &xs, out);
            },
            Err(m) => out.put(json!({"ev": "begin", "kind": "raw", "fam": o.fam, "p": p, "made": panicked(&m), "got": []})),
        }
    }
}
fn run_default<D: Distribution>(o: &Obs<D>, ask: &Ask, out: &mut vj::Out)
where Sample<D>: Pt, D::Support: Has<Sample<D>> + OrderedSpace {
    if let Some(f) = o.def {
        match guard(f) {
            Ok(d) => {
                let p = (o.par)(&d.params());
                out.put(json!({"ev": "begin", "kind": "default", "fam": o.fam, "p": p, "made": "ok", "got": p}));
                let xs: Vec<Sample<D>> = ["-1e300", "-3", "-1", "-0.5", "0", "0.2", "0.5", "0.9", "1", "2", "5", "1e300"].iter().filter_map(|s| Pt::parse(s)).collect();
                interrogate(o, &d, &Ask { prop: ask.prop.clone() }, &xs, out);
            },
            Err(m) => out.put(json!({"ev": "begin", "kind": "default", "fam": o.fam, "p": [panicked(&m)], "made": panicked(&m), "got": []})),
        }
    }
}

/// What is done with each family: given the family's name and a visitor.
pub trait Visit { fn on<D: Distribution>(&mut self, o: Obs<D>) where Sample<D>: Pt + Send, D::Support: Has<Sample<D>> + OrderedSpace; }

fn fl(p: &[String], i: usize) -> f64 { p[i].parse().unwrap() }
fn us(p: &[String], i: usize) -> usize { int(&p[i]).unwrap() as usize }
fn il(p: &[String], i: usize) -> i64 { int(&p[i]).unwrap() as i64 }
fn nu(x: usize) -> Value { Value::String(format!("{}", x)) }
fn ni(x: i64) -> Value { Value::String(format!("{}", x)) }

macro_rules! f1 { ($fam:expr, $T:path, $a:ident) => { {
    use $T as T; Obs::of($fam, |p| T::new(fl(p, 0)).map_err(|_| ()), |p| T::new_unchecked(fl(p, 0)), |q| vec![num(*q.$a.value())]) } } }
macro_rules! f2 { ($fam:expr, $T:path, $a:ident, $b:ident) => { {
    use $T as T; Obs::of($fam, |p| T::new(fl(p, 0), fl(p, 1)).map_err(|_| ()), |p| T::new_unchecked(fl(p, 0), fl(p, 1)),
        |q| vec![num(*q.$a.value()), num(*q.$b.value())]) } } }
macro_rules! f3 { ($fam:expr, $T:path, $a:ident, $b:ident, $c:ident) => { {
    use $T as T; Obs::of($fam, |p| T::new(fl(p, 0), fl(p, 1), fl(p, 2)).map_err(|_| ()), |p| T::new_unchecked(fl(p, 0), fl(p, 1), fl(p, 2)),
        |q| vec![num(*q.$a.value()), num(*q.$b.value()), num(*q.$c.value())]) } } }
macro_rules! cat { ($v:ident, $n:literal) => { $v.on(Obs::of("categorical",
    |p| uv::categorical::Categorical::<$n>::new(arr::<$n>(p)).map_err(|_| ()), |p| uv::categorical::Categorical::<$n>::new_unchecked(arr::<$n>(p)),
    |q| q.ps.iter().map(|x| num(*x)).collect()).disc().modes().copy().show()) } }
fn arr<const N: usize>(p: &[String]) -> [f64; N] { let mut a = [0.0; N]; for i in 0..N { a[i] = fl(p, i); } a }

pub fn visit<V: Visit>(fam: &str, n: usize, v: &mut V) {
    match fam {
        "arcsine" => v.on(f2!("arcsine", uv::arcsine::Arcsine, a, w).cont().mom().quant().modes().ent().copy().show().acc(|d| vec![rd("b", || d.params().b().0)]).def()),
        "beta" => v.on(f2!("beta", uv::beta::Beta, alpha, beta).cont().mom().quant().modes().ent().copy().show().def()),
        "beta_prime" => v.on(f2!("beta_prime", uv::beta_prime::BetaPrime, alpha, beta).cont().mom().modes().ent().copy().show().def()),
        "cauchy" => v.on(f2!("cauchy", uv::cauchy::Cauchy, x0, gamma).cont().quant().modes().ent().copy().show().acc(|d| vec![rd("fwhm", || d.fwhm())]).def()),
        "chi" => v.on(Obs::of("chi", |p| uv::chi::Chi::new(us(p, 0)).map_err(|_| ()), |p| uv::chi::Chi::new_unchecked(us(p, 0)),
            |q| vec![nu(*q.k.value())]).cont().mom().quant().modes().ent().copy().show()),
        "chi_sq" => v.on(Obs::of("chi_sq", |p| uv::chi_sq::ChiSq::new(us(p, 0)).map_err(|_| ()), |p| uv::chi_sq::ChiSq::new_unchecked(us(p, 0)),
            |q| vec![nu(*q.k.value())]).cont().mom().quant().modes().ent().copy().show()),
        "cosine" => v.on(f2!("cosine", uv::cosine::Cosine, mu, s).cont().mom().quant().modes().copy().show()),
        "erlang" => v.on(Obs::of("erlang", |p| uv::erlang::Erlang::new(us(p, 0), fl(p, 1)).map_err(|_| ()),
            |p| uv::erlang::Erlang::new_unchecked(us(p, 0), fl(p, 1)),
            |q| vec![nu(*q.k.value()), num(*q.lambda.value())]).cont().mom().modes().copy().show().acc(|d| vec![rd("mu", || d.mu())]).def()),
        "exponential" => v.on(f1!("exponential", uv::exponential::Exponential, lambda).cont().mom().quant().modes().ent().fisher::<1>().copy().show().def()),
        "f_dist" => v.on(Obs::of("f_dist", |p| uv::f_dist::FDist::new(us(p, 0), us(p, 1)).map_err(|_| ()),
            |p| uv::f_dist::FDist::new_unchecked(us(p, 0), us(p, 1)),
            |q| vec![nu(*q.d1.value()), nu(*q.d2.value())]).cont().mom().modes().ent().copy().show()),
        "folded_normal" => v.on(f2!("folded_normal", uv::folded_normal::FoldedNormal, mu, sigma).cont().mom().modes().copy().show().acc(|d| vec![rd("precision", || d.precision())]).def()),
        "frechet" => v.on(f1!("frechet", uv::frechet::Frechet, alpha).cont().mom().quant().modes().ent().copy().show().def()),
        "gamma" => v.on(f2!("gamma", uv::gamma::Gamma, alpha, beta).cont().mom().modes().ent().copy().show().def()),
        "gev" => v.on(f3!("gev", uv::gev::GeneralisedExtremeValue, mu, sigma, zeta).cont().mom().quant().modes().ent().copy().show()),
        "gpd" => v.on(f3!("gpd", uv::gpd::GeneralisedPareto, mu, sigma, zeta).cont().mom().quant().ent().copy().show()),
        "gumbel" => v.on(f2!("gumbel", uv::gumbel::Gumbel, mu, beta).cont().mom().quant().modes().ent().copy().show().acc(|d| ZS.iter().map(|x| ("z", *x, gnum(|| d.z(*x)))).collect()).def()),
        "inverse_gamma" => v.on(f2!("inverse_gamma", uv::inverse_gamma::InvGamma, alpha, beta).cont().mom().modes().ent().copy().show().def()),
        "inverse_normal" => v.on(f2!("inverse_normal", uv::inverse_normal::InvNormal, mu, lambda).cont().mom().modes().ent().copy().show()),
        "kumaraswamy" => v.on(Obs::of("kumaraswamy",
            |p| uv::kumaraswamy::Params::new(fl(p, 0), fl(p, 1)).map(uv::kumaraswamy::Kumaraswamy::from).map_err(|_| ()),
            |p| uv::kumaraswamy::Params::new_unchecked(fl(p, 0), fl(p, 1)).into(),
            |q| vec![num(*q.a.value()), num(*q.b.value())]).cont().mom().quant().modes().ent().copy().show().def()),
        "laplace" => v.on(f2!("laplace", uv::laplace::Laplace, mu, b).cont().mom().quant().modes().ent().copy().show()),
        "levy" => v.on(f2!("levy", uv::levy::Levy, mu, c).cont().mom().quant().modes().ent().copy().show()),
        "logistic" => v.on(f2!("logistic", uv::logistic::Logistic, mu, s).cont().mom().quant().modes().ent().copy().show()),
        "lognormal" => v.on(f2!("lognormal", uv::lognormal::LogNormal, mu, Sigma).cont().mom().quant().modes().ent().fisher::<2>().copy().show()),
        "normal" => v.on(f2!("normal", uv::normal::Normal, mu, Sigma).cont().mom().quant().modes().ent().fisher::<2>().copy().show().acc(|d| { let mut v: Vec<Reading> = ZS.iter().map(|x| ("z", *x, gnum(|| d.z(*x)))).collect(); v.push(rd("precision", || d.precision())); v.push(rd("width", || d.width())); v })),
        "pareto" => v.on(f2!("pareto", uv::pareto::Pareto, x_m, alpha).cont().mom().quant().modes().ent().fisher::<2>().copy().show()),
        "rayleigh" => v.on(f1!("rayleigh", uv::rayleigh::Rayleigh, sigma).cont().mom().quant().modes().ent().copy().show()),
        "student_t" => v.on(f1!("student_t", uv::student_t::StudentT, nu).cont().mom().quant().modes().ent().copy().show()),
        "triangular" => v.on(f3!("triangular", uv::triangular::Triangular, a, a2c, c2b).cont().mom().quant().modes().ent().copy().show().acc(|d| vec![rd("c", || d.params().c()), rd("b", || d.params().b())])),
        "uniform" => v.on(Obs::of("uniform", |p| uv::uniform::Uniform::<f64>::new(fl(p, 0), fl(p, 1)).map_err(|_| ()),
            |p| uv::uniform::Uniform::<f64>::new_unchecked(fl(p, 0), fl(p, 1)),
            |q| vec![num(*q.lb.value()), num(*q.width.value())]).cont().mom().quant().ent().copy().show().acc(|d| vec![rd("lb", || *d.params().lb().value()), rd("width", || *d.params().width().value())]).def()),
        "weibull" => v.on(Obs::of("weibull",
            |p| uv::weibull::Params::new(fl(p, 0), fl(p, 1)).map(uv::weibull::Weibull::from).map_err(|_| ()),
            |p| uv::weibull::Params::new_unchecked(fl(p, 0), fl(p, 1)).into(),
            |q| vec![num(*q.lambda.value()), num(*q.k.value())]).cont().mom().quant().modes().ent().copy().show()),
        "degenerate_f" => v.on(Obs::of("degenerate_f", |p| Ok(uv::degenerate::Degenerate::<f64>::new(fl(p, 0))), |p| uv::degenerate::Degenerate::<f64>::new(fl(p, 0)),
            |q| vec![num(*q.value())]).cont().mom().quant().modes().ent().copy().show().def()),
        "degenerate_i" => v.on(Obs::of("degenerate_i", |p| Ok(uv::degenerate::Degenerate::<i64>::new(il(p, 0))), |p| uv::degenerate::Degenerate::<i64>::new(il(p, 0)),
            |q| vec![ni(*q.value())]).disc().mom().quant().modes().ent().copy().show().def()),
        "bernoulli" => v.on(Obs::of("bernoulli", |p| uv::bernoulli::Bernoulli::new(fl(p, 0)).map_err(|_| ()),
            |p| uv::bernoulli::Bernoulli::new_unchecked(fl(p, 0)),
            |q| vec![num(q.p.unwrap())]).disc().mom().quant().modes().ent().fisher::<1>().copy().show()),
        "beta_binomial" => v.on(Obs::of("beta_binomial", |p| uv::beta_binomial::BetaBinomial::new(us(p, 0), fl(p, 1), fl(p, 2)).map_err(|_| ()),
            |p| uv::beta_binomial::BetaBinomial::new_unchecked(us(p, 0), fl(p, 1), fl(p, 2)),
            |q| vec![nu(*q.n.value()), num(*q.alpha.value()), num(*q.beta.value())]).disc().mom().copy().show()),
        "binomial" => v.on(Obs::of("binomial", |p| prob(p, 1).and_then(|x| uv::binomial::Binomial::new(us(p, 0), x).map_err(|_| ())),
            |p| uv::binomial::Binomial::new_unchecked(us(p, 0), Probability::new_unchecked(fl(p, 1))),
            |q| vec![nu(*q.n.value()), num(q.p.unwrap())]).disc().mom().quant().modes().ent().fisher::<1>().copy().show()),
        "geometric" => v.on(Obs::of("geometric", |p| uv::geometric::Geometric::new(fl(p, 0)).map_err(|_| ()),
            |p| uv::geometric::Geometric::new_unchecked(fl(p, 0)),
            |q| vec![num(q.p.unwrap())]).disc().mom().quant().modes().ent().copy().show()),
        "poisson" => v.on(f1!("poisson", uv::poisson::Poisson, lambda).disc().mom().quant().modes().ent().fisher::<1>().copy().show()),
        "uniform_int" => v.on(Obs::of("uniform_int", |p| uv::uniform::Uniform::<i64>::new(il(p, 0), us(p, 1) as u64).map_err(|_| ()),
            |p| uv::uniform::Uniform::<i64>::new_unchecked(il(p, 0), us(p, 1) as u64),
            |q| vec![ni(*q.lb.value()), ni(*q.width.value())]).disc().mom().quant().ent().copy().show().acc(|d| vec![("lb", 0.0, ni(*d.params().lb().value())), ("width", 0.0, Value::String(d.params().width().value().to_string())), ("span", 0.0, Value::String(d.span().to_string()))])),
        "categorical" => match n {
            1 => cat!(v, 1), 2 => cat!(v, 2), 3 => cat!(v, 3), 4 => cat!(v, 4), 5 => cat!(v, 5), _ => panic!("{} categories", n),
        },
        f => panic!("family {}", f),
    }
}
fn prob(p: &[String], i: usize) -> Result<Probability, ()> { Probability::new(fl(p, i)).map_err(|_| ()) }

struct Law<'a> { e: &'a Value, ask: &'a Ask, out: &'a mut vj::Out }
impl<'a> Visit for Law<'a> {
    fn on<D: Distribution>(&mut self, o: Obs<D>) where Sample<D>: Pt, D::Support: Has<Sample<D>> + OrderedSpace {
        run_law(&o, self.e, self.ask, self.out)
    }
}
struct Default_<'a> { ask: &'a Ask, out: &'a mut vj::Out }
impl<'a> Visit for Default_<'a> {
    fn on<D: Distribution>(&mut self, o: Obs<D>) where Sample<D>: Pt, D::Support: Has<Sample<D>> + OrderedSpace {
        run_default(&o, self.ask, self.out)
    }
}
pub fn run(prop: &str, input: &str, out: &mut vj::Out) {
    let ask = Ask { prop: prop.to_string() };
    let mut fams: Vec<String> = vec![];
    for e in vj::lines(input) {
        if e["kind"] == "make" && prop != "C14" { continue; }
        let fam = vj::s(&e["fam"]).to_string();
        visit(&fam, e["p"].as_array().unwrap().len(), &mut Law { e: &e, ask: &ask, out });
        if !fams.contains(&fam) { fams.push(fam); }
    }
    if prop == "C20" {
        for k in 0..=64u32 {
            let p = if k < 17 { QS[k as usize] } else { (k as f64 * 0.6180339887498949).fract() * 10f64.powi(-((k % 9) as i32)) };
            let mut e = shown(&Probability::new_unchecked(p));
            e["ev"] = json!("prob");
            e["p"] = num(p);
            out.put(e);
        }
    }
    if ["C14", "C20"].contains(&prop) { for f in fams { visit(&f, 3, &mut Default_ { ask: &ask, out }); } }
}
