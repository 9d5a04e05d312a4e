//! Samples: large ones against the law, short histories of requests against each other.
use crate::laws::{visit, Has, Obs, Pt, Visit};
use crate::simplex::Script;
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use rstat::{Distribution, Sample};
use spaces::{OrderedSpace, Space};
use vj::{guard, json, num, panicked, Value};

/// Given words first, then a proper generator.
#[derive(Clone)]
pub struct Prefixed { pub head: Script, pub tail: StdRng }
impl RngCore for Prefixed {
    fn next_u32(&mut self) -> u32 { if self.head.at < self.head.words.len() { self.head.next_u32() } else { self.tail.next_u32() } }
    fn next_u64(&mut self) -> u64 { if self.head.at < self.head.words.len() { self.head.next_u64() } else { self.tail.next_u64() } }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.tail.fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.tail.fill_bytes(d); Ok(()) }
}
pub const HEADS: [&[u64]; 10] = [&[0], &[u64::MAX], &[0, 0], &[u64::MAX, u64::MAX], &[0, u64::MAX], &[u64::MAX, 0],
    &[1 << 63], &[(1 << 63) - 1], &[1 << 11], &[0, 0, 0, 0]];

/// Fractions of a sorted sample that are reported.
pub fn ranks(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0usize, 1, 4, 20].to_vec();
    for f in [0.001, 0.005, 0.01, 0.02, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9,
              0.95, 0.98, 0.99, 0.995, 0.999].iter() { v.push((f * n as f64) as usize); }
    for k in [21usize, 5, 2, 1].iter() { v.push(n - k); }
    v.retain(|r| *r < n);
    v.sort();
    v.dedup();
    v
}
/// Ranks of a sample, and how often two successive samples are both below the median.
pub fn summary<V: Pt>(xs: Vec<V>, inside: impl Fn(&V) -> bool) -> Value {
    let n = xs.len();
    let outside = xs.iter().filter(|x| !inside(x)).count();
    let nan = xs.iter().filter(|x| x.real().is_nan()).count();
    let mut s: Vec<V> = xs.iter().filter(|x| !x.real().is_nan()).cloned().collect();
    if s.is_empty() { return json!({"ev": "samples", "n": "0", "outside": outside.to_string(), "nan": nan.to_string(), "ranks": [], "med": "0", "both": "0"}); }
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let med = s[s.len() / 2].clone();
    let both = xs.chunks(2).filter(|c| c.len() == 2 && c[0] <= med && c[1] <= med).count();
    let mut rows: Vec<Value> = ranks(s.len()).into_iter().map(|r| {
        let x = &s[r];
        let lt = s.partition_point(|y| y < x);
        let le = s.partition_point(|y| y <= x);
        json!([x.show(), lt.to_string(), le.to_string()])
    }).collect();
    rows.dedup();
    json!({"ev": "samples", "n": n.to_string(), "outside": outside.to_string(), "nan": nan.to_string(), "ranks": rows, "med": med.show(), "both": both.to_string()})
}

fn ops(e: &Value) -> Vec<(String, usize)> {
    e["ops"].as_array().unwrap().iter().map(|o| (vj::s(&o["k"]).to_string(), vj::u(&o["n"]) as usize)).collect()
}
/// One history of requests on one generator, next to the same number of single draws on a copy of it.
pub fn history<D: Distribution, G: Fn() -> StdRng>(d: &D, h: &Value, gen: G, show: impl Fn(&Sample<D>) -> Value, par: impl Fn(&D) -> Value) -> Value {
    let os = ops(h);
    let total: usize = os.iter().map(|o| o.1).sum();
    let before = par(d);
    let (mut a, mut b) = (gen(), gen());
    let got: Vec<Value> = os.iter().map(|(k, n)| match guard(|| -> Vec<Value> {
        match k.as_str() {
            "one" => vec![show(&d.sample(&mut a))],
            "n" => d.sample_n(&mut a, *n).iter().map(|x| show(x)).collect(),
            _ => { let mut it = d.sample_iter(&mut a); (0..*n).filter_map(|_| it.next()).map(|x| show(&x)).collect() },
        }
    }) { Ok(v) => Value::Array(v), Err(m) => panicked(&m) }).collect();
    let stream: Vec<Value> = (0..total).map(|_| show(&d.sample(&mut b))).collect();
    json!({"ev": "hist", "ops": h["ops"], "got": got, "stream": stream, "rng": [a.next_u64().to_string(), b.next_u64().to_string()], "par": [before, par(d)]})
}

struct Draw<'a> { i: usize, e: &'a Value, hist: &'a [Value], n: usize, out: &'a mut vj::Out }
impl<'a> Visit for Draw<'a> {
    fn on<D: Distribution>(&mut self, o: Obs<D>) where Sample<D>: Pt + Send, D::Support: Has<Sample<D>> + OrderedSpace {
        let p: Vec<String> = self.e["p"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
        let d = match guard(|| (o.new)(&p)) { Ok(Ok(d)) => d, _ => return };
        self.out.put(json!({"ev": "begin", "fam": o.fam, "p": p, "made": "ok"}));
        let seed = vj::seed().wrapping_mul(1_000_003) ^ (self.i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        if let Err(m) = guard(|| { d.sample(&mut StdRng::seed_from_u64(seed)); }) {
            self.out.put(json!({"ev": "nosample", "why": m}));
            return;
        }
        let s = d.support();
        let mut g = StdRng::seed_from_u64(seed);
        match guard(|| { let xs: Vec<Sample<D>> = (0..self.n).map(|_| d.sample(&mut g)).collect(); xs }) {
            Ok(xs) => self.out.put(summary(xs, |x| s.has(x))),
            Err(m) => { self.out.put(json!({"ev": "nosample", "why": m})); return },
        }
        // (third-party samplers need not even terminate on such words)
        let own = ["frechet", "inverse_normal", "kumaraswamy", "laplace", "categorical", "bernoulli", "uniform", "uniform_int", "degenerate_f", "degenerate_i"];
        for (k, h) in HEADS.iter().enumerate().filter(|_| own.contains(&o.fam)) {
            let mut r = Prefixed { head: Script { words: h.to_vec(), at: 0 }, tail: StdRng::seed_from_u64(seed ^ k as u64) };
            match guard(|| d.sample(&mut r)) {
                Ok(x) => self.out.put(json!({"ev": "extreme", "head": h.len().to_string(), "k": k.to_string(), "x": x.show(), "inside": s.has(&x)})),
                Err(m) => self.out.put(json!({"ev": "extreme", "head": h.len().to_string(), "k": k.to_string(), "x": panicked(&m), "inside": false})),
            }
        }
        let par = |d: &D| Value::Array((o.par)(&d.params()));
        for h in self.hist { self.out.put(history(&d, h, || StdRng::seed_from_u64(seed ^ 77), |x| x.show(), par)); }
    }
}
pub fn run(input: &str, out: &mut vj::Out) {
    let laws: Vec<(usize, Value)> = vj::lines(input).filter(|e| e["kind"] == "law").enumerate().collect();
    let hist: Vec<Value> = vj::lines(&input.replace("laws.in", "hist.in")).collect();
    let n = if vj::thorough() { 1_000_000 } else { 150_000 };
    let mut seen: Vec<String> = vec![];
    let first: Vec<bool> = laws.iter().map(|(_, e)| { let f = vj::s(&e["fam"]).to_string(); let b = !seen.contains(&f); seen.push(f); b }).collect();
    vj::parallel(&laws, out, |(i, e), o| {
        let few: Vec<Value> = if first[*i] { hist.clone() } else { (0..6).map(|k| hist[(i * 37 + k * 53) % hist.len()].clone()).collect() };
        visit(vj::s(&e["fam"]), e["p"].as_array().unwrap().len(), &mut Draw { i: *i, e, hist: &few, n, out: o });
    });
    let _ = num;
}
