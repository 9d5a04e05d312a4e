//! Plumbing shared by the executors: reading model-generated inputs, writing
//! trace events, turning a panic of the code under test into data.
pub use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// How a real travels: the shortest decimal that reads back as this very f64.
pub fn num(x: f64) -> Value { Value::String(format!("{:?}", x)) }
pub fn nums(xs: &[f64]) -> Value { Value::Array(xs.iter().map(|x| num(*x)).collect()) }
pub fn mat<const N: usize, const M: usize>(m: &[[f64; M]; N]) -> Value {
    Value::Array(m.iter().map(|r| nums(r)).collect())
}
pub fn f(v: &Value) -> f64 {
    match v {
        Value::Number(n) => n.as_f64().unwrap(),
        Value::String(s) => s.parse::<f64>().unwrap_or_else(|_| panic!("bad real {}", s)),
        _ => panic!("bad real {}", v),
    }
}
pub fn fs(v: &Value) -> Vec<f64> { v.as_array().unwrap().iter().map(f).collect() }
pub fn i(v: &Value) -> i64 {
    match v {
        Value::Number(n) => n.as_i64().unwrap(),
        Value::String(s) => s.parse().unwrap(),
        _ => panic!("bad int {}", v),
    }
}
pub fn u(v: &Value) -> u64 {
    match v {
        Value::Number(n) => n.as_u64().unwrap(),
        Value::String(s) => s.parse().unwrap(),
        _ => panic!("bad int {}", v),
    }
}
pub fn s(v: &Value) -> &str { v.as_str().unwrap() }

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(m) = info.payload().downcast_ref::<&str>() {
            m.to_string()
        } else if let Some(m) = info.payload().downcast_ref::<String>() {
            m.clone()
        } else {
            "?".to_string()
        };
        LAST.with(|l| *l.borrow_mut() = msg);
    }));
}

/// Runs a call into the code under test; a panic comes back as its message.
pub fn guard<T>(g: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(g)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}
/// ... a real, or the string "panic: message" in its place.
pub fn gnum(g: impl FnOnce() -> f64) -> Value {
    match guard(g) {
        Ok(x) => num(x),
        Err(m) => panicked(&m),
    }
}
pub fn gval(g: impl FnOnce() -> Value) -> Value {
    match guard(g) {
        Ok(x) => x,
        Err(m) => panicked(&m),
    }
}
pub fn panicked(m: &str) -> Value { Value::String(format!("panic: {}", m.replace('\n', " "))) }

pub enum Sink { File(BufWriter<File>), Memory(Vec<u8>) }
pub struct Out(Sink, pub usize);
impl Out {
    pub fn create(path: &str) -> Out { Out(Sink::File(BufWriter::new(File::create(path).unwrap())), 0) }
    pub fn memory() -> Out { Out(Sink::Memory(vec![]), 0) }
    fn w(&mut self) -> &mut dyn Write { match &mut self.0 { Sink::File(f) => f, Sink::Memory(v) => v } }
    pub fn put(&mut self, v: Value) {
        let mut line = serde_json::to_vec(&v).unwrap();
        line.push(b'\n');
        self.w().write_all(&line).unwrap();
        self.1 += 1;
    }
    pub fn append(&mut self, other: Out) {
        if let Sink::Memory(v) = other.0 { self.w().write_all(&v).unwrap(); self.1 += other.1; }
    }
    pub fn done(mut self) { self.w().flush().unwrap(); }
}

/// Runs `job` on every item, on several threads; results are put in the order of the items.
pub fn parallel<T: Sync>(items: &[T], out: &mut Out, job: impl Fn(&T, &mut Out) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let done = std::sync::Mutex::new(Vec::<(usize, Out)>::new());
    std::thread::scope(|sc| {
        for _ in 0..7 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= items.len() { break; }
                let mut o = Out::memory();
                job(&items[i], &mut o);
                done.lock().unwrap().push((i, o));
            });
        }
    });
    let mut v = done.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    for (_, o) in v { out.append(o); }
}

pub fn lines(path: &str) -> impl Iterator<Item = Value> {
    BufReader::new(File::open(path).unwrap())
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).unwrap())
}

pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
pub fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }
