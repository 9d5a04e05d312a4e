//! Probability vectors: acceptance, index draws under scripted bits, random points.
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use rstat::{params::Param, SimplexVector};
use std::convert::{TryFrom, TryInto};
use vj::{guard, json, Value};

/// A generator that replays given words, and counts what was asked of it.
#[derive(Clone)]
pub struct Script { pub words: Vec<u64>, pub at: usize }
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 {
        let w = self.words[self.at % self.words.len()];
        self.at += 1;
        w
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let w = self.next_u64().to_le_bytes(); c.copy_from_slice(&w[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn n18(x: f64) -> Value {
    Value::String(if x == 0.0 || !x.is_finite() { format!("{:?}", x) } else { format!("{:.17e}", x) })
}
fn all(xs: &[f64]) -> Value { Value::Array(xs.iter().map(|x| n18(*x)).collect()) }

fn vector<const K: usize>(ws: &[f64], g: &mut StdRng, out: &mut vj::Out) {
    let ws: [f64; K] = ws.try_into().unwrap();
    let show = |r: Result<Result<SimplexVector<K>, failure::Error>, String>| match r {
        Ok(Ok(s)) => json!({"r": "ok", "views": [all(&s[..]), all(s.value()), all(&s.clone().unwrap()), all(&s.clone().into_value()), all(&s.clone()[..])]}),
        Ok(Err(_)) => json!({"r": "err", "views": []}),
        Err(m) => json!({"r": m, "views": []}),
    };
    let made = guard(|| SimplexVector::new(ws));
    let usable = matches!(&made, Ok(Ok(_)));
    let un = SimplexVector::new_unchecked(ws);
    out.put(json!({"ev": "begin", "ws": all(&ws), "new": show(made), "try": show(guard(|| SimplexVector::try_from(ws))),
                   "unchecked": all(&un.clone().unwrap())}));
    if !usable { return; }
    let top = (1u64 << 53) - 1;
    let mut us: Vec<u64> = vec![0, 1, top, top - 1, 1 << 52];
    let mut c = 0.0;
    for w in ws.iter() {
        c += w;
        let k = (c * (top as f64 + 1.0)).round().min(top as f64) as u64;
        for d in -2i64..=2 { us.push((k as i64 + d).max(0).min(top as i64) as u64); }
    }
    for _ in 0..6 { us.push(g.gen::<u64>() >> 11); }
    for u in us {
        let mut r = Script { words: vec![(u << 11) | (g.gen::<u64>() >> 53), g.gen()], at: 0 };
        let draw: f64 = r.clone().gen();
        let idx = guard(|| un.sample_index(&mut r));
        out.put(json!({"ev": "draw", "u": n18(draw), "once": r.at == 1, "same": un.value().iter().zip(ws.iter()).all(|(a, b)| a == b),
            "idx": match idx { Ok(i) => json!(i), Err(m) => vj::panicked(&m) }}));
    }
}
fn by_len(ws: &[f64], g: &mut StdRng, out: &mut vj::Out) {
    match ws.len() {
        1 => vector::<1>(ws, g, out), 2 => vector::<2>(ws, g, out), 3 => vector::<3>(ws, g, out), 4 => vector::<4>(ws, g, out),
        5 => vector::<5>(ws, g, out), 7 => vector::<7>(ws, g, out), 12 => vector::<12>(ws, g, out), k => panic!("length {}", k),
    }
}

fn uniform<const K: usize>(g: &mut StdRng, out: &mut vj::Out) {
    let put = |r: Result<[f64; K], String>, out: &mut vj::Out| {
        out.put(json!({"ev": "point", "k": K, "ws": match r { Ok(ws) => all(&ws), Err(m) => json!([vj::panicked(&m)]) }}))
    };
    match guard(|| SimplexVector::<K>::centre().unwrap()) {
        Ok(ws) => out.put(json!({"ev": "centre", "k": K, "ws": all(&ws)})),
        Err(m) => out.put(json!({"ev": "centre", "k": K, "ws": [vj::panicked(&m)]})),
    }
    // extreme bits first
    for words in vec![vec![0u64], vec![u64::MAX], vec![0, u64::MAX], vec![u64::MAX, 0], vec![1 << 11], vec![0, 0, 1 << 63]] {
        let mut r = Script { words, at: 0 };
        put(guard(|| SimplexVector::<K>::sample(&mut r).unwrap()), out);
    }
    let n = if vj::thorough() { 400_000 } else { 40_000 };
    let ts = [0.01, 0.05, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.95];
    let mut groups: Vec<Vec<usize>> = (0..K).map(|i| vec![i]).collect();
    for m in 2..K { groups.push((0..m).collect()); groups.push((K - m..K).collect()); }
    for i in 0..K { for j in i + 1..K { if K > 2 { groups.push(vec![i, j]); } } }
    let mut counts = vec![vec![0usize; ts.len()]; groups.len()];
    let mut order = vec![0usize; K * K];
    let mut bad = 0;
    for i in 0..n {
        let ws = match guard(|| SimplexVector::<K>::sample(g).unwrap()) { Ok(ws) => ws, Err(_) => { bad += 1; continue } };
        if i < 5 { put(Ok(ws), out); }
        if !ws.iter().all(|x| *x >= 0.0) || !((ws.iter().sum::<f64>() - 1.0).abs() < 1e-12) { bad += 1; }
        for (a, grp) in groups.iter().enumerate() {
            let s: f64 = grp.iter().map(|j| ws[*j]).sum();
            for (b, t) in ts.iter().enumerate() { if s <= *t { counts[a][b] += 1; } }
        }
        for a in 0..K { for b in 0..K { if ws[a] < ws[b] { order[a * K + b] += 1; } } }
    }
    let mut cells = vec![];
    for (a, grp) in groups.iter().enumerate() {
        if grp.len() == K { continue; }
        for (b, t) in ts.iter().enumerate() { cells.push(json!({"m": grp.len(), "t": vj::num(*t), "count": counts[a][b]})); }
    }
    let ord: Vec<usize> = (0..K * K).filter(|k| k / K != k % K).map(|k| order[k]).collect();
    out.put(json!({"ev": "spread", "k": K, "n": n, "bad": bad, "cells": cells, "order": ord}));
}

pub fn run(input: &str, out: &mut vj::Out) {
    let mut g = StdRng::seed_from_u64(vj::seed() ^ 0x60);
    for e in vj::lines(input) { by_len(&vj::fs(&e["ws"]), &mut g, out); }
    let lens = [1usize, 2, 3, 4, 5, 7, 12];
    for i in 0..(if vj::thorough() { 3000 } else { 200 }) {
        let k = lens[i % lens.len()];
        let mut ws: Vec<f64> = (0..k).map(|_| if g.gen_bool(0.3) { 0.0 } else { g.gen::<f64>().powi(3) }).collect();
        let at = g.gen_range(0..k);
        ws[at] += 0.1;
        let s: f64 = ws.iter().sum();
        for w in ws.iter_mut() { *w /= s; }
        if g.gen_bool(0.2) { let j = g.gen_range(0..k); ws[j] = (ws[j] - g.gen_range(0.0..9e-6)).max(0.0); }
        if g.gen_bool(0.1) { let j = g.gen_range(0..k); ws[j] = g.gen_range(-0.5..1.5); }
        by_len(&ws, &mut g, out);
    }
    uniform::<1>(&mut g, out);
    uniform::<2>(&mut g, out);
    uniform::<3>(&mut g, out);
    uniform::<4>(&mut g, out);
    uniform::<6>(&mut g, out);
    uniform::<9>(&mut g, out);
}
