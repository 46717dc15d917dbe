//! Minimisation of a failing case: generic edits of its JSON form, kept while
//! the same class of violation persists.

use serde_json::Value;
use std::time::{Duration, Instant};

fn paths(v: &Value, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(Step::I(i));
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(Step::K(k.clone()));
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
#[derive(Clone, Debug)]
enum Step {
    I(usize),
    K(String),
}
fn get<'a>(v: &'a Value, p: &[Step]) -> Option<&'a Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Step::I(i) => v.get(i)?,
            Step::K(k) => v.get(k)?,
        };
    }
    Some(v)
}
fn with(v: &Value, p: &[Step], f: impl FnOnce(&mut Value)) -> Value {
    let mut out = v.clone();
    let mut cur = &mut out;
    for s in p {
        cur = match s {
            Step::I(i) => cur.get_mut(i).unwrap(),
            Step::K(k) => cur.get_mut(k).unwrap(),
        };
    }
    f(cur);
    out
}

fn size(v: &Value) -> usize {
    match v {
        Value::Array(a) => 2 + a.iter().map(size).sum::<usize>(),
        Value::Object(o) => 1 + o.values().map(size).sum::<usize>(),
        Value::Number(n) => {
            if n.as_f64() == Some(0.0) {
                0
            } else {
                n.to_string().len()
            }
        }
        Value::String(s) => s.len(),
        Value::Bool(b) => *b as usize,
        Value::Null => 0,
    }
}

/// `fails(case)` tells whether the violation is still there.
pub fn minimise(
    start: Value,
    max_evals: usize,
    wall: Duration,
    mut fails: impl FnMut(&Value) -> bool,
) -> (Value, usize) {
    let t0 = Instant::now();
    let mut best = start;
    let mut evals = 0usize;
    let mut try_ = |cand: Value, best: &mut Value, evals: &mut usize| -> bool {
        if size(&cand) >= size(best) || *evals >= max_evals || t0.elapsed() > wall {
            return false;
        }
        *evals += 1;
        if fails(&cand) {
            *best = cand;
            true
        } else {
            false
        }
    };
    loop {
        let before = size(&best);
        // 1. drop chunks of arrays, biggest first
        let mut ps = Vec::new();
        paths(&best, &mut Vec::new(), &mut ps);
        let arrays: Vec<Vec<Step>> =
            ps.iter().filter(|p| matches!(get(&best, p), Some(Value::Array(_)))).cloned().collect();
        for p in arrays {
            let len = match get(&best, &p) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            let mut chunk = len;
            while chunk >= 1 {
                let mut lo = 0;
                loop {
                    let cur = match get(&best, &p) {
                        Some(Value::Array(a)) => a.len(),
                        _ => 0,
                    };
                    if lo >= cur {
                        break;
                    }
                    let hi = (lo + chunk).min(cur);
                    let cand = with(&best, &p, |v| {
                        if let Value::Array(a) = v {
                            a.drain(lo..hi);
                        }
                    });
                    if !try_(cand, &mut best, &mut evals) {
                        lo += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // 2. simplify scalars
        let mut ps = Vec::new();
        paths(&best, &mut Vec::new(), &mut ps);
        for p in ps {
            let Some(v) = get(&best, &p).cloned() else { continue };
            let mut cands: Vec<Value> = Vec::new();
            match &v {
                Value::Bool(true) => cands.push(false.into()),
                Value::Number(n) => {
                    if let Some(u) = n.as_u64() {
                        for c in [0, 1, u / 2, u.saturating_sub(1)] {
                            if c < u {
                                cands.push(c.into());
                            }
                        }
                        let mut c = 10u64;
                        while u > 1000 && c < u / 2 {
                            cands.insert(cands.len() - 2, c.into());
                            c = c.saturating_mul(10);
                        }
                    } else if let Some(i) = n.as_i64() {
                        for c in [0, -1, i / 2] {
                            cands.push(c.into());
                        }
                    } else if let Some(f) = n.as_f64() {
                        for c in [0.0, 1.0, -1.0, (f * 10.0).round() / 10.0, (f * 100.0).round() / 100.0] {
                            if c != f {
                                cands.push(c.into());
                            }
                        }
                    }
                }
                Value::Object(_) if !p.is_empty() => cands.push(Value::Null),
                Value::String(s) if s.len() > 24 => {
                    // long strings are documents: drop lines
                    let ls: Vec<&str> = s.split_inclusive('\n').collect();
                    for k in 0..ls.len() {
                        let mut l = ls.clone();
                        l.remove(k);
                        cands.push(l.concat().into());
                    }
                }
                _ => {}
            }
            for c in cands {
                let cand = with(&best, &p, |v| *v = c);
                if try_(cand, &mut best, &mut evals) {
                    break;
                }
            }
        }
        if size(&best) >= before || evals >= max_evals || t0.elapsed() > wall {
            return (best, evals);
        }
    }
}
