//! Naive Bayes against its formula, and the measures of a hypothesis.

use super::{parse, Prop};
use crate::party::SimH;
use crate::rng::Rng;
use crate::table::Table;
use crate::world::{simulate, End, Env, Exec};
use miniboosts::prelude::*;
use miniboosts::research::objective_functions::{ExponentialLoss, HardMarginObjective, ObjectiveFunction, SoftMarginObjective};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::Arc;

// ----------------------------------------------------------------- B30

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct NCase {
    table: Table,
    /// Rows to classify that were not trained on.
    fresh: Vec<Vec<f64>>,
    sparse: bool,
    fresh_sparse: bool,
    /// One distribution per call of the learner.
    weights: Vec<Vec<u32>>,
    env: Env,
}

/// A value known up to an error.
#[derive(Clone, Copy, Debug)]
struct Near(f64, f64);

/// The log density of `x` among the rows `rows`, features independent and normal.
fn density(t: &Table, w: &[f64], rows: &[usize], x: &[f64]) -> Near {
    let tot: f64 = rows.iter().map(|i| w[*i]).sum();
    let (mut l, mut err) = (0.0, 1e-9);
    for j in 0..t.k() {
        let mean = rows.iter().map(|i| w[*i] / tot * t.x[*i][j]).sum::<f64>();
        let var = rows.iter().map(|i| w[*i] / tot * (t.x[*i][j] - mean).powi(2)).sum::<f64>();
        let big = rows.iter().map(|i| t.x[*i][j].abs()).fold(x[j].abs(), f64::max);
        let e = big * 1e-13;
        let var = var.max(1e-9);
        let dev = (x[j] - mean).abs();
        let evar = ((e * e + 2.0 * e * var.sqrt()) / var + 1e-12).min(1.0);
        l -= 0.5 * (dev * dev / var + var.ln() + (2.0 * std::f64::consts::PI).ln());
        err += (e * e + 2.0 * dev * e) / var + dev * dev / var * evar + evar;
    }
    Near(l, err + 1e-12 * l.abs())
}

type Answer = (Vec<(f64, f64)>, f64);

/// Judge the answers to the rows `xs`.
fn judge(t: &Table, w: &[f64], xs: &[Vec<f64>], got: &[Answer], what: &str, ex: &mut Exec) -> bool {
    let n = t.n();
    let mut labels = t.y.clone();
    labels.sort_by(f64::total_cmp);
    labels.dedup();
    let all: Vec<usize> = (0..n).collect();
    for (r, x) in xs.iter().enumerate() {
        let (probs, answer) = &got[r];
        let whole = density(t, w, &all, x);
        let mut posts = vec![];
        for y in &labels {
            let rows: Vec<usize> = all.iter().copied().filter(|i| t.y[*i] == *y).collect();
            let prior: f64 = rows.iter().map(|i| w[*i]).sum();
            let found: Vec<f64> = probs.iter().filter(|p| p.0 == *y).map(|p| p.1).collect();
            let [p] = found[..] else {
                ex.fail("labels", format!("{what}: row {r}: label {y} is given {} probabilities: {probs:?}", found.len()));
                return false;
            };
            if prior == 0.0 {
                if p != 0.0 {
                    ex.fail("posterior", format!("{what}: row {r}: label {y} without weight has the probability {p}"));
                    return false;
                }
                continue;
            }
            let Near(c, err) = density(t, w, &rows, x);
            let want = prior.ln() + c - whole.0;
            let err = 2.0 * (err + whole.1);
            posts.push((*y, Near(prior.ln() + c, err)));
            if err > 0.1 {
                ex.count("probe.ill_conditioned", 1);
                continue;
            }
            let got = p.ln();
            let good = if want > 709.0 { p > 1e300 } else if want < -700.0 { p < 1e-300 } else { (got - want).abs() <= err + 1e-9 * want.abs() };
            if !good {
                ex.fail("posterior", format!("{what}: row {r}: the probability of label {y} is {p}, its logarithm should be {want} (up to {err:e})"));
                return false;
            }
            ex.count("probe.posteriors", 1);
        }
        if probs.len() != labels.len() {
            ex.fail("labels", format!("{what}: row {r}: {} probabilities for {} labels", probs.len(), labels.len()));
            return false;
        }
        if !labels.contains(answer) {
            ex.fail("answer", format!("{what}: row {r} is classified {answer}, which is no label"));
            return false;
        }
        let best = posts.iter().max_by(|a, b| a.1 .0.total_cmp(&b.1 .0));
        if let Some((y, Near(l, e))) = best {
            if posts.iter().all(|(z, Near(m, f))| z == y || l - m > e + f) {
                ex.count("probe.decisions", 1);
                if answer != y {
                    ex.fail("answer", format!("{what}: row {r} is classified {answer}, the log posteriors are {posts:?}"));
                    return false;
                }
            }
        }
    }
    true
}

/// Naive Bayes.
pub struct Bayes;

impl Prop for Bayes {
    fn id(&self) -> &'static str {
        "B30"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let big = rng.big();
        let n = if big { rng.range(60, 400) } else if th && rng.chance(0.1) { rng.range(20, 80) } else { rng.range(2, 16) };
        let k = if big && rng.chance(0.3) { rng.range(10, 40) } else { rng.range(1, 5) };
        let pools: [&[f64]; 5] = [&[1.0, -1.0], &[1.0, -1.0], &[0.0, 1.0], &[0.0, 1.0, 2.0], &[3.0, -7.0, 10.0, 2.5]];
        let pool = *rng.pick(&pools);
        let y: Vec<f64> = (0..n).map(|_| *rng.pick(pool)).collect();
        let zeros = *rng.pick(&[0.0, 0.4, 0.8]);
        let cols: Vec<(f64, f64, f64, bool)> = (0..k)
            .map(|_| {
                let step = *rng.pick(&[1.0, 1.0, 0.25, 1e-3, 1e4]);
                (step, step * *rng.pick(&[0.0, 0.0, 5.0, -100.0]), *rng.pick(&[0.0, 1.0, 6.0]), rng.chance(0.1))
            })
            .collect();
        let row = |rng: &mut Rng, y: f64| -> Vec<f64> {
            cols.iter()
                .map(|(step, off, shift, same)| {
                    if *same {
                        return *off + if rng.chance(0.1) { *step } else { 0.0 };
                    }
                    if rng.chance(zeros) { 0.0 } else { off + step * (shift * y + rng.irange(-8, 8) as f64 / 2.0) }
                })
                .collect()
        };
        let x = y.iter().map(|y| row(rng, *y)).collect();
        let fresh = (0..rng.range(1, 5)).map(|_| { let y = *rng.pick(pool); row(rng, y) }).collect();
        let weights = (0..rng.range(1, 3))
            .map(|_| {
                let style = rng.below(4);
                let silent = *rng.pick(pool);
                y.iter()
                    .map(|y| match style {
                        0 => 1,
                        1 => rng.range(1, 100) as u32,
                        2 => if rng.chance(0.3) { 0 } else { rng.range(1, 1_000_000) as u32 },
                        _ => if *y == silent { 0 } else { rng.range(1, 5) as u32 },
                    })
                    .collect()
            })
            .collect();
        serde_json::to_value(NCase {
            table: Table { x, y },
            fresh,
            sparse: rng.chance(0.5),
            fresh_sparse: rng.chance(0.5),
            weights,
            env: Env::gen(rng),
        })
        .unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = parse::<NCase>(case) else { return };
        // the last row has no zero, so that both encodings keep all columns
        c.table = c.table.fix();
        let (n, k) = (c.table.n(), c.table.k());
        if n > 2000 || n * k > 40_000 {
            return;
        }
        for v in c.table.x[n - 1].iter_mut() {
            if *v == 0.0 {
                *v = 1.0;
            }
        }
        if c.fresh.is_empty() {
            c.fresh.push(vec![]);
        }
        let mut fresh = Table { x: c.fresh.clone(), y: vec![1.0; c.fresh.len()] };
        for r in fresh.x.iter_mut() {
            r.resize(k, 0.0);
            r.iter_mut().filter(|v| !v.is_finite()).for_each(|v| *v = 0.0);
        }
        for v in fresh.x.last_mut().unwrap().iter_mut() {
            if *v == 0.0 {
                *v = 1.0;
            }
        }
        c.weights.truncate(8);
        let mut ds: Vec<Vec<f64>> = vec![];
        for w in &c.weights {
            let mut w = w.clone();
            w.resize(n, 1);
            let tot: f64 = w.iter().map(|w| *w as f64).sum();
            if tot > 0.0 {
                ds.push(w.iter().map(|w| *w as f64 / tot).collect());
            }
        }
        ex.nontrivial = n > 1 && !ds.is_empty();
        ex.state.add_str(&format!("{c:?}"));
        let (t, f, dref) = (&c.table, &fresh, &ds);
        let (end, st) = simulate(&c.env, || {
            let s = if c.sparse { t.sparse() } else { t.dense() };
            let q = if c.fresh_sparse { f.sparse() } else { f.dense() };
            let wl = GaussianNB::init();
            let ask = |h: &NBayesClassifier<_>, s: &Sample| -> Vec<Answer> {
                let k = h.confidence_all(s);
                (0..s.shape().0).map(|i| (h.probabilities(s, i), k[i])).collect()
            };
            // all models first: they must not share anything
            let hs: Vec<_> = dref.iter().map(|d| wl.produce(&s, d)).collect();
            hs.iter().map(|h| (ask(h, &s), ask(h, &q))).collect::<Vec<_>>()
        });
        ex.absorb(&st);
        match end {
            End::Done(r) => {
                for (i, ((own, new), d)) in r.iter().zip(&ds).enumerate() {
                    for (p, a) in own.iter().chain(new) {
                        ex.digest.add_f64(*a);
                        p.iter().for_each(|p| ex.digest.add_f64(p.1));
                    }
                    let at = if c.sparse { "sparse" } else { "dense" };
                    if !judge(t, d, &t.x, own, &format!("call {i} ({at}), training rows"), ex) || !judge(t, d, &f.x, new, &format!("call {i} ({at}), new rows"), ex) {
                        return;
                    }
                }
            }
            e => ex.fail("panic", format!("naive Bayes {}", e.describe())),
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 1_500_000 } else { 150_000 }
    }
    fn rule(&self) -> &'static str {
        "random table of two to four labels, stored either way, and up to three distributions; every model's class probabilities and answers on the training rows and on new rows are compared with Bayes' formula; non-trivial: at least two rows"
    }
    fn real(&self) -> &'static [&'static str] {
        &["naive Bayes", "Sample, SampleReader, features", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["rayon-core thread pool (simulated fork/join scheduler)", "disk, entropy (simulated system calls)"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.posteriors", "probe.decisions", "sched.steals"]
    }
}

// ----------------------------------------------------------------- B31

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct QCase {
    y: Vec<i32>,
    /// Parts of a vote: a weight and the confidences.
    parts: Vec<(f64, Vec<f64>)>,
    nu: f64,
    /// Regression: targets, current predictions, a further hypothesis.
    target: Vec<f64>,
    current: Vec<f64>,
    further: Vec<f64>,
    env: Env,
}

/// The hypothesis's measures.
pub struct Measures;

fn unit(v: f64) -> f64 {
    if v.is_finite() { v.clamp(-1.0, 1.0) } else { 0.0 }
}
fn tamed(v: f64) -> f64 {
    if v.is_finite() { v.clamp(-1e9, 1e9) } else { 0.0 }
}

impl Prop for Measures {
    fn id(&self) -> &'static str {
        "B31"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let n = if rng.big() { rng.range(60, 500) } else if th && rng.chance(0.1) { rng.range(20, 90) } else { rng.range(2, 16) };
        let conf = |rng: &mut Rng| -> Vec<f64> {
            let style = rng.below(4);
            (0..n)
                .map(|_| match style {
                    0 => *rng.pick(&[1.0, -1.0]),
                    1 => rng.irange(-4, 4) as f64 / 4.0,
                    2 => *rng.pick(&[0.0, 1e-3, -1e-3, 1.0, -0.0]),
                    _ => rng.uniform(-1.0, 1.0),
                })
                .collect()
        };
        let parts = (0..rng.range(1, 4)).map(|_| (rng.uniform(0.05, 1.0), conf(rng))).collect();
        let nu = match rng.below(5) {
            0 => 1.0,
            1 => n as f64,
            2 => rng.range(1, n) as f64,
            3 => n as f64 * rng.f64(),
            _ => rng.uniform(1.0, n as f64),
        };
        let y = (0..n).map(|_| if rng.chance(0.5) { 1 } else { -1 }).collect();
        let reals = |rng: &mut Rng| -> Vec<f64> {
            let scale = *rng.pick(&[1.0, 1.0, 1.0, 0.01, 1e5, 1e-9, 1e-14]);
            let style = rng.below(3);
            (0..n)
                .map(|_| scale * match style {
                    0 => rng.irange(-3, 3) as f64,
                    1 => if rng.chance(0.5) { 0.0 } else { rng.uniform(-2.0, 2.0) },
                    _ => rng.uniform(-5.0, 5.0),
                })
                .collect()
        };
        let target = reals(rng);
        let current = if rng.chance(0.3) { target.iter().map(|t| if rng.chance(0.5) { *t } else { t + 1.0 }).collect() } else { reals(rng) };
        let further = reals(rng);
        serde_json::to_value(QCase { y, parts, nu, target, current, further, env: Env::gen(rng) }).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = parse::<QCase>(case) else { return };
        let n = c.y.len();
        if !(2..=2000).contains(&n) {
            return;
        }
        c.y.iter_mut().for_each(|v| *v = if *v > 0 { 1 } else { -1 });
        if c.y.iter().all(|v| *v == c.y[0]) {
            c.y[0] = -c.y[0];
        }
        c.parts.truncate(8);
        if c.parts.is_empty() {
            c.parts.push((1.0, vec![]));
        }
        for (w, tab) in c.parts.iter_mut() {
            *w = if w.is_finite() { w.clamp(1e-3, 1.0) } else { 1.0 };
            tab.resize(n, 0.0);
            tab.iter_mut().for_each(|v| *v = unit(*v));
        }
        c.nu = if c.nu.is_finite() { c.nu.clamp(1.0, n as f64) } else { 1.0 };
        for v in [&mut c.target, &mut c.current, &mut c.further] {
            v.resize(n, 0.0);
            v.iter_mut().for_each(|v| *v = tamed(*v));
        }
        ex.nontrivial = n > 2;
        ex.state.add_str(&format!("{c:?}"));
        let c = &c;
        let (end, st) = simulate(&c.env, move || {
            let t = Table { x: (0..n).map(|i| vec![(i + 1) as f64]).collect(), y: c.y.iter().map(|y| *y as f64).collect() };
            let s = t.dense();
            let hs: Vec<SimH> = c.parts.iter().enumerate().map(|(id, p)| SimH { id, tab: Arc::new(p.1.clone()) }).collect();
            let ws: Vec<f64> = c.parts.iter().map(|p| p.0).collect();
            let one = &hs[0];
            let vote = WeightedMajority::from_slices(&ws, &hs);
            let soft = SoftMarginObjective::new(c.nu);
            let (hard, exp) = (HardMarginObjective::new(), ExponentialLoss::new());
            let class = [
                [soft.eval(&s, one), hard.eval(&s, one), exp.eval(&s, one)],
                [soft.eval(&s, &vote), hard.eval(&s, &vote), exp.eval(&s, &vote)],
            ];
            let confs = [one.tab.to_vec(), vote.confidence_all(&s)];
            let res: Vec<f64> = c.target.iter().zip(&c.current).map(|(y, p)| y - p).collect();
            let loss = [GBMLoss::L1, GBMLoss::L2].map(|l| {
                (l.eval(&c.current, &c.target), l.gradient(&c.current, &c.target), l.hessian(&c.current, &c.target), l.best_coefficient(&res, &c.further))
            });
            (class, confs, loss)
        });
        ex.absorb(&st);
        let (class, confs, loss) = match end {
            End::Done(r) => r,
            e => {
                ex.fail("panic", format!("measuring {}", e.describe()));
                return;
            }
        };
        for (who, (got, conf)) in ["a hypothesis", "a vote"].iter().zip(class.iter().zip(&confs)) {
            let m: Vec<f64> = conf.iter().zip(&c.y).map(|(h, y)| h * *y as f64).collect();
            // the dual: the best threshold, at one of the margins
            let soft = |nu: f64| m.iter().map(|r| r - m.iter().map(|x| (r - x).max(0.0)).sum::<f64>() / nu).fold(f64::NEG_INFINITY, f64::max);
            let hard = m.iter().copied().fold(f64::INFINITY, f64::min);
            let exp = conf.iter().zip(&c.y).map(|(h, y)| (-(*y as f64) * if *h >= 0.0 { 1.0 } else { -1.0 }).exp()).sum::<f64>() / n as f64;
            for (name, g, w) in [("soft margin", got[0], soft(c.nu)), ("hard margin", got[1], hard), ("exponential loss", got[2], exp)] {
                ex.digest.add_f64(g);
                if !((g - w).abs() <= 1e-9 * (1.0 + w.abs())) {
                    ex.fail("objective", format!("the {name} of {who} on {n} examples (nu = {}) is {g}, not {w}", c.nu));
                    return;
                }
                ex.count("probe.objectives", 1);
            }
        }
        let res: Vec<f64> = c.target.iter().zip(&c.current).map(|(y, p)| y - p).collect();
        let l1 = |a: f64| a.abs();
        let l2 = |a: f64| a * a;
        for (name, (eval, grad, hess, coef), f, first) in [("L1", &loss[0], &l1 as &dyn Fn(f64) -> f64, true), ("L2", &loss[1], &l2, false)] {
            ex.digest.add_f64(*eval);
            let want = res.iter().map(|r| f(*r)).sum::<f64>() / n as f64;
            if !((eval - want).abs() <= 1e-9 * want.abs()) {
                ex.fail("loss", format!("the {name} loss is {eval}, not {want}"));
                return;
            }
            if grad.len() != n || hess.len() != n {
                ex.fail("gradient", format!("{name}: {} first and {} second derivatives for {n} rows", grad.len(), hess.len()));
                return;
            }
            for i in 0..n {
                let (g, h) = if first { (if res[i] == 0.0 { 0.0 } else { -res[i].signum() }, 0.0) } else { (-res[i], 1.0) };
                if !((grad[i] - g).abs() <= 1e-12 * g.abs()) || hess[i] != h {
                    ex.fail("gradient", format!("{name}: row {i} (residual {}) has the derivatives {} and {}, not {g} and {h}", res[i], grad[i], hess[i]));
                    return;
                }
            }
            ex.count("probe.losses", 1);
            // no other step along the further hypothesis does better
            let at = |c_: f64| res.iter().zip(&c.further).map(|(r, p)| f(r - c_ * p)).sum::<f64>();
            let size = res.iter().map(|r| f(*r)).sum::<f64>();
            let here = at(*coef);
            let mut others: Vec<f64> = vec![0.0, coef * (1.0 + 1e-3), coef * (1.0 - 1e-3), coef * 2.0, -coef, coef + 1e-3, coef - 1e-3];
            others.extend(res.iter().zip(&c.further).filter(|(_, p)| **p != 0.0).map(|(r, p)| r / p));
            if !coef.is_finite() {
                ex.fail("coefficient", format!("{name}: the best coefficient is {coef}"));
                return;
            }
            for o in others {
                if at(o) < here - 1e-9 * size {
                    ex.fail("coefficient", format!("{name}: the coefficient {coef} leaves the loss {here}, {o} leaves {}", at(o)));
                    return;
                }
            }
            ex.count("probe.coefficients", 1);
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 3_000_000 } else { 300_000 }
    }
    fn rule(&self) -> &'static str {
        "random labels, confidences, votes and capping parameter: soft margin against the dual program, hard margin, exponential loss; random targets, predictions and directions: losses, derivatives and the best step; non-trivial: at least three rows"
    }
    fn real(&self) -> &'static [&'static str] {
        &["SoftMarginObjective, HardMarginObjective, ExponentialLoss", "GBMLoss", "WeightedMajority, hypothesis traits", "Sample"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["hypotheses (simulated party)", "rayon-core thread pool (simulated fork/join scheduler)", "disk, entropy (simulated system calls)"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.objectives", "probe.losses", "probe.coefficients"]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&Bayes, &Measures]
}
