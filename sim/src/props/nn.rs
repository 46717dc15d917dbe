//! The neural network as an experiment: its initial network, its minibatches
//! and its schedule come from the simulated environment.

use super::learner::{fix_ground, Act};
use super::tree::{table, Col};
use super::{parse, Prop};
use crate::rng::Rng;
use crate::table::Table;
use crate::world::{simulate, End, Env, Exec};
use miniboosts::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

pub struct Net;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, Default, PartialEq)]
#[serde(rename_all = "snake_case")]
enum Mode {
    /// No hidden layer, full batches: gradient descent is predictable.
    #[default]
    Linear,
    /// Hidden layers, tiny steps on full batches: the loss goes down.
    Descent,
    /// Hidden layers, full batches, against a network with the same start.
    Deep,
    /// Which examples make up a batch.
    Draws,
    /// Any network: what must not matter does not.
    Any,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct Case {
    mode: Mode,
    hidden: Vec<(usize, Act)>,
    single: bool,
    eta: f64,
    /// Threshold of the rectifiers.
    cut: f64,
    epochs: usize,
    iters: usize,
    batch: usize,
    cols: Vec<Col>,
    /// Features are this much smaller than the columns say.
    shrink: u32,
    y: Vec<f64>,
    w: Vec<u32>,
    /// Another content for the rows without weight.
    other: Vec<usize>,
    env: Env,
    env2: Env,
}
impl Case {
    fn fix(mut self) -> Case {
        fix_ground(&mut self.cols, &mut self.y);
        let n = self.y.len();
        let div = self.shrink.clamp(1, 64) as f64;
        for c in self.cols.iter_mut() {
            c.codes.iter_mut().for_each(|k| *k %= 8);
            *c = Col { codes: std::mem::take(&mut c.codes), offset: c.offset.clamp(-4.0, 4.0).round() / div, step: 1.0 / div, bins: 0 }.fix(n);
        }
        self.hidden.truncate(3);
        for h in self.hidden.iter_mut() {
            h.0 = h.0.clamp(1, 8);
        }
        if self.mode == Mode::Linear || self.mode == Mode::Draws {
            self.hidden.clear();
        }
        if matches!(self.mode, Mode::Descent | Mode::Deep) {
            // inside a network, the soft maximum is trained by a simplified rule
            for h in self.hidden.iter_mut() {
                if h.1 == Act::Soft {
                    h.1 = Act::Sigmoid;
                }
            }
        }
        self.epochs = self.epochs.min(200);
        self.iters = self.iters.min(1000);
        if self.epochs * self.iters > 1000 {
            self.iters = 1000 / self.epochs;
        }
        self.batch = self.batch.clamp(1, 1 << 30);
        if self.mode == Mode::Draws {
            self.batch = self.batch.min(2);
        }
        if !(0.1..=8.0).contains(&self.eta) {
            self.eta = 1.0;
        }
        // the loss of a rectifier that jumps need not fall
        if !(-2.0..=2.0).contains(&self.cut) || self.mode == Mode::Descent {
            self.cut = 0.0;
        }
        self.w.resize(n, 1);
        if self.w.iter().all(|w| *w == 0) {
            self.w[0] = 1;
        }
        self.other.resize(n, 0);
        self
    }
    fn dist(&self) -> Vec<f64> {
        let t: f64 = self.w.iter().map(|w| *w as f64).sum();
        self.w.iter().map(|w| *w as f64 / t).collect()
    }
    /// Scale of the output layer.
    fn out(&self) -> f64 {
        if self.mode == Mode::Any { self.eta } else { 1.0 }
    }
    fn net(&self, s: &Sample, out: f64, epochs: usize, iters: usize, batch: usize) -> NeuralNetwork {
        let mut n = NeuralNetwork::init(s).n_epoch(epochs).n_iter(iters);
        for (d, a) in &self.hidden {
            n = n.append(*d, match a {
                Act::Sigmoid => Activation::Sigmoid(self.eta),
                Act::Relu => Activation::ReLu(self.cut),
                Act::Id => Activation::Id,
                Act::Soft => Activation::SoftMax(self.eta),
            });
        }
        n = if self.single { n.append(1, Activation::Sigmoid(out)) } else { n.append(2, Activation::SoftMax(out)) };
        n.minibatch_size(batch)
    }
    fn what(&self) -> String {
        let out = if self.single { "one logistic output" } else { "two soft-maximum outputs" };
        format!("network with {} hidden layers and {out}", self.hidden.len())
    }
    /// The probability of +1 on each row.
    fn prob(&self, conf: f64) -> f64 {
        if self.single {
            (conf + 1.0) / 2.0
        } else if conf >= 0.0 {
            conf
        } else {
            1.0 + conf
        }
    }
}

/// Confidences of a network trained on `t`, evaluated on `on`.
#[allow(clippy::too_many_arguments)]
fn train(c: &Case, t: &Table, on: &Table, d: &[f64], sparse: bool, arg: (usize, usize, usize), env: &Env, ex: &mut Exec) -> Option<Vec<f64>> {
    train_out(c, t, on, d, sparse, c.out(), arg, env, ex)
}
#[allow(clippy::too_many_arguments)]
fn train_out(c: &Case, t: &Table, on: &Table, d: &[f64], sparse: bool, out: f64, (epochs, iters, batch): (usize, usize, usize), env: &Env, ex: &mut Exec) -> Option<Vec<f64>> {
    let (end, st) = simulate(env, || {
        let s = if sparse { t.sparse() } else { t.dense() };
        let h = c.net(&s, out, epochs, iters, batch).produce(&s, d);
        let e = if sparse { on.sparse() } else { on.dense() };
        (h.confidence_all(&e), h.predict_all(&e))
    });
    ex.absorb(&st);
    ex.count("networks", 1);
    match end {
        End::Done((r, p)) => {
            ex.digest.add_slice(&r);
            for (i, v) in r.iter().enumerate() {
                if !(v.abs() <= 1.0 + 1e-12) {
                    ex.fail("confidence", format!("{}: the confidence on row {i} is {v}", c.what()));
                    return None;
                }
                if p[i] != if *v >= 0.0 { 1 } else { -1 } {
                    ex.fail("predict", format!("{}: row {i} is predicted {} at confidence {v}", c.what(), p[i]));
                    return None;
                }
            }
            Some(r)
        }
        e => {
            ex.fail("panic", format!("{}: training {}", c.what(), e.describe()));
            None
        }
    }
}
const CLEAR: f64 = 16.0;
/// Log odds of the initial network; `None` where rounding hides them.
fn odds(p: &[f64]) -> Option<Vec<f64>> {
    let z: Vec<f64> = p.iter().map(|p| (p / (1.0 - p)).ln()).collect();
    z.iter().all(|z| z.abs() < CLEAR).then_some(z)
}
fn sig(z: f64) -> f64 {
    1.0 / (1.0 + (-z).exp())
}
/// Gradient descent on the cross-entropy of the rows of `batch`, followed by its
/// effect on the log odds alone.
fn descend(z: &mut [f64], t: &Table, batch: &[usize], rate: f64, steps: usize, single: bool) {
    let gain = if single { 1.0 } else { 2.0 };
    let k: Vec<Vec<f64>> = batch
        .iter()
        .map(|i| t.x.iter().map(|r| 1.0 + r.iter().zip(&t.x[*i]).map(|(a, b)| a * b).sum::<f64>()).collect())
        .collect();
    for _ in 0..steps {
        let res: Vec<f64> = batch.iter().map(|i| sig(z[*i]) - if t.y[*i] > 0.0 { 1.0 } else { 0.0 }).collect();
        for (r, k) in res.iter().zip(&k) {
            for (z, k) in z.iter_mut().zip(k) {
                *z -= gain * rate * r * k;
            }
        }
    }
}
/// A network of our own.
#[derive(Clone)]
struct Mirror {
    layers: Vec<(Vec<Vec<f64>>, Vec<f64>, Act)>,
    single: bool,
    eta: f64,
    cut: f64,
}
impl Mirror {
    /// Drawn as the learner draws it (whether it does is checked by the caller).
    fn new(c: &Case, inputs: usize) -> Mirror {
        use rand::prelude::*;
        let mut shape: Vec<(usize, Act)> = c.hidden.clone();
        shape.push(if c.single { (1, Act::Sigmoid) } else { (2, Act::Soft) });
        let normal = rand_distr::Normal::new(0.0, 5.0).unwrap();
        let mut k = inputs;
        let mut layers = Vec::new();
        for (m, a) in shape {
            let mut rng = rand::thread_rng();
            let w = (0..m).map(|_| (0..k).map(|_| normal.sample(&mut rng)).collect()).collect();
            let b = (0..m).map(|_| normal.sample(&mut rng)).collect();
            layers.push((w, b, a));
            k = m;
        }
        Mirror { layers, single: c.single, eta: c.eta, cut: c.cut }
    }
    /// Inputs and linear parts of all layers, and the output.
    fn forward(&self, x: &[f64]) -> (Vec<Vec<f64>>, Vec<Vec<f64>>, Vec<f64>) {
        let (mut zs, mut us) = (Vec::new(), Vec::new());
        let mut z = x.to_vec();
        for (l, (w, b, a)) in self.layers.iter().enumerate() {
            let eta = if l + 1 < self.layers.len() { self.eta } else { 1.0 };
            let u: Vec<f64> = w.iter().zip(b).map(|(w, b)| b + w.iter().zip(&z).map(|(w, z)| w * z).sum::<f64>()).collect();
            let out = match a {
                Act::Sigmoid => u.iter().map(|u| sig(eta * *u)).collect(),
                Act::Relu => u.iter().map(|u| if *u > self.cut { *u } else { 0.0 }).collect(),
                Act::Id => u.clone(),
                Act::Soft => {
                    let m = u.iter().copied().fold(f64::MIN, f64::max);
                    let e: Vec<f64> = u.iter().map(|u| (u - m).exp()).collect();
                    let t: f64 = e.iter().sum();
                    e.iter().map(|e| e / t).collect()
                }
            };
            zs.push(z);
            us.push(u);
            z = out;
        }
        (zs, us, z)
    }
    fn prob(&self, x: &[f64]) -> f64 {
        let o = self.forward(x).2;
        if self.single { o[0] } else { o[1] }
    }
    fn step(&mut self, t: &Table, batch: &[usize], rate: f64) {
        let mut grad: Vec<(Vec<Vec<f64>>, Vec<f64>)> =
            self.layers.iter().map(|(w, b, _)| (vec![vec![0.0; w[0].len()]; w.len()], vec![0.0; b.len()])).collect();
        for i in batch {
            let (zs, us, out) = self.forward(&t.x[*i]);
            let pos = if t.y[*i] > 0.0 { 1.0 } else { 0.0 };
            let want = if self.single { vec![pos] } else { vec![1.0 - pos, pos] };
            let mut delta: Vec<f64> = out.iter().zip(&want).map(|(o, w)| o - w).collect();
            for l in (0..self.layers.len()).rev() {
                for (r, d) in delta.iter().enumerate() {
                    for (c, z) in zs[l].iter().enumerate() {
                        grad[l].0[r][c] += d * z;
                    }
                    grad[l].1[r] += d;
                }
                if l > 0 {
                    delta = (0..zs[l].len())
                        .map(|c| {
                            let back: f64 = delta.iter().enumerate().map(|(r, d)| d * self.layers[l].0[r][c]).sum();
                            let u = us[l - 1][c];
                            back * match self.layers[l - 1].2 {
                                Act::Sigmoid => self.eta * sig(self.eta * u) * sig(-self.eta * u),
                                Act::Relu => if u > self.cut { 1.0 } else { 0.0 },
                                _ => 1.0,
                            }
                        })
                        .collect();
                }
            }
        }
        for ((w, b, _), (gw, gb)) in self.layers.iter_mut().zip(&grad) {
            for (w, g) in w.iter_mut().flatten().zip(gw.iter().flatten()) {
                *w -= rate * g;
            }
            for (b, g) in b.iter_mut().zip(gb) {
                *b -= rate * g;
            }
        }
    }
}
fn loss(p: &[f64], y: &[f64], rows: &[usize]) -> f64 {
    rows.iter().map(|i| -(if y[*i] > 0.0 { p[*i] } else { 1.0 - p[*i] }).ln()).sum()
}
/// ln of P[X <= k] or P[X >= k], whichever tail `k` is in.
fn tail(n: u64, p: f64, k: u64) -> f64 {
    let lg = |m: u64| (1..=m).map(|i| (i as f64).ln()).sum::<f64>();
    let term = |j: u64| (lg(n) - lg(j) - lg(n - j) + j as f64 * p.ln() + (n - j) as f64 * (1.0 - p).ln()).exp();
    if k as f64 <= n as f64 * p { (0..=k).map(term).sum::<f64>().ln() } else { (k..=n).map(term).sum::<f64>().ln() }
}

impl Prop for Net {
    fn id(&self) -> &'static str {
        "B19"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let mode = match rng.below(20) {
            0..=3 => Mode::Linear,
            4..=7 => Mode::Descent,
            8..=11 => Mode::Deep,
            12 => Mode::Draws,
            _ => Mode::Any,
        };
        let many = mode == Mode::Draws && rng.chance(0.3);
        let n = if many { rng.range(8, 20) } else if mode == Mode::Draws { rng.range(2, 5) } else if rng.big() { rng.range(30, 150) } else { rng.range(2, if th { 24 } else { 14 }) };
        let k = rng.range(1, 4);
        let cols: Vec<Col> = (0..k)
            .map(|_| Col { codes: (0..n).map(|_| rng.below(8)).collect(), offset: rng.irange(-3, 1) as f64, step: 1.0, bins: 0 })
            .collect();
        let y = (0..n).map(|_| if rng.chance(0.5) { 1.0 } else { -1.0 }).collect();
        let style = rng.below(4);
        let heavy = *rng.pick(&[100, 1_000, 10_000, 1_000_000]);
        let w: Vec<u32> = (0..n)
            .map(|i| match style {
                // one heavy row and light ones
                _ if many => if i == n / 2 { heavy } else { 1 },
                0 => 1,
                1 => rng.range(1, 100) as u32,
                2 => *rng.pick(&[0, 1, 1, 200]),
                _ => if rng.chance(0.5) { 0 } else { rng.range(1, 1000) as u32 },
            })
            .collect();
        let hidden = (0..*rng.pick(&[0, 1, 1, 2, 3]))
            .map(|_| (rng.range(1, 5), *rng.pick(&[Act::Sigmoid, Act::Relu, Act::Id, Act::Soft])))
            .collect();
        // now and then a long training, of many epochs or of long ones
        let (epochs, iters) = match rng.below(60) {
            0 if matches!(mode, Mode::Linear | Mode::Deep) => *rng.pick(&[(1, 300), (1, 1000), (2, 257), (20, 1), (130, 1), (200, 2), (101, 3)]),
            _ => (rng.range(1, 4), *rng.pick(&[1, 1, 2, 5, 20, 60])),
        };
        let c = Case {
            mode,
            hidden,
            single: rng.chance(0.4),
            eta: *rng.pick(&[1.0, 1.0, 0.5, 2.0, 6.0]),
            cut: *rng.pick(&[0.0, 0.0, 0.5, -0.5, 1.5]),
            epochs,
            iters,
            batch: match mode {
                Mode::Linear | Mode::Deep => rng.range(n, n + 3),
                Mode::Descent => 1000,
                Mode::Draws => if many { 1 } else { *rng.pick(&[1, 1, 2]) },
                _ => *rng.pick(&[1, 2, 3, n, 200]),
            },
            cols,
            shrink: *rng.pick(&[1, 4, 8, 8, 16]),
            y,
            w,
            other: (0..n).map(|_| rng.below(8)).collect(),
            env: Env::gen_sched(rng),
            env2: Env::gen_sched(rng),
        };
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = parse::<Case>(case) else { return };
        let c = c.fix();
        let t = table(&c.cols, &c.y);
        let n = t.n();
        let d = c.dist();
        let rows: Vec<usize> = (0..n).filter(|i| d[*i] > 0.0).collect();
        ex.state.add_str(&serde_json::to_string(&c).unwrap());
        ex.count(&format!("mode.{:?}", c.mode).to_lowercase(), 1);
        ex.trace(|| format!("{:?}: {}; {} rows, weights {:?}, epochs {}, iterations {}, batch {}", c.mode, c.what(), n, c.w, c.epochs, c.iters, c.batch));
        for i in 0..n.min(30) {
            ex.trace(|| format!("row {i}: x {:?} y {}", t.x[i], t.y[i]));
        }
        match c.mode {
            Mode::Linear => {
                let batch = c.batch.max(rows.len());
                let Some(c0) = train(&c, &t, &t, &d, false, (0, 0, batch), &c.env, ex) else { return };
                let p0: Vec<f64> = c0.iter().map(|v| c.prob(*v)).collect();
                let Some(c1) = train(&c, &t, &t, &d, false, (c.epochs, c.iters, batch), &c.env, ex) else { return };
                let Some(mut z) = odds(&p0) else {
                    ex.count("skipped.saturated", 1);
                    return;
                };
                ex.nontrivial = true;
                descend(&mut z, &t, &rows, 1e-3 / batch as f64, c.epochs * c.iters, c.single);
                ex.count("probe.descents_predicted", 1);
                for i in 0..n {
                    let p = c.prob(c1[i]);
                    ex.trace(|| format!("row {i}: initially {}, trained {p}, predicted {}", p0[i], sig(z[i])));
                    if (p - sig(z[i])).abs() > 1e-6 {
                        ex.fail("descent", format!("{}: after {} x {} steps of gradient descent the probability of +1 on row {i} is {p}, not {} (initially {})", c.what(), c.epochs, c.iters, sig(z[i]), p0[i]));
                        return;
                    }
                }
            }
            Mode::Descent => {
                let batch = c.batch.max(1000);
                let Some(c0) = train(&c, &t, &t, &d, false, (0, 0, batch), &c.env, ex) else { return };
                let Some(c1) = train(&c, &t, &t, &d, false, (c.epochs, c.iters, batch), &c.env, ex) else { return };
                let p0: Vec<f64> = c0.iter().map(|v| c.prob(*v)).collect();
                let p1: Vec<f64> = c1.iter().map(|v| c.prob(*v)).collect();
                if odds(&p0).is_none() || odds(&p1).is_none() {
                    ex.count("skipped.saturated", 1);
                    return;
                }
                ex.nontrivial = true;
                let (l0, l1) = (loss(&p0, &t.y, &rows), loss(&p1, &t.y, &rows));
                ex.trace(|| format!("loss {l0} -> {l1}"));
                ex.count("probe.losses_compared", 1);
                ex.count("probe.losses_fell", (l1 < l0 - 1e-9) as u64);
                if l1 > l0 + 1e-8 {
                    ex.fail("ascent", format!("{}: {} x {} tiny steps raised the training loss from {l0} to {l1}", c.what(), c.epochs, c.iters));
                }
            }
            Mode::Deep => {
                let batch = c.batch.max(rows.len());
                let Some(c0) = train(&c, &t, &t, &d, false, (0, 0, batch), &c.env, ex) else { return };
                let Some(c1) = train(&c, &t, &t, &d, false, (c.epochs, c.iters, batch), &c.env, ex) else { return };
                let Some(mut m) = simulate(&c.env, || {
                    // the sample takes its share of the entropy first
                    let _s = t.dense();
                    Mirror::new(&c, t.k())
                })
                .0
                .ok() else { return };
                // saturated outputs do not tell networks apart
                let told = (0..n).filter(|i| (1e-4..1.0 - 1e-4).contains(&c.prob(c0[*i]))).count();
                if told == 0 || (0..n).any(|i| (m.prob(&t.x[i]) - c.prob(c0[i])).abs() > 1e-9) {
                    ex.count("skipped.other_start", 1);
                    return;
                }
                // descent may amplify rounding
                let mut near = m.clone();
                for (k, w) in near.layers.iter_mut().flat_map(|l| l.0.iter_mut().flatten()).enumerate() {
                    *w *= 1.0 + 1e-12 * (1 + k % 7) as f64;
                }
                let rate = 1e-3 / batch as f64;
                for _ in 0..c.epochs * c.iters {
                    m.step(&t, &rows, rate);
                    near.step(&t, &rows, rate);
                }
                if (0..n).any(|i| !((m.prob(&t.x[i]) - near.prob(&t.x[i])).abs() < 1e-8)) {
                    ex.count("skipped.chaotic", 1);
                    return;
                }
                ex.nontrivial = true;
                ex.count("probe.networks_mirrored", 1);
                for i in 0..n {
                    let (p, q, p0) = (c.prob(c1[i]), m.prob(&t.x[i]), c.prob(c0[i]));
                    ex.trace(|| format!("row {i}: initially {p0}, trained {p}, predicted {q}"));
                    ex.count("probe.outputs_moved", ((q - p0).abs() > 1e-5) as u64);
                    if (p - q).abs() > 1e-6 {
                        ex.fail("descent", format!("{}: after {} x {} steps of gradient descent the probability of +1 on row {i} is {p}, not {q} (initially {p0})", c.what(), c.epochs, c.iters));
                        return;
                    }
                }
            }
            Mode::Draws => {
                // few examples per batch, and which ones shows in the step
                let steps = 100;
                let reps = 120u64;
                let size = c.batch.min(rows.len());
                let sets: Vec<Vec<usize>> = if size == 1 {
                    (0..n).map(|i| vec![i]).collect()
                } else {
                    (0..n).flat_map(|i| (0..i).map(move |j| vec![j, i])).collect()
                };
                let chance: Vec<f64> = sets
                    .iter()
                    .map(|s| match s[..] {
                        [i] => d[i],
                        [i, j] => d[i] * d[j] * (1.0 / (1.0 - d[i]) + 1.0 / (1.0 - d[j])),
                        _ => 0.0,
                    })
                    .collect();
                let m = sets.len();
                let rate = 1e-3 / c.batch as f64;
                let mut hit = vec![0u64; m];
                let mut total = 0;
                let (mut again, mut pairs) = (0u64, 0u64);
                let far = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
                let after = |z0: &[f64], seq: &[&Vec<usize>]| -> Vec<f64> {
                    let mut z = z0.to_vec();
                    for s in seq {
                        descend(&mut z, &t, s, rate, steps, c.single);
                    }
                    z.iter().map(|z| sig(*z)).collect()
                };
                // judged before the draw: would any outcome be recognised?
                let blurred = |cand: &[Vec<f64>]| (0..m).any(|i| (0..i).any(|j| far(&cand[i], &cand[j]) < 1e-7));
                let nearest = |cand: &[Vec<f64>], p: &[f64]| (0..m).min_by(|i, j| far(&cand[*i], p).total_cmp(&far(&cand[*j], p))).unwrap();
                for r in 0..reps {
                    let env = Env { entropy: c.env.entropy.wrapping_add(r * 7919), ..c.env.clone() };
                    let Some(c0) = train(&c, &t, &t, &d, false, (0, 0, c.batch), &env, ex) else { return };
                    let p0: Vec<f64> = c0.iter().map(|v| c.prob(*v)).collect();
                    let Some(z0) = odds(&p0) else { continue };
                    let cand: Vec<Vec<f64>> = sets.iter().map(|s| after(&z0, &[s])).collect();
                    if blurred(&cand) {
                        continue;
                    }
                    let Some(c1) = train(&c, &t, &t, &d, false, (1, steps, c.batch), &env, ex) else { return };
                    let p1: Vec<f64> = c1.iter().map(|v| c.prob(*v)).collect();
                    let i = nearest(&cand, &p1);
                    if far(&cand[i], &p1) > 1e-8 {
                        ex.fail("draw", format!("{}: a batch of {size} is no step on any {size} different rows", c.what()));
                        return;
                    }
                    if let Some(i) = sets[i].iter().find(|i| d[**i] == 0.0) {
                        ex.fail("draw", format!("{}: row {i} was drawn at weight zero", c.what()));
                        return;
                    }
                    hit[i] += 1;
                    total += 1;
                    // the second epoch draws anew
                    let second: Vec<Vec<f64>> = sets.iter().map(|s| after(&z0, &[&sets[i], s])).collect();
                    if blurred(&second) {
                        continue;
                    }
                    let Some(c2) = train(&c, &t, &t, &d, false, (2, steps, c.batch), &env, ex) else { return };
                    let p2: Vec<f64> = c2.iter().map(|v| c.prob(*v)).collect();
                    let j = nearest(&second, &p2);
                    if far(&second[j], &p2) > 1e-8 {
                        ex.fail("draw", format!("{}: the second epoch is no step on any {size} different rows", c.what()));
                        return;
                    }
                    pairs += 1;
                    again += (i == j) as u64;
                }
                let twice: f64 = chance.iter().map(|p| p * p).sum();
                if pairs > 0 && twice < 1.0 - 1e-9 && tail(pairs, twice, again) < -23.0 {
                    ex.fail("redraw", format!("{}: the second epoch drew the first epoch's rows {again} of {pairs} times", c.what()));
                    return;
                }
                ex.count("probe.second_draws", pairs);
                ex.trace(|| format!("{total} draws: {hit:?}"));
                ex.count("probe.draws_recognised", total);
                ex.count("probe.pairs_recognised", if size == 2 { total } else { 0 });
                ex.nontrivial = total >= 20;
                if total == 0 {
                    return;
                }
                let odd = |p: f64, k: u64| p > 0.0 && p < 1.0 - 1e-12 && tail(total, p, k) < -23.0;
                for (s, (p, k)) in sets.iter().zip(chance.iter().zip(&hit)) {
                    if odd(*p, *k) {
                        ex.fail("draws", format!("{}: rows {s:?} were drawn {k} of {total} times at a chance of {p:.4}", c.what()));
                        return;
                    }
                }
                // all but the heaviest row
                let heavy = (0..n).max_by(|a, b| d[*a].total_cmp(&d[*b])).unwrap();
                let light = |s: &Vec<usize>| s.iter().all(|i| *i != heavy);
                let p: f64 = sets.iter().zip(&chance).filter(|x| light(x.0)).map(|x| x.1).sum();
                let k: u64 = sets.iter().zip(&hit).filter(|x| light(x.0)).map(|x| x.1).sum();
                if odd(p, k) {
                    ex.fail("draws", format!("{}: rows other than {heavy} were drawn {k} of {total} times at a chance of {p:.6}", c.what()));
                }
            }
            Mode::Any => {
                let arg = (c.epochs, c.iters, c.batch);
                let Some(c1) = train(&c, &t, &t, &d, false, arg, &c.env, ex) else { return };
                ex.nontrivial = c.epochs * c.iters > 0;
                let diff = |a: &[f64], b: &[f64]| (0..n).find(|i| (a[*i] - b[*i]).abs() > 1e-6);
                // a soft-maximum confidence jumps where the two outputs are equal
                let edge = |i: usize| !c.single && (c1[i].abs() - 0.5).abs() < 1e-6;
                // another pool, and possibly another storage
                let sparse = t.columns_kept().len() == t.k();
                let env2 = Env { entropy: c.env.entropy, ..c.env2.clone() };
                let Some(c2) = train(&c, &t, &t, &d, sparse, arg, &env2, ex) else { return };
                ex.count("probe.schedules_compared", 1);
                // the scale of the output layer multiplies the log odds
                if c.eta != 1.0 {
                    let Some(a) = train_out(&c, &t, &t, &d, false, 1.0, (0, 0, c.batch), &c.env, ex) else { return };
                    let Some(b) = train_out(&c, &t, &t, &d, false, c.eta, (0, 0, c.batch), &c.env, ex) else { return };
                    for i in 0..n {
                        let (p, q) = (c.prob(a[i]), c.prob(b[i]));
                        let want = sig(c.eta * (p / (1.0 - p)).ln());
                        if (1e-9..1.0 - 1e-9).contains(&p) {
                            ex.count("probe.scales_compared", 1);
                            if (q - want).abs() > 1e-6 {
                                ex.fail("scale", format!("{}: at scale 1 of the output layer the probability of +1 on row {i} is {p}, at scale {} it is {q}, not {want}", c.what(), c.eta));
                                return;
                            }
                        }
                    }
                }
                if let Some(i) = diff(&c1, &c2).filter(|i| !edge(*i)) {
                    // descent may amplify rounding; then so does a change of the last digits
                    let mut v = t.clone();
                    for (k, x) in v.x.iter_mut().flatten().enumerate() {
                        *x *= 1.0 + 1e-13 * (1 + k % 7) as f64;
                    }
                    let Some(c4) = train(&c, &v, &v, &d, false, arg, &c.env, ex) else { return };
                    if c1.iter().zip(&c4).any(|(a, b)| (a - b).abs() > 1e-8) {
                        ex.count("skipped.chaotic", 1);
                        return;
                    }
                    ex.fail("schedule", format!("{}: the confidence on row {i} is {} ({}, {} workers) and {} (dense, {} workers)", c.what(), c2[i], if sparse { "sparse" } else { "dense" }, env2.threads, c1[i], c.env.threads));
                    return;
                }
                // rows without weight may say anything
                let mut u = t.clone();
                let mut changed = 0;
                for i in 0..n {
                    if d[i] == 0.0 {
                        u.y[i] = -u.y[i];
                        for (x, c) in u.x[i].iter_mut().zip(&c.cols) {
                            *x = c.offset + c.step * (t.x[i].len() + i) as f64;
                        }
                        let o = c.other[i] as f64;
                        u.x[i][0] = o;
                        changed += 1;
                    }
                }
                if changed > 0 {
                    let Some(c3) = train(&c, &u, &t, &d, false, arg, &c.env, ex) else { return };
                    ex.count("probe.weightless_rows_changed", changed);
                    if let Some(i) = diff(&c1, &c3).filter(|i| !edge(*i)) {
                        ex.fail("weightless", format!("{}: other rows of weight zero change the confidence on row {i} from {} to {}", c.what(), c1[i], c3[i]));
                    }
                }
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 200_000 } else { 12_000 }
    }
    fn rule(&self) -> &'static str {
        "random architecture, table, weights, schedule and entropy (initial network and draws); non-trivial: a network was trained and could be judged (no saturated outputs)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["neural network learner and hypothesis", "Sample, SampleReader", "rand's thread generator (seeded by the simulated entropy source)", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["rayon-core thread pool (simulated fork/join scheduler)", "entropy, disk (simulated system calls)"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.descents_predicted", "probe.losses_fell", "probe.networks_mirrored", "probe.outputs_moved", "probe.scales_compared", "probe.pairs_recognised", "probe.draws_recognised", "probe.schedules_compared", "probe.weightless_rows_changed", "sched.steals", "entropy.reads"]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&Net]
}
