//! Gradient boosting with simulated and real regression learners.

use super::tree::{gen_cols, gen_targets, lopsided_min, table, Col, Loss};
use super::{parse, Prop};
use crate::party::SimH;
use crate::rng::Rng;
use crate::seam;
use crate::table::Table;
use crate::world::{simulate, End, Env, Exec, SimCrash, StepCap};
use miniboosts::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum GReply {
    /// The hypothesis that reduces the squared loss most.
    Best,
    Worst,
    Idx(usize),
    Repeat,
    /// Predicts zero everywhere.
    Zero,
    Crash,
    Slow(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(default)]
struct GCase {
    y: Vec<f64>,
    pool: Vec<Vec<f64>>,
    script: Vec<GReply>,
    tail: GReply,
    /// Use the real regression tree of this depth on these features.
    tree: Option<usize>,
    cols: Vec<Col>,
    loss: Loss,
    /// The loss is set after the booster was made for another one.
    late: bool,
    /// The unit of targets and predictions (a power of two).
    unit: i32,
    env: Env,
    env2: Env,
}
impl Default for GCase {
    fn default() -> Self {
        GCase {
            y: vec![1.0],
            pool: vec![],
            script: vec![],
            tail: GReply::Best,
            tree: None,
            cols: vec![],
            loss: Loss::L2,
            late: false,
            unit: 0,
            env: Env::default(),
            env2: Env::default(),
        }
    }
}
fn eighths(v: &mut f64) {
    if !v.is_finite() {
        *v = 0.0;
    }
    *v = (v.clamp(-1e4, 1e4) * 8.0).round() / 8.0;
}
impl GCase {
    fn scale(&self) -> f64 {
        2f64.powi(self.unit)
    }
    fn load(v: &Value) -> Option<GCase> {
        let mut c: GCase = parse(v)?;
        c.unit = c.unit.clamp(-100, 40);
        if c.y.is_empty() {
            c.y.push(1.0);
        }
        let n = c.y.len();
        c.y.iter_mut().for_each(eighths);
        if c.pool.is_empty() {
            c.pool.push(vec![1.0; n]);
        }
        for h in c.pool.iter_mut() {
            h.resize(n, 0.0);
            h.iter_mut().for_each(eighths);
        }
        if c.cols.is_empty() {
            c.cols.push(Col::default());
        }
        let s = c.scale();
        c.y.iter_mut().chain(c.pool.iter_mut().flatten()).for_each(|v| *v *= s);
        c.cols = c.cols.into_iter().map(|f| f.fix(n)).collect();
        if let Some(d) = &mut c.tree {
            *d = (*d).clamp(1, 10);
        }
        Some(c)
    }
    fn table(&self) -> Table {
        table(&self.cols, &self.y)
    }
}

struct Party<'a> {
    c: &'a GCase,
    crash: bool,
    t: Cell<usize>,
    last: Cell<Option<usize>>,
}
impl WeakLearner for Party<'_> {
    type Hypothesis = SimH;
    fn produce(&self, _s: &Sample, p: &[f64]) -> SimH {
        let c = self.c;
        let t = self.t.get();
        self.t.set(t + 1);
        let gain = |h: &Vec<f64>| {
            let dot: f64 = h.iter().zip(&c.y).zip(p).map(|((h, y), p)| h * (y - p)).sum();
            let sq: f64 = h.iter().map(|h| h * h).sum();
            let g = if sq > 0.0 { dot * dot / sq } else { 0.0 };
            // do not react to rounding noise
            (g / (c.scale() * c.scale()) * 1e6).round()
        };
        let mut ix: Vec<usize> = (0..c.pool.len()).collect();
        ix.sort_by(|a, b| gain(&c.pool[*b]).total_cmp(&gain(&c.pool[*a])).then(a.cmp(b)));
        let j = match c.script.get(t).copied().unwrap_or(c.tail) {
            GReply::Best => ix[0],
            GReply::Worst => *ix.last().unwrap(),
            GReply::Idx(k) => k % ix.len(),
            GReply::Repeat => self.last.get().unwrap_or(ix[0]),
            GReply::Zero => return SimH { id: usize::MAX, tab: Arc::new(vec![0.0; c.y.len()]) },
            GReply::Crash => {
                if self.crash {
                    std::panic::panic_any(SimCrash(format!("round {}", t + 1)));
                }
                ix[0]
            }
            GReply::Slow(ms) => {
                seam::clock_advance(ms.saturating_mul(1_000_000));
                ix[0]
            }
        };
        self.last.set(Some(j));
        SimH { id: j, tab: Arc::new(c.pool[j].clone()) }
    }
}

/// Records what a learner is told and answers.
pub struct Rec<W> {
    pub inner: W,
    pub log: RefCell<Vec<(Vec<f64>, Vec<f64>)>>,
    pub cap: usize,
}
impl<W: WeakLearner> WeakLearner for Rec<W>
where
    W::Hypothesis: Regressor,
{
    type Hypothesis = W::Hypothesis;
    fn name(&self) -> &str {
        self.inner.name()
    }
    fn produce(&self, s: &Sample, p: &[f64]) -> W::Hypothesis {
        let t = self.log.borrow().len();
        if t >= self.cap {
            std::panic::panic_any(StepCap(format!("the weak learner was asked a {}-th time", t + 1)));
        }
        // a crash leaves no entry behind
        let h = self.inner.produce(s, p);
        self.log.borrow_mut().push((p.to_vec(), h.predict_all(s)));
        h
    }
}

#[derive(Default)]
struct Out {
    log: Vec<(Vec<f64>, Vec<f64>)>,
    pred: Vec<f64>,
    pred1: Vec<f64>,
    weights: Vec<f64>,
    hyp: Vec<Vec<f64>>,
}

fn go<W: WeakLearner>(c: &GCase, s: &Sample, mut wl: impl FnMut(bool) -> W, crash: bool) -> Out
where
    W::Hypothesis: Regressor + Clone,
{
    let mut b = if c.late {
        let other = if c.loss == Loss::L2 { Loss::L1 } else { Loss::L2 };
        GBM::init_with_loss(s, other.real()).tolerance(0.3).loss(c.loss.real())
    } else {
        GBM::init_with_loss(s, c.loss.real())
    };
    if crash {
        let rec = Rec { inner: wl(true), log: RefCell::default(), cap: 300 };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            b.run(&rec);
        }));
        if let Err(p) = r {
            if !p.is::<SimCrash>() {
                std::panic::resume_unwind(p);
            }
        }
    }
    let rec = Rec { inner: wl(false), log: RefCell::default(), cap: 300 };
    let f = b.run(&rec);
    Out {
        log: rec.log.into_inner(),
        pred: f.predict_all(s),
        pred1: (0..c.y.len()).map(|i| f.predict(s, i)).collect(),
        weights: f.weights.clone(),
        hyp: f.hypotheses.iter().map(|h| h.predict_all(s)).collect(),
    }
}
fn run(c: &GCase, env: &Env, crash: bool, ex: &mut Exec) -> Option<Out> {
    let t = c.table();
    let (end, st) = simulate(env, || {
        let s = t.dense();
        match c.tree {
            None => go(c, &s, |cr| Party { c, crash: cr, t: Cell::new(0), last: Cell::new(None) }, crash),
            Some(d) => go(c, &s, |_| RegressionTreeBuilder::new(&s).loss(c.loss.real()).max_depth(d).build(), crash),
        }
    });
    ex.absorb(&st);
    match end {
        End::Done(o) => {
            ex.digest.add_slice(&o.pred);
            ex.count("rounds", o.log.len() as u64);
            Some(o)
        }
        e => {
            ex.fail("panic", format!("gradient boosting ({:?} loss) {}", c.loss, e.describe()));
            None
        }
    }
}

/// The least mean loss on the line p + c h.
fn line_min(loss: Loss, p: &[f64], h: &[f64], y: &[f64]) -> f64 {
    let at = |c: f64| p.iter().zip(h).zip(y).map(|((p, h), y)| loss.at(p + c * h - y)).sum::<f64>() / p.len() as f64;
    let mut cand = vec![0.0];
    match loss {
        Loss::L2 | Loss::Taxed => {
            let sq: f64 = h.iter().map(|h| h * h).sum();
            if sq > 0.0 {
                cand.push(p.iter().zip(h).zip(y).map(|((p, h), y)| h * (y - p)).sum::<f64>() / sq);
            }
        }
        Loss::Own => cand.push(lopsided_min(&p.iter().zip(y).map(|(p, y)| y - p).collect::<Vec<_>>(), h)),
        // piecewise linear: the minimum is at a kink
        Loss::L1 => cand.extend(p.iter().zip(h).zip(y).filter(|((_, h), _)| **h != 0.0).map(|((p, h), y)| (y - p) / h)),
    }
    cand.into_iter().map(at).fold(f64::MAX, f64::min)
}

pub struct Descent;

impl Prop for Descent {
    fn id(&self) -> &'static str {
        "B15"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let n = match rng.below(8) {
            _ if rng.big() => rng.range(61, 300),
            0 => rng.range(1, 3),
            7 => rng.range(13, if th { 60 } else { 30 }),
            _ => rng.range(3, 12),
        };
        let k = rng.range(1, 4);
        let cols = gen_cols(rng, n, k);
        let y = gen_targets(rng, &cols, n);
        let m = if rng.big() { rng.range(1, 60) } else { rng.range(1, 8) };
        let style = rng.below(4);
        let pool = (0..m)
            .map(|j| {
                (0..n)
                    .map(|i| match style {
                        0 => if rng.chance(0.5) { 1.0 } else { -1.0 },
                        1 => rng.irange(-16, 16) as f64 / 8.0,
                        2 => if i % m == j { 1.0 } else { 0.0 },
                        _ => if rng.chance(0.3) { 0.0 } else { y[i] + rng.irange(-8, 8) as f64 },
                    })
                    .collect()
            })
            .collect();
        let len = if rng.big() { rng.range(0, 110) } else { *rng.pick(&[0, 3, 10, 40]) };
        let all = [GReply::Worst, GReply::Idx(0), GReply::Repeat, GReply::Zero, GReply::Crash, GReply::Slow(5)];
        let mut menu = vec![GReply::Best];
        for r in all {
            if rng.chance(0.35) && !(r == GReply::Zero && rng.chance(0.7)) {
                menu.push(r);
            }
        }
        let script = (0..len)
            .map(|_| match *rng.pick(&menu) {
                GReply::Idx(_) => GReply::Idx(rng.below(m)),
                r => r,
            })
            .collect();
        let c = GCase {
            y,
            pool,
            script,
            tail: if rng.chance(0.2) { GReply::Idx(rng.below(m)) } else { GReply::Best },
            tree: if rng.chance(0.35) { Some(*rng.pick(&[1, 2, 2, 3, 5])) } else { None },
            cols,
            loss: *rng.pick(&Loss::ALL),
            late: rng.chance(0.2),
            unit: if rng.chance(0.15) { *rng.pick(&[-12, -30, -40, -90, 20, 35]) } else { 0 },
            env: Env::gen_sched(rng),
            env2: Env::gen_sched(rng),
        };
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = GCase::load(case) else { return };
        ex.state.add_str(&serde_json::to_string(&(&c.y, &c.pool, &c.script, c.tail, c.tree, &c.cols, c.loss)).unwrap());
        let n = c.y.len();
        let crash = c.tree.is_none() && c.script.contains(&GReply::Crash);
        let Some(o) = run(&c, &c.env, false, ex) else { return };
        ex.trace(|| format!("{:?} loss, {n} examples, targets {:?}, tree depth {:?}: {} calls, weights {:?}", c.loss, c.y, c.tree, o.log.len(), o.weights));
        for (t, (p, h)) in o.log.iter().enumerate().take(50) {
            ex.trace(|| format!("round {}: told {p:?} (loss {}), answered {h:?}", t + 1, c.loss.mean(p, &c.y)));
        }
        ex.nontrivial = o.log.len() > 1;
        ex.count(if c.tree.is_some() { "probe.tree_runs" } else { "probe.party_runs" }, 1);
        let who = format!("gradient boosting ({:?} loss)", c.loss);
        let t = o.log.len();
        if t == 0 || t > 100 {
            ex.fail("rounds", format!("{who}: {t} calls of the weak learner"));
            return;
        }
        if o.log[0].0.iter().any(|p| *p != 0.0) || o.log[0].0.len() != n {
            ex.fail("start", format!("{who}: the first call is told {:?}", o.log[0].0));
            return;
        }
        if o.weights.len() != o.hyp.len() || o.pred.len() != n || o.pred.iter().zip(&o.pred1).any(|(a, b)| a != b) {
            ex.fail("output", format!("{who}: {} weights for {} hypotheses, or predictions in bulk and one by one differ", o.weights.len(), o.hyp.len()));
            return;
        }
        for i in 0..n {
            let want: f64 = o.weights.iter().zip(&o.hyp).map(|(w, h)| w * h[i]).sum();
            let size: f64 = o.weights.iter().zip(&o.hyp).map(|(w, h)| (w * h[i]).abs()).sum();
            if !((o.pred[i] - want).abs() <= 1e-9 * (c.scale() + size)) {
                ex.fail("output", format!("{who}: row {i} is predicted {} but the weighted sum is {want}", o.pred[i]));
                return;
            }
        }
        let scale = c.scale() + c.y.iter().map(|y| y.abs()).fold(0.0, f64::max);
        let tol = 1e-8 * c.loss.at(scale);
        for r in 0..t {
            let (p, h) = &o.log[r];
            let next = if r + 1 < t { &o.log[r + 1].0 } else { &o.pred };
            let sq: f64 = h.iter().map(|h| h * h).sum();
            let coef = if sq > 0.0 { next.iter().zip(p).zip(h).map(|((a, b), h)| (a - b) * h).sum::<f64>() / sq } else { 0.0 };
            if let Some(i) = (0..n).find(|i| !((next[*i] - p[*i] - coef * h[*i]).abs() <= 1e-8 * scale * (1.0 + coef.abs()))) {
                ex.fail("not-a-step", format!("{who}: round {} moves row {i} from {} to {}, not along the answer {h:?}", r + 1, p[i], next[i]));
                return;
            }
            let (before, after) = (c.loss.mean(p, &c.y), c.loss.mean(next, &c.y));
            if !(after <= before + tol) {
                ex.fail("ascent", format!("{who}: round {} raises the loss from {before} to {after}", r + 1));
                return;
            }
            let best = line_min(c.loss, p, h, &c.y);
            if !(after <= best + tol) {
                ex.fail("not-the-minimum", format!("{who}: round {} reaches the loss {after} although {best} is on its line (coefficient {coef})", r + 1));
                return;
            }
            if before - best > 100.0 * tol {
                ex.count("probe.improving_rounds", 1);
            }
            // a useless answer is the only reason to stop early
            if r + 1 == t && t < 100 && before - best > 100.0 * tol {
                ex.fail("early-stop", format!("{who}: the run stops after {t} calls although the last answer lowers the loss from {before} to {best}"));
                return;
            }
        }
        let same = |a: &Out, b: &Out| {
            a.log.len() == b.log.len() && a.pred.iter().zip(&b.pred).all(|(x, y)| (x - y).abs() <= 1e-9 * (c.scale() + x.abs()))
        };
        if c.tree.is_none() {
            // fixed answers: the schedule must not matter
            let Some(b) = run(&c, &c.env2, false, ex) else { return };
            if c.script.iter().chain([&c.tail]).all(|r| matches!(r, GReply::Idx(_) | GReply::Zero)) && !same(&o, &b) {
                ex.fail("schedule", format!("{who}: another schedule gives another result"));
                return;
            }
        }
        if crash {
            let Some(b) = run(&c, &c.env, true, ex) else { return };
            ex.count("fault.party.crash", 1);
            if o.log.len() != b.log.len() || o.pred.iter().zip(&b.pred).any(|(x, y)| x.to_bits() != y.to_bits()) || o.weights != b.weights {
                ex.fail("not-fresh", format!("{who}: a run after a crash differs from a fresh one ({} and {} rounds)", b.log.len(), o.log.len()));
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 1_500_000 } else { 150_000 }
    }
    fn rule(&self) -> &'static str {
        "random targets, loss and regression learner (simulated party answering best, worst, fixed, repeated, zero, crashing, slow; or the real tree) under two fork/join schedules; non-trivial: at least two rounds"
    }
    fn real(&self) -> &'static [&'static str] {
        &["GBM", "loss functions", "regression tree (35% of the runs)", "WeightedMajority", "Sample, SampleReader"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["weak learner (simulated party, 65% of the runs)", "rayon-core thread pool (simulated fork/join scheduler)", "clock, entropy, disk (simulated)"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["fault.party.crash", "probe.tree_runs", "probe.party_runs", "probe.improving_rounds", "sched.steals"]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&Descent]
}
