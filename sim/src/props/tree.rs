//! Tree learners, their exports, and gradient boosting.

use super::logger::gen_write_faults;
use super::{parse, Prop};
use crate::rng::Rng;
use crate::seam::{self, DiskFault, Op, What};
use crate::table::Table;
use crate::world::{simulate, End, Env, Exec};
use miniboosts::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

// -------------------------------------------------------------- the ground

/// A feature: the rank of each row's value, and how ranks become values.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Col {
    pub codes: Vec<usize>,
    pub offset: f64,
    pub step: f64,
    /// Bins asked for (0: the default).
    pub bins: usize,
}
impl Col {
    pub fn fix(mut self, n: usize) -> Col {
        self.codes.resize(n, 0);
        // every rank up to the largest occurs: then the bins separate them
        let mut ranks: Vec<usize> = self.codes.clone();
        ranks.sort();
        ranks.dedup();
        for c in self.codes.iter_mut() {
            *c = ranks.binary_search(c).unwrap();
        }
        let wild = WILD.contains(&self.step) && (self.offset == 0.0 || self.step == ULPS) && self.k() <= 60;
        if wild {
            // a few steps of the smallest kind, or of an extreme scale
            self.bins = if self.step == ULPS { 255 } else { 0 };
            self.offset = if self.step == ULPS { self.offset.signum() } else { 0.0 };
            return self;
        }
        if !self.step.is_finite() || !(1e-9..=1e12).contains(&self.step) {
            self.step = 1.0;
        }
        if !self.offset.is_finite() || self.offset.abs() > 1e6 * self.step {
            self.offset = 0.0;
        }
        if self.bins > 0 && (self.bins >= self.k() || (gcd(self.bins, self.k() - 1) != 1 && !self.exact())) {
            self.bins = 0;
        }
        // the default of 255 bins must not cut through a value either
        while self.bins == 0 && self.k() > 255 && gcd(255, self.k() - 1) != 1 {
            let m = self.k() - 1;
            for c in self.codes.iter_mut() {
                *c = (*c).min(m - 1);
            }
        }
        self
    }
    /// Are the bin edges computed without rounding, so that a value on an
    /// edge surely opens the bin to its right?
    fn exact(&self) -> bool {
        let whole = |x: f64| (2.0 * x).fract() == 0.0 && x.abs() < 1e12;
        whole(self.step)
            && whole(self.offset)
            && (self.bins.is_power_of_two() || (self.offset == 0.0 && (self.bins / gcd(self.bins, self.k() - 1)).is_power_of_two()))
    }
    pub fn k(&self) -> usize {
        self.codes.iter().max().map_or(1, |m| m + 1)
    }
    pub fn value(&self, i: usize) -> f64 {
        self.offset + self.step * self.codes[i] as f64
    }
    /// The bin of each row.
    pub fn bin(&self, i: usize) -> usize {
        let k = self.k();
        let bins = if self.bins == 0 { k.min(255) } else { self.bins };
        if bins == k || k < 2 {
            return self.codes[i];
        }
        (self.codes[i] * bins / (k - 1)).min(bins - 1)
    }
}
/// Four times the distance of 1 to the next number.
const ULPS: f64 = 4.0 * f64::EPSILON;
const WILD: [f64; 4] = [ULPS, 1e250, 1e-250, 1e100];
/// Makes a column one whose values are extremely close together, large or small.
pub fn wild(rng: &mut Rng, cols: &mut [Col]) {
    if rng.chance(0.1) {
        let c = &mut cols[rng.below(cols.len())];
        let step = *rng.pick(&[ULPS, ULPS, ULPS, 1e250, 1e-250, 1e100]);
        let offset = if step == ULPS { *rng.pick(&[1.0, -1.0]) } else { 0.0 };
        *c = Col { codes: std::mem::take(&mut c.codes), offset, step, bins: 0 };
    }
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
pub fn gen_cols(rng: &mut Rng, n: usize, k: usize) -> Vec<Col> {
    let plain = rng.chance(0.5);
    (0..k)
        .map(|_| {
            let levels = *rng.pick(&[1, 2, 2, 3, 5, n, n]);
            let mut codes: Vec<usize> = (0..n).map(|_| rng.below(levels)).collect();
            if levels == n && rng.chance(0.5) {
                codes = (0..n).collect();
                rng.shuffle(&mut codes);
            }
            let step = if plain { 1.0 } else { *rng.pick(&[1.0, 0.5, 0.001, 1e6, 3.0, 1e-7]) };
            let offset = step * if plain { 0.0 } else { *rng.pick(&[0.0, 0.0, 1.0, -2.0, -50.0, 1000.0]) };
            let bins = match rng.below(10) {
                0 | 1 => rng.range(1, levels.max(1)),
                2 => *rng.pick(&[2, 2, 4, 8]),
                _ => 0,
            };
            Col { codes, offset, step, bins }
        })
        .collect()
}
pub fn table(cols: &[Col], y: &[f64]) -> Table {
    Table { x: (0..y.len()).map(|i| cols.iter().map(|c| c.value(i)).collect()).collect(), y: y.to_vec() }.fix()
}
/// The sample, in either representation, and the columns it kept.
fn sample(t: &Table, sparse: bool) -> (Sample, Vec<usize>) {
    if sparse {
        (t.sparse(), t.columns_kept())
    } else {
        (t.dense(), (0..t.k()).collect())
    }
}

// ----------------------------------------------------- reference greedy tree

/// Statistics of a set of rows and what a leaf on them answers.
pub trait Fit {
    fn leaf(&self, rows: &[usize]) -> f64;
    fn pure(&self, rows: &[usize]) -> bool;
    /// Larger is better.
    fn score(&self, left: &[usize], right: &[usize]) -> f64;
    /// Scores within this distance of the best may be rounding.
    fn near(&self, best: f64) -> f64 {
        1e-9 * (1.0 + best.abs())
    }
}
pub struct Grown {
    pub leaf: Vec<Option<f64>>,
    pub splits: usize,
    /// Two different splits were (nearly) equally good somewhere.
    pub tie: bool,
    pub depth: usize,
}
/// Greedy growth by trying every split; `levels` of splits are allowed.
pub fn grow(fit: &dyn Fit, cols: &[&Col], rows: &[usize], levels: usize, out: &mut Grown, level: usize) {
    let set = |out: &mut Grown, rows: &[usize]| {
        let v = fit.leaf(rows);
        for i in rows {
            out.leaf[*i] = Some(v);
        }
    };
    if fit.pure(rows) || levels == 0 {
        set(out, rows);
        return;
    }
    // candidate partitions, the trivial one first
    let mut cand: Vec<(f64, Vec<bool>)> = vec![(fit.score(rows, &[]), vec![false; rows.len()])];
    for c in cols {
        let mut bins: Vec<usize> = rows.iter().map(|i| c.bin(*i)).collect();
        bins.sort();
        bins.dedup();
        for b in bins.iter().skip(1) {
            let left: Vec<usize> = rows.iter().copied().filter(|i| c.bin(*i) < *b).collect();
            let right: Vec<usize> = rows.iter().copied().filter(|i| c.bin(*i) >= *b).collect();
            // the side of the first row names the partition
            let first = c.bin(rows[0]) < *b;
            cand.push((fit.score(&left, &right), rows.iter().map(|i| (c.bin(*i) < *b) != first).collect()));
        }
    }
    let best = cand.iter().map(|c| c.0).fold(f64::MIN, f64::max);
    let tol = fit.near(best);
    let mut near = cand.iter().filter(|c| c.0 >= best - tol);
    let part = near.next().unwrap().1.clone();
    if near.any(|c| c.1 != part) {
        out.tie = true;
        return;
    }
    if part.iter().all(|b| !b) {
        set(out, rows);
        return;
    }
    out.splits += 1;
    out.depth = out.depth.max(level + 1);
    for side in [false, true] {
        let sub: Vec<usize> = rows.iter().zip(&part).filter(|(_, p)| **p == side).map(|(i, _)| *i).collect();
        grow(fit, cols, &sub, levels - 1, out, level + 1);
    }
}

// ----------------------------------------------------------- decision trees

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "snake_case")]
pub enum Crit {
    #[default]
    Entropy,
    Edge,
    Gini,
    Twoing,
}
impl Crit {
    pub const ALL: [Crit; 4] = [Crit::Entropy, Crit::Edge, Crit::Gini, Crit::Twoing];
    pub fn real(self) -> Criterion {
        match self {
            Crit::Entropy => Criterion::Entropy,
            Crit::Edge => Criterion::Edge,
            Crit::Gini => Criterion::Gini,
            Crit::Twoing => Criterion::Twoing,
        }
    }
}

struct ClassFit<'a> {
    y: &'a [f64],
    w: &'a [f64],
    crit: Crit,
}
impl ClassFit<'_> {
    fn sums(&self, rows: &[usize]) -> (f64, f64) {
        let s = |pos: bool| rows.iter().filter(|i| (self.y[**i] > 0.0) == pos).map(|i| self.w[*i]).sum::<f64>();
        (s(true), s(false))
    }
}
impl Fit for ClassFit<'_> {
    fn leaf(&self, rows: &[usize]) -> f64 {
        let (p, m) = self.sums(rows);
        (p - m) / (p + m)
    }
    fn pure(&self, rows: &[usize]) -> bool {
        let (p, m) = self.sums(rows);
        p == 0.0 || m == 0.0
    }
    fn score(&self, left: &[usize], right: &[usize]) -> f64 {
        let (l, r) = (self.sums(left), self.sums(right));
        let (tl, tr) = (l.0 + l.1, r.0 + r.1);
        let t = tl + tr;
        let frac = |a: f64, b: f64| if b > 0.0 { a / b } else { 0.0 };
        match self.crit {
            Crit::Entropy | Crit::Gini => {
                let imp = |a: f64, b: f64| {
                    let (p, q) = (frac(a, a + b), frac(b, a + b));
                    if a + b == 0.0 {
                        0.0
                    } else if self.crit == Crit::Entropy {
                        [p, q].iter().map(|x| if *x > 0.0 { -x * x.ln() } else { 0.0 }).sum::<f64>()
                    } else {
                        1.0 - p * p - q * q
                    }
                };
                -(tl / t * imp(l.0, l.1) + tr / t * imp(r.0, r.1))
            }
            Crit::Edge => ((r.0 - r.1) - (l.0 - l.1)).abs() / t,
            Crit::Twoing => {
                if tl == 0.0 || tr == 0.0 {
                    return 0.0;
                }
                let d = (l.0 / tl - r.0 / tr).abs() + (l.1 / tl - r.1 / tr).abs();
                d * d * (tl / t) * (tr / t) / 4.0
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
pub struct TCase {
    pub cols: Vec<Col>,
    pub y: Vec<f64>,
    /// Weights as (mantissa, binary exponent).
    pub w: Vec<(u32, u32)>,
    pub crit: Crit,
    pub depth: usize,
    pub env: Env,
    pub env2: Env,
    pub faults: Vec<DiskFault>,
    pub capacity: Option<u64>,
}
impl TCase {
    pub fn load(v: &Value) -> Option<TCase> {
        let mut c: TCase = parse(v)?;
        if c.y.is_empty() {
            c.y.push(1.0);
        }
        let n = c.y.len();
        for y in c.y.iter_mut() {
            *y = if *y > 0.0 { 1.0 } else { -1.0 };
        }
        if c.cols.is_empty() {
            c.cols.push(Col::default());
        }
        c.cols = c.cols.into_iter().map(|f| f.fix(n)).collect();
        c.w.resize(n, (1, 0));
        for w in c.w.iter_mut() {
            w.1 = w.1.min(900);
        }
        if c.w.iter().all(|w| w.0 == 0) {
            c.w[0].0 = 1;
        }
        c.depth = c.depth.clamp(1, 12);
        Some(c)
    }
    /// Dyadic weights that sum to (nearly) one when they are not all tiny.
    pub fn weights(&self) -> Vec<f64> {
        let total: u64 = self.w.iter().map(|w| w.0 as u64).sum();
        let scale = (total.max(1)).next_power_of_two() as f64;
        self.w.iter().map(|(m, e)| *m as f64 / scale * 0.5f64.powi(*e as i32)).collect()
    }
    fn digest(&self) -> u64 {
        let mut d = crate::rng::Digest::default();
        d.add_str(&serde_json::to_string(&(&self.cols, &self.y, &self.w, self.crit, self.depth)).unwrap());
        d.0
    }
}
pub fn gen_tcase(rng: &mut Rng, th: bool) -> TCase {
    let n = match rng.below(10) {
        _ if rng.big() => if rng.chance(0.7) { rng.range(61, 200) } else { rng.range(250, 600) },
        0 => rng.range(1, 3),
        1..=6 => rng.range(4, 12),
        7 | 8 => rng.range(13, 30),
        _ if rng.chance(0.03) => rng.range(250, 300),
        _ => rng.range(31, if th { 90 } else { 60 }),
    };
    let k = if rng.big() && n < 120 { rng.range(6, 20) } else if n > 100 { 1 } else { rng.range(1, 5) };
    let mut cols = gen_cols(rng, n, k);
    wild(rng, &mut cols);
    let err = *rng.pick(&[0.0, 0.1, 0.3, 0.5]);
    let lead = rng.below(k);
    let cut = rng.below(cols[lead].k() + 1);
    let y = (0..n).map(|i| if (cols[lead].codes[i] < cut) != rng.chance(err) { 1.0 } else { -1.0 }).collect();
    let style = rng.below(6);
    let w = (0..n)
        .map(|_| match style {
            0 => (1, 0),
            1 => (rng.range(1, 16) as u32, 0),
            2 => (if rng.chance(0.4) { 0 } else { rng.range(1, 1000) as u32 }, 0),
            3 => (rng.range(1, 1000) as u32, *rng.pick(&[0, 0, 0, 1, 5, 30])),
            4 => (rng.range(1, 1000) as u32, *rng.pick(&[0, 0, 60, 200, 900])),
            _ => (rng.range(1, 1000) as u32, 0),
        })
        .collect();
    TCase {
        cols,
        y,
        w,
        crit: *rng.pick(&Crit::ALL),
        depth: if rng.big() { rng.range(2, 12) } else { *rng.pick(&[1, 1, 2, 2, 3, 4, 7]) },
        env: Env::gen_sched(rng),
        env2: Env::gen_sched(rng),
        ..TCase::default()
    }
}

fn builder<'a>(c: &TCase, s: &'a Sample, kept: &[usize]) -> DecisionTree<'a> {
    let mut b = DecisionTreeBuilder::new(s).max_depth(c.depth).criterion(c.crit.real());
    for (p, j) in kept.iter().enumerate() {
        if c.cols[*j].bins > 0 {
            b.set_nbins(s.features()[p].name(), c.cols[*j].bins);
        }
    }
    b.build()
}
/// Confidences and predictions on every row.
fn train(c: &TCase, env: &Env, sparse: bool, ex: &mut Exec) -> Option<(Vec<f64>, Vec<i64>, Vec<usize>)> {
    let t = table(&c.cols, &c.y);
    let w = c.weights();
    let (end, st) = simulate(env, || {
        let (s, kept) = sample(&t, sparse);
        let h = {
            let dt = builder(c, &s, &kept);
            dt.produce(&s, &w)
        };
        (h.confidence_all(&s), h.predict_all(&s), kept)
    });
    ex.absorb(&st);
    match end {
        End::Done(r) => {
            ex.digest.add_slice(&r.0);
            Some(r)
        }
        e => {
            ex.fail("panic", format!("the decision tree {} (criterion {:?}, depth {}, {} examples)", e.describe(), c.crit, c.depth, c.y.len()));
            None
        }
    }
}

fn trace_case(ex: &mut Exec, c: &TCase) {
    if !ex.tracing {
        return;
    }
    ex.trace(|| format!("decision tree: criterion {:?}, depth {}, {} examples, {} features", c.crit, c.depth, c.y.len(), c.cols.len()));
    let w = c.weights();
    for i in 0..c.y.len().min(40) {
        ex.trace(|| format!("row {i}: x {:?} y {} weight {:e}", c.cols.iter().map(|f| f.value(i)).collect::<Vec<_>>(), c.y[i], w[i]));
    }
}

const REAL: &[&str] = &["decision tree and regression tree learners with binning", "Sample, SampleReader, features", "loss functions", "rayon iterator layer"];
const STUBS: &[&str] = &["rayon-core thread pool (simulated fork/join scheduler)", "hash-map keys (simulated entropy source)", "disk (simulated system calls)"];

pub struct Greedy;

impl Prop for Greedy {
    fn id(&self) -> &'static str {
        "B13"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        serde_json::to_value(gen_tcase(rng, th)).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = TCase::load(case) else { return };
        trace_case(ex, &c);
        ex.state.add(c.digest());
        let n = c.y.len();
        let w = c.weights();
        let rows: Vec<usize> = (0..n).filter(|i| w[*i] > 0.0).collect();
        let t = table(&c.cols, &c.y);
        let mut reps = vec![(false, &c.env), (false, &c.env2)];
        // the sparse text form drops a sample without any value
        if !t.columns_kept().is_empty() {
            reps.push((true, &c.env2));
        }
        let mut first: Option<Vec<f64>> = None;
        for (sparse, env) in reps {
            let Some((conf, pred, kept)) = train(&c, env, sparse, ex) else { return };
            let who = format!("decision tree ({:?}, depth {}, {})", c.crit, c.depth, if sparse { "sparse" } else { "dense" });
            for i in 0..n {
                if !conf[i].is_finite() || conf[i].abs() > 1.0 {
                    ex.fail("confidence", format!("{who}: the confidence on row {i} is {}", conf[i]));
                    return;
                }
                if pred[i] != if conf[i] >= 0.0 { 1 } else { -1 } {
                    ex.fail("predict", format!("{who}: row {i} is predicted {} at confidence {}", pred[i], conf[i]));
                    return;
                }
            }
            // rows with equal features are not told apart
            let mut seen: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
            for i in 0..n {
                let key: Vec<usize> = kept.iter().map(|j| c.cols[*j].codes[i]).collect();
                if *seen.entry(key).or_insert(conf[i]) != conf[i] {
                    ex.fail("not-a-function", format!("{who}: rows with equal features get different confidences"));
                    return;
                }
            }
            let mut leaves: Vec<u64> = rows.iter().map(|i| (conf[*i] + 0.0).to_bits()).collect();
            leaves.sort();
            leaves.dedup();
            if leaves.len() > 1usize << c.depth.min(20) {
                ex.fail("too-many-leaves", format!("{who}: {} different answers", leaves.len()));
                return;
            }
            // an example without weight has no leaf of its own
            if let Some(i) = (0..n).find(|i| leaves.binary_search(&(conf[*i] + 0.0).to_bits()).is_err()) {
                ex.fail("foreign-leaf", format!("{who}: row {i} (weight {}) gets {}, which no weighted row gets", w[i], conf[i]));
                return;
            }
            let cols: Vec<&Col> = kept.iter().map(|j| &c.cols[*j]).collect();
            let fit = ClassFit { y: &c.y, w: &w, crit: c.crit };
            let mut g = Grown { leaf: vec![None; n], splits: 0, tie: false, depth: 0 };
            // products of such weights underflow
            if rows.iter().any(|i| w[*i] < 1e-120) {
                ex.count("skipped.underflow", 1);
                continue;
            }
            grow(&fit, &cols, &rows, c.depth, &mut g, 0);
            ex.count(if g.tie { "skipped.ties" } else { "probe.reference_trees" }, 1);
            ex.nontrivial |= !g.tie && g.splits > 0;
            ex.count("probe.reference_splits", g.splits as u64);
            if !g.tie {
                for i in &rows {
                    let want = g.leaf[*i].unwrap();
                    if (conf[*i] - want).abs() > 1e-9 {
                        ex.fail("not-greedy", format!("{who}: row {i} gets confidence {} but the greedy tree ({} splits) gives {want}", conf[*i], g.splits));
                        return;
                    }
                }
                if let Some(f) = &first {
                    if rows.iter().any(|i| (f[*i] - conf[*i]).abs() > 1e-9) {
                        ex.fail("schedule", format!("{who}: two runs on the same data disagree"));
                        return;
                    }
                }
                first = Some(conf.clone());
            }
            // one feature: between two values, the answer of one of them
            if kept.len() == 1 {
                let f = cols[0];
                for i in (0..n).filter(|i| w[*i] == 0.0) {
                    let lo = rows.iter().filter(|j| f.codes[**j] <= f.codes[i]).max_by_key(|j| f.codes[**j]);
                    let hi = rows.iter().filter(|j| f.codes[**j] >= f.codes[i]).min_by_key(|j| f.codes[**j]);
                    if !lo.iter().chain(hi.iter()).any(|j| conf[**j] == conf[i]) {
                        ex.fail("not-an-interval", format!("{who}: row {i} gets {}, unlike both its neighbours", conf[i]));
                        return;
                    }
                }
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 600_000 } else { 60_000 }
    }
    fn rule(&self) -> &'static str {
        "random features (ranks, scales, bin numbers), labels, exactly representable weights down to 2^-900, criterion, depth; two fork/join schedules and hash seeds, dense and sparse; non-trivial: the reference tree splits and has no ties"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["sched.steals", "probe.reference_trees", "probe.reference_splits", "entropy.reads"]
    }
}

// --------------------------------------------------------- regression trees

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "snake_case")]
pub enum Loss {
    L1,
    #[default]
    L2,
    Own,
    /// For trees only: squares whose weight depends on the target.
    Taxed,
}
/// A loss of the shipped kind, or a caller's own: squares that count four
/// times below the target (whose curvature differs from row to row).
#[derive(Clone, Copy)]
pub enum AnyLoss {
    Lib(GBMLoss),
    Own,
    Taxed,
}
impl LossFunction for AnyLoss {
    fn name(&self) -> &str {
        match self {
            AnyLoss::Lib(l) => l.name(),
            AnyLoss::Own => "lopsided squares",
            AnyLoss::Taxed => "taxed squares",
        }
    }
    fn eval_at_point(&self, p: f64, y: f64) -> f64 {
        match self {
            AnyLoss::Lib(l) => l.eval_at_point(p, y),
            AnyLoss::Own => Loss::Own.at(p - y),
            AnyLoss::Taxed => tax(y) * Loss::Taxed.at(p - y),
        }
    }
    fn gradient(&self, p: &[f64], y: &[f64]) -> Vec<f64> {
        match self {
            AnyLoss::Lib(l) => l.gradient(p, y),
            AnyLoss::Own => p.iter().zip(y).map(|(p, y)| curve(p - y) * (p - y)).collect(),
            AnyLoss::Taxed => p.iter().zip(y).map(|(p, y)| tax(*y) * (p - y)).collect(),
        }
    }
    fn hessian(&self, p: &[f64], y: &[f64]) -> Vec<f64> {
        match self {
            AnyLoss::Lib(l) => l.hessian(p, y),
            AnyLoss::Own => p.iter().zip(y).map(|(p, y)| curve(p - y)).collect(),
            AnyLoss::Taxed => y.iter().map(|y| tax(*y)).collect(),
        }
    }
    fn best_coefficient(&self, r: &[f64], h: &[f64]) -> f64 {
        match self {
            AnyLoss::Lib(l) => l.best_coefficient(r, h),
            AnyLoss::Own => lopsided_min(r, h),
            AnyLoss::Taxed => panic!("a loss for trees only"),
        }
    }
}
fn curve(d: f64) -> f64 {
    if d < 0.0 {
        4.0
    } else {
        1.0
    }
}
/// A weight that depends on the target: smaller for larger ones, so that the
/// gradients of different targets may agree.
fn tax(y: f64) -> f64 {
    [1.0, 0.5, 0.25, 0.125][((y.to_bits() >> 52) + 1) as usize % 4]
}
/// The least point of the lopsided squares of `c * h - r` over `c`.
pub fn lopsided_min(r: &[f64], h: &[f64]) -> f64 {
    let parts = |c: f64| {
        r.iter().zip(h).fold((0.0, 0.0), |(a, b), (r, h)| {
            let k = curve(c * h - r);
            (a + k * h * r, b + k * h * h)
        })
    };
    let mut kinks: Vec<f64> = r.iter().zip(h).filter(|(_, h)| **h != 0.0).map(|(r, h)| r / h).collect();
    if kinks.is_empty() {
        return 0.0;
    }
    kinks.sort_by(f64::total_cmp);
    // the first kink at which the slope is not negative
    let k = kinks.partition_point(|c| {
        let (a, b) = parts(*c);
        c * b < a
    });
    if k == 0 || k == kinks.len() {
        return kinks[k.min(kinks.len() - 1)];
    }
    let (lo, hi) = (kinks[k - 1], kinks[k]);
    let (a, b) = parts(lo / 2.0 + hi / 2.0);
    if b > 0.0 {
        (a / b).clamp(lo, hi)
    } else {
        hi
    }
}
impl Loss {
    pub const ALL: [Loss; 3] = [Loss::L1, Loss::L2, Loss::Own];
    pub const FOR_TREES: [Loss; 4] = [Loss::L1, Loss::L2, Loss::Own, Loss::Taxed];
    pub fn real(self) -> AnyLoss {
        match self {
            Loss::L1 => AnyLoss::Lib(GBMLoss::L1),
            Loss::L2 => AnyLoss::Lib(GBMLoss::L2),
            Loss::Own => AnyLoss::Own,
            Loss::Taxed => AnyLoss::Taxed,
        }
    }
    pub fn at(self, d: f64) -> f64 {
        match self {
            Loss::L1 => d.abs(),
            Loss::L2 | Loss::Taxed => d * d,
            Loss::Own => curve(d) * d * d,
        }
    }
    pub fn mean(self, p: &[f64], y: &[f64]) -> f64 {
        p.iter().zip(y).map(|(p, y)| self.at(p - y)).sum::<f64>() / p.len() as f64
    }
}

struct RegFit {
    g: Vec<f64>,
    h: Vec<f64>,
    lambda: f64,
}
impl RegFit {
    fn new(loss: Loss, p: &[f64], y: &[f64], lambda: f64) -> RegFit {
        let g = p
            .iter()
            .zip(y)
            .map(|(p, y)| match loss {
                Loss::L1 => if p > y { 1.0 } else if p < y { -1.0 } else { 0.0 },
                Loss::L2 => p - y,
                Loss::Own => curve(p - y) * (p - y),
                Loss::Taxed => tax(*y) * (p - y),
            })
            .collect();
        let h = p
            .iter()
            .zip(y)
            .map(|(p, y)| match loss {
                Loss::L1 => 0.0,
                Loss::L2 => 1.0,
                Loss::Own => curve(p - y),
                Loss::Taxed => tax(*y),
            })
            .collect();
        RegFit { g, h, lambda }
    }
    fn sums(&self, rows: &[usize]) -> (f64, f64) {
        (rows.iter().map(|i| self.g[*i]).sum(), rows.iter().map(|i| self.h[*i]).sum())
    }
}
impl Fit for RegFit {
    fn leaf(&self, rows: &[usize]) -> f64 {
        let (g, h) = self.sums(rows);
        -g / (h + self.lambda)
    }
    fn pure(&self, rows: &[usize]) -> bool {
        rows.iter().all(|i| self.g[*i] == 0.0)
    }
    fn score(&self, left: &[usize], right: &[usize]) -> f64 {
        let f = |r: &[usize]| {
            let (g, h) = self.sums(r);
            g * g / (h + self.lambda)
        };
        f(left) + f(right)
    }
    fn near(&self, best: f64) -> f64 {
        1e-9 * (best.abs() + self.g.iter().map(|g| g * g).fold(0.0, f64::max))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct RCase {
    cols: Vec<Col>,
    y: Vec<f64>,
    p: Vec<f64>,
    loss: Loss,
    lambda: Option<f64>,
    depth: Option<usize>,
    /// The unit of targets and predictions (a power of two).
    unit: i32,
    env: Env,
    env2: Env,
}
fn eighths(v: &mut f64) {
    if !v.is_finite() {
        *v = 0.0;
    }
    *v = (v.clamp(-1e6, 1e6) * 8.0).round() / 8.0;
}
impl RCase {
    fn load(v: &Value) -> Option<RCase> {
        let mut c: RCase = parse(v)?;
        if c.y.is_empty() {
            c.y.push(1.0);
        }
        let n = c.y.len();
        c.p.resize(n, 0.0);
        c.unit = c.unit.clamp(-100, 40);
        let unit = 2f64.powi(c.unit);
        c.y.iter_mut().chain(c.p.iter_mut()).for_each(|v| {
            eighths(v);
            *v *= unit;
        });
        if c.cols.is_empty() {
            c.cols.push(Col::default());
        }
        c.cols = c.cols.into_iter().map(|f| f.fix(n)).collect();
        if let Some(l) = &mut c.lambda {
            *l = if l.is_finite() { l.clamp(1e-6, 1e3) } else { 1.0 };
        }
        if let Some(d) = &mut c.depth {
            *d = (*d).clamp(1, 12);
        }
        Some(c)
    }
}
pub fn gen_targets(rng: &mut Rng, cols: &[Col], n: usize) -> Vec<f64> {
    let lead = rng.below(cols.len());
    let noise = *rng.pick(&[0.0, 0.0, 1.0, 4.0]);
    let style = rng.below(5);
    (0..n)
        .map(|i| {
            let c = cols[lead].codes[i] as f64;
            let v = match style {
                0 => c,
                1 => if c * 2.0 < cols[lead].k() as f64 { -3.0 } else { 5.0 },
                2 => rng.irange(-20, 20) as f64,
                4 => [1.0, 2.0, 4.0, 1.0, -1.0, 8.0][c as usize % 6],
                _ => (c - 3.0) * (c - 3.0) / 2.0,
            };
            let mut v = v + noise * (rng.f64() - 0.5);
            eighths(&mut v);
            v
        })
        .collect()
}

fn rtrain(c: &RCase, env: &Env, sparse: bool, ex: &mut Exec) -> Option<(Vec<f64>, Vec<usize>)> {
    let t = table(&c.cols, &c.y);
    let (end, st) = simulate(env, || {
        let (s, kept) = sample(&t, sparse);
        let h = {
            let mut b = RegressionTreeBuilder::new(&s).loss(c.loss.real());
            if let Some(l) = c.lambda {
                b = b.lambda_l2(l);
            }
            if let Some(d) = c.depth {
                b = b.max_depth(d);
            }
            for (p, j) in kept.iter().enumerate() {
                if c.cols[*j].bins > 0 {
                    b.set_nbins(s.features()[p].name(), c.cols[*j].bins);
                }
            }
            b.build().produce(&s, &c.p)
        };
        (h.predict_all(&s), kept)
    });
    ex.absorb(&st);
    match end {
        End::Done(r) => {
            ex.digest.add_slice(&r.0);
            Some(r)
        }
        e => {
            ex.fail("panic", format!("the regression tree {} ({:?} loss, {} examples)", e.describe(), c.loss, c.y.len()));
            None
        }
    }
}

pub struct Regress;

impl Prop for Regress {
    fn id(&self) -> &'static str {
        "B14"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let n = match rng.below(10) {
            _ if rng.big() => if rng.chance(0.7) { rng.range(61, 200) } else { rng.range(250, 600) },
            0 => rng.range(1, 3),
            1..=6 => rng.range(4, 12),
            7 | 8 => rng.range(13, 30),
            _ if rng.chance(0.03) => rng.range(250, 300),
            _ => rng.range(31, if th { 90 } else { 60 }),
        };
        let k = if rng.big() && n < 120 { rng.range(6, 20) } else if n > 100 { 1 } else { rng.range(1, 5) };
        let mut cols = gen_cols(rng, n, k);
        wild(rng, &mut cols);
        let y = gen_targets(rng, &cols, n);
        let style = rng.below(4);
        let p = y
            .iter()
            .map(|y| match style {
                0 => 0.0,
                1 => rng.irange(-40, 40) as f64 / 8.0,
                2 => if rng.chance(0.5) { *y } else { 1.0 },
                _ => *y + rng.irange(-4, 4) as f64 / 8.0,
            })
            .collect();
        let c = RCase {
            cols,
            y,
            p,
            loss: *rng.pick(&Loss::FOR_TREES),
            lambda: *rng.pick(&[None, None, Some(1e-6), Some(0.001), Some(0.5), Some(1.0), Some(10.0)]),
            depth: if rng.big() { Some(rng.range(2, 12)) } else { *rng.pick(&[None, Some(1), Some(2), Some(3), Some(3), Some(4), Some(8)]) },
            unit: if rng.chance(0.15) { *rng.pick(&[-12, -30, -40, -90, 20, 35]) } else { 0 },
            env: Env::gen_sched(rng),
            env2: Env::gen_sched(rng),
        };
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = RCase::load(case) else { return };
        let unit = if c.loss != Loss::L1 { 2f64.powi(c.unit) } else { 1.0 };
        ex.state.add_str(&serde_json::to_string(&(&c.cols, &c.y, &c.p, c.loss, c.lambda, c.depth)).unwrap());
        let n = c.y.len();
        ex.trace(|| format!("regression tree: {:?}, lambda {:?}, depth {:?}", c.loss, c.lambda, c.depth));
        for i in 0..n.min(40) {
            ex.trace(|| format!("row {i}: x {:?} y {} so far {}", c.cols.iter().map(|f| f.value(i)).collect::<Vec<_>>(), c.y[i], c.p[i]));
        }
        let rows: Vec<usize> = (0..n).collect();
        let fit = RegFit::new(c.loss, &c.p, &c.y, c.lambda.unwrap_or(0.01));
        let t = table(&c.cols, &c.y);
        let mut reps = vec![(false, &c.env), (false, &c.env2)];
        if !t.columns_kept().is_empty() {
            reps.push((true, &c.env2));
        }
        for (sparse, env) in reps {
            let Some((pred, kept)) = rtrain(&c, env, sparse, ex) else { return };
            let who = format!("regression tree ({:?}, {})", c.loss, if sparse { "sparse" } else { "dense" });
            if let Some(i) = (0..n).find(|i| !pred[*i].is_finite()) {
                ex.fail("not-finite", format!("{who}: row {i} is predicted {}", pred[i]));
                return;
            }
            let mut seen: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
            for i in 0..n {
                let key: Vec<usize> = kept.iter().map(|j| c.cols[*j].codes[i]).collect();
                if *seen.entry(key).or_insert(pred[i]) != pred[i] {
                    ex.fail("not-a-function", format!("{who}: rows with equal features get different predictions"));
                    return;
                }
            }
            let mut leaves: Vec<u64> = pred.iter().map(|p| (p + 0.0).to_bits()).collect();
            leaves.sort();
            leaves.dedup();
            let levels = c.depth.unwrap_or(2) - 1;
            if leaves.len() > 1usize << levels.min(20) {
                ex.fail("too-many-leaves", format!("{who}: {} different answers at {levels} levels of splits", leaves.len()));
                return;
            }
            let cols: Vec<&Col> = kept.iter().map(|j| &c.cols[*j]).collect();
            let mut g = Grown { leaf: vec![None; n], splits: 0, tie: false, depth: 0 };
            grow(&fit, &cols, &rows, levels, &mut g, 0);
            ex.count(if g.tie { "skipped.ties" } else { "probe.reference_trees" }, 1);
            ex.count("probe.reference_splits", g.splits as u64);
            ex.nontrivial |= !g.tie && g.splits > 0;
            if g.tie {
                continue;
            }
            for i in 0..n {
                let want = g.leaf[i].unwrap();
                if (pred[i] - want).abs() > 1e-9 * (unit + want.abs()) {
                    ex.fail("not-greedy", format!("{who}: row {i} is predicted {} but the greedy tree ({} splits) gives {want}", pred[i], g.splits));
                    return;
                }
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 800_000 } else { 80_000 }
    }
    fn rule(&self) -> &'static str {
        "random features, targets, predictions so far, loss, regularisation, depth; two fork/join schedules and hash seeds, dense and sparse; non-trivial: the reference tree splits and has no ties"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["sched.steals", "probe.reference_trees", "probe.reference_splits", "entropy.reads"]
    }
}

// -------------------------------------------------------------- DOT exports

#[derive(Debug)]
enum Dot {
    Leaf(f64),
    Branch(String, f64, Box<Dot>, Box<Dot>),
}
/// Parses the exported tree; Err: it is not one.
fn parse_dot(s: &str) -> Result<Dot, String> {
    let body = s.trim().strip_prefix("graph").ok_or("no graph")?.trim_start();
    let body = body.split_once('{').ok_or("no opening brace")?.1;
    let body = body.strip_suffix('}').ok_or("no closing brace")?;
    let mut label: BTreeMap<String, (String, bool)> = BTreeMap::new();
    let mut edges: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    let mut parents: BTreeMap<String, usize> = BTreeMap::new();
    let mut rest = body.trim();
    while !rest.is_empty() {
        let (stmt, r) = rest.split_once("];").ok_or("a statement without an end")?;
        rest = r.trim_start();
        let (head, attr) = stmt.split_once('[').ok_or("a statement without attributes")?;
        let lab = attr.split_once("label = \"").ok_or("no label")?.1.rsplit_once('"').ok_or("an open label")?.0.to_string();
        let head = head.trim();
        // the label of a feature may itself contain brackets
        if let Some((a, b)) = head.split_once("--") {
            if edges.entry(a.trim().into()).or_default().insert(lab, b.trim().into()).is_some() {
                return Err("an edge is there twice".into());
            }
            *parents.entry(b.trim().into()).or_insert(0) += 1;
        } else if label.insert(head.into(), (lab, attr.contains("shape = box"))).is_some() {
            return Err(format!("{head} is there twice"));
        }
    }
    if parents.values().any(|k| *k > 1) {
        return Err("a node has two parents".into());
    }
    let root: Vec<&String> = label.keys().filter(|k| !parents.contains_key(*k)).collect();
    if root.len() != 1 {
        return Err(format!("{} roots", root.len()));
    }
    fn build(id: &str, l: &BTreeMap<String, (String, bool)>, e: &BTreeMap<String, BTreeMap<String, String>>, used: &mut usize, deep: usize) -> Result<Dot, String> {
        if deep > 64 {
            return Err("a cycle".into());
        }
        let (lab, _) = l.get(id).ok_or(format!("{id} has no label"))?;
        *used += 1;
        match e.get(id) {
            None => Ok(Dot::Leaf(lab.parse::<f64>().map_err(|_| format!("leaf {lab}"))?)),
            Some(m) => {
                let q = lab.strip_suffix('?').ok_or(format!("branch {lab}"))?.trim();
                let (f, t) = q.rsplit_once('<').ok_or(format!("branch {lab}"))?;
                let t = t.trim().parse::<f64>().map_err(|_| format!("branch {lab}"))?;
                let (y, n) = (m.get("Yes").ok_or("no Yes edge")?, m.get("No").ok_or("no No edge")?);
                Ok(Dot::Branch(f.trim().into(), t, Box::new(build(y, l, e, used, deep + 1)?), Box::new(build(n, l, e, used, deep + 1)?)))
            }
        }
    }
    let mut used = 0;
    let t = build(root[0], &label, &edges, &mut used, 0)?;
    if used != label.len() {
        return Err("unreachable nodes".into());
    }
    Ok(t)
}
impl Dot {
    /// None: the printed threshold is too coarse to decide.
    fn eval(&self, get: &dyn Fn(&str) -> Option<f64>) -> Option<f64> {
        match self {
            Dot::Leaf(v) => Some(*v),
            Dot::Branch(f, t, l, r) => {
                let x = get(f)?;
                if (x - t).abs() <= 0.0051 {
                    return None;
                }
                if x < *t { l.eval(get) } else { r.eval(get) }
            }
        }
    }
}

pub struct Export;

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct ECase {
    tree: TCase,
    regression: bool,
    old: usize,
}

impl Prop for Export {
    fn id(&self) -> &'static str {
        "B22"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let mut t = gen_tcase(rng, th);
        if rng.chance(0.7) {
            t.faults = gen_write_faults(rng, 12);
        }
        if rng.chance(0.2) {
            t.capacity = Some(rng.below(600) as u64);
        }
        let old = *rng.pick(&[0, 0, 10, 5000]);
        serde_json::to_value(ECase { tree: t, regression: rng.chance(0.4), old }).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(e) = parse::<ECase>(case) else { return };
        let Some(mut c) = TCase::load(&serde_json::to_value(&e.tree).unwrap()) else { return };
        c.faults.truncate(8);
        for f in c.faults.iter_mut() {
            if f.what == What::Errno(libc::EINTR) {
                f.sticky = false;
            }
            if let What::Short(k) = &mut f.what {
                *k = (*k).max(1);
            }
        }
        let old = if c.capacity.is_some() { 0 } else { e.old.min(100_000) };
        ex.state.add(c.digest());
        ex.state.add(c.capacity.unwrap_or(u64::MAX));
        for f in &c.faults {
            ex.state.add(f.nth);
            ex.state.add_str(&format!("{:?}", f.what));
        }
        let t = table(&c.cols, &c.y);
        let w = c.weights();
        let who = if e.regression { "regression tree" } else { "decision tree" };
        let path = "/simfs/tree.dot";
        let (end, st) = simulate(&c.env, || {
            let s = t.dense();
            let kept: Vec<usize> = (0..c.cols.len()).collect();
            type Save = Box<dyn Fn() -> std::io::Result<()>>;
            let (vals, save): (Vec<f64>, Save) = if e.regression {
                let h = RegressionTreeBuilder::new(&s).loss(GBMLoss::L2).max_depth(c.depth).build().produce(&s, &vec![0.0; c.y.len()]);
                (h.predict_all(&s), Box::new(move || h.to_dot_file(path)))
            } else {
                let h = builder(&c, &s, &kept).produce(&s, &w);
                (h.confidence_all(&s), Box::new(move || h.to_dot_file(path)))
            };
            seam::with_disk(|d| {
                if old > 0 {
                    d.put(path, &vec![b'#'; old]);
                }
                d.arm(c.faults.clone());
                d.capacity = c.capacity;
            });
            let a = save();
            let (bytes, err) = seam::with_disk(|d| {
                let r = (d.get(path).map(|b| b.to_vec()), d.error_seen);
                d.arm(vec![]);
                d.capacity = None;
                r
            });
            let b = save();
            let (full, open) = seam::with_disk(|d| (d.get(path).map(|b| b.to_vec()), d.open_fds()));
            (vals, a.map_err(|e| e.to_string()), bytes, err, b.map_err(|e| e.to_string()), full, open)
        });
        ex.absorb(&st);
        let (vals, a, bytes, err, b, full, open) = match end {
            End::Done(r) => r,
            e => {
                ex.fail("panic", format!("{who}: exporting the tree {}", e.describe()));
                return;
            }
        };
        ex.digest.add_slice(&vals);
        ex.trace(|| format!("first export {a:?} (errors injected: {err}), second {b:?}: {:?}", full.as_ref().map(|f| String::from_utf8_lossy(f).to_string())));
        if let Err(m) = b {
            ex.fail("refused", format!("{who}: the export fails on a healthy disk: {m}"));
            return;
        }
        let full = full.unwrap_or_default();
        if err {
            ex.count("probe.failing_exports", 1);
            if a.is_ok() {
                ex.fail("swallowed", format!("{who}: the export reports success although writing failed"));
                return;
            }
        } else {
            ex.count("probe.harmless_faults", 1);
            if let Err(m) = &a {
                ex.fail("refused", format!("{who}: the export fails without a failing call: {m}"));
                return;
            }
            if bytes.as_deref() != Some(&full[..]) {
                ex.fail("differs", format!("{who}: the export under harmless faults differs from the one on a healthy disk"));
                return;
            }
        }
        if open > 0 {
            ex.fail("leak", format!("{who}: {open} files stay open"));
            return;
        }
        let opened = !c.faults.iter().any(|f| f.op == Op::Open && f.nth == 0 && f.what != What::Errno(libc::EINTR));
        if err && opened {
            let got = bytes.unwrap_or_default();
            if !full.starts_with(&got) {
                ex.fail("not-a-prefix", format!("{who}: after a failure the file is not a prefix of the full one"));
                return;
            }
        }
        let txt = String::from_utf8_lossy(&full).to_string();
        match parse_dot(&txt) {
            Err(m) => ex.fail("not-a-tree", format!("{who}: the exported file is not a tree: {m}: {txt:?}")),
            Ok(tree) => {
                ex.nontrivial = matches!(tree, Dot::Branch(..));
                let tol = if e.regression { 0.00501 } else { 1e-12 };
                for i in 0..c.y.len() {
                    let get = |f: &str| f.strip_prefix('f').and_then(|j| j.parse::<usize>().ok()).and_then(|j| c.cols.get(j)).map(|f| f.value(i));
                    if let Some(v) = tree.eval(&get) {
                        ex.count("probe.rows_through_the_export", 1);
                        if (v - vals[i]).abs() > tol {
                            ex.fail("another-tree", format!("{who}: row {i} gets {} but {v} in the exported tree {txt:?}", vals[i]));
                            return;
                        }
                    }
                }
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 1_500_000 } else { 150_000 }
    }
    fn rule(&self) -> &'static str {
        "random tree exported to a disk failing at random calls (open errors, short and interrupted writes, I/O errors, full disk), then again to a healthy one; non-trivial: the tree has a branch"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.failing_exports", "probe.harmless_faults", "probe.rows_through_the_export", "fault.disk.write-short", "fault.disk.write-eintr", "fault.disk.write-enospc"]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&Greedy, &Regress, &Export]
}
