//! Requests that must be refused, and hypotheses combined by hand.

use super::{parse, Prop};
use crate::party::*;
use crate::props::boost::{gen_cfg, ALL_KINDS};
use crate::rng::Rng;
use crate::seam;
use crate::world::{simulate, End, Env, Exec};
use miniboosts::prelude::*;
use miniboosts::research::objective_functions::SoftMarginObjective;
use miniboosts::research::{CrossValidation, ObjectiveFunction, Research};
use miniboosts::{NaiveAggregation, Regressor};
use polars::prelude::{DataFrame, NamedFrom, Series};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ----------------------------------------------------------------- B27

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
enum Wrong {
    /// The booster gets a sample with these targets.
    Targets(Vec<f64>),
    /// A capping parameter for the booster.
    Nu(f64),
    Gamma(f64),
    Kappa(f64),
    Depth { regression: bool },
    Bins { regression: bool, name: String },
    Ratio(f64),
    ObjectiveNu(f64),
    Target { csv: bool },
    /// A data frame that is no sample; the booster gets it if it is accepted.
    Frame { fault: Misfit, row: usize },
    /// A regression tree without a loss.
    NoLoss,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
enum Misfit {
    /// A missing value among the targets, or in a column.
    NullTarget,
    NullFeature,
    /// Columns of another type.
    IntTarget,
    IntFeature,
    TextTarget,
    TextFeature,
    /// More or fewer targets than rows.
    Long,
    Short,
}
impl Default for Wrong {
    fn default() -> Self {
        Wrong::Depth { regression: false }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct RCase {
    env: Env,
    cfg: Option<Cfg>,
    /// Rounds of a proper run afterwards.
    y: Vec<f64>,
    wrong: Wrong,
}

fn sample_with(y: &[f64]) -> Sample {
    let mut s = String::from("id,class\n");
    for (i, y) in y.iter().enumerate() {
        s.push_str(&format!("{i},{y}\n"));
    }
    seam::with_disk(|d| d.put("/simfs/__r.csv", s.as_bytes()));
    let r = SampleReader::default().file("/simfs/__r.csv").has_header(true).target_feature("class").read();
    seam::with_disk(|d| d.remove("/simfs/__r.csv"));
    r.expect("the undisturbed sample file is readable")
}

/// Counts the calls it gets.
struct Silent<'a>(&'a Cell<usize>);
impl WeakLearner for Silent<'_> {
    type Hypothesis = SimH;
    fn produce(&self, s: &Sample, _d: &[f64]) -> SimH {
        self.0.set(self.0.get() + 1);
        if self.0.get() > 50 {
            panic!("enough");
        }
        SimH { id: 0, tab: std::sync::Arc::new(vec![1.0; s.shape().0]) }
    }
}
struct RunSilent<'a>(Silent<'a>);
impl Visit for RunSilent<'_> {
    type Out = ();
    fn visit<'a, B>(self, mut b: B, _s: &'a Sample)
    where
        B: Booster<SimH> + Research<Output = <B as Booster<SimH>>::Output>,
        <B as Booster<SimH>>::Output: Inspect,
    {
        b.run(&self.0);
    }
}

fn binary(y: &[f64]) -> bool {
    let mut v = y.to_vec();
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup();
    v.len() == 2 && v.iter().all(|a| a.is_finite() && a.trunc() == *a)
}
/// The case format has no infinite numbers.
fn widened(y: &[f64]) -> Vec<f64> {
    y.iter().map(|v| if v.abs() > 1e305 { v.signum() / 0.0 } else { *v }).collect()
}
fn bad_nu(nu: f64, n: usize) -> bool {
    !(nu >= 1.0 && nu <= n as f64)
}

/// A data frame of two columns with something wrong in or at `row`.
fn misfit(y: &[f64], fault: Misfit, row: usize) -> Sample {
    let n = y.len();
    let row = row % n;
    let hole = |v: &[f64], on: bool| -> Vec<Option<f64>> { v.iter().enumerate().map(|(i, v)| if on && i == row { None } else { Some(*v) }).collect() };
    let ints: Vec<i64> = y.iter().map(|v| *v as i64).collect();
    let text: Vec<String> = y.iter().map(|v| v.to_string()).collect();
    let id: Vec<f64> = (0..n).map(|i| i as f64).collect();
    let column = match fault {
        Misfit::IntFeature => Series::new("x", ints.clone()),
        Misfit::TextFeature => Series::new("x", text.clone()),
        f => Series::new("x", hole(&id, f == Misfit::NullFeature)),
    };
    let frame = DataFrame::new(vec![Series::new("id", id), column]).expect("a frame");
    let target = match fault {
        Misfit::IntTarget => Series::new("class", ints),
        Misfit::TextTarget => Series::new("class", text),
        Misfit::Long => {
            let mut v = y.to_vec();
            v.extend_from_slice(&y[..=row]);
            Series::new("class", v)
        }
        // both kinds of labels remain, where that is possible
        Misfit::Short => {
            let k = (1..n).find(|k| binary(&y[..*k])).unwrap_or(n - 1);
            Series::new("class", y[..k.max(row).min(n - 1)].to_vec())
        }
        f => Series::new("class", hole(y, f == Misfit::NullTarget)),
    };
    Sample::from_dataframe(frame, target).expect("refused")
}

/// Was the request refused, and how often was the learner asked?
fn request(c: &RCase) -> (bool, usize) {
    let calls = Cell::new(0);
    let good = sample_with(&c.y);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let wl = Silent(&calls);
        match (&c.wrong, &c.cfg) {
            (Wrong::Targets(y), Some(cfg)) => {
                let s = sample_with(&widened(y));
                with_booster(cfg, &s, RunSilent(wl));
            }
            (Wrong::Nu(nu), Some(cfg)) => {
                let mut cfg = cfg.clone();
                match &mut cfg {
                    Cfg::Lp { nu: v, .. } | Cfg::Erlp { nu: v, .. } | Cfg::Soft { nu: v, .. } | Cfg::Cerlp { nu: v, .. } | Cfg::Mlp { nu: v, .. } => *v = *nu,
                    _ => {}
                }
                with_booster(&cfg, &good, RunSilent(wl));
            }
            (Wrong::Gamma(g), _) => {
                SmoothBoost::<SimH>::init(&good).gamma(*g).tolerance(0.3).run(&wl);
            }
            (Wrong::Kappa(k), _) => {
                SmoothBoost::<SimH>::init(&good).gamma(0.2).tolerance(*k).run(&wl);
            }
            (Wrong::Depth { regression: false }, _) => {
                DecisionTreeBuilder::new(&good).max_depth(0).build();
            }
            (Wrong::Depth { regression: true }, _) => {
                RegressionTreeBuilder::new(&good).max_depth(0).loss(GBMLoss::L2).build();
            }
            (Wrong::Bins { regression: false, name }, _) => DecisionTreeBuilder::new(&good).set_nbins(name, 3),
            (Wrong::Bins { regression: true, name }, _) => RegressionTreeBuilder::new(&good).loss(GBMLoss::L2).set_nbins(name, 3),
            (Wrong::Ratio(r), _) => {
                CrossValidation::new(&good).train_ratio(*r);
            }
            (Wrong::ObjectiveNu(nu), _) => {
                let h = WeightedMajority { weights: vec![1.0], hypotheses: vec![SimH { id: 0, tab: std::sync::Arc::new(vec![1.0; c.y.len()]) }] };
                SoftMarginObjective::new(*nu).eval(&good, &h);
            }
            (Wrong::Target { csv }, _) => {
                if *csv {
                    seam::with_disk(|d| d.put("/simfs/__r.csv", b"a,b\n1,2\n"));
                    let _ = SampleReader::<&str, &str>::default().file("/simfs/__r.csv").has_header(true).read();
                } else {
                    let _ = SampleReader::<&str, &str>::default().target_feature("b").read();
                }
            }
            (Wrong::Frame { fault, row }, Some(cfg)) => {
                let s = misfit(&c.y, *fault, *row);
                with_booster(cfg, &s, RunSilent(wl));
            }
            (Wrong::NoLoss, _) => {
                RegressionTreeBuilder::<GBMLoss>::new(&good).max_depth(2).build();
            }
            _ => {}
        }
    }));
    (r.is_err(), calls.get())
}

/// Some requests of the kinds above are fine, as far as the documentation goes.
fn acceptable(c: &RCase) -> bool {
    let n = c.y.len();
    match &c.wrong {
        Wrong::Targets(y) => binary(&widened(y)) || c.cfg.is_none(),
        Wrong::Nu(nu) => !bad_nu(*nu, n) || !matches!(c.cfg, Some(Cfg::Lp { .. } | Cfg::Erlp { .. } | Cfg::Soft { .. } | Cfg::Cerlp { .. } | Cfg::Mlp { .. })),
        Wrong::Gamma(g) => *g >= 0.0 && *g < 0.5,
        Wrong::Kappa(k) => *k > 0.0 && *k < 1.0,
        Wrong::Bins { name, .. } => name == "id",
        Wrong::Ratio(r) => *r > 0.0 && *r < 1.0,
        Wrong::ObjectiveNu(nu) => !bad_nu(*nu, n),
        Wrong::Frame { .. } => c.cfg.is_none() || n < 2,
        _ => false,
    }
}

pub struct Refusals;

impl Prop for Refusals {
    fn id(&self) -> &'static str {
        "B27"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let n = if rng.big() { rng.range(100, 400) } else { rng.range(2, 12) };
        let y: Vec<f64> = gen_labels(rng, n).into_iter().map(|v| v as f64).collect();
        let cfg = gen_cfg(rng, n, &ALL_KINDS, th);
        let off = |rng: &mut Rng, lo: f64, hi: f64| match rng.below(6) {
            0 => lo - 0.001,
            1 => hi + 0.001,
            2 => -rng.uniform(0.0, 100.0),
            3 => hi + rng.uniform(0.001, 100.0),
            4 => lo - rng.uniform(0.001, 1.0),
            _ => hi + 1.0,
        };
        let wrong = match rng.below(19) {
            0..=5 => {
                let mut t = y.clone();
                match rng.below(4) {
                    // one kind
                    0 => {
                        let v = *rng.pick(&[1.0, -1.0, 0.0, 2.0]);
                        t = vec![v; n];
                    }
                    // three kinds
                    1 => {
                        let i = rng.below(n);
                        t[i] = *rng.pick(&[0.0, 2.0, -2.0, 7.0, 255.0, 257.0, 65537.0, 4294967295.0, 4294967297.0]);
                        if n > 2 && rng.chance(0.3) {
                            // kinds that only a wide integer tells apart
                            let big = *rng.pick(&[200.0, 40_000.0, 3e9, 1e19, 1e300]);
                            for (k, v) in t.iter_mut().enumerate() {
                                *v = [big, 1.5 * big, *v][k % 3];
                            }
                        }
                    }
                    // a real number
                    2 => {
                        let i = rng.below(n);
                        t[i] = *rng.pick(&[0.5, -0.25, 1.000001, 1e-9, 2.5, -1.5, 1e308, -1e308]);
                    }
                    _ => t = (0..n).map(|_| rng.irange(-30, 30) as f64 / 10.0).collect(),
                }
                Wrong::Targets(t)
            }
            6..=9 => Wrong::Nu(off(rng, 1.0, n as f64)),
            10 => Wrong::Gamma(off(rng, 0.0, 0.5)),
            11 => Wrong::Kappa(*rng.pick(&[0.0, 1.0, -0.1, 1.5, 2.0])),
            12 => Wrong::Depth { regression: rng.chance(0.5) },
            13 => Wrong::Bins { regression: rng.chance(0.5), name: rng.pick(&["class", "x", "", "id "]).to_string() },
            14 => match rng.below(3) {
                0 => Wrong::Ratio(*rng.pick(&[0.0, 1.0, -0.5, 1.5, 80.0])),
                1 => Wrong::ObjectiveNu(off(rng, 1.0, n as f64)),
                _ => Wrong::Target { csv: rng.chance(0.5) },
            },
            15 => Wrong::Ratio(off(rng, 0.0, 1.0)),
            16 if rng.chance(0.2) => Wrong::NoLoss,
            _ => {
                use Misfit::*;
                let fault = *rng.pick(&[NullTarget, NullFeature, IntTarget, IntFeature, TextTarget, TextFeature, Long, Short]);
                Wrong::Frame { fault, row: rng.below(n) }
            }
        };
        // the boosters with a capping parameter
        let cfg = if let Wrong::Nu(_) = wrong { gen_cfg(rng, n, &[5, 6, 7, 9, 10], th) } else { cfg };
        serde_json::to_value(RCase { env: Env::gen_sched(rng), cfg: Some(cfg), y, wrong }).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = parse::<RCase>(case) else { return };
        for v in c.y.iter_mut() {
            *v = if *v > 0.0 { 1.0 } else { -1.0 };
        }
        for want in [1.0, -1.0] {
            if !c.y.contains(&want) {
                c.y.push(want);
            }
        }
        if let Wrong::Targets(y) = &mut c.wrong {
            if y.is_empty() || y.iter().any(|v| v.is_nan()) {
                return;
            }
            c.cfg = c.cfg.map(|g| g.fix(y.len()));
        } else {
            let n = c.y.len();
            c.cfg = c.cfg.map(|g| g.fix(n));
        }
        if acceptable(&c) {
            return;
        }
        if let Wrong::Frame { .. } = c.wrong {
            super::sample::warm_frames();
        }
        let cc = &c;
        let (end, st) = simulate(&c.env, move || request(cc));
        ex.absorb(&st);
        ex.nontrivial = true;
        ex.state.add_str(&format!("{c:?}"));
        let who = match (&c.wrong, &c.cfg) {
            (Wrong::Targets(_) | Wrong::Nu(_) | Wrong::Frame { .. }, Some(g)) => format!("{}: ", g.name()),
            _ => String::new(),
        };
        ex.trace(|| format!("{who}{:?}: {}", c.wrong, end.label()));
        match end {
            End::Done((refused, calls)) => {
                if !refused {
                    ex.fail("accepted", format!("{who}{:?} is accepted ({} examples)", c.wrong, c.y.len()));
                } else if calls > 0 {
                    ex.fail("late", format!("{who}{:?} is refused after {calls} calls of the weak learner", c.wrong));
                }
                ex.digest.add(calls as u64);
                ex.count("probe.refused", 1);
                ex.count(&format!("probe.{}", match c.wrong {
                    Wrong::Targets(_) => "targets",
                    Wrong::Nu(_) => "nu",
                    Wrong::Gamma(_) | Wrong::Kappa(_) => "smooth",
                    Wrong::Depth { .. } | Wrong::Bins { .. } | Wrong::NoLoss => "trees",
                    Wrong::Frame { .. } => "frames",
                    Wrong::Ratio(_) => "ratio",
                    Wrong::ObjectiveNu(_) => "objective",
                    Wrong::Target { .. } => "reader",
                }), 1);
            }
            e => ex.fail("panic", format!("{who}{:?}: {}", c.wrong, e.describe())),
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 1_500_000 } else { 150_000 }
    }
    fn rule(&self) -> &'static str {
        "random booster and sample with unsuitable targets, or a parameter out of its documented range; non-trivial: all that were not shrunk into acceptable ones"
    }
    fn real(&self) -> &'static [&'static str] {
        &["all boosters, SampleReader, CrossValidation, tree builders, SoftMarginObjective"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.targets", "probe.nu", "probe.smooth", "probe.trees", "probe.ratio", "probe.objective", "probe.reader", "probe.frames"]
    }
}
const STUBS: &[&str] = &["weak learner (simulated party)", "rayon-core thread pool (simulated fork/join scheduler)", "clock, entropy, disk (simulated)"];

// ----------------------------------------------------------------- B28

/// Looks its answer up by the value of the first column.
#[derive(Clone, Debug, PartialEq)]
struct ById(Vec<f64>);
impl ById {
    fn look(&self, s: &Sample, row: usize) -> f64 {
        let i = s.at(row).0[0] as usize;
        self.0.get(i).copied().unwrap_or(0.0)
    }
}
impl Classifier for ById {
    fn confidence(&self, s: &Sample, row: usize) -> f64 {
        self.look(s, row)
    }
}
impl Regressor for ById {
    fn predict(&self, s: &Sample, row: usize) -> f64 {
        self.look(s, row)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
enum Step {
    /// A new vote from slices: weights of the first hypotheses.
    Slices(Vec<i32>),
    Push { w: i32, h: usize },
    Normalize,
    Decompose,
    Clone,
    /// Does a vote of votes agree?
    Nest(i32, i32),
    Ask,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct HCase {
    env: Env,
    pool: Vec<Vec<f64>>,
    /// Rows of the sample asked (numbers of known points).
    rows: Vec<usize>,
    train: Vec<usize>,
    labels: Vec<i8>,
    steps: Vec<Step>,
    /// All weights are of this power of ten.
    scale: i32,
}

fn by_rows(rows: &[usize], labels: &[i8]) -> Sample {
    let mut s = String::from("id,class\n");
    for (k, r) in rows.iter().enumerate() {
        s.push_str(&format!("{r},{}\n", labels.get(k).copied().unwrap_or(1)));
    }
    seam::with_disk(|d| d.put("/simfs/__v.csv", s.as_bytes()));
    let r = SampleReader::default().file("/simfs/__v.csv").has_header(true).target_feature("class").read();
    seam::with_disk(|d| d.remove("/simfs/__v.csv"));
    r.expect("the undisturbed sample file is readable")
}

/// Eighths, and some weights far from one.
fn weight(v: i32) -> f64 {
    match v {
        7 => 1e-5,
        -7 => -1e-9,
        9 => 1e4,
        _ => v as f64 / 8.0,
    }
}

type Bad = (&'static str, String);

fn near(a: f64, b: f64, size: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * size.max(1e-300)
}

/// Do the answers on `s` equal `want`?
fn answers<H: Classifier + Regressor>(f: &H, s: &Sample, want: &[f64], size: f64) -> Result<(), Bad> {
    let c = f.confidence_all(s);
    let r = Regressor::predict_all(f, s);
    let p = Classifier::predict_all(f, s);
    for (what, l) in [("confidences", c.len()), ("regressions", r.len()), ("labels", p.len())] {
        if l != want.len() {
            return Err(("length", format!("{l} {what} for {} rows", want.len())));
        }
    }
    for i in 0..want.len() {
        if !near(c[i], want[i], size) || !near(r[i], want[i], size) {
            return Err(("answer", format!("row {i}: confidence {}, regression {}, the sum is {}", c[i], r[i], want[i])));
        }
        if p[i] != if c[i] >= 0.0 { 1 } else { -1 } {
            return Err(("sign", format!("row {i}: predicted {} at confidence {}", p[i], c[i])));
        }
        if f.confidence(s, i).to_bits() != c[i].to_bits() || Regressor::predict(f, s, i).to_bits() != r[i].to_bits() || Classifier::predict(f, s, i) != p[i] {
            return Err(("alone", format!("row {i} is answered otherwise alone than with the whole sample")));
        }
    }
    Ok(())
}

fn story(c: &HCase) -> Result<u64, (usize, Bad)> {
    let s = by_rows(&c.rows, &[]);
    let hyps: Vec<ById> = c.pool.iter().cloned().map(ById).collect();
    let mut f: WeightedMajority<ById> = WeightedMajority { weights: vec![], hypotheses: vec![] };
    // (weight, hypothesis) as they should be
    let mut m: Vec<(f64, usize)> = vec![];
    let mut asked = 0;
    let val = |h: usize, r: usize| c.pool[h].get(r).copied().unwrap_or(0.0);
    let unit = 10f64.powi(c.scale.clamp(-150, 100));
    let weight = |v: i32| weight(v) * unit;
    for (t, step) in c.steps.iter().enumerate() {
        let go = || -> Result<(), Bad> {
            match step {
                Step::Slices(w) => {
                    let w: Vec<f64> = w.iter().take(hyps.len()).map(|v| weight(*v)).collect();
                    f = WeightedMajority::from_slices(&w, &hyps[..w.len()]);
                    let z: f64 = w.iter().map(|v| v.abs()).sum();
                    m = w.iter().enumerate().filter(|(_, w)| **w != 0.0).map(|(h, w)| (w / z, h)).collect();
                }
                Step::Push { w, h } => {
                    let h = h % hyps.len();
                    f.push(weight(*w), hyps[h].clone());
                    m.push((weight(*w), h));
                }
                Step::Normalize => {
                    f.normalize();
                    let z: f64 = m.iter().map(|v| v.0.abs()).sum();
                    if z > 0.0 {
                        m.iter_mut().for_each(|v| v.0 /= z);
                    }
                }
                Step::Decompose => {
                    let (w, h) = f.clone().decompose();
                    f = WeightedMajority { weights: w, hypotheses: h };
                }
                Step::Clone => {
                    let g = f.clone();
                    f.push(3.0, hyps[0].clone());
                    f.normalize();
                    f = g;
                }
                Step::Nest(a, b) => {
                    let (a, b) = (weight(*a), weight(*b));
                    let mut g = WeightedMajority { weights: vec![a], hypotheses: vec![f.clone()] };
                    g.push(b, WeightedMajority { weights: vec![1.0], hypotheses: vec![hyps[0].clone()] });
                    let want: Vec<f64> = c.rows.iter().map(|r| a * m.iter().map(|(w, h)| w * val(*h, *r)).sum::<f64>() + b * val(0, *r)).collect();
                    let size = a.abs() * m.iter().map(|v| v.0.abs()).sum::<f64>() + b.abs();
                    answers(&g, &s, &want, size)?;
                }
                Step::Ask => {
                    let want: Vec<f64> = c.rows.iter().map(|r| m.iter().map(|(w, h)| w * val(*h, *r)).sum::<f64>()).collect();
                    answers(&f, &s, &want, m.iter().map(|v| v.0.abs()).sum())?;
                    asked += 1;
                }
            }
            let z: f64 = m.iter().map(|v| v.0.abs()).sum();
            if f.weights.len() != m.len() || f.hypotheses.len() != m.len() {
                return Err(("parts", format!("{} weights, {} hypotheses instead of {}", f.weights.len(), f.hypotheses.len(), m.len())));
            }
            for (k, (w, h)) in m.iter().enumerate() {
                if !near(f.weights[k], *w, z) || f.hypotheses[k] != hyps[*h] {
                    return Err(("parts", format!("part {k}: weight {} instead of {w}, the right hypothesis: {}", f.weights[k], f.hypotheses[k] == hyps[*h])));
                }
            }
            Ok(())
        };
        let mut go = go;
        go().map_err(|e| (t, e))?;
    }
    // The aggregation that memorises the patterns of positive examples.
    if !c.train.is_empty() {
        let tr = by_rows(&c.train, &c.labels);
        let signs = |r: usize| -> Vec<bool> { (0..hyps.len()).map(|h| val(h, r) >= 0.0).collect() };
        let good: std::collections::BTreeSet<Vec<bool>> = c.train.iter().enumerate().filter(|(k, _)| c.labels[*k] > 0).map(|(_, r)| signs(*r)).collect();
        let want = |r: usize| if good.contains(&signs(r)) { 1.0 } else { -1.0 };
        for (what, a) in [("new", NaiveAggregation::new(hyps.clone(), &tr)), ("from_slice", NaiveAggregation::from_slice(&hyps, &tr))] {
            for (smp, rows) in [(&tr, &c.train), (&s, &c.rows)] {
                let got = a.confidence_all(smp);
                let lab = a.predict_all(smp);
                let t = c.steps.len();
                if got.len() != rows.len() || lab.len() != rows.len() {
                    return Err((t, ("length", format!("{} answers for {} rows", got.len(), rows.len()))));
                }
                for (i, r) in rows.iter().enumerate() {
                    if got[i] != want(*r) || lab[i] as f64 != got[i] || a.confidence(smp, i) != got[i] {
                        return Err((t, ("pattern", format!("{what}: point {r} gets {} (label {}), its pattern {:?} calls for {}", got[i], lab[i], signs(*r), want(*r)))));
                    }
                }
            }
        }
        asked += 1;
    }
    Ok(asked)
}

pub struct ByHand;

impl Prop for ByHand {
    fn id(&self) -> &'static str {
        "B28"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        // so many patterns that they do not fit into a small table
        let many = rng.big() && rng.chance(0.25);
        let points = if many { rng.range(1100, 2600) } else if rng.big() { rng.range(50, 300) } else { rng.range(1, if th { 60 } else { 16 }) };
        let m = if many { rng.range(12, 20) } else if rng.big() { rng.range(50, 200) } else { rng.range(1, 8) };
        let style = rng.below(3);
        // most hypotheses do not tell the points apart
        let alike = m >= 50 && rng.chance(0.4);
        let pool: Vec<Vec<f64>> = (0..m)
            .map(|_| (0..points).map(|_| match style {
                0 => if rng.chance(0.5) { 1.0 } else { -1.0 },
                1 => rng.irange(-8, 8) as f64 / 8.0,
                _ => *rng.pick(&[0.0, -0.0, 1.0, -1.0, 0.3, -1e-9]),
            }).collect())
            .collect();
        let pool: Vec<Vec<f64>> = pool.into_iter().map(|h| if alike && rng.chance(0.95) { vec![h[0]; points] } else { h }).collect();
        let nr = rng.range(1, 2 * points);
        let rows = (0..nr).map(|_| rng.below(points)).collect();
        let nt = if many { points } else { rng.range(1, points) };
        let train: Vec<usize> = (0..nt).map(|_| rng.below(points)).collect();
        let labels = train.iter().map(|_| if rng.chance(0.5) { 1 } else { -1 }).collect();
        let w = |rng: &mut Rng| *rng.pick(&[0, 0, 1, 8, 8, -3, 5, 16, -8, 1000, 7, -7, 9]);
        let steps = (0..rng.range(1, if th { 20 } else { 10 }))
            .map(|_| match rng.below(10) {
                0 | 1 => Step::Slices((0..rng.range(0, m)).map(|_| w(rng)).collect()),
                2 | 3 => Step::Push { w: w(rng), h: rng.below(m) },
                4 => Step::Normalize,
                5 => Step::Decompose,
                6 => Step::Clone,
                7 => Step::Nest(w(rng), w(rng)),
                _ => Step::Ask,
            })
            .collect();
        let scale = if rng.chance(0.15) { *rng.pick(&[-150, -100, -20, -12, -9, -6, 6, 12, 100]) } else { 0 };
        serde_json::to_value(HCase { env: Env::gen_sched(rng), pool, rows, train, labels, steps, scale }).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = parse::<HCase>(case) else { return };
        if c.pool.is_empty() {
            c.pool.push(vec![1.0]);
        }
        let points = c.pool.iter().map(|h| h.len()).max().unwrap_or(1).max(1);
        for h in c.pool.iter_mut() {
            h.resize(points, 1.0);
            h.iter_mut().for_each(|v| *v = if v.is_finite() { v.clamp(-1.0, 1.0) } else { 0.0 });
        }
        c.rows.iter_mut().chain(c.train.iter_mut()).for_each(|r| *r %= points);
        if c.rows.is_empty() {
            c.rows.push(0);
        }
        c.labels.resize(c.train.len(), 1);
        c.steps.truncate(64);
        let cc = &c;
        let (end, st) = simulate(&c.env, move || story(cc));
        ex.absorb(&st);
        ex.state.add_str(&format!("{:?}", (&c.pool, &c.rows, &c.train, &c.labels, &c.steps)));
        ex.nontrivial = c.pool.len() > 1 && c.steps.len() > 1;
        ex.trace(|| format!("{} hypotheses, {} rows; {:?}", c.pool.len(), c.rows.len(), c.steps));
        match end {
            End::Done(Ok(n)) => {
                ex.count("probe.answers_compared", n);
                ex.digest.add(n);
            }
            End::Done(Err((t, (class, what)))) => ex.fail(class, format!("step {t} ({}): {what}", c.steps.get(t).map(|s| format!("{s:?}")).unwrap_or("aggregation".into()))),
            e => ex.fail("panic", format!("combining hypotheses {}", e.describe())),
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 1_000_000 } else { 60_000 }
    }
    fn rule(&self) -> &'static str {
        "random hypotheses on numbered points, a random history of building, extending, normalising, nesting and taking apart a weighted vote, and a pattern aggregation; non-trivial: at least two hypotheses and two steps"
    }
    fn real(&self) -> &'static [&'static str] {
        &["WeightedMajority, NaiveAggregation, Classifier and Regressor", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["hypotheses (look-up tables)", "rayon-core thread pool (simulated fork/join scheduler)", "disk, entropy (simulated)"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.answers_compared"]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&Refusals, &ByHand]
}
