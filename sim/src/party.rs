//! The simulated weak-learner party and the boosters it talks to.

use crate::rng::{Digest, Rng};
use crate::seam;
use crate::world::{SimCrash, StepCap};
use miniboosts::prelude::*;
use miniboosts::research::Research;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::sync::Arc;

// -------------------------------------------------------------- hypotheses

/// A hypothesis of the simulated party: its predictions by row.
#[derive(Clone, Debug)]
pub struct SimH {
    pub id: usize,
    pub tab: Arc<Vec<f64>>,
}
impl PartialEq for SimH {
    fn eq(&self, o: &Self) -> bool {
        self.tab == o.tab
    }
}
impl Classifier for SimH {
    fn confidence(&self, _sample: &Sample, row: usize) -> f64 {
        self.tab[row]
    }
}
impl Regressor for SimH {
    fn predict(&self, _sample: &Sample, row: usize) -> f64 {
        self.tab[row]
    }
}

/// How the party answers a round.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Reply {
    /// The hypothesis of largest edge.
    Best,
    /// The hypothesis of smallest edge.
    Worst,
    /// The smallest edge that still reaches the promised one (else the best).
    Weak,
    /// The best response to the distribution of the previous round.
    Stale,
    /// The same hypothesis as in the previous round.
    Repeat,
    /// The k-th best.
    Nth(usize),
    /// A fixed hypothesis.
    Idx(usize),
    /// The party crashes in the middle of the round.
    Crash,
    /// The party is slow by this many milliseconds (then answers the best).
    Slow(u64),
    /// The same, in microseconds.
    SlowUs(u64),
    /// The wall clock is set by this many seconds (then answers the best).
    WallJump(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Scenario {
    pub labels: Vec<i8>,
    /// Predictions of the pool's hypotheses by row.
    pub pool: Vec<Vec<f64>>,
    pub script: Vec<Reply>,
    /// The answer once the script is exhausted.
    pub tail: Reply,
    pub gamma: f64,
}
impl Default for Scenario {
    fn default() -> Self {
        Scenario { labels: vec![1, -1], pool: vec![vec![1.0, 1.0]], script: vec![], tail: Reply::Best, gamma: 0.0 }
    }
}
impl Scenario {
    pub fn n(&self) -> usize {
        self.labels.len()
    }
    /// Make any (shrunk) case well-formed.
    pub fn fix(mut self) -> Scenario {
        if self.labels.is_empty() {
            self.labels.push(1);
        }
        for l in self.labels.iter_mut() {
            *l = if *l < 0 { -1 } else { 1 };
        }
        if !self.labels.contains(&1) {
            self.labels.push(1);
        }
        if !self.labels.contains(&-1) {
            self.labels.push(-1);
        }
        if self.pool.is_empty() {
            self.pool.push(vec![]);
        }
        let n = self.labels.len();
        for h in self.pool.iter_mut() {
            h.resize(n, 1.0);
            for v in h.iter_mut() {
                if !v.is_finite() {
                    *v = 0.0;
                }
                *v = v.clamp(-1.0, 1.0);
            }
        }
        self
    }
    pub fn margins(&self, j: usize) -> Vec<f64> {
        self.pool[j].iter().zip(&self.labels).map(|(h, y)| h * *y as f64).collect()
    }
    pub fn u(&self) -> Vec<Vec<f64>> {
        (0..self.pool.len()).map(|j| self.margins(j)).collect()
    }
    pub fn edge(&self, j: usize, d: &[f64]) -> f64 {
        self.pool[j].iter().zip(&self.labels).zip(d).map(|((h, y), d)| h * *y as f64 * d).sum()
    }
    pub fn sample(&self) -> Sample {
        make_sample(&self.labels)
    }
    pub fn digest(&self) -> u64 {
        let mut d = Digest::default();
        for l in &self.labels {
            d.add(*l as u64);
        }
        for h in &self.pool {
            d.add_slice(h);
        }
        d.0
    }
}

/// A sample whose only feature is the row number, read through the real
/// reader from the simulated disk.
pub fn make_sample(labels: &[i8]) -> Sample {
    let mut s = String::from("id,class\n");
    for (i, y) in labels.iter().enumerate() {
        s.push_str(&format!("{i},{y}\n"));
    }
    seam::with_disk(|d| d.put("/simfs/__sample.csv", s.as_bytes()));
    let r = SampleReader::default().file("/simfs/__sample.csv").has_header(true).target_feature("class").read();
    seam::with_disk(|d| d.remove("/simfs/__sample.csv"));
    r.expect("the undisturbed sample file is readable")
}

// ------------------------------------------------------------ weak learner

#[derive(Clone, Debug, Default)]
pub struct Log {
    /// Distribution handed out in each round.
    pub dists: Vec<Vec<f64>>,
    /// Index of the pool hypothesis returned in each round.
    pub replies: Vec<usize>,
    pub slow_ns: u64,
    pub crashes: u64,
    pub kinds: [u64; 10],
    pub digest: Digest,
    pub bad_len: Option<usize>,
}

pub struct SimWL<'a> {
    pub sc: &'a Scenario,
    pub log: RefCell<Log>,
    pub cap: usize,
    /// Ignore the crash entries of the script.
    pub no_crash: bool,
}
impl<'a> SimWL<'a> {
    pub fn new(sc: &'a Scenario, cap: usize) -> Self {
        SimWL { sc, log: RefCell::new(Log::default()), cap, no_crash: false }
    }
    pub fn take(&self) -> Log {
        std::mem::take(&mut *self.log.borrow_mut())
    }
    fn ranked(&self, d: &[f64]) -> Vec<usize> {
        let e: Vec<f64> = (0..self.sc.pool.len()).map(|j| self.sc.edge(j, d)).collect();
        let mut ix: Vec<usize> = (0..e.len()).collect();
        ix.sort_by(|a, b| e[*b].partial_cmp(&e[*a]).unwrap_or(std::cmp::Ordering::Equal).then(a.cmp(b)));
        ix
    }
    pub fn hyp(&self, j: usize) -> SimH {
        SimH { id: j, tab: Arc::new(self.sc.pool[j].clone()) }
    }
}

/// Tolerance of edge comparisons inside the party's decisions: the party does
/// not react to rounding noise in what it is told.
fn q(x: f64) -> f64 {
    (x * 1e9).round() / 1e9
}

impl WeakLearner for SimWL<'_> {
    type Hypothesis = SimH;
    fn name(&self) -> &str {
        "SimWL"
    }
    fn produce(&self, _sample: &Sample, dist: &[f64]) -> SimH {
        let sc = self.sc;
        let m = sc.pool.len();
        let t = self.log.borrow().dists.len();
        if t >= self.cap {
            std::panic::panic_any(StepCap(format!("the weak learner was asked a {}-th time", t + 1)));
        }
        let prev = {
            let mut l = self.log.borrow_mut();
            l.digest.add_slice(dist);
            if dist.len() != sc.n() {
                l.bad_len = Some(dist.len());
            }
            let p = l.dists.last().cloned();
            l.dists.push(dist.to_vec());
            p
        };
        let d: Vec<f64> = (0..sc.n()).map(|i| q(dist.get(i).copied().unwrap_or(0.0))).collect();
        let r = sc.script.get(t).copied().unwrap_or(sc.tail);
        let best = || self.ranked(&d)[0];
        let j = match r {
            Reply::Best => best(),
            Reply::Worst => *self.ranked(&d).last().unwrap(),
            Reply::Nth(k) => self.ranked(&d)[k % m],
            Reply::Idx(k) => k % m,
            Reply::Repeat => self.log.borrow().replies.last().copied().unwrap_or_else(best),
            Reply::Stale => match prev {
                Some(p) if p.len() == sc.n() => self.ranked(&p.iter().map(|x| q(*x)).collect::<Vec<_>>())[0],
                _ => best(),
            },
            Reply::Weak => {
                let rk = self.ranked(&d);
                rk.iter().rev().copied().find(|j| sc.edge(*j, &d) >= sc.gamma + 1e-7).unwrap_or(rk[0])
            }
            Reply::Crash => {
                if self.no_crash {
                    best()
                } else {
                    self.log.borrow_mut().crashes += 1;
                    std::panic::panic_any(SimCrash(format!("weak learner crashed in round {}", t + 1)));
                }
            }
            Reply::Slow(ms) => {
                seam::clock_advance(ms.saturating_mul(1_000_000));
                self.log.borrow_mut().slow_ns += ms.saturating_mul(1_000_000);
                best()
            }
            Reply::SlowUs(us) => {
                seam::clock_advance(us.saturating_mul(1_000));
                self.log.borrow_mut().slow_ns += us.saturating_mul(1_000);
                best()
            }
            Reply::WallJump(s) => {
                seam::wall_jump(s.saturating_mul(1_000_000_000));
                best()
            }
        };
        let mut l = self.log.borrow_mut();
        l.kinds[match r {
            Reply::Best => 0,
            Reply::Worst => 1,
            Reply::Weak => 2,
            Reply::Stale => 3,
            Reply::Repeat => 4,
            Reply::Nth(_) => 5,
            Reply::Idx(_) => 6,
            Reply::Crash => 7,
            Reply::Slow(_) | Reply::SlowUs(_) => 8,
            Reply::WallJump(_) => 9,
        }] += 1;
        l.replies.push(j);
        l.digest.add(j as u64);
        self.hyp(j)
    }
}
pub const KINDS: [&str; 10] = [
    "reply.best", "reply.worst", "reply.weak", "fault.party.stale", "fault.party.repeat", "reply.nth", "reply.fixed",
    "fault.party.crash", "fault.party.slow", "fault.clock.jump",
];

// ----------------------------------------------------------------- boosters

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "snake_case")]
pub enum Fw {
    #[default]
    Classic,
    ShortStep,
    LineSearch,
    BlendedPairwise,
}
impl Fw {
    pub fn real(self) -> FWType {
        match self {
            Fw::Classic => FWType::Classic,
            Fw::ShortStep => FWType::ShortStep,
            Fw::LineSearch => FWType::LineSearch,
            Fw::BlendedPairwise => FWType::BlendedPairwise,
        }
    }
    pub const ALL: [Fw; 4] = [Fw::Classic, Fw::ShortStep, Fw::LineSearch, Fw::BlendedPairwise];
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Cfg {
    Ada { tol: Option<f64>, quit: Option<usize> },
    AdaV { tol: Option<f64>, quit: Option<usize> },
    Mada { tol: Option<f64>, quit: Option<usize> },
    Smooth { kappa: f64, gamma: f64 },
    GraphSep {},
    Lp { nu: f64, tol: f64 },
    Erlp { nu: f64, tol: f64 },
    Soft { nu: f64, tol: f64 },
    Total { tol: f64 },
    Cerlp { nu: f64, tol: f64, fw: Fw },
    Mlp { nu: f64, tol: f64, fw: Fw },
}
impl Cfg {
    pub fn name(&self) -> &'static str {
        match self {
            Cfg::Ada { .. } => "AdaBoost",
            Cfg::AdaV { .. } => "AdaBoostV",
            Cfg::Mada { .. } => "MadaBoost",
            Cfg::Smooth { .. } => "SmoothBoost",
            Cfg::GraphSep {} => "GraphSepBoost",
            Cfg::Lp { .. } => "LPBoost",
            Cfg::Erlp { .. } => "ERLPBoost",
            Cfg::Soft { .. } => "SoftBoost",
            Cfg::Total { .. } => "TotalBoost",
            Cfg::Cerlp { .. } => "CERLPBoost",
            Cfg::Mlp { .. } => "MLPBoost",
        }
    }
    pub fn nu(&self) -> Option<f64> {
        match *self {
            Cfg::Lp { nu, .. } | Cfg::Erlp { nu, .. } | Cfg::Soft { nu, .. } | Cfg::Cerlp { nu, .. } | Cfg::Mlp { nu, .. } => {
                Some(nu)
            }
            Cfg::Total { .. } => Some(1.0),
            _ => None,
        }
    }
    /// Make the parameters legal for a sample of size `n`.
    pub fn fix(mut self, n: usize) -> Cfg {
        let n = n as f64;
        let ft = |t: f64| if t.is_finite() { t.clamp(1e-3, 0.9) } else { 0.1 };
        match &mut self {
            Cfg::Ada { tol, .. } | Cfg::AdaV { tol, .. } | Cfg::Mada { tol, .. } => {
                if let Some(t) = tol {
                    *t = ft(*t);
                }
            }
            Cfg::Smooth { kappa, gamma } => {
                *kappa = if kappa.is_finite() { kappa.clamp(0.01, 0.99) } else { 0.5 };
                *gamma = if gamma.is_finite() { gamma.clamp(0.01, 0.49) } else { 0.1 };
            }
            Cfg::GraphSep {} => {}
            Cfg::Total { tol } => *tol = ft(*tol),
            Cfg::Lp { nu, tol }
            | Cfg::Erlp { nu, tol }
            | Cfg::Soft { nu, tol }
            | Cfg::Cerlp { nu, tol, .. }
            | Cfg::Mlp { nu, tol, .. } => {
                *nu = if nu.is_finite() { nu.clamp(1.0, n) } else { 1.0 };
                *tol = ft(*tol);
            }
        }
        self
    }
    /// Published bound on the number of rounds (None: no finite bound stated).
    pub fn bound(&self, n: usize) -> Option<f64> {
        let n = n as f64;
        Some(match *self {
            Cfg::Ada { quit: Some(q), .. } | Cfg::AdaV { quit: Some(q), .. } | Cfg::Mada { quit: Some(q), .. } => q as f64,
            Cfg::Ada { tol, .. } => n.ln() / tol.unwrap_or(1.0 / (n + 1.0)).powi(2),
            Cfg::AdaV { tol, .. } => 2.0 * n.ln() / tol.unwrap_or(1.0 / n).powi(2),
            Cfg::Mada { tol, .. } => ((n - 1.0) / tol.unwrap_or(1.0 / (n + 1.0)).powi(2)).ceil(),
            Cfg::Smooth { kappa, gamma } => (2.0 / (kappa * gamma * gamma * (1.0 - gamma).sqrt())).ceil(),
            Cfg::GraphSep {} => n * n / 4.0 + 2.0,
            Cfg::Lp { .. } => return None,
            Cfg::Soft { nu, tol } => 2.0 * (n / nu).ln() / (tol * tol),
            Cfg::Total { tol } => 2.0 * n.ln() / (tol * tol),
            Cfg::Erlp { nu, tol } => {
                let h = tol / 2.0;
                (4.0 / h).max(8.0 * (n / nu).ln() / (h * h))
            }
            Cfg::Cerlp { nu, tol, .. } | Cfg::Mlp { nu, tol, .. } => {
                let h = tol / 2.0;
                8.0 * (n / nu).ln() / (h * h)
            }
        })
    }
}

pub fn gen_fw(rng: &mut Rng) -> Fw {
    *rng.pick(&Fw::ALL)
}
pub fn gen_nu(rng: &mut Rng, n: usize) -> f64 {
    let n_ = n as f64;
    if rng.big() && rng.chance(0.3) {
        return r3(n_ * rng.uniform(0.3, 0.9));
    }
    match rng.below(6) {
        0 => 1.0,
        1 => n_,
        2 => rng.range(1, n) as f64,
        3 => r3(1.0 + rng.f64() * (n_ - 1.0)),
        4 => r3((0.2 * n_).max(1.0)),
        _ => r3(1.0 + rng.f64() * (n_ * 0.5 - 1.0).max(0.0)),
    }
}
pub fn r3(x: f64) -> f64 {
    (x * 1000.0).round() / 1000.0
}

/// What a finished run delivered.
#[derive(Clone, Debug, Default)]
pub struct Final {
    /// None: the output does not expose weights.
    pub weights: Option<Vec<f64>>,
    pub ids: Vec<usize>,
    pub conf: Vec<f64>,
    pub pred: Vec<i64>,
    pub conf1: Vec<f64>,
    pub pred1: Vec<i64>,
}
impl Final {
    pub fn digest(&self, d: &mut Digest) {
        if let Some(w) = &self.weights {
            d.add_slice(w);
        }
        for i in &self.ids {
            d.add(*i as u64);
        }
        d.add_slice(&self.conf);
        for p in &self.pred {
            d.add(*p as u64);
        }
    }
    pub fn bits(&self) -> u64 {
        let mut d = Digest::default();
        self.digest(&mut d);
        d.0
    }
}

pub trait Inspect: Classifier {
    fn parts(&self) -> (Option<Vec<f64>>, Vec<usize>);
    fn finish(&self, s: &Sample) -> Final {
        let (weights, ids) = self.parts();
        let n = s.shape().0;
        Final {
            weights,
            ids,
            conf: self.confidence_all(s),
            pred: self.predict_all(s),
            conf1: (0..n).map(|i| self.confidence(s, i)).collect(),
            pred1: (0..n).map(|i| self.predict(s, i)).collect(),
        }
    }
}
impl Inspect for WeightedMajority<SimH> {
    fn parts(&self) -> (Option<Vec<f64>>, Vec<usize>) {
        (Some(self.weights.clone()), self.hypotheses.iter().map(|h| h.id).collect())
    }
}
impl Inspect for miniboosts::NaiveAggregation<SimH> {
    fn parts(&self) -> (Option<Vec<f64>>, Vec<usize>) {
        (None, vec![])
    }
}

/// Something done with a booster of any kind.
pub trait Visit {
    type Out;
    fn visit<'a, B>(self, b: B, sample: &'a Sample) -> Self::Out
    where
        B: Booster<SimH> + Research<Output = <B as Booster<SimH>>::Output>,
        <B as Booster<SimH>>::Output: Inspect;
}

pub fn with_booster<V: Visit>(cfg: &Cfg, s: &Sample, v: V) -> V::Out {
    // the order of the builder's calls must not matter
    let swap = cfg.nu().map(|nu| (nu * 1000.0) as i64 % 2 == 1).unwrap_or(false);
    // nor must it make a difference whether a default value is given or left out
    let n = s.shape().0 as f64;
    let silent = |tol: f64| (tol * 100.0).round() as i64 % 2 == 0;
    match cfg {
        Cfg::Lp { nu, tol } if *nu == 1.0 && silent(*tol) => v.visit(LPBoost::<SimH>::init(s).tolerance(*tol), s),
        Cfg::Erlp { nu, tol } if *nu == 1.0 && silent(*tol) => v.visit(ERLPBoost::<SimH>::init(s).tolerance(*tol), s),
        Cfg::Soft { nu, tol } if *nu == 1.0 && silent(*tol) => v.visit(SoftBoost::<SimH>::init(s).tolerance(*tol), s),
        Cfg::Cerlp { nu, tol, fw: Fw::ShortStep } if *nu == 1.0 && silent(*tol) => v.visit(CERLPBoost::<SimH>::init(s).tolerance(*tol), s),
        Cfg::Mlp { nu, tol, fw: Fw::ShortStep } if *nu == 1.0 && silent(*tol) => v.visit(MLPBoost::<SimH>::init(s).tolerance(*tol), s),
        Cfg::Cerlp { nu, tol, fw: Fw::ShortStep } if silent(*tol) => v.visit(CERLPBoost::<SimH>::init(s).nu(*nu).tolerance(*tol), s),
        Cfg::Mlp { nu, tol, fw: Fw::ShortStep } if silent(*tol) => v.visit(MLPBoost::<SimH>::init(s).nu(*nu).tolerance(*tol), s),
        Cfg::Lp { nu, tol } if *tol == 1.0 / n => v.visit(LPBoost::<SimH>::init(s).nu(*nu), s),
        Cfg::Soft { nu, tol } if *tol == 1.0 / n => v.visit(SoftBoost::<SimH>::init(s).nu(*nu), s),
        Cfg::Total { tol } if *tol == 1.0 / n => v.visit(TotalBoost::<SimH>::init(s), s),
        Cfg::Erlp { nu, tol } if swap => v.visit(ERLPBoost::<SimH>::init(s).tolerance(*tol).nu(*nu), s),
        Cfg::Soft { nu, tol } if swap => v.visit(SoftBoost::<SimH>::init(s).tolerance(*tol).nu(*nu), s),
        Cfg::Lp { nu, tol } if swap => v.visit(LPBoost::<SimH>::init(s).tolerance(*tol).nu(*nu), s),
        Cfg::Cerlp { nu, tol, fw } if swap => v.visit(CERLPBoost::<SimH>::init(s).fw_type(fw.real()).tolerance(*tol).nu(*nu), s),
        Cfg::Mlp { nu, tol, fw } if swap => v.visit(MLPBoost::<SimH>::init(s).frank_wolfe(fw.real()).tolerance(*tol).nu(*nu), s),
        Cfg::Ada { tol, quit } => {
            let mut b = AdaBoost::<SimH>::init(s);
            if let Some(t) = tol {
                b = b.tolerance(*t);
            }
            if let Some(q) = quit {
                b = b.force_quit_at(*q);
            }
            v.visit(b, s)
        }
        Cfg::AdaV { tol, quit } => {
            let mut b = AdaBoostV::<SimH>::init(s);
            if let Some(t) = tol {
                b = b.tolerance(*t);
            }
            if let Some(q) = quit {
                b = b.force_quit_at(*q);
            }
            v.visit(b, s)
        }
        Cfg::Mada { tol, quit } => {
            let mut b = MadaBoost::<SimH>::init(s);
            if let Some(t) = tol {
                b = b.tolerance(*t);
            }
            if let Some(q) = quit {
                b = b.force_quit_at(*q);
            }
            v.visit(b, s)
        }
        Cfg::Smooth { kappa, gamma } => v.visit(SmoothBoost::<SimH>::init(s).tolerance(*kappa).gamma(*gamma), s),
        Cfg::GraphSep {} => v.visit(GraphSepBoost::<SimH>::init(s), s),
        Cfg::Lp { nu, tol } => v.visit(LPBoost::<SimH>::init(s).nu(*nu).tolerance(*tol), s),
        Cfg::Erlp { nu, tol } => v.visit(ERLPBoost::<SimH>::init(s).nu(*nu).tolerance(*tol), s),
        Cfg::Soft { nu, tol } => v.visit(SoftBoost::<SimH>::init(s).nu(*nu).tolerance(*tol), s),
        Cfg::Total { tol } => v.visit(TotalBoost::<SimH>::init(s).tolerance(*tol), s),
        Cfg::Cerlp { nu, tol, fw } => v.visit(CERLPBoost::<SimH>::init(s).nu(*nu).tolerance(*tol).fw_type(fw.real()), s),
        Cfg::Mlp { nu, tol, fw } => v.visit(MLPBoost::<SimH>::init(s).nu(*nu).tolerance(*tol).frank_wolfe(fw.real()), s),
    }
}

/// `Booster::run` from start to end.
pub struct RunAll<'a, 'b>(pub &'a SimWL<'b>);
impl Visit for RunAll<'_, '_> {
    type Out = Final;
    fn visit<'a, B>(self, mut b: B, sample: &'a Sample) -> Final
    where
        B: Booster<SimH> + Research<Output = <B as Booster<SimH>>::Output>,
        <B as Booster<SimH>>::Output: Inspect,
    {
        let f = b.run(self.0);
        f.finish(sample)
    }
}

// --------------------------------------------------------------- generation

/// A random pool over `n` examples.
pub fn gen_pool(rng: &mut Rng, labels: &[i8], m: usize) -> Vec<Vec<f64>> {
    let n = labels.len();
    let style = rng.below(7);
    let err = rng.uniform(0.05, 0.5);
    (0..m)
        .map(|j| match style {
            // noisy copies of the target
            0 | 1 => labels.iter().map(|y| if rng.chance(err) { -*y as f64 } else { *y as f64 }).collect(),
            // independent signs
            2 => (0..n).map(|_| if rng.chance(0.5) { 1.0 } else { -1.0 }).collect(),
            // graded confidences
            3 => labels.iter().map(|y| (rng.irange(-4, 8) as f64 / 8.0) * *y as f64).collect(),
            // abstaining
            4 => labels.iter().map(|y| if rng.chance(0.5) { 0.0 } else if rng.chance(err) { -*y as f64 } else { *y as f64 }).collect(),
            // each wrong on one small block
            5 => {
                let k = (n / m.max(1)).max(1);
                labels.iter().enumerate().map(|(i, y)| if i / k % m == j { -*y as f64 } else { *y as f64 }).collect()
            }
            // thresholds on the row number, both polarities
            _ => {
                let c = rng.below(n + 1);
                let s = if rng.chance(0.5) { 1.0 } else { -1.0 };
                (0..n).map(|i| if i < c { s } else { -s }).collect()
            }
        })
        .collect()
}
pub fn gen_labels(rng: &mut Rng, n: usize) -> Vec<i8> {
    let p = *rng.pick(&[0.5, 0.5, 0.2, 0.8]);
    let mut l: Vec<i8> = (0..n).map(|_| if rng.chance(p) { 1 } else { -1 }).collect();
    if !l.contains(&1) {
        l[0] = 1;
    }
    if !l.contains(&-1) {
        let k = n - 1;
        l[k] = -1;
    }
    l
}
pub fn gen_script(rng: &mut Rng, len: usize, m: usize, faulty: bool) -> Vec<Reply> {
    let mut menu = vec![Reply::Best];
    if faulty {
        // swarm: a random subset of the ways to misbehave
        let all = [
            Reply::Worst, Reply::Weak, Reply::Stale, Reply::Repeat, Reply::Nth(0), Reply::Idx(0), Reply::Slow(1),
            Reply::WallJump(1),
        ];
        for r in all {
            if rng.chance(0.4) {
                menu.push(r);
            }
        }
    }
    (0..len)
        .map(|_| match *rng.pick(&menu) {
            Reply::Nth(_) => Reply::Nth(rng.below(m)),
            Reply::Idx(_) => Reply::Idx(rng.below(m)),
            Reply::Slow(_) => Reply::Slow(*rng.pick(&[1, 10, 1000, 100_000])),
            Reply::WallJump(_) => Reply::WallJump(*rng.pick(&[-86_400, -1, 1, 3600, 86_400 * 365])),
            r => r,
        })
        .collect()
}
