//! The shipped weak learners: in boosters, on every schedule, without memory,
//! on disk; and boosters next to each other.

use super::boost::{check_dist, check_vote, gen_bcase, gen_cfg, gen_n, round_cap, BCase, ALL_KINDS};
use super::tree::{gen_cols, table, Col, Crit};
use super::{parse, Prop};
use crate::party::*;
use crate::rng::Rng;
use crate::table::Table;
use crate::world::{simulate, End, Env, Exec, StepCap};
use miniboosts::prelude::*;
use miniboosts::research::Research;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::ops::ControlFlow;
use std::sync::Arc;

// ------------------------------------------------------- learners by name

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Act {
    Sigmoid,
    Relu,
    Id,
    Soft,
}
impl Act {
    fn real(self) -> Activation {
        match self {
            Act::Sigmoid => Activation::Sigmoid(1.0),
            Act::Relu => Activation::ReLu(0.0),
            Act::Id => Activation::Id,
            Act::Soft => Activation::SoftMax(1.0),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Wl {
    Tree { crit: Crit, depth: usize },
    Nb {},
    /// Hidden layers, then one output by the logistic function or two by the soft maximum.
    Nn { hidden: Vec<(usize, Act)>, single: bool, epochs: usize, iters: usize, batch: Option<usize> },
    Bad { tol: f64, nu: f64 },
}
impl Default for Wl {
    fn default() -> Self {
        Wl::Nb {}
    }
}
impl Wl {
    pub fn name(&self) -> &'static str {
        match self {
            Wl::Tree { .. } => "decision tree",
            Wl::Nb {} => "naive Bayes",
            Wl::Nn { .. } => "neural network",
            Wl::Bad { .. } => "worst-case learner",
        }
    }
    pub fn fix(mut self, n: usize) -> Wl {
        match &mut self {
            Wl::Tree { depth, .. } => *depth = (*depth).clamp(1, 8),
            Wl::Nb {} => {}
            Wl::Nn { hidden, epochs, iters, batch, .. } => {
                hidden.truncate(3);
                for h in hidden.iter_mut() {
                    h.0 = h.0.clamp(1, 8);
                }
                *epochs = (*epochs).min(20);
                *iters = (*iters).min(50);
                if let Some(b) = batch {
                    *b = (*b).clamp(1, 1024);
                }
            }
            Wl::Bad { tol, nu } => {
                *tol = if tol.is_finite() { tol.clamp(1e-12, 0.5) } else { 1e-9 };
                *nu = if nu.is_finite() { nu.clamp(1.0, (n as f64 - 0.001).max(1.0)) } else { 1.0 };
            }
        }
        self
    }
}
pub trait VisitWl {
    type Out;
    fn visit<W: WeakLearner>(self, w: &W) -> Self::Out
    where
        W::Hypothesis: Classifier;
}
pub fn with_learner<V: VisitWl>(wl: &Wl, s: &Sample, v: V) -> V::Out {
    match wl {
        Wl::Tree { crit, depth } => v.visit(&DecisionTreeBuilder::new(s).max_depth(*depth).criterion(crit.real()).build()),
        Wl::Nb {} => v.visit(&GaussianNB::init()),
        Wl::Nn { hidden, single, epochs, iters, batch } => {
            let mut n = NeuralNetwork::init(s).n_epoch(*epochs).n_iter(*iters);
            for (d, a) in hidden {
                n = n.append(*d, a.real());
            }
            n = if *single { n.append(1, Activation::Sigmoid(1.0)) } else { n.append(2, Activation::SoftMax(1.0)) };
            if let Some(b) = batch {
                n = n.minibatch_size(*b);
            }
            v.visit(&n)
        }
        Wl::Bad { tol, nu } => v.visit(&BadBaseLearnerBuilder::new(s).tolerance(*tol).nu(*nu).build()),
    }
}
pub fn gen_wl(rng: &mut Rng, n: usize, kinds: &[u8]) -> Wl {
    match *rng.pick(kinds) {
        0 => Wl::Tree { crit: *rng.pick(&Crit::ALL), depth: *rng.pick(&[1, 1, 2, 3, 5]) },
        1 => Wl::Nb {},
        2 => gen_nn(rng),
        _ => Wl::Bad { tol: *rng.pick(&[1e-9, 1e-6, 1e-3, 0.1]), nu: *rng.pick(&[1.0, 1.0, 1.5, 2.0, (n as f64 / 2.0).max(1.0)]) },
    }
    .fix(n)
}
fn gen_nn(rng: &mut Rng) -> Wl {
    let k = *rng.pick(&[0, 0, 1, 1, 2]);
    Wl::Nn {
        hidden: (0..k).map(|_| (rng.range(1, 4), *rng.pick(&[Act::Sigmoid, Act::Relu, Act::Id, Act::Soft]))).collect(),
        single: rng.chance(0.3),
        epochs: rng.range(1, 3),
        iters: rng.range(1, 4),
        batch: *rng.pick(&[None, None, Some(1), Some(3), Some(128)]),
    }
}

/// A shipped learner in the place of the simulated party: what it is told and
/// what it answers on the training rows cross the seam.
pub struct RealWl<'a, W> {
    pub w: &'a W,
    pub cap: usize,
    pub log: RefCell<Vec<(Vec<f64>, Arc<Vec<f64>>, Vec<i64>)>>,
}
impl<W: WeakLearner> WeakLearner for RealWl<'_, W>
where
    W::Hypothesis: Classifier,
{
    type Hypothesis = SimH;
    fn name(&self) -> &str {
        self.w.name()
    }
    fn produce(&self, s: &Sample, d: &[f64]) -> SimH {
        let t = self.log.borrow().len();
        if t >= self.cap {
            std::panic::panic_any(StepCap(format!("the weak learner was asked a {}-th time", t + 1)));
        }
        let h = self.w.produce(s, d);
        let tab = Arc::new(h.confidence_all(s));
        self.log.borrow_mut().push((d.to_vec(), tab.clone(), h.predict_all(s)));
        SimH { id: t, tab }
    }
}
struct RunReal<'a, 'b, W>(&'a RealWl<'b, W>);
impl<W: WeakLearner> Visit for RunReal<'_, '_, W>
where
    W::Hypothesis: Classifier,
{
    type Out = Final;
    fn visit<'a, B>(self, mut b: B, sample: &'a Sample) -> Final
    where
        B: Booster<SimH> + Research<Output = <B as Booster<SimH>>::Output>,
        <B as Booster<SimH>>::Output: Inspect,
    {
        b.run(self.0).finish(sample)
    }
}

// ------------------------------------------------------- naive Bayes, by hand

/// The log posterior (up to a constant) of each label and its rounding error.
fn nb_posteriors(t: &Table, d: &[f64], row: usize) -> Option<Vec<(f64, f64, f64)>> {
    let mut out = Vec::new();
    for y in [-1.0, 1.0] {
        let rows: Vec<usize> = (0..t.n()).filter(|i| t.y[*i] == y).collect();
        if rows.is_empty() {
            continue;
        }
        let tot: f64 = rows.iter().map(|i| d[*i]).sum();
        if tot == 0.0 {
            out.push((y, f64::NEG_INFINITY, 0.0));
            continue;
        }
        if tot <= 1e-200 {
            // almost vanished: not judged
            return None;
        }
        let (mut l, mut err) = (tot.ln(), 1e-9);
        for j in 0..t.k() {
            let mean = rows.iter().map(|i| d[*i] / tot * t.x[*i][j]).sum::<f64>();
            let var = rows.iter().map(|i| d[*i] / tot * (t.x[*i][j] - mean).powi(2)).sum::<f64>();
            let big = rows.iter().chain([&row]).map(|i| t.x[*i][j].abs()).fold(0.0, f64::max);
            let e = big * 1e-13;
            let var = var.max(1e-9);
            let dev = (t.x[row][j] - mean).abs();
            let evar = ((e * e + 2.0 * e * var.sqrt()) / var + 1e-12).min(1.0);
            l -= 0.5 * (dev * dev / var + var.ln() + (2.0 * std::f64::consts::PI).ln());
            err += (e * e + 2.0 * dev * e) / var + dev * dev / var * evar + evar;
        }
        out.push((y, l, err + 1e-12 * l.abs()));
    }
    Some(out)
}
/// The label naive Bayes must answer, if that is clear.
fn nb_label(t: &Table, d: &[f64], row: usize) -> Option<f64> {
    let p = nb_posteriors(t, d, row)?;
    let best = p.iter().max_by(|a, b| a.1.total_cmp(&b.1))?;
    if p.iter().any(|q| q.0 != best.0 && !(best.1 - q.1 > 2.0 * (best.2 + q.2))) {
        return None;
    }
    Some(best.0)
}

// ----------------------------------------------------------------- B23

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct ECase {
    cfg: Option<Cfg>,
    wl: Wl,
    cols: Vec<Col>,
    y: Vec<f64>,
    sparse: bool,
    env: Env,
}
pub fn fix_ground(cols: &mut Vec<Col>, y: &mut Vec<f64>) {
    for v in y.iter_mut() {
        *v = if *v > 0.0 { 1.0 } else { -1.0 };
    }
    for want in [1.0, -1.0] {
        if !y.contains(&want) {
            y.push(want);
        }
    }
    let n = y.len();
    if cols.is_empty() {
        cols.push(Col::default());
    }
    *cols = std::mem::take(cols).into_iter().map(|c| c.fix(n)).collect();
}
/// Gradient descent diverges on features of any scale; networks get small ones.
fn tame(cols: &mut Vec<Col>, n: usize) {
    for c in cols.iter_mut() {
        c.codes.iter_mut().for_each(|k| *k %= 8);
        *c = Col { codes: std::mem::take(&mut c.codes), offset: c.offset.clamp(-4.0, 4.0).round(), step: 1.0, bins: 0 }.fix(n);
    }
}
pub fn gen_ground(rng: &mut Rng, n: usize) -> (Vec<Col>, Vec<f64>) {
    let k = rng.range(1, 4);
    let cols = gen_cols(rng, n, k);
    let err = *rng.pick(&[0.0, 0.1, 0.3, 0.5]);
    let lead = rng.below(k);
    let cut = rng.below(cols[lead].k() + 1);
    let y = (0..n).map(|i| if (cols[lead].codes[i] < cut) != rng.chance(err) { 1.0 } else { -1.0 }).collect();
    (cols, y)
}

/// Complete runs with the shipped learners.
pub struct EndToEnd;

struct Ran {
    log: Vec<(Vec<f64>, Arc<Vec<f64>>, Vec<i64>)>,
    fin: Option<Final>,
}
struct Drive<'a> {
    cfg: &'a Cfg,
    s: &'a Sample,
    cap: usize,
    out: &'a mut Ran,
}
impl VisitWl for Drive<'_> {
    type Out = ();
    fn visit<W: WeakLearner>(self, w: &W)
    where
        W::Hypothesis: Classifier,
    {
        let rec = RealWl { w, cap: self.cap, log: RefCell::default() };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_booster(self.cfg, self.s, RunReal(&rec))));
        self.out.log = rec.log.into_inner();
        match r {
            Ok(f) => self.out.fin = Some(f),
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}

impl Prop for EndToEnd {
    fn id(&self) -> &'static str {
        "B23"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let n = gen_n(rng);
        let (cols, y) = gen_ground(rng, n);
        let wl = gen_wl(rng, n, &[0, 0, 0, 1, 1, 1, 2, 3]);
        let cfg = loop {
            let c = gen_cfg(rng, n, &ALL_KINDS, th);
            // a random network may never convince a margin booster
            let lim = if matches!(wl, Wl::Nn { .. }) { 150.0 } else { 1e9 };
            if c.bound(n).unwrap_or(100.0) <= lim {
                break c;
            }
        };
        let sparse = rng.chance(0.35);
        serde_json::to_value(ECase { cfg: Some(cfg), wl, cols, y, sparse, env: Env::gen_sched(rng) }).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = parse::<ECase>(case) else { return };
        fix_ground(&mut c.cols, &mut c.y);
        let n = c.y.len();
        let Some(cfg) = c.cfg.clone().map(|g| g.fix(n)) else { return };
        if cfg.bound(n).unwrap_or(0.0) > 60_000.0 {
            return;
        }
        let wl = c.wl.clone().fix(n);
        if let Wl::Nn { .. } = wl {
            tame(&mut c.cols, n);
        }
        let t = table(&c.cols, &c.y);
        let sparse = c.sparse && !t.columns_kept().is_empty();
        ex.state.add_str(&serde_json::to_string(&(&c.cols, &c.y, &cfg, &wl, sparse)).unwrap());
        let who = format!("{} with the {}", cfg.name(), wl.name());
        let sc = Scenario { labels: c.y.iter().map(|y| *y as i8).collect(), ..Scenario::default() };
        let cap = match cfg.bound(n) {
            Some(_) => round_cap(&cfg, &sc),
            // LPBoost: the hypotheses are not enumerated here
            None => 5000,
        };
        let mut ran = Ran { log: vec![], fin: None };
        let (end, st) = {
            let (ran, t, cfg, wl) = (&mut ran, &t, &cfg, &wl);
            simulate(&c.env, move || {
                let s = if sparse { t.sparse() } else { t.dense() };
                with_learner(wl, &s, Drive { cfg, s: &s, cap, out: ran })
            })
        };
        ex.absorb(&st);
        ex.count("rounds", ran.log.len() as u64);
        ex.count(&format!("learner.{}", wl.name()), 1);
        ex.count(&format!("booster.{}", cfg.name()), 1);
        ex.trace(|| format!("{who} on {n} examples ({}): {} after {} rounds", if sparse { "sparse" } else { "dense" }, end.describe(), ran.log.len()));
        ex.nontrivial = ran.log.len() >= 2;
        for (r, (d, tab, pred)) in ran.log.iter().enumerate() {
            ex.digest.add_slice(d);
            ex.digest.add_slice(tab);
            if r < 40 {
                ex.trace(|| format!("round {}: dist {d:.6?} -> {tab:.6?}", r + 1));
            }
            check_dist(&cfg, n, r + 1, d, ex);
            if ex.violation.is_some() {
                return;
            }
            for i in 0..n {
                if !(tab[i].abs() <= 1.0 + 1e-9) {
                    ex.fail("confidence", format!("{who}: round {}: the hypothesis' confidence on row {i} is {}", r + 1, tab[i]));
                    return;
                }
                if pred[i] != if tab[i] >= 0.0 { 1 } else { -1 } {
                    ex.fail("predict", format!("{who}: round {}: row {i} is predicted {} at confidence {}", r + 1, pred[i], tab[i]));
                    return;
                }
                if let Wl::Nb {} = wl {
                    // solvers leave tiny negative weights behind
                    if d.iter().any(|d| *d < 0.0) {
                        continue;
                    }
                    match nb_label(&t, d, i) {
                        Some(y) => {
                            ex.count("probe.bayes_decisions", 1);
                            if tab[i] != y {
                                ex.fail("bayes", format!("{who}: round {}: row {i} is classified {}, the posteriors are {:?}", r + 1, tab[i], nb_posteriors(&t, d, i)));
                                return;
                            }
                        }
                        None => ex.count("skipped.bayes_ties", 1),
                    }
                }
            }
        }
        match end {
            End::Done(()) => {}
            End::StepCap(m) => {
                // beyond 5000 rounds nothing is claimed for LPBoost
                if cfg.bound(n).is_some() {
                    ex.fail("no-end", format!("{who}: {m}, beyond the published bound"));
                } else {
                    ex.fail("no-end", format!("{who}: still running after 5000 rounds"));
                }
                return;
            }
            e => {
                ex.fail("panic", format!("{who}: the run {}", e.describe()));
                return;
            }
        }
        let Some(f) = &ran.fin else { return };
        f.digest(&mut ex.digest);
        // the vote over what was answered
        let b = BCase {
            cfg: cfg.clone(),
            sc: Scenario { pool: ran.log.iter().map(|l| l.1.to_vec()).collect(), ..sc },
            env: Env::default(),
        };
        let log = Log { dists: ran.log.iter().map(|l| l.0.clone()).collect(), replies: (0..ran.log.len()).collect(), ..Log::default() };
        check_vote(&b, &log, f, ex);
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 300_000 } else { 30_000 }
    }
    fn rule(&self) -> &'static str {
        "random booster, parameters, shipped learner, table (dense or sparse), fork/join schedule and entropy; every message between the two is checked; non-trivial: at least two rounds were played"
    }
    fn real(&self) -> &'static [&'static str] {
        &["all boosters", "decision tree, naive Bayes, neural network, worst-case learner", "clarabel", "Sample, SampleReader", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.bayes_decisions", "probe.votes_recombined", "sched.steals", "entropy.reads", "learner.decision tree", "learner.naive Bayes", "learner.neural network", "learner.worst-case learner"]
    }
}
const STUBS: &[&str] = &["rayon-core thread pool (simulated fork/join scheduler)", "clock, entropy, disk (simulated)"];

// ----------------------------------------------------------------- B12

/// Results do not depend on schedules, hash seeds and storage.
pub struct Independence;

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct ICase {
    base: Option<BCase>,
    /// Columns: the shape of the sample must not matter to a booster.
    cols: Vec<Col>,
    w: Vec<u32>,
    sparse: bool,
    env2: Env,
}
fn run_on(c: &BCase, t: &Table, sparse: bool, env: &Env, cap: usize, ex: &mut Exec) -> Option<(Final, Log)> {
    let mut log = Log::default();
    let (end, st) = {
        let log = &mut log;
        simulate(env, move || {
            let s = if sparse { t.sparse() } else { t.dense() };
            let wl = SimWL::new(&c.sc, cap);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_booster(&c.cfg, &s, RunAll(&wl))));
            *log = wl.take();
            match r {
                Ok(f) => f,
                Err(p) => std::panic::resume_unwind(p),
            }
        })
    };
    ex.absorb(&st);
    ex.count("rounds", log.dists.len() as u64);
    ex.digest.add(log.digest.0);
    ex.state.add(log.digest.0);
    let f = super::boost::must_finish(end, ex, c.cfg.name())?;
    f.digest(&mut ex.digest);
    Some((f, log))
}

type NbOut = (Vec<Vec<(f64, f64)>>, Vec<f64>);
fn nb_on(t: &Table, w: &[f64], sparse: bool, env: &Env, ex: &mut Exec) -> Option<NbOut> {
    let (end, st) = simulate(env, || {
        let s = if sparse { t.sparse() } else { t.dense() };
        let h = GaussianNB::init().produce(&s, w);
        let p: Vec<Vec<(f64, f64)>> = (0..t.n()).map(|i| h.probabilities(&s, i)).collect();
        (p, h.confidence_all(&s))
    });
    ex.absorb(&st);
    match end {
        End::Done(r) => {
            for p in &r.0 {
                for (a, b) in p {
                    ex.digest.add_f64(*a);
                    ex.digest.add_f64(*b);
                }
            }
            Some(r)
        }
        e => {
            ex.fail("panic", format!("naive Bayes {}", e.describe()));
            None
        }
    }
}

impl Prop for Independence {
    fn id(&self) -> &'static str {
        "B12"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let base = gen_bcase(rng, &[0, 1, 2, 3, 4], 0.6, th);
        let n = base.sc.n();
        let k = rng.range(1, 4);
        let cols = gen_cols(rng, n, k);
        let style = rng.below(3);
        let w = (0..n)
            .map(|_| match style {
                0 => 1,
                1 => rng.range(1, 100) as u32,
                _ => if rng.chance(0.3) { 0 } else { rng.range(1, 1000) as u32 },
            })
            .collect();
        serde_json::to_value(ICase { base: Some(base), cols, w, sparse: rng.chance(0.6), env2: Env::gen_sched(rng) }).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = parse::<ICase>(case) else { return };
        let Some(mut b) = c.base.take().and_then(|b| BCase::load(&serde_json::to_value(b).unwrap())) else { return };
        if !matches!(b.cfg, Cfg::Ada { .. } | Cfg::AdaV { .. } | Cfg::Mada { .. } | Cfg::Smooth { .. } | Cfg::GraphSep {}) {
            return;
        }
        b.sc.script.retain(|r| *r != Reply::Crash);
        if b.sc.tail == Reply::Crash {
            return;
        }
        let mut y: Vec<f64> = b.sc.labels.iter().map(|y| *y as f64).collect();
        fix_ground(&mut c.cols, &mut y);
        let n = y.len();
        if n != b.sc.n() {
            return;
        }
        c.w.resize(n, 1);
        if c.w.iter().all(|w| *w == 0) {
            c.w[0] = 1;
        }
        let t = table(&c.cols, &y);
        let sparse = c.sparse && !t.columns_kept().is_empty();
        let who = b.cfg.name();
        let cap = round_cap(&b.cfg, &b.sc);
        let Some((f1, l1)) = run_on(&b, &t, false, &b.env.clone(), cap, ex) else { return };
        ex.nontrivial = l1.dists.len() >= 2;
        // the same replies again
        let b2 = BCase {
            sc: Scenario { script: l1.replies.iter().map(|j| Reply::Idx(*j)).collect(), ..b.sc.clone() },
            ..b.clone()
        };
        let Some((f2, l2)) = run_on(&b2, &t, sparse, &c.env2, cap + 2, ex) else { return };
        let what = format!("{who} ({} against dense storage, {} against {} workers)", if sparse { "sparse" } else { "dense" }, c.env2.threads, b.env.threads);
        // ill-conditioned rounds end the comparison
        let mut clear = true;
        let mut gamma: f64 = 1.0;
        for (r, (d1, d2)) in l1.dists.iter().zip(&l2.dists).enumerate() {
            for i in 0..n {
                if (d1[i] - d2[i]).abs() > 1e-6 * d1[i].abs() + 1e-12 {
                    ex.fail("weights", format!("{what}: round {}: example {i} weighs {} and {}", r + 1, d2[i], d1[i]));
                    return;
                }
            }
            ex.count("probe.rounds_compared", 1);
            let e = b.sc.edge(l1.replies[r], d1);
            gamma = gamma.min(e);
            let tol = match b.cfg {
                Cfg::AdaV { tol, .. } => tol.unwrap_or(1.0 / n as f64),
                _ => 0.0,
            };
            if 1.0 - e.abs() < 1e-6 || (matches!(b.cfg, Cfg::AdaV { .. }) && gamma - tol < -1.0 + 1e-6) {
                clear = false;
                break;
            }
        }
        if let (Cfg::Smooth { kappa, gamma }, true) = (&b.cfg, clear) {
            // a total weight right at the threshold may end one of the two
            let theta = gamma / (2.0 + gamma);
            let mut acc = vec![0.0f64; n];
            for j in &l1.replies {
                for (a, u) in acc.iter_mut().zip(b.sc.margins(*j)) {
                    *a += u - theta;
                }
                let s: f64 = acc.iter().map(|a| if *a <= 0.0 { 1.0 } else { (1.0 - gamma).powf(0.5 * a) }).sum();
                clear &= (s - kappa * n as f64).abs() > 1e-9 * s;
            }
        }
        if clear {
            if l1.dists.len() != l2.dists.len() {
                ex.fail("rounds", format!("{what}: {} and {} rounds", l2.dists.len(), l1.dists.len()));
                return;
            }
            // coefficients that cancel leave nothing to compare
            let idle = l1.replies.iter().zip(&l1.dists).all(|(j, d)| b.sc.edge(*j, d).abs() < 1e-3);
            for i in 0..n {
                if !idle && (f1.conf[i] - f2.conf[i]).abs() > 1e-6 {
                    ex.fail("result", format!("{what}: the confidence on example {i} is {} and {}", f2.conf[i], f1.conf[i]));
                    return;
                }
            }
            ex.count("probe.results_compared", 1);
        }
        // naive Bayes
        let tot: f64 = c.w.iter().map(|w| *w as f64).sum();
        let w: Vec<f64> = c.w.iter().map(|w| *w as f64 / tot).collect();
        let Some((p1, k1)) = nb_on(&t, &w, false, &b.env, ex) else { return };
        let Some((p2, k2)) = nb_on(&t, &w, sparse, &c.env2, ex) else { return };
        let kept = !sparse || t.columns_kept().len() == t.k();
        for i in 0..n {
            let Some(post) = nb_posteriors(&t, &w, i) else { continue };
            let err: f64 = post.iter().map(|p| p.2).sum();
            if kept && err < 1e-6 {
                for (a, b) in p1[i].iter().zip(&p2[i]) {
                    if a.0 != b.0 || !((a.1 - b.1).abs() <= 1e-4 * a.1.abs() + 1e-12) {
                        ex.fail("posterior", format!("naive Bayes: the posteriors of row {i} are {:?} and {:?}", p2[i], p1[i]));
                        return;
                    }
                }
                ex.count("probe.posteriors_compared", 1);
            }
            if let Some(y) = nb_label(&t, &w, i) {
                ex.count("probe.bayes_decisions", 1);
                for (k, k_) in [(k1[i], "dense"), (k2[i], if sparse { "sparse" } else { "dense" })] {
                    if k != y {
                        ex.fail("bayes", format!("naive Bayes ({k_}): row {i} is classified {k}, the log posteriors are {post:?}"));
                        return;
                    }
                }
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 300_000 } else { 30_000 }
    }
    fn rule(&self) -> &'static str {
        "random booster, parameters, history of replies and table; the same history again on another pool size, stealing pattern, hash seed and storage; naive Bayes on the same table; non-trivial: at least two rounds were played"
    }
    fn real(&self) -> &'static [&'static str] {
        &["AdaBoost, AdaBoostV, MadaBoost, SmoothBoost, GraphSepBoost", "naive Bayes", "Sample, SampleReader, features", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["weak learner (simulated party)", "rayon-core thread pool (simulated fork/join scheduler)", "clock, entropy, disk (simulated)"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.rounds_compared", "probe.results_compared", "probe.posteriors_compared", "probe.bayes_decisions", "sched.steals", "entropy.reads"]
    }
}

// ----------------------------------------------------------------- B24

/// Boosters next to each other.
pub struct Interleaved;

trait Step {
    fn pre(&mut self);
    fn boost(&mut self, t: usize) -> bool;
    fn post(&mut self) -> Final;
}
struct Stepper<'a, 'b, B> {
    b: B,
    wl: &'a SimWL<'b>,
    s: &'a Sample,
}
impl<B> Step for Stepper<'_, '_, B>
where
    B: Booster<SimH> + Research<Output = <B as Booster<SimH>>::Output>,
    <B as Booster<SimH>>::Output: Inspect,
{
    fn pre(&mut self) {
        self.b.preprocess(self.wl);
    }
    fn boost(&mut self, t: usize) -> bool {
        matches!(self.b.boost(self.wl, t), ControlFlow::Continue(()))
    }
    fn post(&mut self) -> Final {
        self.b.postprocess(self.wl).finish(self.s)
    }
}
/// Builds the steppers one inside the other, then plays them.
struct Nest<'a, 'b> {
    cfgs: &'a [Cfg],
    wls: &'a [SimWL<'b>],
    have: Vec<&'a mut dyn Step>,
    order: &'a [u8],
    crash: Option<usize>,
}
impl<'x, 'b> Visit for Nest<'x, 'b> {
    type Out = Vec<Option<Final>>;
    fn visit<'a, B>(self, b: B, sample: &'a Sample) -> Self::Out
    where
        B: Booster<SimH> + Research<Output = <B as Booster<SimH>>::Output>,
        <B as Booster<SimH>>::Output: Inspect,
    {
        let k = self.have.len();
        let mut st = Stepper { b, wl: &self.wls[k], s: sample };
        let mut have: Vec<&mut dyn Step> = Vec::new();
        for h in self.have {
            have.push(h);
        }
        have.push(&mut st);
        if k + 1 < self.cfgs.len() {
            with_booster(&self.cfgs[k + 1], sample, Nest { cfgs: self.cfgs, wls: self.wls, have, order: self.order, crash: self.crash })
        } else {
            play(have, self.order, self.crash)
        }
    }
}
/// 0: not begun, r + 1: r rounds played, MAX: finished.
fn play(mut st: Vec<&mut dyn Step>, order: &[u8], crash: Option<usize>) -> Vec<Option<Final>> {
    let m = st.len();
    let mut at = vec![0usize; m];
    let mut out: Vec<Option<Final>> = vec![None; m];
    let mut k = 0;
    while at.iter().any(|a| *a < usize::MAX) {
        let live: Vec<usize> = (0..m).filter(|i| at[*i] < usize::MAX).collect();
        let i = live[order.get(k % order.len().max(1)).copied().unwrap_or(0) as usize % live.len()];
        k += 1;
        let last = at[i] >= usize::MAX / 2;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if at[i] == 0 {
                st[i].pre();
                1
            } else if last {
                out[i] = Some(st[i].post());
                usize::MAX
            } else if st[i].boost(at[i]) {
                at[i] + 1
            } else {
                usize::MAX / 2
            }
        }));
        match r {
            Ok(a) => at[i] = a,
            // the scripted crash of one of them
            Err(p) if crash == Some(i) && p.is::<crate::world::SimCrash>() => at[i] = usize::MAX,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct NCase {
    runs: Vec<BCase>,
    order: Vec<u8>,
    env: Env,
}

impl Prop for Interleaved {
    fn id(&self) -> &'static str {
        "B24"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let mut first = gen_bcase(rng, &ALL_KINDS, 0.5, th);
        let m = if rng.chance(0.7) { 2 } else { 3 };
        let n = first.sc.n();
        let mut env = first.env.clone();
        // sums are split alike alone and in company
        env.steal = 0;
        let twin = rng.chance(0.4);
        let mut runs = Vec::new();
        for k in 0..m {
            let mut c = first.clone();
            if k > 0 && !twin {
                c.cfg = gen_cfg(rng, n, &ALL_KINDS, th);
            }
            if k > 0 {
                let len = rng.range(0, 20);
                let f = rng.chance(0.5);
                c.sc.script = gen_script(rng, len, c.sc.pool.len(), f);
            }
            runs.push(c);
        }
        if rng.chance(0.3) {
            let k = rng.below(m);
            let at = rng.below(runs[k].sc.script.len() + 1);
            runs[k].sc.script.insert(at, Reply::Crash);
        }
        first.sc.script.clear();
        let len = rng.range(1, 40);
        let order = (0..len).map(|_| rng.below(m) as u8).collect();
        serde_json::to_value(NCase { runs, order, env }).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = parse::<NCase>(case) else { return };
        let mut runs: Vec<BCase> = c.runs.iter().take(3).filter_map(|r| BCase::load(&serde_json::to_value(r).unwrap())).collect();
        if runs.len() < 2 {
            return;
        }
        let labels = runs[0].sc.labels.clone();
        let mut crash = None;
        for (k, r) in runs.iter_mut().enumerate() {
            r.sc.labels = labels.clone();
            r.sc = r.sc.clone().fix();
            r.cfg = r.cfg.clone().fix(labels.len());
            r.env = Env { steal: 0, ..c.env.clone() };
            if r.cfg.bound(labels.len()).unwrap_or(0.0) > 60_000.0 || r.sc.tail == Reply::Crash {
                return;
            }
            if r.sc.script.contains(&Reply::Crash) {
                if crash.is_some() {
                    return;
                }
                crash = Some(k);
            }
        }
        let env = Env { steal: 0, ..c.env.clone() };
        let names: Vec<&str> = runs.iter().map(|r| r.cfg.name()).collect();
        let what = format!("{} in turns on one sample", names.join(", "));
        // alone
        let mut alone = Vec::new();
        for r in &runs {
            let (end, log, _) = super::boost::run_booster(r, round_cap(&r.cfg, &r.sc), ex);
            let f = match end {
                End::Crash(_) => None,
                e => match super::boost::must_finish(e, ex, r.cfg.name()) {
                    Some(f) => Some(f),
                    None => return,
                },
            };
            alone.push((f, log));
        }
        // together
        let sample = runs[0].sc.sample();
        let mut logs = Vec::new();
        let (end, st) = {
            let (runs, sample, order, logs) = (&runs, &sample, &c.order, &mut logs);
            simulate(&env, move || {
                let wls: Vec<SimWL> = runs.iter().map(|r| SimWL::new(&r.sc, round_cap(&r.cfg, &r.sc))).collect();
                let cfgs: Vec<Cfg> = runs.iter().map(|r| r.cfg.clone()).collect();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    with_booster(&cfgs[0], sample, Nest { cfgs: &cfgs, wls: &wls, have: vec![], order, crash })
                }));
                logs.extend(wls.iter().map(|w| w.take()));
                match r {
                    Ok(f) => f,
                    Err(p) => std::panic::resume_unwind(p),
                }
            })
        };
        ex.absorb(&st);
        for l in &logs {
            ex.digest.add(l.digest.0);
            ex.state.add(l.digest.0);
            ex.count("fault.party.crash", l.crashes);
        }
        for o in &c.order {
            ex.state.add(*o as u64);
        }
        ex.nontrivial = logs.iter().filter(|l| l.dists.len() >= 2).count() >= 2;
        let Some(fin) = super::boost::must_finish(end, ex, &what) else { return };
        ex.count("probe.interleavings", 1);
        for (k, ((f, l), (fa, la))) in fin.iter().zip(&logs).zip(&alone).enumerate() {
            let same = l.dists.len() == la.dists.len() && l.dists.iter().zip(&la.dists).all(|(a, b)| a == b);
            if !same {
                ex.fail("history", format!("{what}: the {}-th ({}) sent other weights than alone ({} and {} rounds)", k + 1, names[k], l.dists.len(), la.dists.len()));
                return;
            }
            match (f, fa) {
                (Some(f), Some(fa)) if f.bits() == fa.bits() => {}
                (None, None) => {}
                _ => {
                    ex.fail("result", format!("{what}: the {}-th ({}) returned another hypothesis than alone", k + 1, names[k]));
                    return;
                }
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 160_000 } else { 16_000 }
    }
    fn rule(&self) -> &'static str {
        "two or three boosters (often the same kind) on one sample, their rounds interleaved in a random order, one of them possibly crashing; each compared bit for bit with itself alone; non-trivial: two of them played at least two rounds"
    }
    fn real(&self) -> &'static [&'static str] {
        &["all boosters", "clarabel", "Sample", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["weak learner (simulated party)", "rayon-core thread pool (simulated fork/join scheduler)", "clock, entropy, disk (simulated)"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.interleavings", "fault.party.crash"]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&Independence, &EndToEnd, &Interleaved]
}
