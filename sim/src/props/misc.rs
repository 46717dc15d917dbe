//! The worst-case learner, memory of learners, models on disk.

use super::learner::{fix_ground, gen_ground, gen_wl, with_learner, RealWl, VisitWl, Wl};
use super::logger::gen_write_faults;
use super::tree::{gen_targets, table, Col, Loss};
use super::{parse, Prop};
use crate::party::make_sample;
use crate::rng::Rng;
use crate::seam::{self, DiskFault, What};
use crate::table::Table;
use crate::world::{simulate, End, Env, Exec};
use miniboosts::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;
use std::io::{Read, Write};

const STUBS: &[&str] = &["rayon-core thread pool (simulated fork/join scheduler)", "entropy, disk (simulated system calls)"];

// ----------------------------------------------------------------- B20

/// The worst-case learner for LPBoost.
pub struct Worst;

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct WCase {
    labels: Vec<i8>,
    nu: f64,
    tol: f64,
    /// LPBoost on top.
    lp: bool,
    asks: Vec<Vec<u32>>,
    env: Env,
}
impl WCase {
    fn fix(mut self) -> WCase {
        for l in self.labels.iter_mut() {
            *l = if *l < 0 { -1 } else { 1 };
        }
        while self.labels.len() < 2 {
            self.labels.push(if self.labels.contains(&1) { -1 } else { 1 });
        }
        let n = self.labels.len();
        if !self.labels.contains(&1) {
            self.labels[0] = 1;
        }
        if !self.labels.contains(&-1) {
            self.labels[n - 1] = -1;
        }
        self.nu = if self.nu.is_finite() { self.nu.clamp(1.0, n as f64 - 0.01) } else { 1.0 };
        self.tol = if self.tol.is_finite() { self.tol.clamp(1e-9, 0.5) } else { 0.1 };
        for a in self.asks.iter_mut() {
            a.resize(n, 0);
            if a.iter().all(|w| *w == 0) {
                a[0] = 1;
            }
        }
        self
    }
}

impl Prop for Worst {
    fn id(&self) -> &'static str {
        "B20"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let n = match rng.below(3) {
            _ if rng.big() => rng.range(60, 120),
            0 => rng.range(2, 8),
            1 => rng.range(2, 30),
            _ => rng.range(2, if th { 120 } else { 60 }),
        };
        let half = rng.chance(0.4);
        let labels = (0..n).map(|i| if half { if i < n / 2 { 1 } else { -1 } } else if rng.chance(0.5) { 1 } else { -1 }).collect();
        let asks = (0..rng.range(0, 10))
            .map(|_| match rng.below(5) {
                0 => vec![1; n],
                1 => {
                    let k = rng.below(n);
                    (0..n).map(|i| (i == k) as u32).collect()
                }
                2 => {
                    let (a, b) = (rng.below(n), rng.below(n));
                    (0..n).map(|i| (a.min(b) <= i && i <= a.max(b)) as u32).collect()
                }
                3 => (0..n).map(|_| rng.range(0, 3) as u32).collect(),
                _ => (0..n).map(|_| rng.range(1, 1000) as u32).collect(),
            })
            .collect();
        let c = WCase {
            labels,
            nu: *rng.pick(&[1.0, 1.0, 1.5, 2.0, 3.0, (n as f64 / 5.0).max(1.0)]),
            tol: *rng.pick(&[0.5, 0.1, 0.1, 0.05, 0.01, 1e-6]),
            lp: rng.chance(0.6),
            asks,
            env: Env::gen_sched(rng),
        };
        serde_json::to_value(c.fix()).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = parse::<WCase>(case) else { return };
        let c = c.fix();
        let n = c.labels.len();
        ex.state.add_str(&serde_json::to_string(&c).unwrap());
        let dists: Vec<Vec<f64>> = c
            .asks
            .iter()
            .map(|a| {
                let t: f64 = a.iter().map(|w| *w as f64).sum();
                a.iter().map(|w| *w as f64 / t).collect()
            })
            .collect();
        let (end, st) = simulate(&c.env, || {
            let s = make_sample(&c.labels);
            let w = BadBaseLearnerBuilder::new(&s).tolerance(c.tol).nu(c.nu).build();
            let rec = RealWl { w: &w, cap: 2000, log: Default::default() };
            let cut = dists.len() / 2;
            for d in &dists[..cut] {
                rec.produce(&s, d);
            }
            let mut rounds = None;
            if c.lp {
                let before = rec.log.borrow().len();
                LPBoost::init(&s).tolerance(c.tol).nu(c.nu).run(&rec);
                rounds = Some(rec.log.borrow().len() - before);
            }
            for d in &dists[cut..] {
                rec.produce(&s, d);
            }
            // the same learner on the opposite labels
            let flip = make_sample(&c.labels.iter().map(|l| -l).collect::<Vec<_>>());
            let other: Vec<Vec<f64>> = dists.iter().map(|d| w.produce(&flip, d).confidence_all(&flip)).collect();
            (rec.log.into_inner(), rounds, other)
        });
        ex.absorb(&st);
        let what = format!("worst-case learner on {n} examples (nu {}, tolerance {})", c.nu, c.tol);
        let (log, rounds, other) = match end {
            End::Done(r) => r,
            e => {
                ex.fail("panic", format!("{what} {}", e.describe()));
                return;
            }
        };
        let margins: Vec<Vec<f64>> = log.iter().map(|l| l.1.iter().zip(&c.labels).map(|(h, y)| h * *y as f64).collect()).collect();
        let edge = |d: &[f64], u: &[f64]| d.iter().zip(u).map(|(d, u)| d * u).sum::<f64>();
        ex.nontrivial = log.len() >= 3;
        for (k, (d, tab, pred)) in log.iter().enumerate() {
            ex.digest.add_slice(d);
            ex.digest.add_slice(tab);
            ex.trace(|| format!("ask {}: {d:.4?} -> margins {:.6?}", k + 1, margins[k]));
            for i in 0..n {
                if !(tab[i].abs() <= 1.0 + 1e-12) || pred[i] != if tab[i] >= 0.0 { 1 } else { -1 } {
                    ex.fail("confidence", format!("{what}: the confidence on row {i} is {} and the label {}", tab[i], pred[i]));
                    return;
                }
            }
            let e = edge(d, &margins[k]);
            for (j, u) in margins.iter().enumerate() {
                ex.count("probe.edges_compared", 1);
                if edge(d, u) > e + 1e-9 {
                    ex.fail("edge", format!("{what}: answer {} has edge {e}, but answer {} would have {}", k + 1, j + 1, edge(d, u)));
                    return;
                }
            }
        }
        for (d, o) in dists.iter().zip(&other) {
            let e = o.iter().zip(&c.labels).zip(d).map(|((h, y), d)| -h * *y as f64 * d).sum::<f64>();
            let best = margins.iter().map(|u| edge(d, u)).fold(f64::MIN, f64::max);
            ex.count("probe.flipped", 1);
            if (e - best).abs() > 1e-9 && log.iter().any(|l| l.0 == *d) {
                ex.fail("labels", format!("{what}: with all labels flipped the best edge is {e} instead of {best}"));
                return;
            }
        }
        if let Some(r) = rounds {
            ex.count("rounds", r as u64);
            ex.trace(|| format!("LPBoost took {r} rounds"));
            // far above solver accuracy the lower bound of the construction shows
            let need = (n as f64 / (2.0 * c.nu.ceil())).floor() as usize;
            if c.tol >= 0.05 {
                ex.count("probe.lower_bounds", 1);
                if r < need {
                    ex.fail("easy", format!("{what}: LPBoost needed only {r} rounds, not {need}"));
                }
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 250_000 } else { 25_000 }
    }
    fn rule(&self) -> &'static str {
        "random labels, parameters and weights asked for, half of the runs under LPBoost in between; non-trivial: at least three answers were compared"
    }
    fn real(&self) -> &'static [&'static str] {
        &["worst-case learner", "LPBoost with clarabel", "Sample", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.edges_compared", "probe.flipped", "probe.lower_bounds"]
    }
}

// ----------------------------------------------------------------- B25

/// Learners answer the question asked, whatever they were asked before.
pub struct Memoryless;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
enum Which {
    C { wl: Wl },
    R { loss: Loss, depth: usize, lambda: f64 },
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct Ask {
    /// Which of the learners.
    to: usize,
    /// Weights, or eighths of the predictions so far.
    v: Vec<i32>,
    /// So many of them are withheld: the call is abandoned on the way.
    torn: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct MCase {
    who: Vec<Which>,
    cols: Vec<Col>,
    y: Vec<f64>,
    sparse: bool,
    asks: Vec<Ask>,
    env: Env,
}
struct Asked<'a>(&'a Sample, &'a [f64]);
impl VisitWl for Asked<'_> {
    type Out = Vec<f64>;
    fn visit<W: WeakLearner>(self, w: &W) -> Vec<f64>
    where
        W::Hypothesis: Classifier,
    {
        w.produce(self.0, self.1).confidence_all(self.0)
    }
}
type Call<'a> = Box<dyn Fn(&[f64]) -> Vec<f64> + 'a>;
fn learner<'a>(w: &Which, s: &'a Sample) -> Call<'a> {
    match w {
        Which::C { wl: Wl::Tree { crit, depth } } => {
            let t = DecisionTreeBuilder::new(s).max_depth(*depth).criterion(crit.real()).build();
            Box::new(move |v| t.produce(s, v).confidence_all(s))
        }
        Which::C { wl: Wl::Bad { tol, nu } } => {
            let t = BadBaseLearnerBuilder::new(s).tolerance(*tol).nu(*nu).build();
            Box::new(move |v| t.produce(s, v).confidence_all(s))
        }
        Which::C { wl } => {
            let wl = wl.clone();
            if let Wl::Nb {} = wl {
                let t = GaussianNB::init();
                return Box::new(move |v| t.produce(s, v).confidence_all(s));
            }
            Box::new(move |v| with_learner(&wl, s, Asked(s, v)))
        }
        Which::R { loss, depth, lambda } => {
            let t = RegressionTreeBuilder::new(s).loss(loss.real()).max_depth(*depth).lambda_l2(*lambda).build();
            Box::new(move |v| t.produce(s, v).predict_all(s))
        }
    }
}

impl Prop for Memoryless {
    fn id(&self) -> &'static str {
        "B25"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _th: bool) -> Value {
        let n = match rng.below(3) {
            _ if rng.big() => rng.range(50, 200),
            0 => rng.range(2, 5),
            1 => rng.range(4, 12),
            _ => rng.range(10, 30),
        };
        let reg = rng.chance(0.4);
        let (cols, mut y) = gen_ground(rng, n);
        if reg {
            y = gen_targets(rng, &cols, n);
        }
        let who: Vec<Which> = (0..rng.range(1, 3))
            .map(|_| {
                if reg {
                    Which::R { loss: *rng.pick(&Loss::FOR_TREES), depth: rng.range(1, 5), lambda: *rng.pick(&[0.01, 1.0]) }
                } else {
                    Which::C { wl: gen_wl(rng, n, &[0, 0, 1, 3]) }
                }
            })
            .collect();
        let mut asks: Vec<Ask> = vec![];
        for _ in 0..rng.range(2, 10) {
            if !asks.is_empty() && rng.chance(0.35) {
                // almost a question asked before
                let mut a = rng.pick(&asks).clone();
                let (i, j) = (rng.below(n), rng.below(n));
                match rng.below(3) {
                    0 => a.v.swap(i, j),
                    1 => a.v[1..].reverse(),
                    _ => {
                        a.v[i] += 1;
                        a.v[j] = (a.v[j] - 1).max(if reg { -100 } else { 0 });
                    }
                }
                a.torn = 0;
                asks.push(a);
                continue;
            }
            asks.push({
                let style = rng.below(4);
                Ask {
                    to: rng.below(who.len()),
                    v: (0..n)
                        .map(|_| match style {
                            0 => 1,
                            1 => *rng.pick(&[0, 0, 1, 5]),
                            2 if reg => rng.irange(-80, 80) as i32,
                            _ => rng.range(1, 1000) as i32,
                        })
                        .collect(),
                    torn: if rng.chance(0.25) { rng.range(1, n) } else { 0 },
                }
            });
        }
        let mut env = Env::gen_sched(rng);
        env.steal = 0;
        serde_json::to_value(MCase { who, cols, y, sparse: rng.chance(0.35), asks, env }).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = parse::<MCase>(case) else { return };
        if c.who.is_empty() {
            return;
        }
        let reg = matches!(c.who[0], Which::R { .. });
        if c.who.iter().any(|w| matches!(w, Which::R { .. }) != reg || matches!(w, Which::C { wl: Wl::Nn { .. } })) {
            return;
        }
        c.who.truncate(4);
        if reg {
            if c.y.is_empty() {
                c.y.push(1.0);
            }
            for y in c.y.iter_mut() {
                *y = if y.is_finite() { (y.clamp(-1e6, 1e6) * 8.0).round() / 8.0 } else { 0.0 };
            }
            let n = c.y.len();
            if c.cols.is_empty() {
                c.cols.push(Col::default());
            }
            c.cols = std::mem::take(&mut c.cols).into_iter().map(|f| f.fix(n)).collect();
        } else {
            fix_ground(&mut c.cols, &mut c.y);
        }
        let n = c.y.len();
        for w in c.who.iter_mut() {
            match w {
                Which::C { wl } => *wl = wl.clone().fix(n),
                Which::R { depth, lambda, .. } => {
                    *depth = (*depth).clamp(1, 8);
                    *lambda = if lambda.is_finite() { lambda.clamp(1e-3, 1e3) } else { 1.0 };
                }
            }
        }
        for a in c.asks.iter_mut() {
            a.to %= c.who.len();
            a.v.resize(n, 0);
            if !reg {
                a.v.iter_mut().for_each(|v| *v = (*v).max(0));
                if a.v.iter().all(|v| *v == 0) {
                    a.v[0] = 1;
                }
            }
            a.torn = a.torn.min(n);
        }
        let env = Env { steal: 0, ..c.env.clone() };
        let t = table(&c.cols, &c.y);
        let sparse = c.sparse && !t.columns_kept().is_empty();
        ex.state.add_str(&serde_json::to_string(&(&c.who, &c.cols, &c.y, &c.asks, sparse)).unwrap());
        let vs: Vec<Vec<f64>> = c
            .asks
            .iter()
            .map(|a| {
                let t: f64 = a.v.iter().map(|v| *v as f64).sum();
                a.v.iter().map(|v| if reg { *v as f64 / 8.0 } else { *v as f64 / t }).collect()
            })
            .collect();
        let make = || if sparse { t.sparse() } else { t.dense() };
        // one learner each for all questions
        let (end, st) = simulate(&env, || {
            let s = make();
            let calls: Vec<Call> = c.who.iter().map(|w| learner(w, &s)).collect();
            let mut out = Vec::new();
            let mut torn = 0u64;
            for (a, v) in c.asks.iter().zip(&vs) {
                let call = &calls[a.to];
                if a.torn > 0 {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(&v[..n - a.torn])));
                    torn += r.is_err() as u64;
                    out.push(None);
                } else {
                    out.push(Some(call(v)));
                }
            }
            (out, torn)
        });
        ex.absorb(&st);
        let what = |k: usize| format!("{:?}", c.who[c.asks[k].to]);
        let (got, torn) = match end {
            End::Done(o) => o,
            e => {
                ex.fail("panic", format!("{:?}: one of the calls {}", c.who, e.describe()));
                return;
            }
        };
        ex.count("fault.calls_abandoned", torn);
        ex.nontrivial = got.iter().flatten().count() >= 2;
        // a new one for each, the other way round: what is kept outside the
        // learners (in a static) must not show either
        for (k, g) in got.iter().enumerate().rev() {
            let Some(g) = g else { continue };
            let (end, st) = simulate(&env, || {
                let s = make();
                let call = learner(&c.who[c.asks[k].to], &s);
                call(&vs[k])
            });
            ex.absorb(&st);
            ex.digest.add_slice(g);
            ex.trace(|| format!("call {} to {}: {:?} -> {g:?}", k + 1, c.asks[k].to, vs[k]));
            let f = match end {
                End::Done(f) => f,
                e => {
                    ex.fail("panic", format!("{} {}", what(k), e.describe()));
                    return;
                }
            };
            ex.count("probe.answers_compared", 1);
            let Some(i) = (0..n).find(|i| g[*i] != f[*i]) else { continue };
            // between equally good splits the hash keys decide: is it one of the others?
            let mut tie = false;
            for e in 0..300 {
                let env = Env { entropy: env.entropy.wrapping_add(1 + e), ..env.clone() };
                let (end, st) = simulate(&env, || {
                    let s = make();
                    let call = learner(&c.who[c.asks[k].to], &s);
                    call(&vs[k])
                });
                ex.absorb(&st);
                if end.ok().as_ref() == Some(g) {
                    tie = true;
                    break;
                }
            }
            ex.count("probe.ties_resolved", tie as u64);
            if !tie {
                ex.fail("memory", format!("{}: after {k} other calls the answer on row {i} is {}, a new learner says {}", what(k), g[i], f[i]));
                return;
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 1_000_000 } else { 100_000 }
    }
    fn rule(&self) -> &'static str {
        "one to three learners on one sample, two to ten calls in a random order, a quarter of them abandoned on the way; every other answer compared bit for bit with that of a new learner; non-trivial: two answers compared"
    }
    fn real(&self) -> &'static [&'static str] {
        &["decision tree, regression tree, naive Bayes, worst-case learner", "Sample, SampleReader, features", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.answers_compared", "fault.calls_abandoned"]
    }
}

// ----------------------------------------------------------------- B21

/// Models written to disk and read again.
pub struct Saved;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, Default, PartialEq)]
#[serde(rename_all = "snake_case")]
enum Kind {
    #[default]
    One,
    Ada,
    Lp,
    Smooth,
    Gbm,
}
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct SCase {
    kind: Kind,
    wl: Wl,
    loss: Loss,
    depth: usize,
    cols: Vec<Col>,
    y: Vec<f64>,
    w: Vec<u32>,
    /// Ranks of the rows predicted later.
    later: Vec<Vec<usize>>,
    sparse: bool,
    faults: Vec<DiskFault>,
    capacity: Option<u64>,
    /// A crash: only this share (per mille) of the file survives.
    cut: Option<u32>,
    env: Env,
    env2: Env,
}

#[derive(Default)]
struct Told {
    write: Option<String>,
    read: Option<String>,
    before: Vec<Vec<f64>>,
    after: Vec<Vec<f64>>,
}
const FILE: &str = "/simfs/model.json";

struct Store<'a> {
    c: &'a SCase,
    t: &'a Table,
    u: &'a Table,
    sparse: bool,
    ex: &'a mut Exec,
}
impl Store<'_> {
    fn samples(&self) -> (Sample, Sample) {
        if self.sparse { (self.t.sparse(), self.u.sparse()) } else { (self.t.dense(), self.u.dense()) }
    }
    /// Train and save in one process, load and predict in the next.
    fn go<M: Serialize + DeserializeOwned>(&mut self, train: impl Fn(&Sample) -> M + Send + Sync, tell: impl Fn(&M, &Sample) -> Vec<f64> + Send + Sync) -> Option<Told> {
        let c = self.c;
        let mut told = Told::default();
        let this = &*self;
        let (end, st) = simulate(&c.env, || {
            let (s, u) = this.samples();
            let m = train(&s);
            let before = vec![tell(&m, &s), tell(&m, &u)];
            seam::with_disk(|d| {
                d.arm(c.faults.clone());
                d.capacity = c.capacity;
            });
            let r = (|| -> std::io::Result<()> {
                let mut f = std::fs::File::create(FILE)?;
                f.write_all(&serde_json::to_vec(&m)?)?;
                f.flush()
            })();
            seam::with_disk(|d| {
                d.arm(vec![]);
                d.capacity = None;
            });
            (before, r.err().map(|e| e.to_string()))
        });
        self.ex.absorb(&st);
        match end {
            End::Done((b, w)) => {
                told.before = b;
                told.write = w;
            }
            e => {
                self.ex.fail("panic", format!("training or saving {}", e.describe()));
                return None;
            }
        }
        let whole = seam::with_disk(|d| d.get(FILE).map(|f| f.len()));
        if let (Some(cut), Some(len)) = (c.cut, whole) {
            let keep = (len as u64 * cut.min(1000) as u64 / 1000) as usize;
            let part = seam::with_disk(|d| d.get(FILE).unwrap()[..keep].to_vec());
            seam::with_disk(|d| d.put(FILE, &part));
            if keep < len {
                self.ex.count("fault.disk.torn_by_crash", 1);
                told.write = Some("crash".into());
            }
        }
        let this = &*self;
        let (end, st) = simulate(&c.env2, || {
            let (s, u) = this.samples();
            let m = (|| -> Result<M, String> {
                let mut text = Vec::new();
                std::fs::File::open(FILE).and_then(|mut f| f.read_to_end(&mut text)).map_err(|e| e.to_string())?;
                serde_json::from_slice(&text).map_err(|e| e.to_string())
            })();
            match m {
                Ok(m) => (vec![tell(&m, &s), tell(&m, &u)], None),
                Err(e) => (vec![], Some(e)),
            }
        });
        self.ex.absorb(&st);
        match end {
            End::Done((a, r)) => {
                told.after = a;
                told.read = r;
            }
            e => {
                self.ex.fail("panic", format!("loading or predicting {}", e.describe()));
                return None;
            }
        }
        Some(told)
    }
}
fn conf<C: Classifier>(m: &C, s: &Sample) -> Vec<f64> {
    m.confidence_all(s)
}

impl Prop for Saved {
    fn id(&self) -> &'static str {
        "B21"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _th: bool) -> Value {
        let n = if rng.big() { rng.range(50, 200) } else { rng.range(2, 16) };
        let kind = *rng.pick(&[Kind::One, Kind::One, Kind::Ada, Kind::Lp, Kind::Smooth, Kind::Gbm]);
        let (cols, mut y) = gen_ground(rng, n);
        if kind == Kind::Gbm {
            y = gen_targets(rng, &cols, n);
        }
        let later = (0..rng.range(1, 6)).map(|_| cols.iter().map(|c| rng.below(c.k())).collect()).collect();
        let c = SCase {
            kind,
            wl: gen_wl(rng, n, &[0, 0, 1]),
            loss: *rng.pick(&Loss::ALL),
            depth: rng.range(1, 4),
            w: (0..n).map(|_| if rng.chance(0.2) { 0 } else { rng.range(1, 100) as u32 }).collect(),
            cols,
            y,
            later,
            sparse: rng.chance(0.3),
            faults: if rng.chance(0.3) { gen_write_faults(rng, 3) } else { vec![] },
            capacity: if rng.chance(0.1) { Some(rng.below(600) as u64) } else { None },
            cut: if rng.chance(0.2) { Some(rng.below(1000) as u32) } else { None },
            env: Env::gen_sched(rng),
            env2: Env::gen_sched(rng),
        };
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = parse::<SCase>(case) else { return };
        if !matches!(c.wl, Wl::Tree { .. } | Wl::Nb {}) {
            return;
        }
        if c.kind == Kind::Gbm {
            c.y.iter_mut().for_each(|y| *y = if y.is_finite() { (y.clamp(-1e4, 1e4) * 8.0).round() / 8.0 } else { 0.0 });
            if c.y.is_empty() {
                c.y.push(1.0);
            }
            let n = c.y.len();
            if c.cols.is_empty() {
                c.cols.push(Col::default());
            }
            c.cols = std::mem::take(&mut c.cols).into_iter().map(|f| f.fix(n)).collect();
        } else {
            fix_ground(&mut c.cols, &mut c.y);
        }
        let n = c.y.len();
        c.wl = c.wl.clone().fix(n);
        c.depth = c.depth.clamp(1, 8);
        c.faults.truncate(8);
        for f in c.faults.iter_mut() {
            if f.what == What::Errno(libc::EINTR) {
                f.sticky = false;
            }
            if let What::Short(k) = &mut f.what {
                *k = (*k).max(1);
            }
        }
        c.w.resize(n, 1);
        if c.w.iter().all(|w| *w == 0) {
            c.w[0] = 1;
        }
        let tot: f64 = c.w.iter().map(|w| *w as f64).sum();
        let d: Vec<f64> = c.w.iter().map(|w| *w as f64 / tot).collect();
        let t = table(&c.cols, &c.y);
        // the later rows, and all training rows, so that the columns stay the same
        let mut u = t.clone();
        for r in &c.later {
            let mut row: Vec<f64> = c.cols.iter().enumerate().map(|(j, f)| f.offset + f.step * (*r.get(j).unwrap_or(&0) as f64 + 0.25)).collect();
            row.truncate(t.k());
            u.x.push(row);
            u.y.push(c.y[0]);
        }
        let sparse = c.sparse && t.columns_kept().len() == t.k();
        ex.state.add_str(&serde_json::to_string(&c).unwrap());
        let who = if c.kind == Kind::Gbm { "GBM over regression trees".to_string() } else { format!("{:?} over {:?}", c.kind, c.wl) };
        let (depth, loss) = (c.depth, c.loss);
        let mut store = Store { c: &c, t: &t, u: &u, sparse, ex };
        macro_rules! vote {
            ($w:expr) => {
                match c.kind {
                    Kind::One => store.go(|s| $w(s).produce(s, &d), conf),
                    Kind::Ada => store.go(|s| AdaBoost::init(s).tolerance(0.2).run(&$w(s)), conf),
                    Kind::Lp => store.go(|s| LPBoost::init(s).tolerance(0.05).nu(1.0).run(&$w(s)), conf),
                    _ => store.go(|s| SmoothBoost::init(s).tolerance(0.3).gamma(0.3).run(&$w(s)), conf),
                }
            };
        }
        let told = match (&c.kind, &c.wl) {
            (Kind::Gbm, _) => store.go(
                |s| GBM::init_with_loss(s, loss.real()).run(&RegressionTreeBuilder::new(s).loss(loss.real()).max_depth(depth).build()),
                |m, s| m.predict_all(s),
            ),
            (_, Wl::Tree { crit, depth }) => vote!(|s| DecisionTreeBuilder::new(s).max_depth(*depth).criterion(crit.real()).build()),
            _ => vote!(|_| GaussianNB::init()),
        };
        let Some(told) = told else { return };
        ex.absorb_disk();
        ex.nontrivial = true;
        for b in told.before.iter().chain(&told.after) {
            ex.digest.add_slice(b);
        }
        ex.trace(|| format!("{who}: written {:?}, read {:?}, predictions {:?}", told.write, told.read, told.before));
        match (&told.write, &told.read) {
            (None, Some(e)) => {
                ex.fail("unreadable", format!("{who}: the saved model cannot be read: {e}"));
                return;
            }
            (Some(_), Some(_)) => {
                ex.count("probe.torn_files_refused", 1);
                return;
            }
            _ => {}
        }
        ex.count("probe.models_restored", 1);
        for (b, a) in told.before.iter().zip(&told.after) {
            if let Some(i) = (0..b.len()).find(|i| b[*i].to_bits() != a[*i].to_bits()) {
                ex.fail("other", format!("{who}: the restored model says {} on row {i}, the model said {}", a[i], b[i]));
                return;
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 800_000 } else { 80_000 }
    }
    fn rule(&self) -> &'static str {
        "random model (single or combined), saved as JSON under disk faults or torn by a crash, loaded in another simulated process and compared bit for bit on old and new rows; non-trivial: a model was trained"
    }
    fn real(&self) -> &'static [&'static str] {
        &["all serialisable hypotheses", "AdaBoost, LPBoost, SmoothBoost, GBM", "serde_json, std::fs", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.models_restored", "probe.torn_files_refused", "fault.disk.torn_by_crash"]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&Worst, &Memoryless, &Saved]
}
