//! Boosters against the simulated weak-learner party.

use super::{parse, Prop};
use crate::lp;
use crate::party::*;
use crate::rng::Rng;
use crate::world::{simulate, End, Env, Exec, RunStats};
use miniboosts::prelude::*;
use miniboosts::research::Research;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BCase {
    pub cfg: Cfg,
    pub sc: Scenario,
    #[serde(default)]
    pub env: Env,
}
impl BCase {
    pub fn load(v: &Value) -> Option<BCase> {
        let c: BCase = parse(v)?;
        let sc = c.sc.fix();
        let cfg = c.cfg.fix(sc.n());
        // keep shrunk cases affordable
        if cfg.bound(sc.n()).unwrap_or(0.0) > 60_000.0 {
            return None;
        }
        Some(BCase { cfg, sc, env: c.env })
    }
    pub fn digest(&self) -> u64 {
        let mut d = crate::rng::Digest(self.sc.digest());
        d.add_str(&serde_json::to_string(&self.cfg).unwrap());
        d.0
    }
}

/// Slack of a bound on the number of weak-learner calls: the published bound
/// is a real number; rounding up and one closing round are granted.
pub fn round_cap(cfg: &Cfg, sc: &Scenario) -> usize {
    match cfg.bound(sc.n()) {
        Some(b) => (b * (1.0 + 1e-9)).ceil() as usize + 1,
        // LPBoost: each round but the last brings a hypothesis that was
        // violated by the current solution.
        None => 40 * (sc.pool.len() + sc.n() + 10),
    }
}

pub fn run_booster(c: &BCase, cap: usize, ex: &mut Exec) -> (End<Final>, Log, RunStats) {
    let sample = c.sc.sample();
    let mut log = Log::default();
    let (end, st) = {
        let log = &mut log;
        let (sc, cfg, sample) = (&c.sc, &c.cfg, &sample);
        simulate(&c.env, move || {
            let wl = SimWL::new(sc, cap);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_booster(cfg, sample, RunAll(&wl))));
            *log = wl.take();
            match r {
                Ok(f) => f,
                Err(p) => std::panic::resume_unwind(p),
            }
        })
    };
    ex.absorb(&st);
    ex.count("rounds", log.dists.len() as u64);
    for (k, v) in KINDS.iter().zip(log.kinds) {
        ex.count(k, v);
    }
    ex.count(&format!("booster.{}", c.cfg.name()), 1);
    ex.digest.add(log.digest.0);
    ex.state.add(c.digest());
    ex.state.add(log.digest.0);
    if let End::Done(f) = &end {
        f.digest(&mut ex.digest);
    }
    ex.trace(|| format!("{} on {} examples, {} hypotheses: {} after {} rounds", c.cfg.name(), c.sc.n(), c.sc.pool.len(), end.describe(), log.dists.len()));
    (end, log, st)
}

pub fn trace_log(ex: &mut Exec, c: &BCase, log: &Log) {
    if !ex.tracing {
        return;
    }
    for (t, d) in log.dists.iter().enumerate().take(60) {
        let r = log.replies.get(t);
        let e = r.map(|j| c.sc.edge(*j, d));
        ex.trace(|| format!("round {}: dist {:.6?} -> hypothesis {:?} (edge {:.9?})", t + 1, d, r, e));
    }
}

/// Unexpected endings are a violation of every guarantee of a run.
pub fn must_finish<T>(end: End<T>, ex: &mut Exec, who: &str) -> Option<T> {
    match end {
        End::Done(f) => Some(f),
        End::Panic { msg, at } => {
            ex.fail("panic", format!("{who}: the run panicked at {at}: {}", msg.lines().next().unwrap_or("")));
            None
        }
        End::Crash(_) => None,
        End::StepCap(m) => {
            ex.fail("no-end", format!("{who}: {m}, beyond its published bound"));
            None
        }
    }
}

pub fn gen_n(rng: &mut Rng) -> usize {
    if rng.big() {
        return match rng.below(10) {
            0 => rng.range(161, 300),
            1 | 2 => rng.range(101, 160),
            _ => rng.range(41, 100),
        };
    }
    match rng.below(10) {
        0 => 2,
        1 => 3,
        2..=6 => rng.range(4, 9),
        7 | 8 => rng.range(10, 16),
        _ => rng.range(17, 40),
    }
}

pub fn gen_cfg(rng: &mut Rng, n: usize, kinds: &[u8], thorough: bool) -> Cfg {
    let nu = gen_nu(rng, n);
    let hi = if thorough { 20_000.0 } else { 3_000.0 };
    loop {
        let tol = if rng.chance(0.06) { 1.0 / n as f64 } else { *rng.pick(&[0.02, 0.05, 0.1, 0.1, 0.15, 0.2, 0.3, 0.5]) };
        let otol = if rng.chance(0.2) { None } else { Some(tol) };
        let quit = if rng.chance(0.15) { Some(rng.range(1, 40)) } else { None };
        let c = match *rng.pick(kinds) {
            0 => Cfg::Ada { tol: otol, quit },
            1 => Cfg::AdaV { tol: otol, quit },
            2 => Cfg::Mada { tol: otol, quit },
            3 => Cfg::Smooth { kappa: *rng.pick(&[0.05, 0.1, 0.2, 0.3, 0.5, 0.7]), gamma: *rng.pick(&[0.05, 0.1, 0.15, 0.2, 0.3, 0.45]) },
            4 => Cfg::GraphSep {},
            5 => Cfg::Lp { nu, tol },
            6 => Cfg::Erlp { nu, tol },
            7 => Cfg::Soft { nu, tol },
            8 => Cfg::Total { tol },
            9 => Cfg::Cerlp { nu, tol, fw: gen_fw(rng) },
            _ => Cfg::Mlp { nu, tol, fw: gen_fw(rng) },
        };
        let b = c.bound(n).unwrap_or(100.0);
        let lim = match c {
            // a quadratic program over all the hypotheses so far, in rounds
            Cfg::Soft { .. } | Cfg::Total { .. } if n > 100 => 60.0,
            Cfg::Soft { .. } | Cfg::Total { .. } if n > 40 => 250.0,
            Cfg::Erlp { .. } | Cfg::Soft { .. } | Cfg::Total { .. } => hi,
            _ if n > 300 => 600.0,
            _ => hi * 2.0,
        };
        if b <= lim || matches!(c, Cfg::GraphSep {}) {
            return c;
        }
    }
}

pub const ALL_KINDS: [u8; 11] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];

pub fn gen_bcase(rng: &mut Rng, kinds: &[u8], faulty: f64, thorough: bool) -> BCase {
    // a few samples far beyond the rest, for the boosters without a solver
    let cheap: Vec<u8> = kinds.iter().copied().filter(|k| *k <= 4).collect();
    let huge = rng.big() && !cheap.is_empty() && rng.chance(0.05);
    let n = if huge { rng.range(301, 1400) } else { gen_n(rng) };
    let labels = gen_labels(rng, n);
    let m = if rng.big() && !huge { rng.range(1, 80) } else { rng.range(1, 10) };
    let pool = gen_pool(rng, &labels, m);
    let f = rng.chance(faulty);
    let len = if rng.big() { rng.range(0, 200) } else { rng.range(0, 30) };
    let script = gen_script(rng, len, m, f);
    let tail = if !f {
        Reply::Best
    } else {
        *rng.pick(&[Reply::Best, Reply::Best, Reply::Worst, Reply::Repeat, Reply::Stale, Reply::Weak, Reply::Idx(0)])
    };
    let cfg = gen_cfg(rng, n, if huge { &cheap } else { kinds }, thorough);
    BCase { cfg, sc: Scenario { labels, pool, script, tail, gamma: 0.0 }, env: Env::gen_sched(rng) }
}

const REAL: &[&str] = &[
    "all boosters of the crate",
    "Sample and SampleReader",
    "WeightedMajority / NaiveAggregation",
    "clarabel LP/QP solver",
    "rayon iterator layer",
];
const STUBS: &[&str] = &[
    "weak learner (simulated party)",
    "rayon-core thread pool (simulated fork/join scheduler)",
    "clock, entropy, file system calls (simulated)",
];

// ----------------------------------------------------------------- B01

pub struct Dist;
const D_TOL: f64 = 1e-5;

pub fn check_dist(cfg: &Cfg, n: usize, t: usize, d: &[f64], ex: &mut Exec) {
    let who = cfg.name();
    if d.len() != n {
        ex.fail("dist-length", format!("{who}: round {t}: {} weights for {n} examples", d.len()));
        return;
    }
    if let Some(i) = d.iter().position(|x| !x.is_finite()) {
        ex.fail("dist-not-finite", format!("{who}: round {t}: weight of example {i} is {}", d[i]));
        return;
    }
    if let Some(i) = d.iter().position(|x| *x < -D_TOL) {
        ex.fail("dist-negative", format!("{who}: round {t}: weight of example {i} is {}", d[i]));
    }
    let s: f64 = d.iter().sum();
    if (s - 1.0).abs() > D_TOL * 2.0 {
        ex.fail("dist-sum", format!("{who}: round {t}: weights sum to {s}"));
    }
    if t == 1 {
        // With no hypothesis seen yet, no example is preferred among those of
        // its class; all boosters but the pairwise one start uniform.
        let u = 1.0 / n as f64;
        if !matches!(cfg, Cfg::GraphSep {}) {
            if let Some(i) = d.iter().position(|x| (x - u).abs() > 1e-6) {
                ex.fail("dist-first", format!("{who}: round 1: weight of example {i} is {} instead of {u}", d[i]));
            }
        }
    }
    let cap = match cfg {
        Cfg::Smooth { kappa, .. } => Some(1.0 / (kappa * n as f64)),
        _ => cfg.nu().map(|nu| 1.0 / nu),
    };
    if let Some(cap) = cap {
        if let Some(i) = d.iter().position(|x| *x > cap + D_TOL) {
            ex.fail("dist-cap", format!("{who}: round {t}: weight of example {i} is {}, above the cap {cap}", d[i]));
        }
    }
}

impl Prop for Dist {
    fn id(&self) -> &'static str {
        "B01"
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, th: bool) -> Value {
        serde_json::to_value(gen_bcase(rng, &ALL_KINDS, 0.7, th)).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = BCase::load(case) else { return };
        let (end, log, _) = run_booster(&c, round_cap(&c.cfg, &c.sc), ex);
        trace_log(ex, &c, &log);
        for (t, d) in log.dists.iter().enumerate() {
            check_dist(&c.cfg, c.sc.n(), t + 1, d, ex);
        }
        ex.nontrivial = log.dists.len() >= 2;
        must_finish(end, ex, c.cfg.name());
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 600_000 } else { 60_000 }
    }
    fn rule(&self) -> &'static str {
        "random booster, parameters, labels, hypothesis pool, reply script of the weak-learner party and fork/join schedule; non-trivial: at least two rounds were played"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}


// ----------------------------------------------------------------- B02

/// Multiplicative update against a step-wise reference.
pub struct Update;

fn alpha_ada(e: f64) -> f64 {
    0.5 * ((1.0 + e) / (1.0 - e)).ln()
}
/// MadaBoost: beta = sqrt(eps2 / (1 - eps2)) with eps2 = sqrt(eps / 2).
fn alpha_mada(e: f64) -> f64 {
    let eps2 = (0.25 * (1.0 - e)).sqrt();
    -0.5 * (eps2 / (1.0 - eps2)).ln()
}
const NEAR_ONE: f64 = 1e-9;

impl Prop for Update {
    fn id(&self) -> &'static str {
        "B02"
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, th: bool) -> Value {
        serde_json::to_value(gen_bcase(rng, &[0, 0, 1, 2], 0.7, th)).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = BCase::load(case) else { return };
        if !matches!(c.cfg, Cfg::Ada { .. } | Cfg::AdaV { .. } | Cfg::Mada { .. }) {
            return;
        }
        let (end, log, _) = run_booster(&c, round_cap(&c.cfg, &c.sc), ex);
        trace_log(ex, &c, &log);
        let n = c.sc.n();
        let who = c.cfg.name();
        let (mut acc, mut wsum) = (vec![0.0; n], 0.0);
        let mut lsum = 0.0;
        let mut gamma: f64 = 1.0;
        // Once a step is ill-conditioned, sums over the history are not predicted.
        let mut exact = true;
        let mut perfect = false;
        let mut missed = false;
        for (t, (d, j)) in log.dists.iter().zip(&log.replies).enumerate() {
            if d.len() != n || d.iter().any(|x| !x.is_finite()) {
                ex.fail("dist", format!("{who}: round {}: unusable weights", t + 1));
                return;
            }
            let u = c.sc.margins(*j);
            let e: f64 = u.iter().zip(d).map(|(u, d)| u * d).sum();
            if 1.0 - e.abs() < NEAR_ONE {
                // the run may end here: later rounds are not predicted
                exact &= 1.0 - e.abs() < 1e-15;
                perfect = true;
                if e.abs() < 1.0 - 1e-12 {
                    exact = false;
                }
                let hit = u.iter().all(|u| *u == e.signum());
                // sums of dyadic weights are exact in every order
                let dyadic = t == 0 && n.is_power_of_two();
                let stopped = log.dists.len() == t + 1;
                let full = t as f64 + 2.0 >= c.cfg.bound(n).unwrap_or(f64::INFINITY);
                if hit && stopped && (dyadic || !full) {
                    // every example, weighted or not
                    exact = true;
                    acc = u.iter().zip(&c.sc.labels).map(|(u, y)| u * e.signum() * *y as f64).collect();
                    wsum = 1.0;
                } else if hit && dyadic && !stopped {
                    ex.fail("goes-on", format!("{who}: went on after a perfect hypothesis in round {}", t + 1));
                    return;
                } else if !hit && stopped && !full {
                    // no learner can stop here: some example is misclassified
                    missed = true;
                } else {
                    exact = false;
                }
                break;
            }
            let a = match c.cfg {
                Cfg::Ada { .. } => alpha_ada(e),
                Cfg::Mada { .. } => alpha_mada(e),
                Cfg::AdaV { tol, .. } => {
                    gamma = gamma.min(e);
                    let rho = gamma - tol.unwrap_or(1.0 / n as f64);
                    if rho <= -1.0 + 1e-6 {
                        exact = false;
                        f64::NAN
                    } else {
                        alpha_ada(e) - alpha_ada(rho)
                    }
                }
                _ => unreachable!(),
            };
            lsum += 0.5 * (1.0 - e * e).ln();
            if a.is_finite() {
                for i in 0..n {
                    acc[i] += a * u[i] * c.sc.labels[i] as f64;
                }
                wsum += a.abs();
            }
            let Some(d2) = log.dists.get(t + 1) else { continue };
            if d2.len() != n || d2.iter().any(|x| !x.is_finite()) {
                ex.fail("dist", format!("{who}: round {}: unusable weights", t + 2));
                return;
            }
            if !a.is_finite() {
                continue;
            }
            let tol = 1e-8 + 1e-13 * n as f64 / (1.0 - e * e);
            if let Cfg::Mada { .. } = c.cfg {
                if !exact {
                    continue;
                }
                let l: Vec<f64> = (0..n).map(|i| (-acc[i] * c.sc.labels[i] as f64).min(0.0)).collect();
                let w: Vec<f64> = l.iter().map(|l| l.exp()).collect();
                let s: f64 = w.iter().sum();
                if s < 1e-200 {
                    exact = false;
                    continue;
                }
                for i in 0..n {
                    if (d2[i] - w[i] / s).abs() > 1e-6 * (w[i] / s) + 1e-12 {
                        ex.fail("update", format!(
                            "{who}: round {}: weight of example {i} is {} instead of {} (margin so far {})",
                            t + 2, d2[i], w[i] / s, acc[i] * c.sc.labels[i] as f64));
                        return;
                    }
                }
            } else {
                // log-ratios are equal up to the common normaliser
                let ok = |x: f64| x > 1e-250;
                let Some(r) = (0..n).filter(|i| ok(d[*i]) && ok(d2[*i])).max_by(|a, b| d[*a].partial_cmp(&d[*b]).unwrap()) else {
                    exact = false;
                    continue;
                };
                let f = |i: usize| d2[i].ln() - d[i].ln() + a * u[i];
                for i in 0..n {
                    if ok(d[i]) && ok(d2[i]) && (f(i) - f(r)).abs() > tol * (1.0 + d[i].ln().abs() + a.abs()) {
                        ex.fail("update", format!(
                            "{who}: round {}: weight of example {i} went from {} to {} at margin {} and coefficient {a}: log-ratio is off by {:e}",
                            t + 2, d[i], d2[i], u[i], f(i) - f(r)));
                        return;
                    }
                    // weights may vanish or stay vanished, not come back
                    if !ok(d[i]) && d2[i] > 1e-150 && a.abs() < 50.0 {
                        ex.fail("revived", format!("{who}: round {}: the vanished weight of example {i} is {}", t + 2, d2[i]));
                        return;
                    }
                }
            }
        }
        ex.nontrivial = log.dists.len() >= 2;
        let rounds = log.dists.len();
        let Some(f) = must_finish(end, ex, who) else { return };
        if missed {
            ex.fail("early", format!("{who}: ended after {rounds} rounds although the last hypothesis misclassifies examples"));
            return;
        }
        // ended early only for a reason
        let lim = match c.cfg.bound(n) {
            Some(b) => b * (1.0 - 1e-9),
            None => 0.0,
        };
        if !perfect && (rounds as f64) < (lim - 1.0).floor() {
            ex.fail("early", format!("{who}: ended after {rounds} of {lim:.1} rounds although no hypothesis was perfect"));
            return;
        }
        // the vote
        if exact && wsum > 1e-6 {
            for i in 0..n {
                let want = acc[i] / wsum;
                if !((f.conf[i] - want).abs() <= 1e-6) {
                    ex.fail("vote", format!("{who}: the vote on example {i} is {} instead of {want}", f.conf[i]));
                    return;
                }
            }
            ex.count("probe.votes_compared", 1);
        }
        // training error
        if let (Cfg::Ada { .. }, false) = (&c.cfg, perfect) {
            let wrong = f.pred.iter().zip(&c.sc.labels).filter(|(p, y)| **p != **y as i64).count();
            let bound = lsum.exp();
            if wrong as f64 / n as f64 > bound + 1e-9 && wsum > 1e-9 {
                ex.fail("training-error", format!("{who}: {wrong} of {n} examples are misclassified, the bound is {bound}"));
            }
            if bound < 1.0 {
                ex.count("probe.error_bounds", 1);
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 400_000 } else { 40_000 }
    }
    fn rule(&self) -> &'static str {
        "random parameters, labels, hypothesis pool, reply script and schedule for the three multiplicative boosters; non-trivial: at least two rounds were played"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.votes_compared", "probe.error_bounds"]
    }
}

// ----------------------------------------------------------------- B03

/// Margin guarantees.
pub struct Margin;
const M_TOL: f64 = 2e-4;

impl Prop for Margin {
    fn id(&self) -> &'static str {
        "B03"
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, th: bool) -> Value {
        serde_json::to_value(gen_bcase(rng, &[1, 5, 6, 7, 8, 9, 10], 0.4, th)).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = BCase::load(case) else { return };
        let n = c.sc.n();
        let who = c.cfg.name();
        let (nu, tol) = match c.cfg {
            Cfg::AdaV { tol, quit: None } => (1.0, tol.unwrap_or(1.0 / n as f64)),
            Cfg::Lp { nu, tol } | Cfg::Erlp { nu, tol } | Cfg::Soft { nu, tol } | Cfg::Cerlp { nu, tol, .. } | Cfg::Mlp { nu, tol, .. } => (nu, tol),
            Cfg::Total { tol } => (1.0, tol),
            _ => return,
        };
        let (end, log, _) = run_booster(&c, round_cap(&c.cfg, &c.sc), ex);
        trace_log(ex, &c, &log);
        let rounds = log.dists.len();
        ex.nontrivial = rounds >= 2;
        let Some(f) = must_finish(end, ex, who) else { return };
        let margins: Vec<f64> = f.conf.iter().zip(&c.sc.labels).map(|(f, y)| f * *y as f64).collect();
        let got = lp::softmargin(&margins, nu);
        let edges: Vec<f64> = log.replies.iter().zip(&log.dists).map(|(j, d)| c.sc.edge(*j, d)).collect();
        let emin = edges.iter().cloned().fold(f64::INFINITY, f64::min);
        let all_best = log.replies.iter().zip(&log.dists).zip(&edges).all(|((_, d), e)| {
            let b = (0..c.sc.pool.len()).map(|j| c.sc.edge(j, d)).fold(f64::NEG_INFINITY, f64::max);
            b - e < 1e-6
        });
        let bound = c.cfg.bound(n).unwrap_or(f64::INFINITY);
        let self_stopped = (rounds as f64) < bound.floor() - 1.0;
        ex.trace(|| format!("soft margin {got}, smallest edge {emin}, best replies {all_best}, self-stopped {self_stopped}"));
        if matches!(c.cfg, Cfg::AdaV { .. }) {
            if got < emin - tol - 1e-6 && emin < 1.0 - 1e-9 && emin > -1.0 + tol + 1e-6 {
                ex.fail("margin", format!("{who}: the smallest margin {got} is below the smallest edge {emin} minus the tolerance {tol}"));
            }
            ex.count("probe.hard_margins", 1);
        } else if self_stopped || all_best {
            if got < emin - tol - M_TOL {
                ex.fail("margin", format!(
                    "{who}: the soft margin {got} is below the smallest edge {emin} minus the tolerance {tol} (rounds: {rounds})"));
                return;
            }
            ex.count("probe.edge_margins", 1);
        }
        if all_best && !matches!(c.cfg, Cfg::AdaV { .. }) {
            let Some(o) = lp::solve(&c.sc.u(), nu) else { return };
            if o.gap() > 1e-6 {
                ex.count("probe.reference_uncertified", 1);
                return;
            }
            ex.count("probe.optimum_compared", 1);
            if got < o.lower - tol - M_TOL {
                ex.fail("optimum", format!(
                    "{who}: the soft margin {got} is more than {tol} below the optimum {} although every reply was a best one (rounds: {rounds})", o.lower));
                return;
            }
            if got > o.upper + 1e-5 {
                ex.fail("beyond-optimum", format!("{who}: the soft margin {got} of the vote exceeds the optimum {} over its hypotheses: it is not a convex combination of them", o.upper));
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 500_000 } else { 50_000 }
    }
    fn rule(&self) -> &'static str {
        "random parameters, labels, hypothesis pool, reply script and schedule for the margin-maximising boosters; non-trivial: at least two rounds were played"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.edge_margins", "probe.optimum_compared", "probe.hard_margins"]
    }
}

// ----------------------------------------------------------------- B04

/// Progress: every run ends within its published number of rounds.
pub struct Rounds;

/// The number of rounds a booster reports, before and during a run.
struct Reported<'a, 'b>(&'a SimWL<'b>);
impl Visit for Reported<'_, '_> {
    type Out = Option<f64>;
    fn visit<'a, B>(self, mut b: B, _sample: &'a Sample) -> Option<f64>
    where
        B: Booster<SimH> + Research<Output = <B as Booster<SimH>>::Output>,
        <B as Booster<SimH>>::Output: Inspect,
    {
        b.preprocess(self.0);
        let info = b.info()?;
        info.iter().find(|(k, _)| *k == "Max iteration").and_then(|(_, v)| v.parse().ok())
    }
}

fn reported(c: &BCase) -> Vec<(&'static str, f64)> {
    let s = c.sc.sample();
    let s = &s;
    let wl = SimWL::new(&c.sc, 1);
    let mut v: Vec<(&'static str, f64)> = with_booster(&c.cfg, s, Reported(&wl)).map(|r| ("info", r)).into_iter().collect();
    let m = match c.cfg {
        Cfg::Ada { tol: t, .. } => Some(AdaBoost::<SimH>::init(s)).map(|b| if let Some(t) = t { b.tolerance(t) } else { b }).map(|b| b.max_loop()),
        Cfg::AdaV { tol: t, .. } => Some(AdaBoostV::<SimH>::init(s)).map(|b| if let Some(t) = t { b.tolerance(t) } else { b }).map(|b| b.max_loop()),
        Cfg::Mada { tol: t, .. } => Some(MadaBoost::<SimH>::init(s)).map(|b| if let Some(t) = t { b.tolerance(t) } else { b }).map(|b| b.max_loop()),
        Cfg::Soft { nu, tol } => Some(SoftBoost::<SimH>::init(s).nu(nu).tolerance(tol).max_loop()),
        Cfg::Cerlp { nu, tol, .. } => Some(CERLPBoost::<SimH>::init(s).nu(nu).tolerance(tol).max_loop()),
        Cfg::Mlp { nu, tol, .. } => Some(MLPBoost::<SimH>::init(s).nu(nu).tolerance(tol).max_loop()),
        _ => None,
    };
    v.extend(m.map(|m| ("max_loop", m as f64)));
    v
}

/// What `terminated()` says before a run, and after each of several runs
/// together with the number of rounds these took.
fn terminated(c: &BCase, cap: usize) -> Option<(usize, Vec<(usize, usize)>)> {
    fn runs<'a, B: Booster<SimH>>(mut b: B, t: impl Fn(&B) -> usize, c: &BCase, cap: usize) -> (usize, Vec<(usize, usize)>) {
        let before = t(&b);
        // runs that take different numbers of rounds, one after the other
        let other = |script: &[Reply], tail| {
            let mut sc = c.sc.clone();
            (sc.script, sc.tail) = (script.to_vec(), tail);
            sc
        };
        let scs = [c.sc.clone(), other(&[], Reply::Best), other(&[], Reply::Worst), c.sc.clone(), other(&[Reply::Best], Reply::Repeat)];
        let after = scs
            .iter()
            .enumerate()
            .map(|(k, sc)| {
                let wl = SimWL::new(sc, if k % 3 == 0 { cap } else { round_cap(&c.cfg, sc) });
                b.run(&wl);
                (t(&b), wl.take().dists.len())
            })
            .collect();
        (before, after)
    }
    let s = c.sc.sample();
    let s = &s;
    Some(match c.cfg {
        Cfg::Lp { nu, tol } => runs(LPBoost::<SimH>::init(s).nu(nu).tolerance(tol), |b| b.terminated(), c, cap),
        Cfg::Erlp { nu, tol } => runs(ERLPBoost::<SimH>::init(s).nu(nu).tolerance(tol), |b| b.terminated(), c, cap),
        Cfg::Mlp { nu, tol, fw } => runs(MLPBoost::<SimH>::init(s).nu(nu).tolerance(tol).frank_wolfe(fw.real()), |b| b.terminated(), c, cap),
        _ => return None,
    })
}

impl Prop for Rounds {
    fn id(&self) -> &'static str {
        "B04"
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, th: bool) -> Value {
        let mut c = gen_bcase(rng, &ALL_KINDS, 0.8, th);
        if rng.chance(0.3) {
            // few rounds are allowed: run into the limit
            let n = c.sc.n() as f64;
            let near = r3((n * rng.uniform(0.8, 1.0)).max(1.0));
            let big = *rng.pick(&[0.3, 0.5, 0.7, 0.9]);
            match &mut c.cfg {
                Cfg::Ada { tol, .. } | Cfg::AdaV { tol, .. } | Cfg::Mada { tol, .. } => *tol = Some(big),
                Cfg::Erlp { nu, tol } | Cfg::Soft { nu, tol } | Cfg::Cerlp { nu, tol, .. } | Cfg::Mlp { nu, tol, .. } => {
                    *nu = near;
                    *tol = big;
                }
                Cfg::Smooth { kappa, gamma } => {
                    *kappa = big;
                    *gamma = rng.uniform(0.1, 0.49);
                }
                Cfg::Total { tol } => *tol = big,
                _ => {}
            }
        }
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = BCase::load(case) else { return };
        let mut cap = round_cap(&c.cfg, &c.sc);
        // What the booster says about itself.
        let mut unlimited = c.cfg.clone();
        if let Cfg::Ada { quit, .. } | Cfg::AdaV { quit, .. } | Cfg::Mada { quit, .. } = &mut unlimited {
            *quit = None;
        }
        if let Some(b) = unlimited.bound(c.sc.n()) {
            let cc = &c;
            let (end, st) = simulate(&c.env, move || reported(cc));
            ex.absorb(&st);
            match end {
                End::Done(v) => {
                    for (what, r) in v {
                        if !(r >= (b * (1.0 - 1e-9) - 1.0).floor() && r <= (b * (1.0 + 1e-9) + 1.0).ceil()) {
                            ex.fail("reported", format!("{}: {what} says {r} rounds, the analysis {b}", c.cfg.name()));
                            return;
                        }
                        ex.count("probe.reported_limits", 1);
                    }
                }
                e => {
                    ex.fail("panic", format!("{}: {}", c.cfg.name(), e.describe()));
                    return;
                }
            }
        }
        let best = c.sc.script.iter().all(|r| *r == Reply::Best) && c.sc.tail == Reply::Best;
        if let (Cfg::Lp { .. }, true) = (&c.cfg, best) {
            // each round but the last brings a new hypothesis
            cap = c.sc.pool.len() + 2;
        }
        let (end, log, _) = run_booster(&c, cap, ex);
        trace_log(ex, &c, &log);
        ex.nontrivial = log.dists.len() >= 2;
        if c.cfg.bound(c.sc.n()).map_or(false, |b| log.dists.len() as f64 >= b.floor()) {
            ex.count(&format!("limit_reached.{}", c.cfg.name()), 1);
        }
        if let Some(l) = log.bad_len {
            ex.fail("dist-length", format!("{}: {l} weights for {} examples", c.cfg.name(), c.sc.n()));
        }
        if log.dists.is_empty() {
            ex.fail("no-round", format!("{}: the weak learner was never asked", c.cfg.name()));
        }
        if must_finish(end, ex, c.cfg.name()).is_none() {
            return;
        }
        let crashes = c.sc.tail == Reply::Crash || c.sc.script.contains(&Reply::Crash);
        if crashes || !matches!(c.cfg, Cfg::Lp { .. } | Cfg::Erlp { .. } | Cfg::Mlp { .. }) {
            return;
        }
        let (end, st) = {
            let c = &c;
            simulate(&c.env, move || terminated(c, cap))
        };
        ex.absorb(&st);
        match end {
            End::Done(None) => {}
            End::Done(Some((before, after))) => {
                ex.count("probe.terminated", after.len() as u64);
                if before != usize::MAX && before != 0 {
                    ex.fail("terminated", format!("{}: terminated() is {before} before any run", c.cfg.name()));
                }
                for (run, (said, took)) in after.iter().enumerate() {
                    if said != took {
                        ex.fail("terminated", format!("{}: terminated() is {said} after run {} of {took} rounds", c.cfg.name(), run + 1));
                    }
                }
            }
            e => ex.fail("panic", format!("{}: {}", c.cfg.name(), e.describe())),
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 500_000 } else { 50_000 }
    }
    fn rule(&self) -> &'static str {
        "random booster, parameters, labels, hypothesis pool, reply script (mostly with misbehaviour) and schedule; non-trivial: at least two rounds were played"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
}

// ----------------------------------------------------------------- B05

/// The returned vote is made of what was received.
pub struct Vote;

impl Prop for Vote {
    fn id(&self) -> &'static str {
        "B05"
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, th: bool) -> Value {
        serde_json::to_value(gen_bcase(rng, &ALL_KINDS, 0.6, th)).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = BCase::load(case) else { return };
        let who = c.cfg.name();
        let n = c.sc.n();
        let (end, log, _) = run_booster(&c, round_cap(&c.cfg, &c.sc), ex);
        trace_log(ex, &c, &log);
        ex.nontrivial = log.dists.len() >= 2;
        let Some(f) = must_finish(end, ex, who) else { return };
        check_vote(&c, &log, &f, ex);
        let _ = n;
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 500_000 } else { 50_000 }
    }
    fn rule(&self) -> &'static str {
        "random booster, parameters, labels, hypothesis pool, reply script and schedule; non-trivial: at least two rounds were played"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.votes_recombined"]
    }
}

pub fn check_vote(c: &BCase, log: &Log, f: &Final, ex: &mut Exec) {
    let who = c.cfg.name();
    let n = c.sc.n();
    for (what, l) in [("confidences", f.conf.len()), ("predictions", f.pred.len())] {
        if l != n {
            ex.fail("length", format!("{who}: {l} {what} for {n} examples"));
            return;
        }
    }
    for i in 0..n {
        if f.conf[i].to_bits() != f.conf1[i].to_bits() || f.pred[i] != f.pred1[i] {
            ex.fail("all-vs-one", format!("{who}: example {i}: {} / {} over the sample, {} / {} alone", f.conf[i], f.pred[i], f.conf1[i], f.pred1[i]));
            return;
        }
        if !(f.conf[i].abs() <= 1.0 + 1e-6) {
            ex.fail("range", format!("{who}: the confidence on example {i} is {}", f.conf[i]));
            return;
        }
        let want = if f.conf[i] >= 0.0 { 1 } else { -1 };
        if f.pred[i] != want {
            ex.fail("sign", format!("{who}: example {i} is predicted {} at confidence {}", f.pred[i], f.conf[i]));
            return;
        }
    }
    let Some(w) = &f.weights else { return };
    if w.len() != f.ids.len() {
        ex.fail("parts", format!("{who}: {} weights for {} hypotheses", w.len(), f.ids.len()));
        return;
    }
    let edges: Vec<f64> = log.replies.iter().zip(&log.dists).map(|(j, d)| c.sc.edge(*j, d)).collect();
    // all-zero coefficients leave nothing to combine
    let idle = edges.iter().all(|e| e.abs() < 1e-6);
    if w.is_empty() {
        if !idle {
            ex.fail("empty", format!("{who}: the vote is empty after {} rounds", log.dists.len()));
        }
        return;
    }
    if let Some(k) = f.ids.iter().find(|k| !log.replies.contains(k)) {
        ex.fail("foreign", format!("{who}: hypothesis {k} of the vote was never received"));
        return;
    }
    let s: f64 = w.iter().map(|w| w.abs()).sum();
    if !((s - 1.0).abs() <= 1e-6) {
        ex.fail("normalised", format!("{who}: the weights of the vote sum to {s}"));
        return;
    }
    let signed = matches!(c.cfg, Cfg::Ada { .. } | Cfg::AdaV { .. } | Cfg::Mada { .. });
    if !signed {
        if let Some(x) = w.iter().find(|x| **x < -1e-5) {
            ex.fail("negative", format!("{who}: a hypothesis has weight {x}"));
            return;
        }
    }
    for i in 0..n {
        let want: f64 = w.iter().zip(&f.ids).map(|(w, k)| w * c.sc.pool[*k][i]).sum();
        if (want - f.conf[i]).abs() > 1e-9 {
            ex.fail("combination", format!("{who}: the confidence on example {i} is {}, the weighted vote is {want}", f.conf[i]));
            return;
        }
    }
    ex.count("probe.votes_recombined", 1);
}

// ----------------------------------------------------------------- B06

/// A booster that was interrupted (or has finished) starts over cleanly.
pub struct Restart;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    base: BCase,
    /// The history before: scripts run on the same booster beforehand.
    earlier: Vec<Vec<Reply>>,
}

struct Again<'a, 'b> {
    scs: &'a [Scenario],
    cap: usize,
    last: &'a SimWL<'b>,
    log: &'a mut Vec<Log>,
    crashes: &'a mut u64,
}
impl Visit for Again<'_, '_> {
    type Out = Final;
    fn visit<'a, B>(self, mut b: B, sample: &'a miniboosts::Sample) -> Final
    where
        B: miniboosts::Booster<SimH> + miniboosts::research::Research<Output = <B as miniboosts::Booster<SimH>>::Output>,
        <B as miniboosts::Booster<SimH>>::Output: Inspect,
    {
        for sc in self.scs {
            let wl = SimWL::new(sc, self.cap);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                b.run(&wl);
            }));
            self.log.push(wl.take());
            if let Err(p) = r {
                if p.is::<crate::world::SimCrash>() {
                    *self.crashes += 1;
                } else {
                    std::panic::resume_unwind(p);
                }
            }
        }
        b.run(self.last).finish(sample)
    }
}

impl Prop for Restart {
    fn id(&self) -> &'static str {
        "B06"
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, th: bool) -> Value {
        let mut base = gen_bcase(rng, &ALL_KINDS, 0.5, th);
        // no stealing: both executions then split their sums alike
        base.env.steal = 0;
        let m = base.sc.pool.len();
        let k = rng.range(1, 3);
        let earlier = (0..k)
            .map(|_| {
                let len = rng.range(0, 12);
                let f = rng.chance(0.7);
                let mut s = gen_script(rng, len, m, f);
                if rng.chance(0.75) {
                    s.push(Reply::Crash);
                }
                s
            })
            .collect();
        serde_json::to_value(RCase { base, earlier }).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut r) = parse::<RCase>(case) else { return };
        let Some(mut c) = BCase::load(&serde_json::to_value(&r.base).unwrap()) else { return };
        c.env.steal = 0;
        r.base = c.clone();
        c.sc.script.retain(|x| *x != Reply::Crash);
        if c.sc.tail == Reply::Crash {
            return;
        }
        let who = c.cfg.name();
        let cap = round_cap(&c.cfg, &c.sc);
        let (end, log, _) = run_booster(&c, cap, ex);
        let Some(fresh) = must_finish(end, ex, who) else { return };
        let scs: Vec<Scenario> = r.earlier.iter().map(|s| Scenario { script: s.clone(), ..c.sc.clone() }).collect();
        let mut logs = Vec::new();
        let mut crashes = 0;
        let mut last = Log::default();
        let (end, st) = {
            let (logs, crashes, last, c, scs) = (&mut logs, &mut crashes, &mut last, &c, &scs);
            let sample = c.sc.sample();
            simulate(&c.env, move || {
                let wl = SimWL::new(&c.sc, cap);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    with_booster(&c.cfg, &sample, Again { scs, cap, last: &wl, log: logs, crashes })
                }));
                *last = wl.take();
                match r {
                    Ok(f) => f,
                    Err(p) => std::panic::resume_unwind(p),
                }
            })
        };
        ex.absorb(&st);
        ex.count("fault.party.crash", crashes);
        ex.count("probe.runs_on_used_boosters", 1);
        for l in &logs {
            ex.state.add(l.digest.0);
            ex.digest.add(l.digest.0);
        }
        ex.nontrivial = logs.iter().any(|l| !l.dists.is_empty()) && last.dists.len() >= 2;
        let Some(f) = must_finish(end, ex, who) else { return };
        let what = format!("{who}: after {} earlier runs ({crashes} of them crashed)", logs.len());
        if last.dists.len() != log.dists.len() {
            ex.fail("rounds", format!("{what} the run took {} rounds, a fresh booster {}", last.dists.len(), log.dists.len()));
            return;
        }
        for (t, (a, b)) in last.dists.iter().zip(&log.dists).enumerate() {
            if a != b {
                ex.fail("history", format!("{what} round {} saw {a:?}, with a fresh booster {b:?}", t + 1));
                return;
            }
        }
        if f.bits() != fresh.bits() {
            ex.fail("result", format!("{what} the vote is {:?} {:?}, with a fresh booster {:?} {:?}", f.weights, f.conf, fresh.weights, fresh.conf));
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 200_000 } else { 20_000 }
    }
    fn rule(&self) -> &'static str {
        "random booster and parameters; one to three earlier runs on the same booster with random replies, most of them crashed in a random round, then a full run compared bit for bit with a fresh booster; non-trivial: earlier rounds happened and the last run took at least two rounds"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["fault.party.crash"]
    }
}

// ----------------------------------------------------------------- B17

/// SmoothBoost against its published measure.
pub struct Smooth;

impl Prop for Smooth {
    fn id(&self) -> &'static str {
        "B17"
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, th: bool) -> Value {
        let mut c = gen_bcase(rng, &[3], 0.6, th);
        if let Cfg::Smooth { gamma, .. } = c.cfg {
            c.sc.gamma = 2.0 * gamma;
        }
        if rng.chance(0.5) {
            // a pool that can keep the promise, answered weakly
            let n = c.sc.n();
            let err = rng.uniform(0.02, 0.3);
            let m = rng.range(2, 12);
            c.sc.pool = (0..m).map(|_| (0..n).map(|i| if rng.chance(err) { -c.sc.labels[i] as f64 } else { c.sc.labels[i] as f64 }).collect()).collect();
            c.sc.tail = *rng.pick(&[Reply::Weak, Reply::Best]);
        }
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = BCase::load(case) else { return };
        let Cfg::Smooth { kappa, gamma } = c.cfg else { return };
        let n = c.sc.n();
        let (end, log, _) = run_booster(&c, round_cap(&c.cfg, &c.sc), ex);
        trace_log(ex, &c, &log);
        let rounds = log.dists.len();
        ex.nontrivial = rounds >= 2;
        let theta = gamma / (2.0 + gamma);
        let maxr = (2.0 / (kappa * gamma * gamma * (1.0 - gamma).sqrt())).ceil();
        let mut acc = vec![0.0f64; n];
        let measure = |acc: &[f64]| -> Vec<f64> {
            acc.iter().map(|a| if *a <= 0.0 { 1.0 } else { (1.0 - gamma).powf(0.5 * a) }).collect()
        };
        let lim = kappa * n as f64;
        // At a = 0 the measure is continuous, so rounding does not matter.
        for (t, (d, j)) in log.dists.iter().zip(&log.replies).enumerate() {
            let m = measure(&acc);
            let s: f64 = m.iter().sum();
            if s < lim * (1.0 - 1e-9) {
                ex.fail("late", format!("SmoothBoost: round {} was played although the total weight {s} had fallen below {lim}", t + 1));
                return;
            }
            for i in 0..n {
                if !((d.get(i).copied().unwrap_or(f64::NAN) - m[i] / s).abs() <= 1e-9) {
                    ex.fail("measure", format!("SmoothBoost: round {}: weight of example {i} is {:?} instead of {}", t + 1, d.get(i), m[i] / s));
                    return;
                }
            }
            for (a, u) in acc.iter_mut().zip(c.sc.margins(*j)) {
                *a += u - theta;
            }
        }
        let Some(f) = must_finish(end, ex, "SmoothBoost") else { return };
        let s: f64 = measure(&acc).iter().sum();
        let stopped = (rounds as f64) < maxr;
        if stopped && s > lim * (1.0 + 1e-9) {
            ex.fail("early", format!("SmoothBoost: ended after {rounds} of {maxr} rounds although the total weight is {s}, not below {lim}"));
            return;
        }
        // uniform vote
        for i in 0..n {
            let want: f64 = log.replies.iter().map(|j| c.sc.pool[*j][i]).sum::<f64>() / rounds as f64;
            if !((f.conf[i] - want).abs() <= 1e-7) {
                ex.fail("vote", format!("SmoothBoost: the vote on example {i} is {} instead of the average {want}", f.conf[i]));
                return;
            }
        }
        let promise = log.replies.iter().zip(&log.dists).all(|(j, d)| c.sc.edge(*j, d) >= 2.0 * gamma - 1e-12);
        if promise || s < lim * (1.0 - 1e-9) {
            let low = (0..n).filter(|i| f.conf[*i] * (c.sc.labels[*i] as f64) < theta - 1e-6).count();
            if low as f64 >= lim * (1.0 + 1e-9) {
                ex.fail("margin", format!("SmoothBoost: {low} of {n} examples have a margin below {theta}, at most a fraction {kappa} may"));
            }
            ex.count(if promise { "probe.promise_kept" } else { "probe.stopped" }, 1);
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 800_000 } else { 80_000 }
    }
    fn rule(&self) -> &'static str {
        "random parameters, labels, hypothesis pool, reply script and schedule; non-trivial: at least two rounds were played"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.promise_kept", "probe.stopped"]
    }
}

// ----------------------------------------------------------------- B18

/// Graph separation.
pub struct Separation;

impl Prop for Separation {
    fn id(&self) -> &'static str {
        "B18"
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, th: bool) -> Value {
        serde_json::to_value(gen_bcase(rng, &[4], 0.6, th)).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = BCase::load(case) else { return };
        if !matches!(c.cfg, Cfg::GraphSep {}) {
            return;
        }
        let n = c.sc.n();
        let (end, log, _) = run_booster(&c, round_cap(&c.cfg, &c.sc), ex);
        trace_log(ex, &c, &log);
        ex.nontrivial = log.dists.len() >= 2;
        let mut left: std::collections::BTreeSet<(usize, usize)> = (0..n)
            .flat_map(|i| (i + 1..n).map(move |j| (i, j)))
            .filter(|(i, j)| c.sc.labels[*i] != c.sc.labels[*j])
            .collect();
        let sign = |j: usize, i: usize| c.sc.pool[j][i] >= 0.0;
        let mut stuck = false;
        for (t, (d, j)) in log.dists.iter().zip(&log.replies).enumerate() {
            if left.is_empty() || stuck {
                ex.fail("late", format!("GraphSepBoost: round {} was played although {}", t + 1,
                    if stuck { "the previous one separated nothing" } else { "every pair was separated" }));
                return;
            }
            let mut deg = vec![0usize; n];
            for (a, b) in &left {
                deg[*a] += 1;
                deg[*b] += 1;
            }
            for (i, deg) in deg.into_iter().enumerate() {
                let want = deg as f64 / (2 * left.len()) as f64;
                if !((d.get(i).copied().unwrap_or(f64::NAN) - want).abs() <= 1e-12) {
                    ex.fail("degree", format!("GraphSepBoost: round {}: weight of example {i} is {:?} instead of {want}", t + 1, d.get(i)));
                    return;
                }
            }
            let before = left.len();
            left.retain(|(a, b)| sign(*j, *a) == sign(*j, *b));
            stuck = left.len() == before;
        }
        let Some(f) = must_finish(end, ex, "GraphSepBoost") else { return };
        if !left.is_empty() && !stuck {
            ex.fail("early", format!("GraphSepBoost: ended although {} pairs are not separated and the last round made progress", left.len()));
            return;
        }
        for i in 0..n {
            let twin = (0..n).any(|k| c.sc.labels[k] > 0 && log.replies.iter().all(|j| sign(*j, k) == sign(*j, i)));
            let want = if twin { 1 } else { -1 };
            if f.pred[i] != want {
                ex.fail("aggregation", format!("GraphSepBoost: example {i} is predicted {} although it {} a positive example under every hypothesis",
                    f.pred[i], if twin { "looks like" } else { "does not look like" }));
                return;
            }
        }
        if left.is_empty() {
            ex.count("probe.separated", 1);
        } else {
            ex.count("probe.stuck", 1);
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 2_000_000 } else { 200_000 }
    }
    fn rule(&self) -> &'static str {
        "random labels, hypothesis pool, reply script and schedule; non-trivial: at least two rounds were played"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.separated", "probe.stuck"]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&Dist, &Update, &Margin, &Rounds, &Vote, &Restart, &Smooth, &Separation]
}
