//! The rounds of the margin boosters against their published sub-problems.

use super::boost::{gen_bcase, must_finish, round_cap, BCase};
use super::Prop;
use crate::lp;
use crate::party::*;
use crate::rng::Rng;
use crate::world::{simulate, Exec};
use miniboosts::research::Research;
use miniboosts::{Booster, Classifier, Sample, WeakLearner};
use serde_json::Value;
use std::ops::ControlFlow;

// ------------------------------------------------------------- reference

/// The minimiser of `d . m + KL(d, uniform) / eta` over the capped simplex.
pub fn expdist(eta: f64, nu: f64, m: &[f64]) -> Vec<f64> {
    let n = m.len();
    let l: Vec<f64> = m.iter().map(|m| -eta * m).collect();
    let mut ix: Vec<usize> = (0..n).collect();
    ix.sort_by(|a, b| l[*b].total_cmp(&l[*a]));
    let cap = 1.0 / nu;
    let mut d = vec![0.0; n];
    for k in 0..n {
        // the k largest are capped, the rest shares what is left
        let rest = &ix[k..];
        let left = (1.0 - cap * k as f64).max(0.0);
        let top = l[rest[0]];
        let z: f64 = rest.iter().map(|i| (l[*i] - top).exp()).sum();
        if left / z <= cap * (1.0 + 1e-12) || k + 1 == n {
            for i in rest {
                d[*i] = (left * (l[*i] - top).exp() / z).min(cap);
            }
            break;
        }
        d[ix[k]] = cap;
    }
    d
}

/// Relative entropy from the uniform distribution.
fn kl(d: &[f64]) -> f64 {
    let n = d.len() as f64;
    d.iter().map(|d| if *d > 0.0 { d * (d * n).ln() } else { 0.0 }).sum::<f64>().max(0.0)
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(a, b)| a * b).sum()
}
fn mix(u: &[Vec<f64>], w: &[f64]) -> Vec<f64> {
    let n = u[0].len();
    (0..n).map(|i| u.iter().zip(w).map(|(u, w)| w * u[i]).sum()).collect()
}

/// `min_d d . A w + KL(d) / eta`: the smoothed margin of a vote.
fn smooth(u: &[Vec<f64>], w: &[f64], eta: f64, nu: f64) -> f64 {
    let m = mix(u, w);
    let d = expdist(eta, nu, &m);
    let k = kl(&d);
    dot(&d, &m) + if eta <= 0.0 { 0.0 } else { k / eta }
}

/// Largest smoothed margin over the votes (with a certificate): `max_w min_d`.
fn smooth_best(u: &[Vec<f64>], eta: f64, nu: f64) -> (f64, f64) {
    let m = u.len();
    let mut w = vec![1.0 / m as f64; m];
    let (mut lo, mut hi) = (f64::NEG_INFINITY, f64::INFINITY);
    for _ in 0..400 {
        let mm = mix(u, &w);
        let d = expdist(eta, nu, &mm);
        let e: Vec<f64> = u.iter().map(|u| dot(u, &d)).collect();
        let k = kl(&d) / eta;
        lo = lo.max(dot(&d, &mm) + k);
        let b = (0..m).max_by(|a, b| e[*a].total_cmp(&e[*b])).unwrap();
        hi = hi.min(e[b] + k);
        if hi - lo < 1e-7 {
            break;
        }
        let a = (0..m).filter(|j| w[*j] > 0.0).min_by(|a, b| e[*a].total_cmp(&e[*b])).unwrap();
        if a == b {
            break;
        }
        // move weight from the worst to the best, exactly
        let dir: Vec<f64> = (0..mm.len()).map(|i| u[b][i] - u[a][i]).collect();
        let s = ascend(&mm, &dir, w[a], eta, nu);
        if s >= w[a] {
            w[b] += w[a];
            w[a] = 0.0;
        } else {
            w[b] += s;
            w[a] -= s;
        }
    }
    (lo, hi)
}

/// The step in `[0, top]` that maximises the smoothed margin of `m + s dir`.
fn ascend(m: &[f64], dir: &[f64], top: f64, eta: f64, nu: f64) -> f64 {
    let slope = |s: f64| {
        let x: Vec<f64> = m.iter().zip(dir).map(|(m, d)| m + s * d).collect();
        dot(&expdist(eta, nu, &x), dir)
    };
    if slope(top) >= 0.0 {
        return top;
    }
    let (mut lo, mut hi) = (0.0, top);
    for _ in 0..60 {
        let mid = 0.5 * (lo + hi);
        if slope(mid) > 0.0 {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    0.5 * (lo + hi)
}

/// Smallest relative entropy of a capped distribution all of whose edges are
/// at most `g`: a lower bound (from the dual) and a value that is attained up
/// to `viol` too much edge.
fn entropy_below(u: &[Vec<f64>], g: f64, nu: f64) -> (f64, f64) {
    let m = u.len();
    let mut mu = vec![0.0; m];
    let mut low = 0.0f64;
    let mut viol = f64::INFINITY;
    for _ in 0..200 {
        for j in 0..m {
            let base: Vec<f64> = {
                let mut w = mu.clone();
                w[j] = 0.0;
                mix(u, &w)
            };
            let slope = |x: f64| {
                let mm: Vec<f64> = base.iter().zip(&u[j]).map(|(b, u)| b + x * u).collect();
                dot(&expdist(1.0, nu, &mm), &u[j]) - g
            };
            if slope(0.0) <= 0.0 {
                mu[j] = 0.0;
                continue;
            }
            let mut hi = 1.0;
            while slope(hi) > 0.0 && hi < 1e5 {
                hi *= 2.0;
            }
            let mut lo = 0.0;
            for _ in 0..50 {
                let mid = 0.5 * (lo + hi);
                if slope(mid) > 0.0 {
                    lo = mid;
                } else {
                    hi = mid;
                }
            }
            mu[j] = 0.5 * (lo + hi);
        }
        let mm = mix(u, &mu);
        let d = expdist(1.0, nu, &mm);
        low = low.max(dot(&d, &mm) + kl(&d) - g * mu.iter().sum::<f64>());
        viol = u.iter().map(|u| dot(u, &d) - g).fold(0.0, f64::max);
        if viol < 1e-7 {
            break;
        }
    }
    (low, viol)
}

// ------------------------------------------------------------- the runs

/// The votes after each round, and whether the round ended the run.
struct Steps<'a, 'b> {
    wl: &'a SimWL<'b>,
    cap: usize,
    keep: usize,
}
type Told = (Option<Vec<f64>>, Vec<usize>);
impl Visit for Steps<'_, '_> {
    type Out = (Vec<Told>, Option<usize>, Told);
    fn visit<'a, B>(self, mut b: B, _s: &'a Sample) -> Self::Out
    where
        B: Booster<SimH> + Research<Output = <B as Booster<SimH>>::Output>,
        <B as Booster<SimH>>::Output: Inspect,
    {
        b.preprocess(self.wl);
        let mut votes = vec![];
        let mut end = None;
        for t in 1..=self.cap + 1 {
            if let ControlFlow::Break(_) = b.boost(self.wl, t) {
                end = Some(t);
                break;
            }
            if t <= self.keep {
                votes.push(b.current_hypothesis().parts());
            } else if t > self.keep + 5 {
                break;
            }
        }
        let f = b.postprocess(self.wl).parts();
        (votes, end, f)
    }
}

/// Accuracy asked of the solver's answers (objective values).
const SOLVER: f64 = 2e-4;
const EXACT: f64 = 1e-6;
/// MLPBoost's linear program is perturbed by Gumbel noise over eta.
const PERTURBED: f64 = 12.0;

pub struct SubProblems;

impl Prop for SubProblems {
    fn id(&self) -> &'static str {
        "B29"
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, th: bool) -> Value {
        serde_json::to_value(gen_bcase(rng, &[5, 6, 7, 8, 9, 9, 10, 10], 0.5, th)).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = BCase::load(case) else { return };
        let (nu, tol) = match c.cfg {
            Cfg::Lp { nu, tol } | Cfg::Erlp { nu, tol } | Cfg::Soft { nu, tol } | Cfg::Cerlp { nu, tol, .. } | Cfg::Mlp { nu, tol, .. } => (nu, tol),
            Cfg::Total { tol } => (1.0, tol),
            _ => return,
        };
        let n = c.sc.n();
        let who = c.cfg.name();
        let cap = round_cap(&c.cfg, &c.sc);
        let sample = c.sc.sample();
        let mut log = Log::default();
        let (end, st) = {
            let log = &mut log;
            let (sc, cfg, sample) = (&c.sc, &c.cfg, &sample);
            simulate(&c.env, move || {
                let wl = SimWL::new(sc, cap);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_booster(cfg, sample, Steps { wl: &wl, cap, keep: 60 })));
                *log = wl.take();
                match r {
                    Ok(f) => f,
                    Err(p) => std::panic::resume_unwind(p),
                }
            })
        };
        ex.absorb(&st);
        ex.count("rounds", log.dists.len() as u64);
        ex.count(&format!("booster.{who}"), 1);
        ex.digest.add(log.digest.0);
        ex.state.add(c.digest());
        ex.state.add(log.digest.0);
        super::boost::trace_log(ex, &c, &log);
        ex.nontrivial = log.dists.len() >= 2;
        let Some((votes, ended, last)) = must_finish(end, ex, who) else { return };
        if log.dists.iter().any(|d| d.len() != n || d.iter().any(|x| !x.is_finite())) {
            return;
        }
        // equal tables are one hypothesis
        let same: Vec<usize> = (0..c.sc.pool.len()).map(|j| (0..=j).find(|k| c.sc.pool[*k] == c.sc.pool[j]).unwrap()).collect();
        let u = c.sc.u();
        let weights = |v: &Told| -> Option<Vec<f64>> {
            let w = v.0.as_ref()?;
            let mut r = vec![0.0; u.len()];
            for (w, j) in w.iter().zip(&v.1) {
                *r.get_mut(*same.get(*j)?)? += w;
            }
            Some(r)
        };
        let replies: Vec<usize> = log.replies.iter().map(|j| same[*j]).collect();
        let eta = match c.cfg {
            Cfg::Erlp { .. } => ((n as f64 / nu).ln() / (tol / 2.0)).max(0.5),
            _ => (n as f64 / nu).ln() / (tol / 2.0),
        };
        let rounds = log.dists.len();
        let full = c.cfg.bound(n).map(|b| b.ceil().max(1.0)).unwrap_or(f64::INFINITY);
        let mut got: Vec<usize> = vec![];
        let mut best_edge = f64::INFINITY;
        for t in 0..rounds.min(votes.len() + 1) {
            let d = &log.dists[t];
            let j = replies[t];
            let before: Vec<Vec<f64>> = got.iter().map(|j| u[*j].clone()).collect();
            let e = dot(d, &u[j]);
            // after this round
            if !got.contains(&j) {
                got.push(j);
            }
            let after: Vec<Vec<f64>> = got.iter().map(|j| u[*j].clone()).collect();
            let stops = ended == Some(t + 1);
            let fail = |ex: &mut Exec, class: &'static str, what: String| ex.fail(class, format!("{who}: round {}: {what}", t + 1));
            // None: too close to tell
            let expect = |gap: f64, slack: f64| if gap.abs() <= slack { None } else { Some(gap < 0.0) };
            let mut stop = None;
            let vote = if stops { weights(&last) } else { votes.get(t).and_then(|v| weights(v)) };
            match c.cfg {
                Cfg::Lp { .. } => {
                    best_edge = best_edge.min(e);
                    if t > 0 {
                        let Some(o) = lp::solve(&before, nu) else { return };
                        if o.gap() < 1e-7 {
                            let most = before.iter().map(|u| dot(u, d)).fold(f64::NEG_INFINITY, f64::max);
                            ex.worst("lp.dist", most - o.upper);
                            if most > o.upper + SOLVER {
                                fail(ex, "dist", format!("the largest edge {most} of the hypotheses so far is not the least possible {}", o.upper));
                                return;
                            }
                        }
                    }
                    let Some(o) = lp::solve(&after, nu) else { return };
                    if o.gap() < 1e-7 {
                        stop = expect(best_edge - tol - o.upper, 2e-5);
                        if let Some(w) = &vote {
                            let s = lp::softmargin(&mix(&u, w), nu);
                            ex.worst("lp.vote", o.lower - s);
                            if s < o.lower - SOLVER {
                                fail(ex, "vote", format!("the soft margin {s} of the vote is not the largest possible {}", o.lower));
                                return;
                            }
                        }
                    }
                }
                Cfg::Soft { .. } | Cfg::Total { .. } => {
                    best_edge = best_edge.min(e);
                    let goal = best_edge - tol;
                    let Some(o) = lp::solve(&after, nu) else { return };
                    if o.gap() < 1e-7 {
                        stop = expect(goal - o.upper, 1e-3);
                        if let Some(w) = &vote {
                            let s = lp::softmargin(&mix(&u, w), nu);
                            ex.worst("soft.vote", o.lower - s);
                            if s < o.lower - SOLVER {
                                fail(ex, "vote", format!("the soft margin {s} of the vote is not the largest possible {}", o.lower));
                                return;
                            }
                        }
                    }
                    if let (false, Some(d2)) = (stops, log.dists.get(t + 1)) {
                        let most = after.iter().map(|u| dot(u, d2)).fold(f64::NEG_INFINITY, f64::max);
                        ex.worst("soft.edges", most - goal);
                        if most > goal + 1e-3 {
                            fail(ex, "dist", format!("the next weights leave an edge of {most}, the goal is {goal}"));
                            return;
                        }
                        if goal > o.upper + 1e-2 {
                            let (low, viol) = entropy_below(&after, goal, nu);
                            if viol < 1e-4 {
                                ex.worst("soft.entropy", kl(d2) - low);
                                ex.count("probe.projections", 1);
                                // From the uniform weights, and unless a weight is pushed
                                // far down, the sequence of quadratic programs converges.
                                let sharp = t == 0 && d2.iter().all(|d| d * n as f64 > 0.5);
                                let slack = if sharp { 3e-4 } else { 0.9 + 0.1 * t as f64 };
                                if sharp {
                                    ex.count("probe.projections_sharp", 1);
                                    ex.worst("soft.entropy_sharp", kl(d2) - low);
                                }
                                if kl(d2) > low + slack {
                                    fail(ex, "projection", format!("the next weights are at relative entropy {} from the uniform ones, {low} is enough", kl(d2)));
                                    return;
                                }
                            }
                        }
                    }
                }
                Cfg::Erlp { .. } => {
                    best_edge = best_edge.min(e + kl(d) / eta);
                    if t > 0 {
                        let most = before.iter().map(|u| dot(u, d)).fold(f64::NEG_INFINITY, f64::max) + kl(d) / eta;
                        stop = expect(best_edge - most - tol / 2.0, EXACT);
                    } else {
                        stop = Some(false);
                    }
                    if let (false, Some(d2)) = (stops, log.dists.get(t + 1)) {
                        let most = after.iter().map(|u| dot(u, d2)).fold(f64::NEG_INFINITY, f64::max) + kl(d2) / eta;
                        let (lo, hi) = smooth_best(&after, eta, nu);
                        if hi - lo < 1e-5 {
                            ex.worst("erlp.dist", (most - hi) / tol);
                            ex.count("probe.projections", 1);
                            // The more weights, the less accurate the solver; with very
                            // many, it may give up on all but the first approximation.
                            let slack = if n > 100 { f64::INFINITY } else if n > 40 { 0.7 * tol } else { 0.3 * tol };
                            if most > hi + slack + SOLVER {
                                fail(ex, "dist", format!("the next weights have the objective {most} instead of {hi}"));
                                return;
                            }
                        }
                    }
                }
                Cfg::Cerlp { fw, .. } | Cfg::Mlp { fw, .. } => {
                    let old = if t == 0 { vec![0.0; u.len()] } else {
                        let Some(w) = votes.get(t - 1).and_then(|v| weights(v)) else { return };
                        w
                    };
                    let om = mix(&u, &old);
                    let want = expdist(eta, nu, &om);
                    let off = d.iter().zip(&want).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
                    ex.worst("fw.dist", off);
                    if off > EXACT {
                        fail(ex, "dist", format!("the weights are off by {off} from those of the vote"));
                        return;
                    }
                    let mlp = matches!(c.cfg, Cfg::Mlp { .. });
                    best_edge = best_edge.min(e);
                    stop = if t == 0 {
                        Some(false)
                    } else if mlp {
                        expect(best_edge - smooth(&u, &old, eta, nu) - tol / 2.0, EXACT)
                    } else {
                        expect(e - dot(d, &om) - tol / 2.0, EXACT)
                    };
                    if !stops {
                        let Some(new) = &vote else { return };
                        if let Some(what) = step(&u, &got, &old, new, j, t, d, fw, eta, nu, mlp, ex) {
                            fail(ex, "step", format!("{what} ({fw:?}, eta {eta}); from {old:?} to {new:?}, offered {j}"));
                            return;
                        }
                        ex.count("probe.steps", 1);
                    }
                }
                _ => {}
            }
            // a run ends when its rule says so
            if let Some(stop) = stop {
                ex.count(if stop { "probe.stops" } else { "probe.goes_on" }, 1);
                let at_bound = t as f64 + 1.0 >= full;
                if stop && !stops {
                    fail(ex, "late", format!("goes on although its optimality gap is within the tolerance (best edge {best_edge})"));
                    return;
                }
                if !stop && stops && !at_bound {
                    fail(ex, "early", format!("ends although its optimality gap is beyond the tolerance (best edge {best_edge})"));
                    return;
                }
            }
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 400_000 } else { 25_000 }
    }
    fn rule(&self) -> &'static str {
        "random parameters, labels, hypothesis pool, reply script and schedule for the margin-maximising boosters, driven round by round; non-trivial: at least two rounds were played"
    }
    fn real(&self) -> &'static [&'static str] {
        &["LPBoost, ERLPBoost, SoftBoost, TotalBoost, CERLPBoost, MLPBoost", "FrankWolfe", "clarabel LP/QP solver", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["weak learner (simulated party)", "rayon-core thread pool (simulated fork/join scheduler)", "clock, entropy, file system calls (simulated)"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.steps", "probe.stops", "probe.goes_on", "probe.projections"]
    }
}

/// Is `new` what the Frank-Wolfe rule (or the linear program) makes of `old`?
#[allow(clippy::too_many_arguments)]
fn step(u: &[Vec<f64>], got: &[usize], old: &[f64], new: &[f64], j: usize, t: usize, d: &[f64], fw: Fw, eta: f64, nu: f64, mlp: bool, ex: &mut Exec) -> Option<String> {
    let sum: f64 = new.iter().sum();
    if (sum - 1.0).abs() > EXACT || new.iter().any(|w| *w < -EXACT) {
        return Some("the weights are not a convex combination".into());
    }
    if got.len() == 1 {
        return if (new[j] - 1.0).abs() > EXACT { Some("the only hypothesis has not all the weight".into()) } else { None };
    }
    let om = mix(u, old);
    let toward = |s: f64| -> Vec<f64> { old.iter().enumerate().map(|(k, w)| w * (1.0 - s) + if k == j { s } else { 0.0 }).collect() };
    let dir: Vec<f64> = (0..om.len()).map(|i| u[j][i] - om[i]).collect();
    let cand: Vec<Vec<f64>> = match fw {
        Fw::Classic => vec![toward(2.0 / (t as f64 + 2.0))],
        Fw::ShortStep => {
            let num = dot(d, &dir);
            let den = eta * dir.iter().fold(0.0f64, |a, b| a.max(b.abs())).powi(2);
            vec![toward(if num <= 0.0 { 0.0 } else if num >= den { 1.0 } else { num / den })]
        }
        Fw::LineSearch => vec![toward(ascend(&om, &dir, 1.0, eta, nu))],
        Fw::BlendedPairwise => {
            let active: Vec<usize> = (0..u.len()).filter(|k| old[*k] > 0.0).collect();
            let edge = |k: usize| dot(&u[k], d);
            let (Some(&a), Some(&b)) = (
                active.iter().min_by(|x, y| edge(**x).total_cmp(&edge(**y))),
                active.iter().max_by(|x, y| edge(**x).total_cmp(&edge(**y))),
            ) else { return None };
            let local = edge(b) - edge(a);
            let global = edge(j) - dot(d, &om);
            let ord = toward(ascend(&om, &dir, 1.0, eta, nu));
            let pdir: Vec<f64> = (0..om.len()).map(|i| u[b][i] - u[a][i]).collect();
            let s = ascend(&om, &pdir, old[a], eta, nu);
            let mut pair = old.to_vec();
            pair[b] += s;
            pair[a] -= s;
            // ties between equally good or bad ones leave a choice
            let ties = active.iter().any(|k| (*k != a && edge(*k) - edge(a) < 1e-9) || (*k != b && edge(b) - edge(*k) < 1e-9));
            if ties {
                return None;
            }
            if (local - global).abs() < 1e-9 { vec![ord, pair] } else if local > global { vec![pair] } else { vec![ord] }
        }
    };
    let far = |w: &[f64]| w.iter().zip(new).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
    let val = smooth(u, new, eta, nu);
    let searched = matches!(fw, Fw::LineSearch | Fw::BlendedPairwise);
    // a flat objective leaves a choice of the step
    let is = |w: &Vec<f64>| {
        far(w) <= 1e-6 || searched && (smooth(u, w, eta, nu) - val).abs() < 1e-6 && far(w) <= 1.0 && on_line(old, w, new)
    };
    if cand.iter().any(is) {
        if mlp && cand.len() == 1 {
            // the linear program's answer is at least this good
            let o = lp::solve(&got.iter().map(|k| u[*k].clone()).collect::<Vec<_>>(), nu)?;
            ex.worst("mlp.choice", (o.lower - val) * eta);
            if o.gap() < 1e-7 && val < o.lower - PERTURBED / eta {
                return Some(format!("the Frank-Wolfe step of value {val} is taken, the linear program's answer is worth at least {}", o.lower));
            }
        }
        return None;
    }
    if !mlp {
        let w = &cand[0];
        return Some(format!("the step should lead to {w:?} (value {}), not to a value of {val}", smooth(u, w, eta, nu)));
    }
    // the answer of the linear program
    let o = lp::solve(&got.iter().map(|k| u[*k].clone()).collect::<Vec<_>>(), nu)?;
    if o.gap() > 1e-7 {
        return None;
    }
    let s = lp::softmargin(&mix(u, new), nu);
    ex.worst("mlp.lp", (o.lower - s) * eta);
    if s < o.lower - PERTURBED / eta {
        return Some(format!("the weights are neither the Frank-Wolfe step nor optimal (soft margin {s} instead of {})", o.lower));
    }
    let best = cand.iter().map(|w| smooth(u, w, eta, nu)).fold(f64::INFINITY, f64::min);
    ex.worst("mlp.better", best - val);
    if best > val + 1e-6 {
        return Some(format!("the linear program's answer of value {val} is preferred to the Frank-Wolfe step of value {best}"));
    }
    None
}

/// Is `new` between (or beyond) `old` and `w` on one line?
fn on_line(old: &[f64], w: &[f64], new: &[f64]) -> bool {
    let a: Vec<f64> = w.iter().zip(old).map(|(w, o)| w - o).collect();
    let b: Vec<f64> = new.iter().zip(old).map(|(w, o)| w - o).collect();
    let aa = dot(&a, &a);
    if aa < 1e-18 {
        return dot(&b, &b) < 1e-12;
    }
    let s = dot(&a, &b) / aa;
    a.iter().zip(&b).all(|(a, b)| (b - s * a).abs() < 1e-6)
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&SubProblems]
}
