//! The research logger: transparency, time limits, failing log files.

use super::boost::{gen_bcase, must_finish, BCase, ALL_KINDS};
use super::{parse, Prop};
use crate::lp;
use crate::party::*;
use crate::rng::Rng;
use crate::seam::{self, DiskFault, Op, What};
use crate::world::{simulate, End, Exec};
use miniboosts::research::objective_functions::{ExponentialLoss, HardMarginObjective, SoftMarginObjective};
use miniboosts::research::{Logger, LoggerBuilder, ObjectiveFunction, Research};
use miniboosts::{Booster, Classifier, Sample, WeakLearner};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::ops::ControlFlow;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "snake_case")]
enum Obj {
    #[default]
    Hard,
    Soft(f64),
    Exp,
}
impl Obj {
    fn eval(&self, conf: &[f64], pred: &[i64], y: &[i8]) -> f64 {
        let m: Vec<f64> = conf.iter().zip(y).map(|(c, y)| c * *y as f64).collect();
        match self {
            Obj::Hard => lp::softmargin(&m, 1.0),
            Obj::Soft(nu) => lp::softmargin(&m, *nu),
            Obj::Exp => pred.iter().zip(y).map(|(p, y)| (-(*p as f64) * *y as f64).exp()).sum::<f64>() / y.len() as f64,
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
enum Limit {
    Millis(u64),
    Secs(u64),
    Mins(u64),
}
impl Limit {
    fn ms(self) -> u128 {
        match self {
            Limit::Millis(x) => x as u128,
            Limit::Secs(x) => x as u128 * 1_000,
            Limit::Mins(x) => x as u128 * 60_000,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(default)]
struct LCase {
    base: BCase,
    test: Vec<i8>,
    obj: Obj,
    every: Option<usize>,
    limit: Option<Limit>,
    /// Milliseconds that each evaluation of the loss takes.
    eval_ms: u64,
    builder: bool,
    faults: Vec<DiskFault>,
    capacity: Option<u64>,
    /// Bytes of an older log under the same name.
    old: usize,
}
impl Default for LCase {
    fn default() -> Self {
        LCase {
            base: BCase { cfg: Cfg::GraphSep {}, sc: Scenario::default(), env: Default::default() },
            test: vec![1],
            obj: Obj::Hard,
            every: None,
            limit: None,
            eval_ms: 0,
            builder: false,
            faults: vec![],
            capacity: None,
            old: 0,
        }
    }
}

const MAX_ROUNDS: f64 = 500.0;

impl LCase {
    fn load(v: &Value) -> Option<LCase> {
        let mut c: LCase = parse(v)?;
        c.base = BCase::load(&serde_json::to_value(&c.base).ok()?)?;
        // sums split alike in both executions
        c.base.env.steal = 0;
        c.base.env.tick = 0;
        c.base.sc.script.retain(|r| *r != Reply::Crash);
        if c.base.sc.tail == Reply::Crash {
            return None;
        }
        let n = c.base.sc.n();
        c.test.truncate(n);
        if c.test.is_empty() {
            c.test.push(1);
        }
        for l in c.test.iter_mut() {
            *l = if *l < 0 { -1 } else { 1 };
        }
        if let Obj::Soft(nu) = &mut c.obj {
            *nu = if nu.is_finite() { nu.clamp(1.0, n as f64) } else { 1.0 };
        }
        if let Some(k) = &mut c.every {
            *k = (*k).max(1);
        }
        c.eval_ms = c.eval_ms.min(1_000_000);
        if let Some(Limit::Millis(x) | Limit::Secs(x) | Limit::Mins(x)) = &mut c.limit {
            *x = (*x).min(1 << 40);
        }
        c.old = c.old.min(1 << 16);
        c.base.cfg.bound(n).filter(|b| *b > MAX_ROUNDS).map_or(Some(()), |_| None)?;
        Some(c)
    }
}

fn gen_lcase(rng: &mut Rng, th: bool) -> LCase {
    let mut base = loop {
        let b = gen_bcase(rng, &ALL_KINDS, 0.6, th);
        if b.cfg.bound(b.sc.n()).unwrap_or(0.0) <= MAX_ROUNDS {
            break b;
        }
    };
    base.env.steal = 0;
    for r in base.sc.script.iter_mut() {
        if rng.chance(0.3) {
            *r = match rng.below(3) {
                0 => Reply::Slow(*rng.pick(&[1, 7, 40, 999, 1000, 1001, 59_000, 61_000])),
                1 => Reply::SlowUs(*rng.pick(&[1, 400, 600, 999, 1001, 2500])),
                _ => Reply::WallJump(*rng.pick(&[-86_400 * 365, -3600, -1, 1, 60, 86_400])),
            };
        }
    }
    let n = base.sc.n();
    let nt = rng.range(1, n);
    LCase {
        test: (0..nt).map(|_| if rng.chance(0.5) { 1 } else { -1 }).collect(),
        obj: match rng.below(3) {
            0 => Obj::Hard,
            1 => Obj::Exp,
            _ => Obj::Soft(gen_nu(rng, n)),
        },
        every: *rng.pick(&[None, Some(1), Some(3), Some(100), Some(usize::MAX >> 12)]),
        limit: None,
        eval_ms: *rng.pick(&[0, 0, 1, 500, 100_000]),
        builder: rng.chance(0.5),
        faults: vec![],
        capacity: None,
        old: *rng.pick(&[0, 0, 10, 5000]),
        base,
    }
}

struct WlRef<'a, 'b>(&'a SimWL<'b>);
impl WeakLearner for WlRef<'_, '_> {
    type Hypothesis = SimH;
    fn name(&self) -> &str {
        "SimWL"
    }
    fn produce(&self, s: &Sample, d: &[f64]) -> SimH {
        self.0.produce(s, d)
    }
}

// ---------------------------------------------------------------- reference

/// One round as seen by a caller of the step-wise interface.
struct Row {
    obj: f64,
    train: f64,
    test: f64,
    ms: u128,
    broke: bool,
}

fn err_rate(pred: &[i64], y: &[i8]) -> f64 {
    pred.iter().zip(y).filter(|(p, y)| **p != **y as i64).count() as f64 / y.len() as f64
}

struct Steps<'a, 'b> {
    wl: &'a SimWL<'b>,
    c: &'a LCase,
    test: &'a Sample,
    limit: Option<u128>,
}
impl Visit for Steps<'_, '_> {
    type Out = (Vec<Row>, Final);
    fn visit<'a, B>(self, mut b: B, train: &'a Sample) -> Self::Out
    where
        B: Booster<SimH> + Research<Output = <B as Booster<SimH>>::Output>,
        <B as Booster<SimH>>::Output: Inspect,
    {
        b.preprocess(self.wl);
        let mut ns = 0u128;
        let mut rows = vec![];
        for it in 1.. {
            let t = seam::clock_now();
            let flow = b.boost(self.wl, it);
            ns += (seam::clock_now() - t) as u128;
            let h = b.current_hypothesis();
            let (conf, pred) = (h.confidence_all(train), h.predict_all(train));
            let ptest = h.predict_all(self.test);
            let ms = ns / 1_000_000;
            let over = self.limit.map_or(false, |l| ms > l);
            let broke = matches!(flow, ControlFlow::Break(_));
            rows.push(Row {
                obj: self.c.obj.eval(&conf, &pred, &self.c.base.sc.labels),
                train: err_rate(&pred, &self.c.base.sc.labels),
                test: err_rate(&ptest, &self.c.test),
                ms,
                broke,
            });
            if over || broke {
                break;
            }
        }
        (rows, b.postprocess(self.wl).finish(train))
    }
}

/// The objective under test, chosen at run time.
struct AnyObj(Obj);
impl<H: Classifier> ObjectiveFunction<H> for AnyObj {
    fn name(&self) -> &str {
        "objective"
    }
    fn eval(&self, s: &Sample, h: &H) -> f64 {
        match self.0 {
            Obj::Hard => HardMarginObjective::new().eval(s, h),
            Obj::Soft(nu) => SoftMarginObjective::new(nu).eval(s, h),
            Obj::Exp => ExponentialLoss::new().eval(s, h),
        }
    }
}

const FILE: &str = "/simfs/log.csv";

/// `Logger::run`, once per entry of `plans` on the same logger.
struct Logged<'a, 'b> {
    wl: &'a SimWL<'b>,
    c: &'a LCase,
    test: &'a Sample,
    plans: Vec<(Vec<DiskFault>, Option<u64>)>,
}
struct LogOut {
    res: Result<Final, std::io::ErrorKind>,
    file: Option<Vec<u8>>,
    error_seen: bool,
    open: usize,
    log: Log,
}
impl Visit for Logged<'_, '_> {
    type Out = Vec<LogOut>;
    fn visit<'a, B>(self, b: B, train: &'a Sample) -> Self::Out
    where
        B: Booster<SimH> + Research<Output = <B as Booster<SimH>>::Output>,
        <B as Booster<SimH>>::Output: Inspect,
    {
        let eval_ms = self.c.eval_ms;
        let loss = move |s: &Sample, h: &<B as Booster<SimH>>::Output| -> f64 {
            seam::clock_advance(eval_ms * 1_000_000);
            let y = s.target();
            let bad = h.predict_all(s).into_iter().zip(y.iter()).filter(|(p, y)| *p != **y as i64).count();
            bad as f64 / y.len() as f64
        };
        let obj = AnyObj(self.c.obj);
        let wl = WlRef(self.wl);
        let mut lg = if self.c.builder {
            let mut l = LoggerBuilder::new()
                .booster(b)
                .weak_learner(wl)
                .objective_function(obj)
                .loss_function(loss)
                .train_sample(train)
                .test_sample(self.test);
            if let Some(k) = self.c.every {
                l = l.print_every(k);
            }
            match self.c.limit {
                Some(Limit::Millis(x)) => l = l.time_limit_as_millis(x as u128),
                Some(Limit::Secs(x)) => l = l.time_limit_as_secs(x),
                Some(Limit::Mins(x)) => l = l.time_limit_as_mins(x),
                None => {}
            }
            l.build()
        } else {
            let mut l = Logger::new(b, wl, obj, loss, train, self.test);
            if let Some(k) = self.c.every {
                l = l.print_every(k);
            }
            match self.c.limit {
                Some(Limit::Millis(x)) => l = l.time_limit_as_millis(x as u128),
                Some(Limit::Secs(x)) => l = l.time_limit_as_secs(x),
                Some(Limit::Mins(x)) => l = l.time_limit_as_mins(x),
                None => {}
            }
            l
        };
        let mut out = vec![];
        for (faults, cap) in self.plans {
            seam::with_disk(|d| {
                d.arm(faults);
                d.capacity = cap;
            });
            let res = lg.run(FILE);
            let (file, error_seen, open) = seam::with_disk(|d| {
                d.capacity = None;
                let r = (d.get(FILE).map(|f| f.to_vec()), d.error_seen, d.open_fds());
                d.arm(vec![]);
                r
            });
            out.push(LogOut { res: res.map(|h| h.finish(train)).map_err(|e| e.kind()), file, error_seen, open, log: self.wl.take() });
        }
        out
    }
}

struct Ref {
    rows: Vec<Row>,
    fin: Final,
    log: Log,
}

fn reference(c: &LCase, cap: usize, ex: &mut Exec) -> Option<Ref> {
    let mut log = Log::default();
    let (end, st) = {
        let log = &mut log;
        simulate(&c.base.env, move || {
            let (train, test) = (c.base.sc.sample(), make_sample(&c.test));
            let wl = SimWL::new(&c.base.sc, cap);
            let r = with_booster(&c.base.cfg, &train, Steps { wl: &wl, c, test: &test, limit: c.limit.map(|l| l.ms()) });
            *log = wl.take();
            r
        })
    };
    ex.absorb(&st);
    let (rows, fin) = match end {
        End::Done(r) => r,
        e => {
            ex.fail(e.label(), format!("{}: step by step: {}", c.base.cfg.name(), e.describe()));
            return None;
        }
    };
    ex.count("rounds", rows.len() as u64);
    for (k, v) in KINDS.iter().zip(log.kinds) {
        ex.count(k, v);
    }
    ex.count(&format!("booster.{}", c.base.cfg.name()), 1);
    ex.state.add(c.base.digest());
    ex.state.add(log.digest.0);
    ex.digest.add(log.digest.0);
    fin.digest(&mut ex.digest);
    Some(Ref { rows, fin, log })
}

fn logged(c: &LCase, cap: usize, plans: Vec<(Vec<DiskFault>, Option<u64>)>, ex: &mut Exec) -> Option<Vec<LogOut>> {
    seam::with_disk(|d| {
        d.arm(vec![]);
        if c.old > 0 {
            d.put(FILE, "old,log\n".repeat(c.old / 8 + 1).as_bytes());
        }
    });
    let (end, st) = simulate(&c.base.env, move || {
        let (train, test) = (c.base.sc.sample(), make_sample(&c.test));
        let wl = SimWL::new(&c.base.sc, cap);
        with_booster(&c.base.cfg, &train, Logged { wl: &wl, c, test: &test, plans })
    });
    ex.absorb(&st);
    ex.absorb_disk();
    match end {
        End::Done(r) => {
            for o in &r {
                ex.digest.add(o.log.digest.0);
                for b in o.file.iter().flatten() {
                    ex.digest.add(*b as u64);
                }
                ex.trace(|| format!("logger run: {}, file:\n{}", match &o.res { Ok(_) => "Ok".into(), Err(e) => format!("Err({e:?})") },
                    String::from_utf8_lossy(o.file.as_deref().unwrap_or(b"(none)")).lines().take(40).collect::<Vec<_>>().join("\n")));
            }
            Some(r)
        }
        End::Crash(_) => None,
        e => {
            ex.fail(e.label(), format!("{} under the logger: {}", c.base.cfg.name(), e.describe()));
            None
        }
    }
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0 + b.abs())
}

/// A complete log file against the reference rounds.
fn check_file(who: &str, file: &[u8], rows: &[Row], ex: &mut Exec) {
    let Ok(text) = std::str::from_utf8(file) else {
        ex.fail("log-text", format!("{who}: the log is not text"));
        return;
    };
    let mut lines = text.split('\n').collect::<Vec<_>>();
    if lines.pop() != Some("") {
        ex.fail("log-torn", format!("{who}: the last line of the log is not complete"));
        return;
    }
    let head: Vec<&str> = lines.first().map(|l| l.split(',').map(|x| x.trim()).collect()).unwrap_or_default();
    if head != ["ObjectiveValue", "TrainLoss", "TestLoss", "Time"] {
        ex.fail("log-header", format!("{who}: the log's header is {head:?}"));
        return;
    }
    if lines.len() - 1 != rows.len() {
        ex.fail("log-rows", format!("{who}: {} rows were logged for {} rounds", lines.len() - 1, rows.len()));
        return;
    }
    for (t, (l, r)) in lines[1..].iter().zip(rows).enumerate() {
        let f: Vec<&str> = l.split(',').collect();
        if f.len() != 4 {
            ex.fail("log-columns", format!("{who}: row {} has {} columns", t + 1, f.len()));
            return;
        }
        for (k, (name, want)) in [("objective", r.obj), ("training loss", r.train), ("test loss", r.test)].into_iter().enumerate() {
            let got = f[k].parse::<f64>().unwrap_or(f64::NAN);
            if !close(got, want) {
                ex.fail("log-value", format!("{who}: row {}: the logged {name} is {}, that of the combined hypothesis is {want}", t + 1, f[k]));
                return;
            }
        }
        if f[3].parse::<u128>().ok() != Some(r.ms) {
            ex.fail("log-time", format!("{who}: row {}: the logged time is {} ms, boosting took {} ms so far", t + 1, f[3], r.ms));
            return;
        }
    }
}

fn check_ok(c: &LCase, o: &LogOut, r: &Ref, ex: &mut Exec) {
    let who = c.base.cfg.name();
    let Ok(f) = &o.res else {
        ex.fail("log-error", format!("{who}: the logger failed with {:?} on a healthy disk", o.res.as_ref().err()));
        return;
    };
    if o.log.dists.len() != r.log.dists.len() {
        ex.fail("rounds", format!("{who}: {} rounds with the logger, {} without", o.log.dists.len(), r.log.dists.len()));
        return;
    }
    for (t, (a, b)) in o.log.dists.iter().zip(&r.log.dists).enumerate() {
        if a != b {
            ex.fail("history", format!("{who}: round {}: {a:?} with the logger, {b:?} without", t + 1));
            return;
        }
    }
    if f.bits() != r.fin.bits() {
        ex.fail("result", format!("{who}: the vote is {:?} {:?} with the logger, {:?} {:?} without", f.weights, f.conf, r.fin.weights, r.fin.conf));
        return;
    }
    match &o.file {
        None => ex.fail("no-log", format!("{who}: there is no log file")),
        Some(x) => check_file(who, x, &r.rows, ex),
    }
    if o.open > 0 {
        ex.fail("leak", format!("{who}: {} files stay open", o.open));
    }
}

fn cap_of(c: &LCase) -> usize {
    super::boost::round_cap(&c.base.cfg, &c.base.sc)
}

const REAL: &[&str] = &["Logger and LoggerBuilder", "objective functions", "all boosters of the crate", "std::fs / std::io / std::time on simulated system calls", "Sample and SampleReader"];
const STUBS: &[&str] = &["weak learner (simulated party)", "rayon-core thread pool (simulated fork/join scheduler)", "disk, clock, entropy (simulated system calls)"];

// ----------------------------------------------------------------- B07

pub struct Transparent;

impl Prop for Transparent {
    fn id(&self) -> &'static str {
        "B07"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let mut c = gen_lcase(rng, th);
        if rng.chance(0.3) {
            c.limit = Some(Limit::Millis(*rng.pick(&[0, 1, 40, 1000, 60_000])));
        }
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = LCase::load(case) else { return };
        c.faults.clear();
        c.capacity = None;
        let cap = cap_of(&c);
        let Some(r) = reference(&c, cap, ex) else { return };
        // the step-wise reference is itself what a plain run does
        let mut sub = Exec { tracing: ex.tracing, ..Exec::default() };
        let (end, log, _) = super::boost::run_booster(&c.base, cap, &mut sub);
        let Some(f) = must_finish(end, ex, c.base.cfg.name()) else { return };
        // a run that its time limit ends is the beginning of a plain one
        let whole = r.rows.last().map_or(true, |x| x.broke);
        let same = match whole {
            true => log.dists == r.log.dists && f.bits() == r.fin.bits(),
            false => log.dists.starts_with(&r.log.dists),
        };
        ex.count(if whole { "probe.whole_runs" } else { "probe.stopped_by_limit" }, 1);
        if !same {
            ex.fail("plain-run", format!("{}: a plain run differs from its own steps (or asking for the current hypothesis changes it)", c.base.cfg.name()));
            return;
        }
        let Some(o) = logged(&c, cap, vec![(vec![], None)], ex) else { return };
        check_ok(&c, &o[0], &r, ex);
        ex.nontrivial = r.rows.len() >= 2;
        ex.count("probe.rows_compared", r.rows.len() as u64);
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 240_000 } else { 24_000 }
    }
    fn rule(&self) -> &'static str {
        "random booster, parameters, reply script with slow rounds and clock jumps, test sample, objective, printing interval, slow evaluations; the logged run is compared with a plain run and with its own steps; non-trivial: at least two rounds"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.rows_compared", "probe.whole_runs", "probe.stopped_by_limit", "fault.party.slow", "fault.clock.jump"]
    }
}

// ----------------------------------------------------------------- B08

pub struct TimeLimit;

impl Prop for TimeLimit {
    fn id(&self) -> &'static str {
        "B08"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let mut c = gen_lcase(rng, th);
        let n = c.base.sc.script.len();
        let k = rng.range(0, 6).min(n);
        for _ in 0..k {
            let i = rng.below(n);
            c.base.sc.script[i] = Reply::Slow(*rng.pick(&[1, 2, 500, 999, 1000, 30_000, 60_000, 60_001]));
        }
        let total: u64 = c.base.sc.script.iter().map(|r| match r { Reply::Slow(x) => *x, _ => 0 }).sum();
        let wide = 1u64 << 32;
        c.limit = Some(match rng.below(8) {
            0 => Limit::Millis(0),
            // far away, but not for a narrow integer
            6 => Limit::Millis(wide + rng.below(total as usize + 2) as u64),
            7 => if rng.chance(0.5) {
                Limit::Secs(rng.pick(&[wide, wide / 1000 + 1]) + rng.below(total as usize / 1000 + 2) as u64)
            } else {
                Limit::Mins(rng.pick(&[wide, wide / 60 + 1, wide / 60_000 + 1]) + rng.below(total as usize / 60_000 + 2) as u64)
            },
            1 => Limit::Millis(rng.below(total as usize + 2) as u64),
            2 => {
                // exactly at a round's time
                let j = rng.below(n + 1);
                Limit::Millis(c.base.sc.script[..j].iter().map(|r| match r { Reply::Slow(x) => *x, _ => 0 }).sum())
            }
            3 => Limit::Secs(rng.below(total as usize / 1000 + 2) as u64),
            4 => Limit::Mins(rng.below(total as usize / 60_000 + 2) as u64),
            _ => Limit::Millis(1),
        });
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = LCase::load(case) else { return };
        c.faults.clear();
        c.capacity = None;
        let Some(lim) = c.limit else { return };
        let cap = cap_of(&c);
        let Some(r) = reference(&c, cap, ex) else { return };
        let Some(o) = logged(&c, cap, vec![(vec![], None)], ex) else { return };
        ex.nontrivial = r.rows.len() >= 2;
        let last = r.rows.last().map_or(0, |x| x.ms);
        if last > lim.ms() {
            ex.count("probe.stopped_by_limit", 1);
        } else {
            ex.count("probe.finished_in_time", 1);
        }
        if r.rows.len() >= 2 && r.rows.iter().any(|x| x.ms == lim.ms() && !x.broke) {
            ex.count("probe.exactly_at_limit", 1);
        }
        ex.trace(|| format!("limit {lim:?}; times {:?}", r.rows.iter().map(|x| x.ms).collect::<Vec<_>>()));
        check_ok(&c, &o[0], &r, ex);
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 500_000 } else { 50_000 }
    }
    fn rule(&self) -> &'static str {
        "random booster and reply script with slow rounds, clock jumps and slow evaluations, random time limit in every unit, often exactly at a round's end; non-trivial: at least two rounds"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.stopped_by_limit", "probe.finished_in_time", "probe.exactly_at_limit", "fault.clock.jump"]
    }
}

// ----------------------------------------------------------------- B09

pub struct LogFaults;

pub fn gen_write_faults(rng: &mut Rng, rows: u64) -> Vec<DiskFault> {
    let k = rng.range(1, 4);
    (0..k)
        .map(|_| {
            let op = *rng.pick(&[Op::Write, Op::Write, Op::Write, Op::Write, Op::Open]);
            let what = match (op, rng.below(8)) {
                (Op::Open, _) => What::Errno(*rng.pick(&[libc::EINTR, libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EROFS])),
                (_, 0 | 1) => What::Short(rng.below(12) as u64 + 1),
                (_, 2 | 3) => What::Errno(libc::EINTR),
                (_, 4) => What::Zero,
                _ => What::Errno(*rng.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG])),
            };
            let nth = if op == Op::Open { 0 } else { rng.below(rows as usize + 2) as u64 };
            let hard_eintr = matches!(what, What::Errno(libc::EINTR)) || matches!(what, What::Short(_));
            DiskFault { op, nth, what, sticky: !hard_eintr && rng.chance(0.3) }
        })
        .collect()
}

impl Prop for LogFaults {
    fn id(&self) -> &'static str {
        "B09"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let mut c = gen_lcase(rng, th);
        let rows = *rng.pick(&[2, 4, 12, 40]);
        if rng.chance(0.8) {
            c.faults = gen_write_faults(rng, rows);
        }
        if rng.chance(0.25) || c.faults.is_empty() {
            let hi = if rng.chance(0.3) { 40 } else { 1500 };
            c.capacity = Some(rng.below(hi) as u64);
        }
        if rng.chance(0.2) {
            c.limit = Some(Limit::Millis(rng.below(2000) as u64));
        }
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = LCase::load(case) else { return };
        c.faults.truncate(8);
        if c.capacity.is_some() {
            c.old = 0;
        }
        for f in c.faults.iter_mut() {
            // an interruption that never ends is a hang of any program
            if f.what == What::Errno(libc::EINTR) {
                f.sticky = false;
            }
            if let What::Short(k) = &mut f.what {
                *k = (*k).max(1);
            }
        }
        let who = c.base.cfg.name();
        let cap = cap_of(&c);
        let Some(r) = reference(&c, cap, ex) else { return };
        let Some(o) = logged(&c, cap, vec![(c.faults.clone(), c.capacity), (vec![], None)], ex) else { return };
        ex.nontrivial = !r.rows.is_empty();
        let (a, b) = (&o[0], &o[1]);
        // the second run met a healthy disk and must have left a full log
        check_ok(&c, b, &r, ex);
        if ex.violation.is_some() {
            return;
        }
        let full = b.file.clone().unwrap_or_default();
        let opened = !c.faults.iter().any(|f| f.op == Op::Open && f.nth == 0 && f.what != What::Errno(libc::EINTR));
        if a.error_seen {
            ex.count("probe.failing_logs", 1);
            if a.res.is_ok() {
                ex.fail("swallowed", format!("{who}: the logger reports success although writing its log failed ({} of {} bytes are there)",
                    a.file.as_ref().map_or(0, |f| f.len()), full.len()));
                return;
            }
        } else {
            ex.count("probe.harmless_faults", 1);
            check_ok(&c, a, &r, ex);
            if ex.violation.is_some() {
                return;
            }
        }
        if opened {
            let got = a.file.clone().unwrap_or_default();
            if !full.starts_with(&got) {
                ex.fail("not-a-prefix", format!("{who}: after a failure the log is not a prefix of the full one: {:?}", String::from_utf8_lossy(&got)));
            }
        }
        if a.open > 0 {
            ex.fail("leak", format!("{who}: {} files stay open", a.open));
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 240_000 } else { 24_000 }
    }
    fn rule(&self) -> &'static str {
        "random booster and script; the log's disk fails at random calls (open errors, short and interrupted writes, I/O errors, full disk), then the same logger runs again on a healthy disk; non-trivial: at least one round"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.failing_logs", "probe.harmless_faults", "fault.disk.write-short", "fault.disk.write-eintr", "fault.disk.write-enospc"]
    }
}

// ----------------------------------------------------------------- B32

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct PCase {
    log: LCase,
    /// Bytes that the console takes at a time; which calls are interrupted.
    most: u64,
    eintr: u64,
}

/// Text without its colours.
fn plain(s: &[u8]) -> String {
    let s = String::from_utf8_lossy(s);
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}
/// A printed duration: milliseconds and the unit it is rounded down to.
fn printed_time(words: &[&str]) -> Option<(u128, u128)> {
    let num = |w: &str, unit: char| -> Option<u128> { w.strip_suffix(unit)?.parse().ok() };
    match words {
        [w] => {
            let (a, b) = w.strip_suffix('s')?.split_once('.')?;
            (b.len() == 3).then_some(())?;
            Some((a.parse::<u128>().ok()? * 1000 + b.parse::<u128>().ok()?, 1))
        }
        [a, b] if a.ends_with('m') => Some((num(a, 'm')? * 60_000 + num(b, 's')? * 1000, 1000)),
        [a, b] => Some((num(a, 'h')? * 3_600_000 + num(b, 'm')? * 60_000, 60_000)),
        _ => None,
    }
}
fn check_console(c: &LCase, text: &str, rows: &[Row], ex: &mut Exec) {
    let who = c.base.cfg.name();
    let limit = c.limit.map(|l| l.ms());
    let mut want: Vec<(&str, usize)> = vec![];
    for (t, r) in rows.iter().enumerate() {
        let over = limit.map_or(false, |l| r.ms > l);
        if over {
            want.push(("[TLE]", t));
            continue;
        }
        // by default every hundredth round
        let k = c.every.unwrap_or(100);
        if k != usize::MAX {
            if (t + 1) % k == 0 {
                want.push(("[LOG]", t));
            }
            if r.broke {
                want.push(("[FIN]", t));
            }
        }
    }
    let got: Vec<Vec<&str>> = text
        .lines()
        .map(|l| l.split_whitespace().collect::<Vec<_>>())
        .filter(|w| w.first().map_or(false, |w| ["[TLE]", "[LOG]", "[FIN]"].contains(w)))
        .collect();
    for (i, w) in got.iter().enumerate() {
        let Some((tag, t)) = want.get(i) else {
            ex.fail("console-rows", format!("{who}: printed {w:?} although nothing more was due after {} lines ({} rounds, every {:?})", want.len(), rows.len(), c.every));
            return;
        };
        if w[0] != *tag || w.get(1).and_then(|x| x.parse::<usize>().ok()) != Some(t + 1) {
            ex.fail("console-rows", format!("{who}: printed {w:?} where {tag} of round {} was due", t + 1));
            return;
        }
        let r = &rows[*t];
        if w.len() < 6 {
            ex.fail("console-rows", format!("{who}: printed {w:?}: values are missing"));
            return;
        }
        for (k, (name, v)) in [("objective", r.obj), ("training loss", r.train), ("test loss", r.test)].into_iter().enumerate() {
            let x = w[k + 2].parse::<f64>().unwrap_or(f64::NAN);
            let unit = 10f64.powi(-(w[k + 2].split_once('.').map_or(0, |p| p.1.len()) as i32));
            let exact = v.is_nan() && x.is_nan() || v == x;
            if !exact && !((x - v).abs() <= 0.51 * unit + 1e-9 * v.abs() && unit < 1e-3) {
                ex.fail("console-value", format!("{who}: the {name} of round {} is printed as {}, it is {v}", t + 1, w[k + 2]));
                return;
            }
        }
        match printed_time(&w[5..]) {
            Some((ms, unit)) if ms <= r.ms && r.ms < ms + unit => {}
            _ => {
                ex.fail("console-time", format!("{who}: the time of round {} is printed as {:?}, it is {} ms", t + 1, &w[5..], r.ms));
                return;
            }
        }
        ex.count("probe.printed_rows", 1);
        ex.count(match *tag { "[LOG]" => "probe.progress", "[FIN]" => "probe.end", _ => "probe.time_out" }, 1);
    }
    if got.len() != want.len() {
        ex.fail("console-rows", format!("{who}: {} of round {} was not printed", want[got.len()].0, want[got.len()].1 + 1));
        return;
    }
    // the summary at the beginning
    let value = |key: &str| -> Option<String> {
        let l = text.lines().find(|l| l.trim_start_matches([' ', '+']).starts_with(key))?;
        Some(l.trim_start_matches([' ', '+']).strip_prefix(key)?.trim().to_string())
    };
    let lim = match (value("Time Limit").unwrap_or_default(), limit) {
        (s, None) => s == "Nothing",
        (s, Some(l)) => printed_time(&s.split_whitespace().collect::<Vec<_>>()).map_or(false, |(ms, unit)| ms <= l && l < ms + unit),
    };
    if !lim {
        ex.fail("console-stats", format!("{who}: the time limit {limit:?} ms is printed as {:?}", value("Time Limit")));
        return;
    }
    // parameters and bounds, where the booster mentions them
    let n = c.base.sc.n();
    let (mut tol, mut nu) = (None, None);
    match c.base.cfg {
        Cfg::Ada { tol: t, .. } | Cfg::AdaV { tol: t, .. } | Cfg::Mada { tol: t, .. } => tol = t,
        Cfg::Total { tol: t } => tol = Some(t),
        Cfg::Soft { nu: v, tol: t } | Cfg::Erlp { nu: v, tol: t } | Cfg::Cerlp { nu: v, tol: t, .. } | Cfg::Mlp { nu: v, tol: t, .. } => {
            tol = Some(t);
            nu = Some(v);
        }
        _ => {}
    }
    let num = |key: &str| value(key).and_then(|v| v.split_whitespace().next().and_then(|w| w.parse::<f64>().ok()));
    let quit = matches!(c.base.cfg, Cfg::Ada { quit: Some(_), .. } | Cfg::AdaV { quit: Some(_), .. } | Cfg::Mada { quit: Some(_), .. });
    if let (Some(got), Some(t)) = (num("Tolerance"), tol) {
        if !((got - t).abs() <= 1e-9 * t) {
            ex.fail("console-stats", format!("{who}: the tolerance {t} is printed as {got}"));
            return;
        }
        ex.count("probe.tolerances", 1);
    }
    if let (Some(got), Some(v)) = (num("Capping (outliers)"), nu) {
        if !((got - v).abs() <= 1e-9 * v) {
            ex.fail("console-stats", format!("{who}: nu = {v} is printed as {got}"));
            return;
        }
        ex.count("probe.cappings", 1);
    }
    if let (Some(got), Some(b), false) = (num("Max iteration"), c.base.cfg.bound(n), quit) {
        if !((got - b).abs() <= 1.0 + 1e-9 * b) {
            ex.fail("console-stats", format!("{who}: the bound of {b} rounds is printed as {got}"));
            return;
        }
        ex.count("probe.bounds", 1);
    }
    for (key, want) in [("# of examples", c.base.sc.n().to_string()), ("Objective", "objective".into()), ("Weak Learner", "SimWL".into())] {
        if value(key).as_deref() != Some(&want) {
            ex.fail("console-stats", format!("{who}: {key:?} is printed as {:?}, not {want:?}", value(key)));
            return;
        }
    }
}

/// The report on the console.
pub struct Console;

impl Prop for Console {
    fn id(&self) -> &'static str {
        "B32"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let mut log = gen_lcase(rng, th);
        log.every = *rng.pick(&[None, Some(1), Some(1), Some(2), Some(3), Some(7), Some(100), Some(usize::MAX)]);
        for r in log.base.sc.script.iter_mut() {
            if rng.chance(0.15) {
                *r = Reply::Slow(*rng.pick(&[1, 60, 999, 1000, 59_999, 60_000, 3_599_999, 3_600_000, 7_260_000]));
            }
        }
        if rng.chance(0.5) {
            log.limit = Some(match rng.below(4) {
                0 => Limit::Millis(rng.below(3000) as u64),
                1 => Limit::Secs(rng.below(4000) as u64),
                2 => Limit::Mins(rng.below(200) as u64),
                _ => Limit::Millis(*rng.pick(&[0, 59_999, 60_000, 3_600_000, 1 << 40])),
            });
        }
        let most = *rng.pick(&[0, 0, 0, 1, 7, 100]);
        serde_json::to_value(PCase { log, most, eintr: *rng.pick(&[0, 0, 2, 5]) }).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(p) = parse::<PCase>(case) else { return };
        let Some(mut c) = LCase::load(&serde_json::to_value(&p.log).unwrap()) else { return };
        c.faults.clear();
        c.capacity = None;
        let cap = cap_of(&c);
        let Some(r) = reference(&c, cap, ex) else { return };
        let eintr = if p.eintr == 1 { 2 } else { p.eintr };
        seam::console_start(p.most, eintr);
        let o = logged(&c, cap, vec![(vec![], None)], ex);
        let text = plain(&seam::console_take());
        let Some(o) = o else { return };
        if std::env::var_os("DST_LOUD").is_some() {
            return;
        }
        ex.count("fault.console.short", (p.most > 0) as u64);
        ex.count("fault.console.eintr", (eintr > 0) as u64);
        ex.digest.add_str(&text);
        ex.nontrivial = r.rows.len() >= 2;
        ex.trace(|| format!("console:\n{text}"));
        check_console(&c, &text, &r.rows, ex);
        if ex.violation.is_none() {
            check_ok(&c, &o[0], &r, ex);
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 400_000 } else { 40_000 }
    }
    fn rule(&self) -> &'static str {
        "random booster, script with slow rounds up to hours, printing interval and time limit; the console takes few bytes at a time and is interrupted; what it got is compared with the run's own steps; non-trivial: at least two rounds"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["weak learner (simulated party)", "rayon-core thread pool (simulated fork/join scheduler)", "disk, console, clock, entropy (simulated system calls)"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.progress", "probe.end", "probe.time_out", "fault.console.short", "fault.console.eintr"]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&Transparent, &TimeLimit, &LogFaults, &Console]
}
