//! One simulated execution: a fresh OS thread with the virtual thread pool,
//! clock, entropy source and disk installed, in which all non-determinism of
//! the crate under test is decided by the case at hand.

use crate::rng::{Digest, Rng};
use crate::seam;
use rayon_core::sim;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// The environment of one execution: everything a scheduler, a kernel and a
/// boot would decide.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Env {
    /// Virtual worker threads of the rayon pool.
    pub threads: usize,
    /// Probability (per mille) that a forked task is stolen.
    pub steal: u32,
    /// Seed of the fork/join decisions.
    pub sched: u64,
    /// Scheduling decisions from here on are the default ones.
    pub sched_limit: u64,
    /// Seed of the entropy source (hash-map keys and the like).
    pub entropy: u64,
    pub clock0: u64,
    /// Nanoseconds that pass at each reading of a clock.
    pub tick: u64,
}
impl Default for Env {
    fn default() -> Self {
        Env { threads: 1, steal: 0, sched: 0, sched_limit: 0, entropy: 0, clock0: 1_000_000_000, tick: 0 }
    }
}
impl Env {
    pub fn gen(rng: &mut Rng) -> Env {
        Env {
            threads: *rng.pick(&[1, 1, 2, 3, 4, 8, 16, 64]),
            steal: *rng.pick(&[0, 50, 300, 500, 900, 1000]),
            sched: rng.u64() >> 16,
            sched_limit: 1_000_000_000_000,
            entropy: rng.u64() >> 16,
            clock0: *rng.pick(&[0u64, 1, 1_000_000_000, 3_600_000_000_000, 86_400_000_000_000 * 365]),
            tick: *rng.pick(&[0u64, 0, 1, 1000, 100_000]),
        }
    }
    /// Only the schedule and the hash keys vary.
    pub fn gen_sched(rng: &mut Rng) -> Env {
        Env { clock0: 1_000_000_000, tick: 0, ..Env::gen(rng) }
    }
}

pub enum End<T> {
    Done(T),
    /// The code under test panicked.
    Panic { msg: String, at: String },
    /// A simulated party crashed on purpose.
    Crash(String),
    /// The step budget of the run was exhausted.
    StepCap(String),
}
impl<T> End<T> {
    pub fn label(&self) -> &'static str {
        match self {
            End::Done(_) => "done",
            End::Panic { .. } => "panic",
            End::Crash(_) => "crash",
            End::StepCap(_) => "step-cap",
        }
    }
    pub fn describe(&self) -> String {
        match self {
            End::Done(_) => "finished".into(),
            End::Panic { msg, at } => format!("panicked at {at}: {msg}"),
            End::Crash(m) => format!("crashed: {m}"),
            End::StepCap(m) => format!("did not stop: {m}"),
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            End::Done(t) => Some(t),
            _ => None,
        }
    }
}

/// Payload of an injected crash of a party.
pub struct SimCrash(pub String);
/// Payload of an exhausted step budget.
pub struct StepCap(pub String);

static PANIC_INFO: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if std::thread::current().name() == Some("sim") {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<payload>".to_string()
            };
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            *PANIC_INFO.lock().unwrap_or_else(|e| e.into_inner()) = Some((msg, at));
        } else {
            default(info);
        }
    }));
}

#[derive(Clone, Debug, Default)]
pub struct RunStats {
    pub forks: u64,
    pub steals: u64,
    pub right_first: u64,
    pub sched_digest: u64,
    pub sim_ns: u64,
    pub clock_reads: u64,
    pub rand_calls: u64,
}

/// Run `f` as one simulated execution (on the disk that is installed).
pub fn simulate<T: Send, F: FnOnce() -> T + Send>(env: &Env, f: F) -> (End<T>, RunStats) {
    let sched = sim::Schedule {
        num_threads: env.threads.clamp(1, 1024),
        steal_permille: env.steal.min(1000),
        seed: env.sched,
        limit: env.sched_limit,
        masked: Vec::new(),
    };
    // The first use in a process asks the system whether it has entropy at all.
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        let _ = rand::RngCore::next_u64(&mut rand::rngs::OsRng);
    });
    *PANIC_INFO.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let mut stats = RunStats::default();
    let res = std::thread::scope(|s| {
        let stats = &mut stats;
        std::thread::Builder::new()
            .name("sim".into())
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                seam::entropy_start(env.entropy);
                seam::clock_start(env.clock0, env.tick);
                seam::mute(true);
                sim::begin(sched);
                let r = catch_unwind(AssertUnwindSafe(f));
                let st = sim::end();
                seam::mute(false);
                stats.clock_reads = seam::clock_reads();
                stats.sim_ns = seam::clock_stop() - env.clock0;
                stats.rand_calls = seam::entropy_stop();
                stats.forks = st.forks;
                stats.steals = st.steals;
                stats.right_first = st.right_first;
                stats.sched_digest = st.digest;
                r
            })
            .expect("spawn")
            .join()
    });
    let end = match res {
        Ok(Ok(t)) => End::Done(t),
        Ok(Err(p)) | Err(p) => {
            if let Some(c) = p.downcast_ref::<SimCrash>() {
                End::Crash(c.0.clone())
            } else if let Some(c) = p.downcast_ref::<StepCap>() {
                End::StepCap(c.0.clone())
            } else {
                let (msg, at) = PANIC_INFO
                    .lock()
                    .unwrap_or_else(|e| e.into_inner())
                    .take()
                    .unwrap_or(("<no message>".into(), "?".into()));
                End::Panic { msg, at: short_path(&at) }
            }
        }
    };
    (end, stats)
}

fn short_path(p: &str) -> String {
    match p.find("/src/") {
        Some(i) if p.starts_with("/repo") => p[i + 1..].to_string(),
        _ => p.rsplit('/').next().unwrap_or(p).to_string(),
    }
}

// ------------------------------------------------------------------ result

/// What one case showed.
#[derive(Default)]
pub struct Exec {
    pub violation: Option<(String, String)>,
    /// Hash of the event log of the case.
    pub digest: Digest,
    /// Hash of the states / interleavings visited.
    pub state: Digest,
    pub nontrivial: bool,
    pub counters: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub trace: Vec<String>,
    pub tracing: bool,
}
impl Exec {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_insert(0) += n;
        }
    }
    /// Histogram (by decades) of a deviation.
    pub fn worst(&mut self, k: &str, x: f64) {
        if x > 1e-9 {
            self.count(&format!("off.{k}.1e{}", x.log10().floor() as i64), 1);
        }
    }
    /// The first violation wins.
    pub fn fail(&mut self, class: &str, msg: String) {
        self.trace(|| format!("VIOLATION {class}: {msg}"));
        if self.violation.is_none() {
            self.violation = Some((class.to_string(), msg));
        }
    }
    pub fn trace(&mut self, f: impl FnOnce() -> String) {
        if self.tracing && self.trace.len() < 400 {
            let s = f();
            self.trace.push(s);
        }
    }
    pub fn absorb(&mut self, st: &RunStats) {
        self.count("sched.forks", st.forks);
        self.count("sched.steals", st.steals);
        self.count("sched.right_first", st.right_first);
        self.count("clock.reads", st.clock_reads);
        self.count("entropy.reads", st.rand_calls);
        self.count("executions", 1);
        self.sim_ns += st.sim_ns;
        self.digest.add(st.sched_digest);
        self.digest.add(st.sim_ns);
        self.digest.add(st.rand_calls);
        self.state.add(st.sched_digest);
    }
    /// Copies the disk's fault counters into the result.
    pub fn absorb_disk(&mut self) {
        let (fired, dg) = seam::with_disk(|d| (std::mem::take(&mut d.fired), d.digest));
        for (k, v) in fired {
            self.count(&format!("fault.disk.{k}"), v);
        }
        self.digest.add(dg.0);
    }
}
