//! Batches of runs over worker processes, evidence, replay and minimisation.

use crate::props::{self, Prop};
use crate::rng::Rng;
use crate::world::Exec;
use crate::{seam, shrink};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t.trim() == "thorough").unwrap_or(false)
}

/// A case is always what its JSON text says.
fn canon(v: Value) -> Value {
    serde_json::from_str(&v.to_string()).expect("case JSON")
}
pub fn case_of(p: &dyn Prop, seed: u64, idx: u64, thorough: bool) -> Value {
    let mut rng = Rng::derive(seed, p.id(), idx);
    canon(p.gen(&mut rng, idx, thorough))
}
pub fn run_case(p: &dyn Prop, case: &Value, tracing: bool) -> Exec {
    let mut ex = Exec { tracing, ..Exec::default() };
    seam::disk_reset();
    p.exec(case, &mut ex);
    ex.absorb_disk();
    ex
}

#[derive(Clone)]
pub struct Known {
    property: String,
    class: String,
    contains: String,
    what: String,
}
fn known_findings() -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.jsonl", verif())) else { return vec![] };
    s.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v.get("status").and_then(|s| s.as_str()) == Some("known"))
        .map(|v| {
            let g = |k: &str| v.get(k).and_then(|s| s.as_str()).unwrap_or("").to_string();
            Known { property: g("property"), class: g("class"), contains: g("contains"), what: g("what") }
        })
        .collect()
}
fn is_known<'a>(ks: &'a [Known], id: &str, class: &str, msg: &str) -> Option<&'a Known> {
    ks.iter().find(|k| k.property == id && k.class == class && !k.contains.is_empty() && msg.contains(&k.contains))
}

// ------------------------------------------------------------------ worker

fn limit_memory() {
    unsafe {
        let r = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

pub fn worker(id: &str, k: u64, n: u64, runs: u64, wall_s: u64) -> i32 {
    limit_memory();
    let p = props::get(id).expect("property");
    let (seed, th) = (seed(), thorough());
    let ks = known_findings();
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut say = |s: String| {
        let mut o = out.lock();
        let _ = o.write_all(s.as_bytes());
        let _ = o.write_all(b"\n");
        let _ = o.flush();
    };
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let (mut done, mut nontrivial, mut sim_ns) = (0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = Vec::new();
    let mut sample_next = 1u64;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut idx = k;
    let mut capped = false;
    while idx < runs {
        if t0.elapsed().as_secs() >= wall_s {
            capped = true;
            break;
        }
        say(format!("R {idx}"));
        let case = case_of(p, seed, idx, th);
        let ex = run_case(p, &case, false);
        done += 1;
        sim_ns = sim_ns.saturating_add(ex.sim_ns);
        for (c, v) in &ex.counters {
            *counters.entry(c.clone()).or_insert(0) += v;
        }
        if ex.nontrivial && states.insert(ex.state.0) {
            nontrivial += 1;
        }
        if ex.nontrivial && done >= sample_next && samples.len() < 3 {
            let s = case.to_string();
            samples.push(json!({"index": idx, "case": if s.len() > 1500 { json!(format!("{}…", s.chars().take(1500).collect::<String>())) } else { case.clone() }, "event_log_digest": format!("{:016x}", ex.digest.0)}));
            sample_next = done * 50;
        }
        if let Some((class, msg)) = &ex.violation {
            if let Some(kf) = is_known(&ks, id, class, msg) {
                *known.entry(kf.what.clone()).or_insert(0) += 1;
            } else {
                say(format!("V {idx} {}", json!([class, msg])));
                break;
            }
        }
        idx += n;
    }
    let st: Vec<String> = states.iter().map(|s| format!("{s:x}")).collect();
    say(format!(
        "S {}",
        json!({"done": done, "nontrivial": nontrivial, "sim_ns": sim_ns, "counters": counters, "samples": samples,
               "states": st.join(" "), "known": known, "capped": capped})
    ));
    0
}

// ------------------------------------------------------------------- check

enum Msg {
    Line(usize, String),
    Eof(usize),
}

fn spawn_self(args: &[String]) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .stdin(Stdio::null())
        .spawn()
        .expect("spawn worker")
}

/// Run a subcommand; None on time-out.
fn run_self(args: &[String], limit: Duration) -> Option<(Option<i32>, String)> {
    let mut c = spawn_self(args);
    let mut so = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut s);
        let _ = tx.send(s);
    });
    match rx.recv_timeout(limit) {
        Ok(s) => {
            let st = c.wait().ok()?;
            Some((st.code(), s))
        }
        Err(_) => {
            let _ = c.kill();
            let _ = c.wait();
            None
        }
    }
}

const HANG_S: u64 = 100;

pub fn check(id: &str) -> i32 {
    let Some(p) = props::get(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let (seed, th) = (seed(), thorough());
    let env_u = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let runs = env_u("DST_RUNS").unwrap_or_else(|| p.runs(th));
    let wall_s = env_u("DST_WALL").unwrap_or(if th { 800 } else { 240 });
    let nw = env_u("DST_WORKERS").unwrap_or(8).max(1) as usize;
    println!("check {id} seed={seed} tier={} runs={runs} workers={nw}", if th { "thorough" } else { "quick" });
    let t0 = Instant::now();
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut kids: Vec<Child> = Vec::new();
    for k in 0..nw {
        let mut c = spawn_self(&[
            "worker".into(),
            id.into(),
            k.to_string(),
            nw.to_string(),
            runs.to_string(),
            wall_s.to_string(),
        ]);
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Msg::Line(k, l)).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Msg::Eof(k));
        });
        kids.push(c);
    }
    let mut cur: Vec<Option<u64>> = vec![None; nw];
    let mut last: Vec<Instant> = vec![Instant::now(); nw];
    let mut alive = vec![true; nw];
    let mut summed = vec![false; nw];
    let mut viol: BTreeMap<u64, (String, String)> = BTreeMap::new();
    let mut sums: Vec<Value> = Vec::new();
    while alive.iter().any(|a| *a) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(k, l)) => {
                last[k] = Instant::now();
                if let Some(i) = l.strip_prefix("R ") {
                    cur[k] = i.parse().ok();
                } else if let Some(r) = l.strip_prefix("V ") {
                    let (i, rest) = r.split_once(' ').unwrap();
                    let v: Value = serde_json::from_str(rest).unwrap();
                    viol.insert(
                        i.parse().unwrap(),
                        (v[0].as_str().unwrap().into(), v[1].as_str().unwrap().into()),
                    );
                } else if let Some(r) = l.strip_prefix("S ") {
                    summed[k] = true;
                    sums.push(serde_json::from_str(r).unwrap());
                }
            }
            Ok(Msg::Eof(k)) => {
                alive[k] = false;
                let st = kids[k].wait();
                if !summed[k] {
                    if let Some(i) = cur[k] {
                        viol.entry(i).or_insert((
                            "abort".into(),
                            format!("the process running the simulation ended abnormally: {st:?}"),
                        ));
                    } else {
                        eprintln!("worker {k} failed to start: {st:?}");
                        return 2;
                    }
                }
            }
            Err(_) => {}
        }
        let first = viol.keys().next().copied();
        for k in 0..nw {
            if !alive[k] || summed[k] {
                continue;
            }
            if last[k].elapsed().as_secs() >= HANG_S {
                if let Some(i) = cur[k] {
                    viol.entry(i).or_insert((
                        "hang".into(),
                        format!("the simulated execution made no progress for {HANG_S} s of real time"),
                    ));
                }
                summed[k] = true;
                let _ = kids[k].kill();
            }
            if let (Some(f), Some(c)) = (first, cur[k]) {
                if c > f {
                    summed[k] = true;
                    let _ = kids[k].kill();
                }
            }
        }
    }
    // -------- totals
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: BTreeSet<String> = BTreeSet::new();
    let mut samples = Vec::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let (mut done, mut sim_ns) = (0u64, 0u64);
    let mut capped = false;
    for s in &sums {
        done += s["done"].as_u64().unwrap_or(0);
        sim_ns = sim_ns.saturating_add(s["sim_ns"].as_u64().unwrap_or(0));
        capped |= s["capped"].as_bool().unwrap_or(false);
        for (k, v) in s["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
        }
        for (k, v) in s["known"].as_object().unwrap() {
            *known.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
        }
        for t in s["states"].as_str().unwrap().split(' ').filter(|t| !t.is_empty()) {
            states.insert(t.to_string());
        }
        if samples.len() < 6 {
            samples.extend(s["samples"].as_array().unwrap().iter().cloned());
        }
    }
    if samples.is_empty() {
        let c = case_of(p, seed, 0, th);
        samples.push(json!({"index": 0, "case": c}));
    }
    let search_wall = t0.elapsed().as_secs_f64();
    let distinct = states.len() as u64;

    // -------- the first violation, confirmed in a fresh process
    let mut exit = 0;
    let mut reported = Value::Null;
    if let Some((idx, (class, msg))) = viol.iter().next() {
        let dir = format!("{}/replays", verif());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-{seed}-{idx}.json");
        let case = case_of(p, seed, *idx, th);
        let write = |case: &Value, class: &str, msg: &str, extra: Value| {
            let v = json!({"property": id, "seed": seed, "index": idx, "tier": if th {"thorough"} else {"quick"},
                "class": class, "message": msg, "case": case, "info": extra});
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
        };
        write(&case, class, msg, json!({"minimised": false}));
        let mut ok = false;
        if class == "hang" || class == "abort" {
            let r = run_self(&["replay".into(), path.clone(), "--inner".into()], Duration::from_secs(HANG_S));
            ok = match r {
                None => class == "hang",
                Some((code, _)) => class == "abort" && !matches!(code, Some(0)),
            };
        } else {
            let orig = std::fs::read(&path).unwrap();
            let _ = run_self(&["minimize".into(), path.clone()], Duration::from_secs(180));
            for attempt in 0..2 {
                if attempt == 1 {
                    std::fs::write(&path, &orig).unwrap();
                }
                let r = run_self(&["replay".into(), path.clone()], Duration::from_secs(HANG_S));
                if matches!(r, Some((Some(1), _))) {
                    ok = true;
                    break;
                }
            }
        }
        if ok {
            let v: Value = serde_json::from_slice(&std::fs::read(&path).unwrap()).unwrap();
            println!("run {idx}: {}: {}", v["class"].as_str().unwrap_or(""), v["message"].as_str().unwrap_or(""));
            println!("VIOLATION property={id} replay={path}");
            reported = json!({"index": idx, "class": v["class"], "message": v["message"], "replay": path});
            exit = 1;
        } else {
            eprintln!("run {idx} reported {class}: {msg}\nbut the replay does not reproduce it: harness error");
            exit = 2;
        }
    }
    for (k, v) in &known {
        println!("KNOWN-FINDING: property={id} {k} (met in {v} runs)");
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let zero: Vec<&str> = p.expected().iter().copied().filter(|k| !counters.contains_key(*k)).collect();
    let ev = json!({
        "property": id, "tier": if th {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": distinct,
            "rule": p.rule(),
            "samples": samples,
            "runs_planned": runs,
            "stopped_by_wall_cap": capped,
            "runs_per_hour": if search_wall > 0.0 { (done as f64 * 3600.0 / search_wall).round() } else { 0.0 },
            "seeds_per_hour": if search_wall > 0.0 { (done as f64 * 3600.0 / search_wall).round() } else { 0.0 },
            "simulated_seconds": sim_ns as f64 / 1e9,
            "faults_injected": faults,
            "probes": probes,
            "probes_at_zero": zero,
            "distinct_states_measure": "hash of the schedule decisions, delivered messages and visited states of a non-trivial run",
            "real_code": p.real(),
            "stubbed": p.stubs(),
            "known_findings_met": known,
            "violation": reported,
        },
        "assumptions": p.assumptions(),
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": if exit == 1 { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    std::fs::write(format!("{}/evidence/{id}.json", verif()), serde_json::to_string_pretty(&ev).unwrap() + "\n")
        .expect("write evidence");
    println!(
        "{id}: {done} runs, {distinct} distinct non-trivial, {:.1} s{}{}",
        wall,
        if capped { " (stopped by the wall cap)" } else { "" },
        if zero.is_empty() { String::new() } else { format!(", probes at zero: {zero:?}") }
    );
    exit
}

// ------------------------------------------------------- replay / minimise

fn load(path: &str) -> Option<(Value, &'static dyn Prop)> {
    let v: Value = serde_json::from_slice(&std::fs::read(path).ok()?).ok()?;
    let p = props::get(v["property"].as_str()?)?;
    Some((v, p))
}

pub fn replay(path: &str, verbose: bool) -> i32 {
    limit_memory();
    let Some((v, p)) = load(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let ex = run_case(p, &v["case"], true);
    let dg = format!("{:016x}", ex.digest.0);
    if verbose {
        for l in &ex.trace {
            println!("{l}");
        }
    }
    println!("event log digest {dg}");
    match &ex.violation {
        Some((class, msg)) => {
            println!("{class}: {msg}");
            println!("VIOLATION property={} replay={path}", p.id());
            if *class != v["class"].as_str().unwrap_or("") {
                println!("(class differs from the recorded one: {})", v["class"]);
                return 3;
            }
            if let Some(d) = v["info"].get("event_log_digest").and_then(|d| d.as_str()) {
                println!("{}", if d == dg { "same event log as recorded" } else { "event log DIFFERS from the recorded one" });
                if d != dg {
                    return 3;
                }
            }
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn minimize(path: &str) -> i32 {
    limit_memory();
    let Some((mut v, p)) = load(path) else { return 2 };
    let class = v["class"].as_str().unwrap_or("").to_string();
    let start = v["case"].clone();
    let fails = |c: &Value| {
        let e = run_case(p, c, false);
        matches!(&e.violation, Some((k, _)) if *k == class)
    };
    if !fails(&start) {
        return 3;
    }
    let before = start.to_string().len();
    let (best, evals) = shrink::minimise(start, 1500, Duration::from_secs(75), |c| fails(&canon(c.clone())));
    let best = canon(best);
    let ex = run_case(p, &best, true);
    let Some((_, msg)) = &ex.violation else { return 3 };
    v["message"] = json!(msg);
    v["case"] = best.clone();
    v["info"] = json!({"minimised": true, "evaluations": evals, "bytes_before": before, "bytes_after": best.to_string().len(),
        "event_log_digest": format!("{:016x}", ex.digest.0), "trace": ex.trace, "counters": ex.counters});
    std::fs::write(path, serde_json::to_string_pretty(&v).unwrap()).expect("write");
    0
}

/// Print the event-log digest of each run of a range (for determinism diffs).
pub fn digests(id: &str, lo: u64, hi: u64, step: u64) -> i32 {
    let p = props::get(id).expect("property");
    let mut i = lo;
    while i < hi {
        let c = case_of(p, seed(), i, thorough());
        let ex = run_case(p, &c, false);
        println!("{i} {:016x} {:016x} {:?}", ex.digest.0, ex.state.0, ex.violation.map(|v| v.0));
        i += step;
    }
    0
}

/// Many runs, twice each, over several processes and two worker counts.
pub fn determinism(id: &str, n: u64) -> i32 {
    let collect = |w: u64| -> BTreeMap<u64, String> {
        let hs: Vec<_> = (0..w)
            .map(|k| {
                let id = id.to_string();
                std::thread::spawn(move || {
                    run_self(
                        &["digests".into(), id, k.to_string(), n.to_string(), w.to_string()],
                        Duration::from_secs(1200),
                    )
                })
            })
            .collect();
        let mut m = BTreeMap::new();
        for h in hs {
            if let Some((_, s)) = h.join().unwrap() {
                for l in s.lines() {
                    if let Some((i, r)) = l.split_once(' ') {
                        m.insert(i.parse().unwrap(), r.to_string());
                    }
                }
            }
        }
        m
    };
    let a = collect(8);
    let b = collect(5);
    let c = collect(13);
    let mut bad = 0;
    for i in 0..n {
        if a.get(&i).is_none() || a.get(&i) != b.get(&i) || a.get(&i) != c.get(&i) {
            bad += 1;
            if bad <= 10 {
                println!("run {i} differs: {:?} {:?} {:?}", a.get(&i), b.get(&i), c.get(&i));
            }
        }
    }
    println!("determinism {id}: {n} runs x 3 (8, 5 and 13 processes), {bad} differ");
    if bad == 0 {
        0
    } else {
        2
    }
}
