#![allow(unknown_lints, invalid_runtime_symbol_definitions, clashing_extern_declarations, dead_code)]
mod driver;
mod lp;
mod party;
mod props;
mod rng;
mod seam;
mod shrink;
mod table;
mod world;

fn main() {
    world::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    let code = match s(1) {
        "check" => driver::check(s(2)),
        "worker" => driver::worker(s(2), n(3), n(4), n(5), n(6)),
        "replay" => driver::replay(s(2), true),
        "minimize" => driver::minimize(s(2)),
        "digests" => driver::digests(s(2), n(3), n(4), n(5).max(1)),
        "determinism" => driver::determinism(s(2), n(3).max(1)),
        "case" => {
            let p = props::get(s(2)).expect("property");
            let c = driver::case_of(p, driver::seed(), n(3), driver::thorough());
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            0
        }
        "run" => {
            let p = props::get(s(2)).expect("property");
            let c = driver::case_of(p, driver::seed(), n(3), driver::thorough());
            let ex = driver::run_case(p, &c, true);
            for l in &ex.trace {
                println!("{l}");
            }
            println!("{:?} {:?}", ex.violation, ex.counters);
            ex.violation.is_some() as i32
        }
        "survey" => {
            // all violations of a range, grouped by class (development aid)
            let p = props::get(s(2)).expect("property");
            let mut m: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            for i in (n(3)..n(4)).step_by(n(5).max(1) as usize) {
                let c = driver::case_of(p, driver::seed(), i, driver::thorough());
                let ex = driver::run_case(p, &c, false);
                if let Some((k, msg)) = ex.violation {
                    let e = m.entry(k).or_insert((0, i, msg));
                    e.0 += 1;
                }
            }
            for (k, (c, i, msg)) in m {
                println!("{k}: {c} (first {i}) {msg}");
            }
            0
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        _ => {
            eprintln!("usage: dst check|replay|determinism|...");
            2
        }
    };
    std::process::exit(code);
}
