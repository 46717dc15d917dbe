//! A sample through its life: read, retargeted, renamed, split, measured.

use super::{parse, Prop};
use crate::rng::Rng;
use crate::table::{gen_value, Table};
use crate::world::{simulate, End, Env, Exec};
use miniboosts::research::CrossValidation;
use miniboosts::{Feature, Sample};
use polars::prelude::{DataFrame, NamedFrom, Series};
use serde::{Deserialize, Serialize};
use serde_json::Value;

/// What a sample should be.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub names: Vec<String>,
    pub x: Vec<Vec<f64>>,
    pub y: Vec<f64>,
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * scale
}

/// The first thing in which `s` is not `m`.
pub fn differs(s: &Sample, m: &Model) -> Option<(&'static str, String)> {
    let n = m.y.len();
    if s.shape() != (n, m.names.len()) {
        return Some(("shape", format!("the shape is {:?}, there are {n} rows and {} columns", s.shape(), m.names.len())));
    }
    if s.target() != &m.y[..] {
        return Some(("target", format!("the targets are {:?} instead of {:?}", s.target(), m.y)));
    }
    let mut labels = m.y.clone();
    labels.sort_by(|a, b| a.partial_cmp(b).unwrap());
    labels.dedup();
    if s.unique_target() != labels {
        return Some(("distinct", format!("the distinct targets are {:?} instead of {labels:?}", s.unique_target())));
    }
    if s.features().len() != m.names.len() {
        return Some(("columns", format!("there are {} columns instead of {}", s.features().len(), m.names.len())));
    }
    for i in 0..n {
        if s.at(i) != (m.x[i].clone(), m.y[i]) {
            return Some(("row", format!("row {i} is {:?}, not {:?} with target {}", s.at(i), m.x[i], m.y[i])));
        }
    }
    for (j, (f, name)) in s.features().iter().zip(&m.names).enumerate() {
        if f.name() != name {
            return Some(("name", format!("column {j} is called {:?}, not {name:?}", f.name())));
        }
        let g = &s[name];
        for i in 0..n {
            if f[i] != m.x[i][j] || g[i] != m.x[i][j] {
                return Some(("column", format!("column {name:?}, row {i}: {} by position, {} by name, not {}", f[i], g[i], m.x[i][j])));
            }
        }
        let other = match f {
            Feature::Dense(d) => {
                let v: Vec<f64> = d.iter().copied().collect();
                (d.len() != n || v.len() != n).then(|| format!("{} values in {n} rows", d.len()))
            }
            Feature::Sparse(d) => {
                let rows: Vec<usize> = d.iter().map(|(i, _)| *i).collect();
                if rows.windows(2).any(|w| w[0] >= w[1]) || rows.last().map_or(false, |r| *r >= n) {
                    Some(format!("entries for the rows {rows:?} of {n}"))
                } else if d.len() != rows.len() || d.len() + d.zero_counts() != n || d.has_zero() != (d.zero_counts() > 0) || d.is_empty() != rows.is_empty() {
                    Some(format!("{} entries and {} zeros (any: {}) in {n} rows", d.len(), d.zero_counts(), d.has_zero()))
                } else {
                    None
                }
            }
        };
        if let Some(e) = other {
            return Some(("counts", format!("column {name:?}: {e}")));
        }
    }
    None
}

/// The weighted statistics of `s` under `w` (summing to one).
pub fn measures(s: &Sample, m: &Model, w: &[f64]) -> Option<(&'static str, String)> {
    let k = m.names.len();
    let n = m.y.len();
    let stats = |part: &dyn Fn(usize) -> bool, j: usize| -> (f64, f64, f64) {
        let total: f64 = (0..n).filter(|i| part(*i)).map(|i| w[i]).sum();
        if total == 0.0 {
            return (0.0, 0.0, 0.0);
        }
        let mean = (0..n).filter(|i| part(*i)).map(|i| w[i] * m.x[i][j]).sum::<f64>() / total;
        let var = (0..n).filter(|i| part(*i)).map(|i| w[i] * (m.x[i][j] - mean).powi(2)).sum::<f64>() / total;
        let size = (0..n).filter(|i| part(*i)).map(|i| m.x[i][j].abs()).fold(0.0, f64::max);
        (mean, var, size)
    };
    let check = |what: &'static str, label: Option<f64>, got: &[(f64, Option<f64>)]| -> Option<(&'static str, String)> {
        if got.len() != k {
            return Some(("statistics", format!("{what}: {} values for {k} columns", got.len())));
        }
        for (j, (mean, var)) in got.iter().enumerate() {
            let part = |i: usize| label.map_or(true, |y| m.y[i] == y);
            let (a, b, size) = stats(&part, j);
            // the total weight of all rows is one up to rounding
            if !close(*mean, a, size) || var.map_or(false, |v| !close(v, b, size * size)) {
                return Some(("statistics", format!("{what} (label {label:?}) of column {:?}: {mean} {var:?}, not {a} {b}", m.names[j])));
            }
        }
        None
    };
    let one = |v: Vec<f64>| v.into_iter().map(|a| (a, None)).collect::<Vec<_>>();
    let two = |v: Vec<(f64, f64)>| v.into_iter().map(|(a, b)| (a, Some(b))).collect::<Vec<_>>();
    if let e @ Some(_) = check("weighted_mean", None, &one(s.weighted_mean(w))) {
        return e;
    }
    if let e @ Some(_) = check("weighted_mean_and_variance", None, &two(s.weighted_mean_and_variance(w))) {
        return e;
    }
    for y in s.unique_target() {
        if let e @ Some(_) = check("weighted_mean_for_label", Some(y), &one(s.weighted_mean_for_label(y, w))) {
            return e;
        }
        if let e @ Some(_) = check("weighted_mean_and_variance_for_label", Some(y), &two(s.weighted_mean_and_variance_for_label(y, w))) {
            return e;
        }
    }
    None
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "snake_case")]
enum Source {
    #[default]
    Csv,
    Svm,
    Frame,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
enum Step {
    /// Column `1 + k` (modulo their number) becomes the target.
    Target(usize),
    /// New names for all columns, in an order given by the number.
    Rename(u32),
    /// One part of one fold takes the place of the sample.
    Fold { folds: usize, k: usize, ratio: u32, shuffle: Option<u64>, test: bool },
    /// Continue with a clone.
    Clone,
    /// Names that are too few or a target that does not exist.
    Wrong(bool),
    Measure(Vec<u32>),
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct HCase {
    env: Env,
    source: Source,
    table: Table,
    steps: Vec<Step>,
}

fn weights(v: &[u32], n: usize) -> Vec<f64> {
    let v: Vec<f64> = (0..n).map(|i| v.get(i).map_or(1.0, |x| *x as f64)).collect();
    let z: f64 = v.iter().sum();
    if z == 0.0 {
        return vec![1.0 / n as f64; n];
    }
    v.iter().map(|x| x / z).collect()
}

fn build(c: &HCase) -> (Sample, Model) {
    let t = &c.table;
    let k = t.k();
    let all: Vec<usize> = (0..k).collect();
    let (s, keep, names): (Sample, Vec<usize>, Vec<String>) = match c.source {
        Source::Csv => (t.dense(), all, (0..k).map(|j| format!("f{j}")).collect()),
        Source::Svm => {
            let keep = t.columns_kept();
            let s = t.sparse();
            let names = s.features().iter().map(|f| f.name().to_string()).collect();
            (s, keep, names)
        }
        Source::Frame => {
            let cols = (0..k).map(|j| Series::new(&format!("f{j}"), t.x.iter().map(|r| r[j]).collect::<Vec<f64>>())).collect();
            let frame = DataFrame::new(cols).expect("a frame");
            let y = Series::new("class", t.y.clone());
            (Sample::from_dataframe(frame, y).expect("the frame is a sample"), all, (0..k).map(|j| format!("f{j}")).collect())
        }
    };
    let x = t.x.iter().map(|r| keep.iter().map(|j| r[*j]).collect()).collect();
    (s, Model { names, x, y: t.y.clone() })
}

type Bad = (usize, String, &'static str, String);

fn life(c: &HCase) -> Result<(usize, usize), Bad> {
    let (mut s, mut m) = build(c);
    let bad = |t: usize, what: &str, e: (&'static str, String)| (t, what.to_string(), e.0, e.1);
    if let Some(e) = differs(&s, &m) {
        return Err(bad(0, "reading", e));
    }
    let (mut folds, mut stats) = (0, 0);
    for (t, step) in c.steps.iter().enumerate() {
        let n = m.y.len();
        match step {
            Step::Target(k) => {
                if m.names.len() < 2 {
                    continue;
                }
                let j = 1 + k % (m.names.len() - 1);
                let name = m.names.remove(j);
                s = s.set_target(&name);
                m.y = m.x.iter_mut().map(|r| r.remove(j)).collect();
            }
            Step::Rename(z) => {
                let k = m.names.len();
                // old names may come back on other columns
                let mut names: Vec<String> = if z % 3 == 0 { m.names.clone() } else { (0..k).map(|j| format!("r{}_{j}", z % 7)).collect() };
                let mut rng = Rng::new(*z as u64);
                rng.shuffle(&mut names);
                let old = s.replace_names(&names);
                if old != m.names {
                    return Err((t, format!("{step:?}"), "old-names", format!("the old names are {:?}, reported were {old:?}", m.names)));
                }
                m.names = names;
            }
            Step::Fold { folds: nf, k, ratio, shuffle, test } => {
                let nf = (*nf).clamp(1, 20);
                let ratio = (*ratio).clamp(1, 99) as f64 / 100.0;
                let mut cv = CrossValidation::new(&s).n_folds(nf).train_ratio(ratio);
                if let Some(z) = shuffle {
                    cv = cv.seed(*z).shuffle();
                }
                let Some((a, b)) = cv.nth(k % nf) else {
                    return Err((t, format!("{step:?}"), "fold", "there is no such fold".into()));
                };
                let part = if *test { b } else { a };
                if part.shape().0 == 0 {
                    continue;
                }
                // rows are known by their number in the first column
                let mut rows = vec![];
                for i in 0..part.shape().0 {
                    let id = part.at(i).0.first().copied().unwrap_or(-1.0);
                    match (0..n).find(|r| m.x[*r][0] == id) {
                        Some(r) if !rows.contains(&r) => rows.push(r),
                        _ => return Err((t, format!("{step:?}"), "row", format!("row {i} (number {id}) is no row of the sample, or there twice"))),
                    }
                }
                m = Model {
                    names: m.names,
                    x: rows.iter().map(|r| m.x[*r].clone()).collect(),
                    y: rows.iter().map(|r| m.y[*r]).collect(),
                };
                s = part;
                folds += 1;
            }
            Step::Clone => {
                let other = s.clone();
                drop(std::mem::replace(&mut s, other));
            }
            Step::Wrong(names) => {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if *names {
                        let wrong = vec!["x".to_string(); m.names.len() + 1];
                        s.replace_names(&wrong).len()
                    } else {
                        s.clone().set_target("no such column").shape().0
                    }
                }));
                if r.is_ok() {
                    return Err((t, format!("{step:?}"), "accepted", "a wrong request was accepted".into()));
                }
            }
            Step::Measure(v) => {
                let w = weights(v, n);
                if let Some(e) = measures(&s, &m, &w) {
                    return Err(bad(t + 1, "measuring", e));
                }
                stats += 1;
            }
        }
        if let Some(e) = differs(&s, &m) {
            return Err(bad(t + 1, &format!("{step:?}"), e));
        }
    }
    Ok((folds, stats))
}

/// The first frame of a process seeds the frames' own hash maps.
pub fn warm_frames() {
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        let t = Table { x: vec![vec![1.0]], y: vec![1.0] };
        let w = HCase { source: Source::Frame, table: t, ..HCase::default() };
        let _ = simulate(&Env::default(), || life(&w).is_ok());
    });
}

pub struct Life;

impl Prop for Life {
    fn id(&self) -> &'static str {
        "B26"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, th: bool) -> Value {
        let wide = rng.big() && rng.chance(0.5);
        let n = if rng.big() && !wide { rng.range(200, 700) } else if th && rng.chance(0.1) { rng.range(20, 200) } else { rng.range(1, 14) };
        let k = if wide { rng.range(8, 60) } else { rng.range(1, 6) };
        let zeros = *rng.pick(&[0.0, 0.4, 0.8]);
        let labels = rng.chance(0.6);
        let mut x: Vec<Vec<f64>> = vec![];
        for i in 0..n {
            let mut r = vec![(i + 1) as f64];
            r.extend((0..k).map(|_| if rng.chance(zeros) { 0.0 } else { gen_value(rng) }));
            x.push(r);
        }
        let y = (0..n).map(|_| if labels { if rng.chance(0.5) { 1.0 } else { -1.0 } } else { gen_value(rng) }).collect();
        let steps = (0..rng.range(1, if th { 16 } else { 8 }))
            .map(|_| match rng.below(12) {
                0 | 1 => Step::Target(rng.below(8)),
                2 | 3 => Step::Rename(rng.below(1000) as u32),
                4 | 5 | 6 => Step::Fold {
                    folds: rng.range(1, 8),
                    k: rng.below(8),
                    ratio: rng.range(5, 95) as u32,
                    shuffle: if rng.chance(0.5) { Some(rng.u64() >> 50) } else { None },
                    test: rng.chance(0.4),
                },
                7 => Step::Clone,
                8 => Step::Wrong(rng.chance(0.5)),
                _ => {
                    let style = rng.below(3);
                    Step::Measure((0..n).map(|_| match style {
                        0 => 1,
                        1 => rng.range(1, 1000) as u32,
                        _ => *rng.pick(&[0, 0, 1, 7]),
                    }).collect())
                }
            })
            .collect();
        let source = *rng.pick(&[Source::Csv, Source::Svm, Source::Svm, Source::Frame]);
        serde_json::to_value(HCase { env: Env::gen(rng), source, table: Table { x, y }, steps }).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = parse::<HCase>(case) else { return };
        c.table = c.table.fix();
        for (i, r) in c.table.x.iter_mut().enumerate() {
            r[0] = (i + 1) as f64;
        }
        c.steps.truncate(64);
        if c.table.n() * c.table.k() > 20_000 {
            return;
        }
        warm_frames();
        let c = &c;
        let (end, st) = simulate(&c.env, move || life(c));
        ex.absorb(&st);
        ex.state.add_str(&format!("{c:?}"));
        ex.nontrivial = c.table.n() > 1 && !c.steps.is_empty();
        ex.trace(|| format!("{:?}, {} rows; {:?}", c.source, c.table.n(), c.steps));
        match end {
            End::Done(Ok((folds, stats))) => {
                ex.count("probe.splits", folds as u64);
                ex.count("probe.measurements", stats as u64);
                ex.count(match c.source { Source::Csv => "probe.csv", Source::Svm => "probe.svmlight", Source::Frame => "probe.frames" }, 1);
                ex.digest.add(folds as u64);
            }
            End::Done(Err((t, step, class, what))) => ex.fail(class, format!("{:?}, step {t} ({step}): {what}", c.source)),
            e => ex.fail("panic", format!("a sample {}", e.describe())),
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 1_500_000 } else { 150_000 }
    }
    fn rule(&self) -> &'static str {
        "random table read as CSV, svmlight or data frame, then a random history of retargeting, renaming, splitting, cloning, wrong requests and measurements; the sample is compared with a plain table after every step; non-trivial: at least two rows and one step"
    }
    fn real(&self) -> &'static [&'static str] {
        &["Sample, features, SampleReader, CrossValidation", "std::fs on simulated system calls", "polars data frames", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["rayon-core thread pool (simulated fork/join scheduler)", "disk, entropy (simulated system calls)"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.splits", "probe.measurements", "probe.csv", "probe.svmlight", "probe.frames"]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&Life]
}
