//! Data files, samples and folds.

use super::{parse, Prop};
use crate::rng::Rng;
use crate::seam::{self, DiskFault, Op, What};
use crate::table::{gen_value, Table};
use crate::world::{simulate, End, Env, Exec};
use miniboosts::research::CrossValidation;
use miniboosts::{Sample, SampleReader};
use serde::{Deserialize, Serialize};
use serde_json::Value;

/// A sample as its user sees it.
#[derive(Clone, Debug, PartialEq, Default)]
struct View {
    names: Vec<String>,
    x: Vec<Vec<f64>>,
    y: Vec<f64>,
    shape: (usize, usize),
}

fn view(s: &Sample) -> View {
    let n = s.shape().0;
    let names: Vec<String> = s.features().iter().map(|f| f.name().to_string()).collect();
    let mut x = vec![];
    for i in 0..n {
        let (r, y) = s.at(i);
        assert!(same(&[y], &[s.target()[i]]), "at() and target() differ in row {i}");
        x.push(r);
    }
    View { names, x, y: s.target().to_vec(), shape: s.shape() }
}

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()))
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "snake_case")]
enum Format {
    #[default]
    Csv,
    CsvBare,
    Svm,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct FCase {
    env: Env,
    format: Format,
    table: Table,
    pos: usize,
    crlf: bool,
    pad: bool,
    no_end: bool,
    max_read: Option<u64>,
    faults: Vec<DiskFault>,
    missing: bool,
    /// Damage, applied in order.
    damage: Vec<Damage>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
enum Damage {
    /// Only this many bytes reached the disk.
    Cut(usize),
    /// One bit flips.
    Flip(usize, u8),
    /// A block of zero bytes (a hole) over [a, a+len).
    Hole(usize, usize),
    /// Bytes [a, a+len) are lost.
    Lose(usize, usize),
    /// Bytes [a, a+len) are there twice.
    Twice(usize, usize),
    /// One byte is replaced.
    Put(usize, u8),
}

impl FCase {
    fn load(v: &Value) -> Option<FCase> {
        let mut c: FCase = parse(v)?;
        c.table = c.table.fix();
        c.pos = c.pos.min(c.table.k());
        c.faults.truncate(8);
        for f in c.faults.iter_mut() {
            if f.what == What::Errno(libc::EINTR) {
                f.sticky = false;
            }
            if let What::Short(k) = &mut f.what {
                *k = (*k).max(1);
            }
        }
        if c.table.n() * c.table.k() > 20_000 {
            return None;
        }
        Some(c)
    }
    fn path(&self) -> &'static str {
        match self.format {
            Format::Svm => "/simfs/data.svmlight",
            _ => "/simfs/data.csv",
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut s = match self.format {
            Format::Csv => self.table.csv(true, self.pos),
            Format::CsvBare => self.table.csv(false, self.pos),
            Format::Svm => self.table.svm(),
        };
        if self.pad {
            s = match self.format {
                Format::Csv => {
                    let (h, r) = s.split_once('\n').unwrap();
                    format!("{h}\n{}", r.replace(',', " , "))
                }
                Format::CsvBare => s.replace(',', ", "),
                Format::Svm => s.replace(' ', "  "),
            };
        }
        if self.crlf {
            s = s.replace('\n', "\r\n");
        }
        if self.no_end {
            s.truncate(s.trim_end().len());
        }
        s.into_bytes()
    }
    fn target(&self) -> String {
        match self.format {
            Format::CsvBare => format!("Feat. [{}]", self.pos + 1),
            _ => "class".into(),
        }
    }
    fn read(&self) -> std::io::Result<Sample> {
        match self.format {
            Format::Svm => SampleReader::<&str, &str>::default().file(self.path()).read(),
            f => SampleReader::default()
                .file(self.path())
                .has_header(f == Format::Csv)
                .target_feature(self.target())
                .read(),
        }
    }
    /// What an intact file says.
    fn expect(&self) -> View {
        let t = &self.table;
        let k = t.k();
        let keep: Vec<usize> = match self.format {
            Format::Svm => t.columns_kept(),
            _ => (0..k).collect(),
        };
        let names = match self.format {
            Format::Csv => keep.iter().map(|j| format!("f{j}")).collect(),
            Format::CsvBare => (1..=k + 1).filter(|j| *j != self.pos + 1).map(|j| format!("Feat. [{j}]")).collect(),
            // the file's indices start from one, the reader's from zero
            Format::Svm => keep.iter().map(|j| format!("Feat. [{}]", j + 2)).collect(),
        };
        View {
            names,
            x: t.x.iter().map(|r| keep.iter().map(|j| r[*j]).collect()).collect(),
            y: t.y.clone(),
            shape: (t.n(), keep.len()),
        }
    }
}

fn gen_table(rng: &mut Rng) -> Table {
    // long tables and wide ones
    let wide = rng.big() && rng.chance(0.5);
    let n = match rng.below(8) {
        _ if rng.big() && !wide => rng.range(200, 1200),
        0 => 1,
        1 => 2,
        7 => rng.range(40, 120),
        _ => rng.range(3, 20),
    };
    let k = if wide { rng.range(8, 120) } else { rng.range(1, 7) };
    let sparse = rng.chance(0.4);
    let x = (0..n)
        .map(|_| (0..k).map(|_| if sparse && rng.chance(0.7) { 0.0 } else { gen_value(rng) }).collect())
        .collect();
    let real = rng.chance(0.3);
    let y = (0..n).map(|_| if real { gen_value(rng) } else if rng.chance(0.5) { 1.0 } else { -1.0 }).collect();
    Table { x, y }
}

fn gen_fcase(rng: &mut Rng) -> FCase {
    let table = gen_table(rng);
    FCase {
        env: Env::gen(rng),
        format: *rng.pick(&[Format::Csv, Format::Csv, Format::CsvBare, Format::Svm, Format::Svm]),
        pos: rng.below(table.k() + 1),
        crlf: rng.chance(0.15),
        pad: rng.chance(0.15),
        no_end: rng.chance(0.2),
        table,
        ..FCase::default()
    }
}

enum Got {
    Sample(View, bool),
    Err(std::io::ErrorKind, String),
}

/// Reads the file twice: under the faults, then undisturbed.
fn read_twice(c: &FCase, data: &[u8], ex: &mut Exec) -> Option<(Got, Got, bool, usize)> {
    let c2 = c.clone();
    let data = data.to_vec();
    let (end, st) = simulate(&c.env, move || {
        seam::with_disk(|d| {
            if !c2.missing {
                d.put(c2.path(), &data);
            }
            d.arm(c2.faults.clone());
            d.max_read = c2.max_read;
        });
        let look = |s: Sample| {
            let v = view(&s);
            // by name: the same columns
            let ok = s.features().iter().enumerate().all(|(j, f)| {
                let first = s.features().iter().filter(|g| g.name() == f.name()).count() == 1;
                !first || (0..s.shape().0).all(|i| same(&[s[f.name()][i]], &[v.x[i][j]]))
            });
            (v, ok)
        };
        let a = c2.read().map(look);
        let (err, open) = seam::with_disk(|d| {
            let e = d.error_seen;
            d.arm(vec![]);
            d.max_read = None;
            d.put(c2.path(), &data);
            (e, d.open_fds())
        });
        let b = c2.read().map(look);
        (a, b, err, open)
    });
    ex.absorb(&st);
    ex.absorb_disk();
    match end {
        End::Done((a, b, err, open)) => {
            let conv = |r: std::io::Result<(View, bool)>| match r {
                Ok((v, ok)) => Got::Sample(v, ok),
                Err(e) => Got::Err(e.kind(), e.to_string()),
            };
            Some((conv(a), conv(b), err, open))
        }
        e => {
            ex.fail("panic", format!("reading the file {}", e.describe()));
            None
        }
    }
}

fn compare(got: &Got, want: &View, what: &str, ex: &mut Exec) {
    match got {
        Got::Err(k, m) => ex.fail("refused", format!("{what}: an intact file is refused: {k:?} {m}")),
        Got::Sample(v, by_name) => {
            if v.shape != want.shape {
                ex.fail("shape", format!("{what}: the sample is {:?} instead of {:?}", v.shape, want.shape));
            } else if let Some(i) = (0..want.y.len()).find(|i| v.y[*i] != want.y[*i]) {
                ex.fail("target", format!("{what}: the target of row {i} is {} instead of {}", v.y[i], want.y[i]));
            } else if let Some(i) = (0..want.y.len()).find(|i| !same(&v.x[*i], &want.x[*i])) {
                ex.fail("row", format!("{what}: row {i} is {:?} instead of {:?}", v.x[i], want.x[i]));
            } else if !want.names.is_empty() && v.names != want.names {
                ex.fail("names", format!("{what}: the columns are {:?} instead of {:?}", v.names, want.names));
            } else if !by_name {
                ex.fail("by-name", format!("{what}: a column found by name is another one"));
            }
        }
    }
}

fn note(c: &FCase, data: &[u8], ex: &mut Exec) {
    ex.trace(|| format!("file {} ({} bytes):\n{}", c.path(), data.len(), String::from_utf8_lossy(data).lines().take(30).collect::<Vec<_>>().join("\n")));
    for b in data {
        ex.state.add(*b as u64);
    }
    ex.state.add(c.max_read.unwrap_or(0));
    for f in &c.faults {
        ex.state.add(f.nth);
        ex.state.add_str(&format!("{:?}", f.what));
    }
}

const REAL: &[&str] = &["SampleReader, Sample, features", "std::fs and std::io on simulated system calls", "rayon iterator layer"];
const STUBS: &[&str] = &["disk (simulated system calls)", "rayon-core thread pool (simulated fork/join scheduler)"];

// ----------------------------------------------------------------- B10

pub struct Reading;

impl Prop for Reading {
    fn id(&self) -> &'static str {
        "B10"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _th: bool) -> Value {
        let mut c = gen_fcase(rng);
        c.max_read = *rng.pick(&[None, None, Some(1), Some(2), Some(3), Some(7), Some(16), Some(64)]);
        let k = rng.range(0, 4);
        for _ in 0..k {
            let what = match rng.below(6) {
                0 | 1 => What::Short(rng.range(1, 9) as u64),
                2 | 3 => What::Errno(libc::EINTR),
                _ => What::Errno(*rng.pick(&[libc::EIO, libc::EIO, libc::EAGAIN])),
            };
            let nth = if rng.chance(0.6) { rng.below(3) } else { rng.below(200) } as u64;
            c.faults.push(DiskFault { op: Op::Read, nth, what, sticky: rng.chance(0.2) });
        }
        if rng.chance(0.1) {
            let e = *rng.pick(&[libc::EACCES, libc::EMFILE, libc::EINTR, libc::EIO]);
            c.faults.push(DiskFault { op: Op::Open, nth: 0, what: What::Errno(e), sticky: false });
        }
        c.missing = rng.chance(0.03);
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(c) = FCase::load(case) else { return };
        let data = c.bytes();
        note(&c, &data, ex);
        let Some((a, b, err, open)) = read_twice(&c, &data, ex) else { return };
        ex.nontrivial = c.table.n() > 1;
        let want = c.expect();
        if err || c.missing {
            ex.count("probe.failed_reads", 1);
            if let Got::Sample(v, _) = &a {
                ex.fail("swallowed", format!("a read of the file failed, but a sample of shape {:?} was returned (the file has {:?})", v.shape, want.shape));
                return;
            }
        } else {
            ex.count("probe.good_reads", 1);
            compare(&a, &want, "under chunked and interrupted reads", ex);
        }
        compare(&b, &want, "on a healthy disk", ex);
        if open > 0 {
            ex.fail("leak", format!("{open} files stay open"));
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 2_000_000 } else { 200_000 }
    }
    fn rule(&self) -> &'static str {
        "random table, encoding (csv with or without header, any target column, svmlight; line ends, padding) and disk: chunk sizes, short and interrupted reads, hard errors at random calls, missing file; non-trivial: at least two rows"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["numbers are written as shortest decimals", "header names carry no padding"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.failed_reads", "probe.good_reads", "fault.disk.read-short", "fault.disk.read-eintr", "fault.disk.read-eio"]
    }
}

// ----------------------------------------------------------------- B11

pub struct Damaged;

fn damage(mut d: Vec<u8>, ops: &[Damage]) -> Vec<u8> {
    for op in ops {
        let n = d.len();
        if n == 0 {
            break;
        }
        match *op {
            Damage::Cut(k) => d.truncate(k),
            Damage::Flip(i, b) => d[i % n] ^= 1 << (b % 8),
            Damage::Hole(a, l) => {
                let a = a % n;
                let e = (a + l.max(1)).min(n);
                d[a..e].fill(0);
            }
            Damage::Lose(a, l) => {
                let a = a % n;
                let e = (a + l.max(1)).min(n);
                d.drain(a..e);
            }
            Damage::Twice(a, l) => {
                let a = a % n;
                let e = (a + l.clamp(1, 4096)).min(n);
                let s = d[a..e].to_vec();
                d.splice(e..e, s);
            }
            Damage::Put(i, b) => d[i % n] = b,
        }
    }
    d
}

/// The rows of a damaged file, if all of its lines are well-formed; blank
/// lines are allowed for. `None`: some line is not.
struct Strict {
    rows: Option<Vec<(Vec<f64>, f64)>>,
    /// The strict reading has no opinion.
    odd: bool,
}

fn strict(c: &FCase, data: &[u8]) -> Strict {
    let none = Strict { rows: None, odd: false };
    let Ok(text) = std::str::from_utf8(data) else { return none };
    let mut lines: Vec<&str> = text.lines().collect();
    let mut odd = text.contains('\r') && !c.crlf || text.contains('\0');
    odd |= text.contains("\r\r");
    let blank = |l: &&str| l.trim().is_empty();
    if let Format::Svm = c.format {
        let mut rows: Vec<(Vec<(usize, f64)>, f64)> = vec![];
        for l in lines.iter().filter(|l| !blank(l)) {
            let mut w = l.split_whitespace();
            let Some(y) = w.next().and_then(|y| y.parse::<f64>().ok()) else { return Strict { rows: None, odd } };
            let mut r = vec![];
            for p in w {
                let Some((i, v)) = p.split_once(':') else { return Strict { rows: None, odd } };
                let (Ok(i), Ok(v)) = (i.parse::<usize>(), v.parse::<f64>()) else { return Strict { rows: None, odd } };
                // The order and repetition of indices is not defined.
                odd |= r.iter().any(|(j, _)| *j >= i);
                r.push((i, v));
            }
            rows.push((r, y));
        }
        let mut cols: Vec<usize> = rows.iter().flat_map(|(r, _)| r.iter().map(|x| x.0)).collect();
        cols.sort();
        cols.dedup();
        if cols.last().map_or(false, |m| *m > 3000) {
            return Strict { rows: None, odd: true };
        }
        let rows = rows
            .into_iter()
            .map(|(r, y)| (cols.iter().map(|j| r.iter().find(|x| x.0 == *j).map_or(0.0, |x| x.1)).collect(), y))
            .collect();
        return Strict { rows: Some(rows), odd };
    }
    let names: Vec<String> = if c.format == Format::Csv {
        if lines.is_empty() {
            return none;
        }
        let h = lines.remove(0);
        let v: Vec<String> = h.split(',').map(|s| s.to_string()).collect();
        odd |= v.iter().any(|s| s.trim() != s);
        v
    } else {
        let k = lines.iter().find(|l| !blank(l)).map_or(0, |l| l.split(',').count());
        (1..=k).map(|j| format!("Feat. [{j}]")).collect()
    };
    let mut u = names.clone();
    u.sort();
    u.dedup();
    odd |= u.len() < names.len();
    let Some(pos) = names.iter().position(|s| *s == c.target()) else { return Strict { rows: None, odd } };
    let mut rows = vec![];
    for l in lines.iter().filter(|l| !blank(l)) {
        let mut r = vec![];
        for w in l.split(',') {
            let Ok(v) = w.trim().parse::<f64>() else { return Strict { rows: None, odd } };
            r.push(v);
        }
        if r.len() != names.len() {
            return Strict { rows: None, odd };
        }
        let y = r.remove(pos);
        rows.push((r, y));
    }
    Strict { rows: Some(rows), odd }
}

impl Prop for Damaged {
    fn id(&self) -> &'static str {
        "B11"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _th: bool) -> Value {
        let mut c = gen_fcase(rng);
        let n = c.bytes().len().max(1);
        let k = *rng.pick(&[1, 1, 1, 2, 3]);
        for _ in 0..k {
            let a = if rng.chance(0.15) { rng.below(30) } else { rng.below(n + 1) };
            let l = *rng.pick(&[1, 1, 2, 5, 20, 512]);
            c.damage.push(match rng.below(8) {
                0 | 1 | 2 => Damage::Cut(a),
                3 => Damage::Flip(a, rng.below(8) as u8),
                4 => Damage::Hole(a, l),
                5 => Damage::Lose(a, l),
                6 => Damage::Twice(a, l),
                _ => Damage::Put(a, *rng.pick(b",:\n 0-.e+#?\xff\"")),
            });
        }
        if rng.chance(0.3) {
            c.max_read = Some(*rng.pick(&[1, 5, 33]));
        }
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = FCase::load(case) else { return };
        c.faults.clear();
        c.missing = false;
        c.damage.truncate(8);
        let intact = c.bytes();
        let data = damage(intact.clone(), &c.damage);
        let s = strict(&c, &data);
        if s.odd && s.rows.is_none() && c.format == Format::Svm {
            // an index far beyond the data; the memory it takes is not at issue
            if String::from_utf8_lossy(&data).split_whitespace().any(|w| w.split(':').next().map_or(false, |i| i.len() > 3)) {
                return;
            }
        }
        note(&c, &data, ex);
        for d in &c.damage {
            let k = match d {
                Damage::Cut(_) => "fault.file.cut",
                Damage::Flip(..) => "fault.file.bit_flip",
                Damage::Hole(..) => "fault.file.hole",
                Damage::Lose(..) => "fault.file.lost_block",
                Damage::Twice(..) => "fault.file.repeated_block",
                Damage::Put(..) => "fault.file.stray_byte",
            };
            ex.count(k, 1);
        }
        let Some((a, b, _, open)) = read_twice(&c, &data, ex) else { return };
        ex.nontrivial = data != intact && !data.is_empty();
        for g in [&a, &b] {
            match g {
                Got::Sample(v, by_name) => {
                    ex.count("probe.accepted", 1);
                    let (n, k) = v.shape;
                    if v.y.len() != n || v.x.len() != n || v.x.iter().any(|r| r.len() != k) || v.names.len() != k {
                        ex.fail("ragged", format!("a damaged file gave a sample of shape {:?} with {} targets and rows of {:?} values",
                            v.shape, v.y.len(), v.x.iter().map(|r| r.len()).collect::<Vec<_>>()));
                        return;
                    }
                    if !s.odd {
                        let Some(rows) = &s.rows else {
                            ex.fail("accepted", format!("a file with a malformed line was accepted as a sample of shape {:?}", v.shape));
                            return;
                        };
                        let ok = rows.len() == n && rows.iter().enumerate().all(|(i, (x, y))| same(&v.x[i], x) && same(&[v.y[i]], &[*y]));
                        if !ok {
                            ex.fail("rows", format!("the sample does not have the rows of the file: {:?} {:?} instead of {rows:?}", v.x, v.y));
                            return;
                        }
                        if !by_name {
                            ex.fail("by-name", "a column found by name is another one".into());
                        }
                    }
                }
                Got::Err(..) => {
                    ex.count("probe.refused", 1);
                    let tidy = s.rows.as_ref().map_or(false, |r| !r.is_empty()) && !s.odd
                        && !std::str::from_utf8(&data).unwrap_or("").lines().any(|l| l.trim().is_empty());
                    if tidy {
                        ex.fail("refused", "a file of well-formed lines was refused".into());
                        return;
                    }
                }
            }
        }
        if open > 0 {
            ex.fail("leak", format!("{open} files stay open"));
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 2_500_000 } else { 250_000 }
    }
    fn rule(&self) -> &'static str {
        "random table and encoding, then a crashed or failing disk: the file is cut at a random byte, bits flip, blocks are zeroed, lost or repeated, stray bytes appear; non-trivial: the damage changed the file and left something"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["blank lines may be refused or skipped", "svmlight indices beyond 3000 are not exercised (memory)"]
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.accepted", "probe.refused"]
    }
}

// ----------------------------------------------------------------- B16

pub struct Folds;

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
struct VCase {
    env: Env,
    env2: Env,
    table: Table,
    sparse: bool,
    folds: Option<usize>,
    ratio: Option<f64>,
    shuffle: Option<u64>,
    verbose: bool,
    /// Shuffle before the other settings are made.
    early: bool,
    /// Many seeds, for who gets tested first.
    sweep: bool,
}

/// What is wrong with a part that has the rows of `v`.
fn part(s: &miniboosts::Sample, v: &View, names: &[String], w: &mut Rng) -> Option<(&'static str, String)> {
    let m = super::sample::Model { names: names.to_vec(), x: v.x.clone(), y: v.y.clone() };
    if let e @ Some(_) = super::sample::differs(s, &m) {
        return e;
    }
    if v.y.is_empty() {
        return None;
    }
    let w: Vec<f64> = v.y.iter().map(|_| w.range(1, 9) as f64).collect();
    let z: f64 = w.iter().sum();
    let w: Vec<f64> = w.iter().map(|a| a / z).collect();
    super::sample::measures(s, &m, &w)
}

type Parts = Vec<(View, View, Option<(&'static str, String)>)>;

fn folds(c: &VCase, env: &Env, ex: &mut Exec) -> Option<Vec<(View, View)>> {
    let (end, st) = simulate(env, move || -> Parts {
        let s = if c.sparse { c.table.sparse() } else { c.table.dense() };
        let mut cv = CrossValidation::new(&s);
        if let (Some(k), true) = (c.shuffle, c.early) {
            cv = cv.seed(k).shuffle();
        }
        if let Some(k) = c.folds {
            cv = cv.n_folds(k);
        }
        if let Some(r) = c.ratio {
            cv = cv.train_ratio(r);
        }
        if let (Some(k), false) = (c.shuffle, c.early) {
            cv = cv.seed(k).shuffle();
        }
        if c.verbose {
            cv = cv.verbose(true);
        }
        let names: Vec<String> = s.features().iter().map(|f| f.name().to_string()).collect();
        let mut rng = Rng::new(c.table.n() as u64);
        cv.map(|(a, b)| {
            let (u, v) = (view(&a), view(&b));
            let e = part(&a, &u, &names, &mut rng).or_else(|| part(&b, &v, &names, &mut rng));
            (u, v, e)
        })
        .collect()
    });
    ex.absorb(&st);
    match end {
        End::Done(v) => {
            for (k, (_, _, e)) in v.iter().enumerate() {
                if let Some((class, what)) = e {
                    ex.fail(class, format!("fold {k} (of training and test): {what}"));
                    return None;
                }
            }
            Some(v.into_iter().map(|(a, b, _)| (a, b)).collect())
        }
        e => {
            ex.fail("panic", format!("cross validation {}", e.describe()));
            None
        }
    }
}

impl Prop for Folds {
    fn id(&self) -> &'static str {
        "B16"
    }
    fn gen(&self, rng: &mut Rng, _i: u64, _th: bool) -> Value {
        let mut table = gen_table(rng);
        // the first column numbers the rows
        for (i, r) in table.x.iter_mut().enumerate() {
            r.insert(0, (i + 1) as f64);
        }
        let c = VCase {
            env: Env::gen(rng),
            env2: Env::gen(rng),
            sparse: rng.chance(0.4),
            folds: if rng.chance(0.3) { None } else { Some(match (rng.big(), table.n() < 300) {
                (true, true) => rng.range(1, 50),
                (true, false) => rng.range(1, 8),
                _ => rng.range(1, 12),
            }) },
            ratio: if rng.chance(0.4) { None } else { Some(rng.range(1, 99) as f64 / 100.0) },
            shuffle: if rng.chance(0.4) { None } else { Some(rng.u64() >> 40) },
            verbose: rng.chance(0.3),
            early: rng.chance(0.5),
            sweep: table.n() <= 30 && rng.chance(0.012),
            table,
        };
        serde_json::to_value(c).unwrap()
    }
    fn exec(&self, case: &Value, ex: &mut Exec) {
        let Some(mut c) = parse::<VCase>(case) else { return };
        c.table = c.table.fix();
        for (i, r) in c.table.x.iter_mut().enumerate() {
            r[0] = (i + 1) as f64;
        }
        let n = c.table.n();
        if n * c.table.k() > 20_000 {
            return;
        }
        if let Some(r) = &mut c.ratio {
            *r = if r.is_finite() { r.clamp(0.01, 0.99) } else { 0.5 };
        }
        if let Some(k) = &mut c.folds {
            *k = (*k).min(50);
        }
        let keep: Vec<usize> = if c.sparse { c.table.columns_kept() } else { (0..c.table.k()).collect() };
        let Some(f) = folds(&c, &c.env, ex) else { return };
        let Some(g) = folds(&c, &c.env2, ex) else { return };
        ex.state.add_str(&format!("{:?}", (n, c.folds, c.ratio, c.shuffle, c.sparse)));
        ex.nontrivial = n > 1 && f.len() > 1;
        ex.trace(|| format!("{} rows; folds (train, test): {:?}", n, f.iter().map(|(a, b)| (a.y.len(), b.x.iter().map(|r| r[0]).collect::<Vec<_>>())).collect::<Vec<_>>()));
        if f != g {
            ex.fail("unstable", "the same seed gives other folds under another schedule or another hash seed".into());
            return;
        }
        if f.len() != c.folds.unwrap_or(5) {
            ex.fail("count", format!("{} folds instead of {}", f.len(), c.folds.unwrap_or(5)));
            return;
        }
        let mut seen = vec![false; n];
        for (k, (a, b)) in f.iter().enumerate() {
            let mut used = vec![0; n];
            for (v, test) in [(a, false), (b, true)] {
                if v.shape != (v.y.len(), keep.len()) || v.x.len() != v.y.len() {
                    ex.fail("shape", format!("fold {k}: shape {:?}, {} rows, {} targets", v.shape, v.x.len(), v.y.len()));
                    return;
                }
                for (x, y) in v.x.iter().zip(&v.y) {
                    let id = x.first().map_or(0, |v| *v as usize);
                    let good = (1..=n).contains(&id)
                        && c.table.y[id - 1] == *y
                        && keep.iter().zip(x).all(|(j, v)| c.table.x[id - 1][*j] == *v);
                    if !good {
                        ex.fail("row", format!("fold {k}: row {x:?} with target {y} is not a row of the sample"));
                        return;
                    }
                    used[id - 1] += 1;
                    if test {
                        if seen[id - 1] {
                            ex.fail("retested", format!("row {id} is in the test part of two folds"));
                            return;
                        }
                        seen[id - 1] = true;
                    }
                }
            }
            if let Some(i) = used.iter().position(|u| *u != 1) {
                ex.fail("partition", format!("fold {k}: row {} is used {} times", i + 1, used[i]));
                return;
            }
            // The training part has the requested share (rounded), unless rows ran out.
            let tr = (c.ratio.unwrap_or(0.8) * n as f64).floor();
            let te = n as f64 - tr;
            let want = (n as f64 - k as f64 * te).clamp(0.0, te);
            if (b.y.len() as f64 - want).abs() > 1.0 {
                ex.fail("share", format!("fold {k}: {} of {n} rows are for testing, {want} expected", b.y.len()));
                return;
            }
        }
        if c.shuffle.is_none() {
            let order: Vec<f64> = f.iter().flat_map(|(_, b)| b.x.iter().map(|r| r[0])).collect();
            if order.windows(2).any(|w| w[1] != w[0] + 1.0) {
                ex.fail("order", "without shuffling the test parts are not consecutive rows".into());
            }
        }
        ex.count("probe.folds_checked", f.len() as u64);
        let Some(seed) = c.shuffle else { return };
        let order = |f: &[(View, View)]| -> Vec<usize> { f.iter().flat_map(|(_, b)| b.x.iter().map(|r| r[0] as usize)).collect() };
        let tested = order(&f);
        // 20 places: less than one in 10^18 to hit them by chance
        if tested.len() >= 20 {
            if tested.windows(2).all(|w| w[1] == w[0] + 1) {
                ex.fail("not-shuffled", format!("after shuffling, the test parts are consecutive rows from {}", tested[0]));
                return;
            }
            // another bit of the seed in every case
            let near = seed ^ (1 << (seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 58));
            let other = VCase { shuffle: Some(near), ..c.clone() };
            let Some(g) = folds(&other, &c.env, ex) else { return };
            if order(&g) == tested {
                ex.fail("seed-ignored", format!("seeds {seed} and {near} give the same {} test rows in the same order", tested.len()));
                return;
            }
            ex.count("probe.other_seed", 1);
        }
        if c.sweep && n >= 2 && n <= 40 {
            // half of the rows are tested in the first fold, and any row may be one of them
            let (mut first, mut last) = (vec![0; n], vec![0; n]);
            for k in 0..60 {
                let one = VCase { shuffle: Some(seed.wrapping_add(k)), folds: Some(1), ratio: Some(0.5), ..c.clone() };
                let Some(g) = folds(&one, &c.env, ex) else { return };
                for (v, m) in [(&g[0].1, &mut first), (&g[0].0, &mut last)] {
                    v.x.iter().for_each(|r| m[r[0] as usize - 1] += 1);
                }
            }
            for (m, what) in [(first, "testing"), (last, "training")] {
                if let Some(i) = m.iter().position(|m| *m == 0) {
                    ex.fail("never-drawn", format!("row {} of {n} is never used for {what} when half of the rows are, under the 60 seeds from {seed}", i + 1));
                    return;
                }
            }
            ex.count("probe.seed_sweeps", 1);
        }
    }
    fn runs(&self, th: bool) -> u64 {
        if th { 600_000 } else { 45_000 }
    }
    fn rule(&self) -> &'static str {
        "random table (dense or sparse), number of folds, ratio, shuffling seed; twice, under different schedules and hash seeds; non-trivial: at least two rows and two folds"
    }
    fn real(&self) -> &'static [&'static str] {
        &["CrossValidation, Sample and features", "rand (seeded generator)", "rayon iterator layer"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn expected(&self) -> &'static [&'static str] {
        &["probe.folds_checked", "probe.other_seed", "probe.seed_sweeps"]
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    vec![&Reading, &Damaged, &Folds]
}
