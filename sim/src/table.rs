//! Data tables and their encodings as files.

use crate::rng::Rng;
use crate::seam;
use miniboosts::{Sample, SampleReader};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Table {
    /// Rows of feature values.
    pub x: Vec<Vec<f64>>,
    pub y: Vec<f64>,
}

impl Table {
    pub fn n(&self) -> usize {
        self.y.len()
    }
    pub fn k(&self) -> usize {
        self.x.first().map_or(0, |r| r.len())
    }
    /// Make any (shrunk) table rectangular and finite.
    pub fn fix(mut self) -> Table {
        let k = self.x.iter().map(|r| r.len()).max().unwrap_or(0).max(1);
        if self.y.is_empty() {
            self.y.push(1.0);
        }
        self.x.resize(self.y.len(), vec![]);
        for r in self.x.iter_mut() {
            r.resize(k, 0.0);
            for v in r.iter_mut() {
                if !v.is_finite() {
                    *v = 0.0;
                }
            }
        }
        for v in self.y.iter_mut() {
            if !v.is_finite() {
                *v = 0.0;
            }
        }
        self
    }
    /// The target column goes to position `pos`.
    pub fn csv(&self, header: bool, pos: usize) -> String {
        let k = self.k();
        let pos = pos.min(k);
        let mut s = String::new();
        let mut line = |mut cells: Vec<String>, y: String| {
            cells.insert(pos, y);
            s.push_str(&cells.join(","));
            s.push('\n');
        };
        if header {
            line((0..k).map(|j| format!("f{j}")).collect(), "class".into());
        }
        for (r, y) in self.x.iter().zip(&self.y) {
            line(r.iter().map(|v| format!("{v}")).collect(), format!("{y}"));
        }
        s
    }
    /// Zeros are left out; indices start from 1.
    pub fn svm(&self) -> String {
        let mut s = String::new();
        for (r, y) in self.x.iter().zip(&self.y) {
            s.push_str(&format!("{y}"));
            for (j, v) in r.iter().enumerate() {
                if *v != 0.0 {
                    s.push_str(&format!(" {}:{v}", j + 1));
                }
            }
            s.push('\n');
        }
        s
    }
    pub fn dense(&self) -> Sample {
        let p = "/simfs/__table.csv";
        seam::with_disk(|d| d.put(p, self.csv(true, self.k()).as_bytes()));
        let r = SampleReader::default().file(p).has_header(true).target_feature("class").read();
        seam::with_disk(|d| d.remove(p));
        r.expect("the undisturbed csv file is readable")
    }
    pub fn sparse(&self) -> Sample {
        let p = "/simfs/__table.svmlight";
        seam::with_disk(|d| d.put(p, self.svm().as_bytes()));
        let r = SampleReader::<&str, &str>::default().file(p).read();
        seam::with_disk(|d| d.remove(p));
        r.expect("the undisturbed svmlight file is readable")
    }
    /// Columns that survive in the sparse encoding.
    pub fn columns_kept(&self) -> Vec<usize> {
        (0..self.k()).filter(|j| self.x.iter().any(|r| r[*j] != 0.0)).collect()
    }
}

/// A short decimal number.
pub fn gen_value(rng: &mut Rng) -> f64 {
    match rng.below(6) {
        0 => 0.0,
        1 | 2 => rng.irange(-3, 9) as f64,
        3 => rng.irange(-40, 40) as f64 / 8.0,
        4 => rng.irange(-999, 999) as f64 / 100.0,
        _ => *rng.pick(&[1e-3, -2.5e5, 1e9, 3.0, 1e-12]),
    }
}
