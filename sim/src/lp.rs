//! Reference optimum of the soft-margin game, certified by a primal/dual gap.
//!
//! max_w  softmargin(w)   over the simplex over hypotheses
//!   =  min_d max_j edge_j(d)   over d in the nu-capped simplex.

/// Sum of the `nu` smallest margins (fractional tail) divided by `nu`.
pub fn softmargin(margins: &[f64], nu: f64) -> f64 {
    let mut m = margins.to_vec();
    m.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    let mut left = nu.min(m.len() as f64);
    let mut s = 0.0;
    for v in m {
        let k = left.min(1.0);
        if k <= 0.0 {
            break;
        }
        s += k * v;
        left -= k;
    }
    s / nu.min(margins.len() as f64)
}

pub struct Opt {
    pub lower: f64,
    pub upper: f64,
    pub weights: Vec<f64>,
    pub dist: Vec<f64>,
}
impl Opt {
    pub fn gap(&self) -> f64 {
        self.upper - self.lower
    }
}

/// `u[j][i] = y_i h_j(x_i)`.
pub fn solve(u: &[Vec<f64>], nu: f64) -> Option<Opt> {
    let m = u.len();
    if m == 0 {
        return None;
    }
    let n = u[0].len();
    let cap = 1.0 / nu;
    // Variables: w_j >= 0 (m), rho = r+ - r- (2), xi_i >= 0 (n).
    // max rho - cap * sum xi
    // s.t. sum_j w_j = 1
    //      rho - sum_j w_j u_ij - xi_i <= 0
    // Shift: all u in [-1,1] => rho >= -1 wlog; let r = rho + 1 >= 0, and use
    // sum_j w_j = 1 to fold the shift in: r - sum w_j (u_ij + 1) - xi_i <= 0.
    // sum w_j <= 1 is then enough (u+1 >= 0), so the origin is feasible.
    // tableau: rows: 1 (simplex) + n; cols: m + 1 + n vars + (n+1) slacks + rhs
    let nv = m + 1 + n;
    let nr = n + 1;
    let w = nv + nr + 1;
    let mut t = vec![vec![0.0f64; w]; nr + 1];
    for j in 0..m {
        t[0][j] = 1.0;
    }
    t[0][nv] = 1.0;
    t[0][w - 1] = 1.0;
    for i in 0..n {
        let r = &mut t[i + 1];
        for j in 0..m {
            r[j] = -(u[j][i] + 1.0);
        }
        r[m] = 1.0;
        r[m + 1 + i] = -1.0;
        r[nv + 1 + i] = 1.0;
    }
    // objective row: reduced costs of max  => minimise -(r) + cap*sum xi
    t[nr][m] = -1.0;
    for i in 0..n {
        t[nr][m + 1 + i] = cap;
    }
    let mut basis: Vec<usize> = (0..nr).map(|i| nv + i).collect();
    let mut it = 0usize;
    loop {
        it += 1;
        if it > 20_000 {
            return None;
        }
        // Bland after a while, Dantzig first.
        let mut e = usize::MAX;
        let mut best = -1e-11;
        for (c, v) in t[nr][..w - 1].iter().enumerate() {
            if *v < best {
                e = c;
                if it > 2000 {
                    break;
                }
                best = *v;
            }
        }
        if e == usize::MAX {
            break;
        }
        let mut l = usize::MAX;
        let mut br = f64::INFINITY;
        for r in 0..nr {
            if t[r][e] > 1e-11 {
                let q = t[r][w - 1] / t[r][e];
                if q < br - 1e-13 || (q < br + 1e-13 && (l == usize::MAX || basis[r] < basis[l])) {
                    br = br.min(q);
                    l = r;
                }
            }
        }
        if l == usize::MAX {
            return None;
        }
        let p = t[l][e];
        for v in t[l].iter_mut() {
            *v /= p;
        }
        let row = t[l].clone();
        for (r, tr) in t.iter_mut().enumerate() {
            if r != l {
                let f = tr[e];
                if f != 0.0 {
                    for (a, b) in tr.iter_mut().zip(&row) {
                        *a -= f * b;
                    }
                }
            }
        }
        basis[l] = e;
    }
    let mut x = vec![0.0; nv + nr];
    for (r, b) in basis.iter().enumerate() {
        x[*b] = t[r][w - 1];
    }
    let mut weights: Vec<f64> = x[..m].iter().map(|v| v.max(0.0)).collect();
    let s: f64 = weights.iter().sum();
    if s <= 0.0 {
        weights = vec![0.0; m];
        weights[0] = 1.0;
    } else {
        weights.iter_mut().for_each(|v| *v /= s);
    }
    let mut dist: Vec<f64> = (0..n).map(|i| t[nr][nv + 1 + i].max(0.0)).collect();
    project_capped(&mut dist, cap)?;
    let margins: Vec<f64> = (0..n).map(|i| (0..m).map(|j| weights[j] * u[j][i]).sum()).collect();
    let lower = softmargin(&margins, nu);
    let upper = (0..m)
        .map(|j| (0..n).map(|i| dist[i] * u[j][i]).sum::<f64>())
        .fold(f64::NEG_INFINITY, f64::max);
    Some(Opt { lower, upper, weights, dist })
}

/// Make `d` an exact member of the capped simplex (it already nearly is).
fn project_capped(d: &mut [f64], cap: f64) -> Option<()> {
    for _ in 0..50 {
        let s: f64 = d.iter().sum();
        if s <= 0.0 {
            return None;
        }
        d.iter_mut().for_each(|v| *v = (*v / s).min(cap));
        let s2: f64 = d.iter().sum();
        if (s2 - 1.0).abs() < 1e-12 {
            return Some(());
        }
    }
    None
}
