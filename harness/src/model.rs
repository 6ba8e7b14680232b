//! The reference model: B-spline curves in double-double arithmetic, written from the textbook definitions and without
//! any code of the system under test.

use crate::dd::{DD, ONE, ZERO};

/// What a curve of the system under test looks like through its public accessors.
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub p: usize,
    pub dim: usize,
    /// Knot vectors per derivative order.
    pub uk: Vec<Vec<f64>>,
    /// Control points per derivative order: (number of points, column-major coordinates).
    pub pk: Vec<(usize, Vec<f64>)>,
}

impl Snap {
    pub fn count(&self) -> usize {
        self.pk[0].0
    }
    pub fn n(&self) -> usize {
        self.count() - 1
    }
    pub fn t(&self) -> &[f64] {
        &self.uk[0]
    }
    pub fn a(&self) -> f64 {
        self.uk[0][self.p]
    }
    pub fn b(&self) -> f64 {
        self.uk[0][self.uk[0].len() - 1 - self.p]
    }
    pub fn interior(&self) -> &[f64] {
        let t = &self.uk[0];
        &t[self.p + 1..t.len() - self.p - 1]
    }
    /// Multiplicity of an interior knot.
    pub fn mult(&self, u: f64) -> usize {
        self.interior().iter().filter(|&&x| x == u).count()
    }
    pub fn max_mult(&self) -> usize {
        self.interior().chunk_by(|a, b| a == b).map(|c| c.len()).max().unwrap_or(0)
    }
    pub fn breaks(&self) -> Vec<f64> {
        let mut v: Vec<f64> = self.t()[self.p..self.t().len() - self.p].to_vec();
        v.dedup();
        v
    }
    pub fn model(&self) -> M {
        let t = self.uk[0].iter().map(|&x| DD::from(x)).collect();
        let c = (0..self.count())
            .map(|i| (0..self.dim).map(|d| DD::from(self.pk[0].1[i * self.dim + d])).collect())
            .collect();
        M::new(self.p, t, c)
    }
    /// Can the model say anything about this curve?
    pub fn sane(&self) -> Result<(), String> {
        let t = match self.uk.first() {
            Some(t) => t,
            None => return Err("no knot vector".into()),
        };
        if self.pk.is_empty() || self.dim == 0 {
            return Err("no control points".into());
        }
        if t.len() != self.count() + self.p + 1 {
            return Err(format!("{} knots for {} control points of degree {}", t.len(), self.count(), self.p));
        }
        if self.count() < self.p + 1 {
            return Err(format!("{} control points for degree {}", self.count(), self.p));
        }
        if t.iter().any(|x| !x.is_finite()) {
            return Err(format!("non-finite knots {:?}", t));
        }
        if self.pk[0].1.iter().any(|x| !x.is_finite()) {
            return Err("non-finite control points".to_string());
        }
        if t.windows(2).any(|w| w[0] > w[1]) {
            return Err(format!("knots not ascending {:?}", t));
        }
        if !(self.a() < self.b()) {
            return Err(format!("empty domain {:?}", t));
        }
        Ok(())
    }
}

#[derive(Clone)]
pub struct M {
    pub p: usize,
    pub dim: usize,
    pub t: Vec<DD>,
    /// Control points `c[k][i][d]` of the `k`-th derivative.
    pub c: Vec<Vec<Vec<DD>>>,
    /// Error amplification of `c[k][i]` relative to an error of size one in every control point.
    pub s: Vec<Vec<f64>>,
    /// Largest magnitude per dimension.
    pub mag: Vec<f64>,
    /// Smallest non-empty knot span.
    pub gap: f64,
}

impl M {
    pub fn new(p: usize, t: Vec<DD>, c0: Vec<Vec<DD>>) -> M {
        let dim = c0[0].len();
        let n = c0.len() - 1;
        let mut mag = vec![0.0f64; dim];
        for c in &c0 {
            for d in 0..dim {
                mag[d] = mag[d].max(c[d].h.abs());
            }
        }
        let mut gap = f64::INFINITY;
        for w in t.windows(2) {
            let g = (w[1] - w[0]).h;
            if g > 0.0 {
                gap = gap.min(g);
            }
        }
        let mut c = vec![c0];
        // magnitudes, and errors when points and knots are each off by one rounding
        let mut g = vec![1.0; n + 1];
        let mut s = vec![vec![1.0; n + 1]];
        for k in 1..=p {
            let mut ck = Vec::with_capacity(n + 1 - k);
            let mut sk = Vec::with_capacity(n + 1 - k);
            let mut gk = Vec::with_capacity(n + 1 - k);
            for i in 0..=n - k {
                let w = t[i + p + 1] - t[i + k];
                if w.is_zero() {
                    ck.push(vec![ZERO; dim]);
                    sk.push(0.0);
                    gk.push(0.0);
                } else {
                    let f = DD::from((p - k + 1) as f64) / w;
                    let q: Vec<DD> = (0..dim).map(|d| f * (c[k - 1][i + 1][d] - c[k - 1][i][d])).collect();
                    ck.push(q);
                    gk.push(f.h * (g[i + 1] + g[i]));
                    sk.push(f.h * (s[k - 1][i + 1] + s[k - 1][i]) + gk[gk.len() - 1] / w.h);
                }
            }
            c.push(ck);
            s.push(sk);
            g = gk;
        }
        M { p, dim, t, c, s, mag, gap }
    }
    pub fn n(&self) -> usize {
        self.c[0].len() - 1
    }
    pub fn a(&self) -> DD {
        self.t[self.p]
    }
    pub fn b(&self) -> DD {
        self.t[self.n() + 1]
    }
    /// The non-empty span containing `x` (right-continuous, the last one closed).
    pub fn span(&self, x: DD) -> usize {
        let (mut best, mut j) = (None, self.p);
        while j <= self.n() {
            if self.t[j].lt(self.t[j + 1]) && (best.is_none() || self.t[j].le(x)) {
                best = Some(j);
            }
            j += 1;
        }
        best.unwrap()
    }
    /// Value of the `k`-th derivative at `x` and the amplification factor of errors there.
    pub fn eval(&self, x: DD, k: usize) -> (Vec<DD>, f64) {
        if k > self.p {
            return (vec![ZERO; self.dim], 0.0);
        }
        self.eval_span(x, k, self.span(x))
    }
    pub fn eval_span(&self, x: DD, k: usize, j: usize) -> (Vec<DD>, f64) {
        let (p, q) = (self.p, self.p - k);
        let tk = |i: usize| self.t[i + k];
        let mut d: Vec<Vec<DD>> = (0..=q).map(|r| self.c[k][j - p + r].clone()).collect();
        let sc = (0..=q).map(|r| self.s[k][j - p + r]).fold(0.0, f64::max);
        for l in 1..=q {
            for r in (l..=q).rev() {
                let i = j - p + r;
                let al = (x - tk(i)) / (tk(i + 1 + q - l) - tk(i));
                for e in 0..self.dim {
                    d[r][e] = (ONE - al) * d[r - 1][e] + al * d[r][e];
                }
            }
        }
        (d.pop().unwrap(), sc)
    }
    /// Boehm's knot insertion.
    pub fn insert(&self, u: DD) -> M {
        let p = self.p;
        let l = self.span(u);
        let mut q = Vec::with_capacity(self.n() + 2);
        for i in 0..=self.n() + 1 {
            if i + p <= l {
                q.push(self.c[0][i].clone());
            } else if i > l {
                q.push(self.c[0][i - 1].clone());
            } else {
                let al = (u - self.t[i]) / (self.t[i + p] - self.t[i]);
                q.push((0..self.dim).map(|d| (ONE - al) * self.c[0][i - 1][d] + al * self.c[0][i][d]).collect());
            }
        }
        let mut t = self.t.clone();
        t.insert(l + 1, u);
        M::new(p, t, q)
    }
    fn mult(&self, u: DD) -> usize {
        self.t.iter().filter(|&&x| x == u).count()
    }
    /// The two parts, not normalised. `u` must have a multiplicity of at most `p`.
    pub fn split(&self, u: DD) -> (M, M) {
        let mut m = self.clone();
        while m.mult(u) < m.p {
            m = m.insert(u);
        }
        let p = self.p;
        let first = m.t.iter().position(|x| u.le(*x)).unwrap();
        // p == 0: the knot may be absent entirely
        let mut tl: Vec<DD> = m.t[..first].to_vec();
        tl.extend(std::iter::repeat(u).take(p + 1));
        let mut tr: Vec<DD> = vec![u; p + 1];
        tr.extend(m.t[first + m.mult(u)..].iter());
        let nl = tl.len() - p - 1;
        let nr = tr.len() - p - 1;
        let cl = m.c[0][..nl].to_vec();
        let cr = m.c[0][m.c[0].len() - nr..].to_vec();
        (M::new(p, tl, cl), M::new(p, tr, cr))
    }
    pub fn normalized(&self) -> M {
        let (a, w) = (self.a(), self.b() - self.a());
        M::new(self.p, self.t.iter().map(|&x| (x - a) / w).collect(), self.c[0].clone())
    }
    pub fn reversed(&self) -> M {
        let t = self.t.iter().rev().map(|&x| ONE - x).collect();
        let c = self.c[0].iter().rev().cloned().collect();
        M::new(self.p, t, c)
    }
    /// Coefficients of the control points `lo..lo+p` in the `k`-th derivative (k < p) at the given end and in the value
    /// at parameters.
    fn unit(&self, lo: usize) -> M {
        let p = self.p;
        let c = (0..=self.n())
            .map(|i| (0..p).map(|d| if i == lo + d { ONE } else { ZERO }).collect())
            .collect();
        M::new(p, self.t.clone(), c)
    }
}

pub enum Merged {
    /// Both curves with displaced ends, and the condition number of the displacement problem.
    Ok { a: M, b: M, cond: f64, moved: f64 },
    /// The constraints contradict the continuity conditions.
    Infeasible,
    /// Too badly conditioned for a verdict.
    Ill,
}

/// The least displacement of the last `p` points of `a` and the first `p` points of `b` making all derivatives below
/// `p` agree at the joint while keeping the constrained points.
pub fn merge(a: &M, b: &M, ca: &[f64], cb: &[f64]) -> Merged {
    let (p, dim) = (a.p, a.dim);
    let (ua, ub) = (a.unit(a.n() + 1 - p), b.unit(0));
    let mut rows: Vec<(Vec<DD>, Vec<DD>)> = vec![];
    for k in 0..p {
        let mut v = ua.c[k][a.n() - k].clone();
        v.extend(ub.c[k][0].iter().map(|&x| -x));
        let r = (0..dim).map(|d| b.c[k][0][d] - a.c[k][a.n() - k][d]).collect();
        rows.push((v, r));
    }
    for &g in ca {
        let mut v = ua.eval(DD::from(g), 0).0;
        v.extend(vec![ZERO; p]);
        rows.push((v, vec![ZERO; dim]));
    }
    for &h in cb {
        let mut v = vec![ZERO; p];
        v.extend(ub.eval(DD::from(h), 0).0);
        rows.push((v, vec![ZERO; dim]));
    }
    let dot = |x: &[DD], y: &[DD]| x.iter().zip(y).fold(ZERO, |s, (a, b)| s + *a * *b);
    let mut q: Vec<(Vec<DD>, Vec<DD>, DD)> = vec![];
    let mut used = vec![];
    for (i, (v, r)) in rows.iter().enumerate() {
        let norm = dot(v, v).f().sqrt();
        if norm == 0.0 {
            continue;
        }
        if norm < 1e-2 {
            return Merged::Ill;
        }
        let (mut v, mut r) = (v.clone(), r.clone());
        for _ in 0..2 {
            for (w, s, n2) in &q {
                let f = dot(&v, w) / *n2;
                for e in 0..2 * p {
                    v[e] = v[e] - f * w[e];
                }
                for d in 0..dim {
                    r[d] = r[d] - f * s[d];
                }
            }
        }
        let n2 = dot(&v, &v);
        let rest = n2.f().max(0.0).sqrt();
        if rest < 1e-12 * norm {
            // dependent on earlier rows
            if i < p {
                return Merged::Ill;
            }
            for d in 0..dim {
                if r[d].f().abs() > 1e-9 * (a.mag[d] + b.mag[d]) {
                    return Merged::Infeasible;
                }
            }
            continue;
        }
        if rest < 1e-3 * norm && i >= p {
            return Merged::Ill;
        }
        used.push(i);
        q.push((v, r, n2));
    }
    // condition of the displacement problem with its multipliers
    let n = 2 * p + used.len();
    let mut kkt = nalgebra::DMatrix::<f64>::identity(n, n);
    for (j, &i) in used.iter().enumerate() {
        kkt[(2 * p + j, 2 * p + j)] = 0.0;
        for e in 0..2 * p {
            kkt[(2 * p + j, e)] = rows[i].0[e].f();
            kkt[(e, 2 * p + j)] = rows[i].0[e].f();
        }
    }
    let sv = kkt.singular_values();
    if !(sv.min() > 1e-6) {
        return Merged::Ill;
    }
    let cond = sv.max() / sv.min();
    let mut x = vec![vec![ZERO; dim]; 2 * p];
    for (v, r, n2) in &q {
        for d in 0..dim {
            let f = r[d] / *n2;
            for e in 0..2 * p {
                x[e][d] = x[e][d] + f * v[e];
            }
        }
    }
    let mut moved = 0.0f64;
    let shift = |m: &M, lo: usize, x: &[Vec<DD>]| {
        let mut c = m.c[0].clone();
        for e in 0..p {
            for d in 0..dim {
                c[lo + e][d] = c[lo + e][d] + x[e][d];
            }
        }
        M::new(p, m.t.clone(), c)
    };
    for v in &x {
        for d in 0..dim {
            let m = a.mag[d].max(b.mag[d]);
            if m > 0.0 {
                moved = moved.max(v[d].f().abs() / m);
            }
        }
    }
    Merged::Ok {
        a: shift(a, a.n() + 1 - p, &x[..p]),
        b: shift(b, 0, &x[p..]),
        cond,
        moved,
    }
}

/// The basis functions of degree `q` on the knots `t` that do not vanish at `x`: index of the first one and values.
pub fn basis(t: &[DD], q: usize, x: DD) -> (usize, Vec<DD>) {
    let n = t.len() - q - 2;
    let mut j = q;
    for i in q..=n {
        if t[i].lt(t[i + 1]) && (t[i].le(x) || !t[j].lt(t[j + 1])) {
            j = i;
        }
    }
    let mut b = vec![ONE];
    for l in 1..=q {
        let mut c = vec![ZERO; l + 1];
        for (r, v) in b.iter().enumerate() {
            // function r of degree l-1 starts at knot j-l+1+r
            let i = j + 1 + r - l;
            let w = t[i + l] - t[i];
            c[r] = c[r] + (t[i + l] - x) / w * *v;
            c[r + 1] = c[r + 1] + (x - t[i]) / w * *v;
        }
        b = c;
    }
    (j - q, b)
}

/// Solves `a x = b`; also returns the largest absolute row sum of the inverse.
pub fn solve(mut a: Vec<Vec<DD>>, b: &[Vec<DD>]) -> Option<(Vec<Vec<DD>>, f64)> {
    let n = a.len();
    let dim = b[0].len();
    let mut r: Vec<Vec<DD>> = (0..n)
        .map(|i| {
            let mut v = b[i].clone();
            v.extend((0..n).map(|j| if i == j { ONE } else { ZERO }));
            v
        })
        .collect();
    for c in 0..n {
        let p = (c..n).max_by(|&i, &j| a[i][c].f().abs().total_cmp(&a[j][c].f().abs()))?;
        if a[p][c].f().abs() < 1e-20 {
            return None;
        }
        a.swap(c, p);
        r.swap(c, p);
        for i in c + 1..n {
            if a[i][c].is_zero() {
                continue;
            }
            let f = a[i][c] / a[c][c];
            for k in c..n {
                a[i][k] = a[i][k] - f * a[c][k];
            }
            for k in 0..dim + n {
                if !r[c][k].is_zero() {
                    r[i][k] = r[i][k] - f * r[c][k];
                }
            }
        }
    }
    for c in (0..n).rev() {
        for k in 0..dim + n {
            let mut x = r[c][k];
            for j in c + 1..n {
                if !a[c][j].is_zero() {
                    x = x - a[c][j] * r[j][k];
                }
            }
            r[c][k] = x / a[c][c];
        }
    }
    let inv = r.iter().map(|v| v[dim..].iter().map(|x| x.f().abs()).sum::<f64>()).fold(0.0, f64::max);
    Some((r.into_iter().map(|mut v| { v.truncate(dim); v }).collect(), inv))
}
