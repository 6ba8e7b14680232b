//! Operations that make knots, parameters and curves from data, and the basis functions of the curves there are.

use super::*;
use crate::dd::ZERO;
use crate::model;
use bsplines::curve::parameters::Parameters;
use bsplines::curve::points::methods::fit::{self, FitError};
use bsplines::curve::points::methods::interpolation::interpolate;

/// The basis functions of a curve at some parameters.
pub fn run_basis(op: &Op, what: &str, out: &mut Out, i: usize, s: &Snap) {
    let us = params(&op.u, s);
    let k = op.x % (s.p + 1);
    let (p, n, q) = (s.p, s.n(), s.p - k);
    out.ok = true;
    let c = w().slots[i].curve.as_ref().unwrap();
    let free = op.flag == 1;
    let (r, hit) = attempts(
        op,
        &mut || {
            let mut v: Vec<Vec<f64>> = Vec::with_capacity(us.len());
            for &u in &us {
                let mut b = Vec::with_capacity(n + 1 - k);
                for j in 0..=n - k {
                    b.push(if free {
                        basis(c.knots.vector_derivative(k), j, q, k, c.knots.segments(), u)
                    } else {
                        c.knots.evaluate(k, j, p, u)
                    });
                }
                v.push(b);
            }
            v
        },
        &mut || unchanged(what, i, s),
    );
    let v = match r {
        Ok(v) => v,
        Err(e) => return failed(op, what, &e, hit),
    };
    v.iter().flatten().for_each(|x| hash_f(&mut out.h, *x));
    if !oracles() {
        return;
    }
    checked("C13");
    checked("C09");
    let t: Vec<DD> = s.uk[k].iter().map(|&x| DD::from(x)).collect();
    for (u, v) in us.iter().zip(&v) {
        let (lo, want) = model::basis(&t, q, DD::from(*u));
        let bad = |m: String| {
            viol(&["C13"], format!("{}: basis functions of derivative {} of a curve of {} at {:?}: {}", what, k, brief(s), u, m))
        };
        let mut sum = ZERO;
        for (j, x) in v.iter().enumerate() {
            if !(*x >= -4.0 * EPS) {
                return bad(format!("function {} is {:?}", j, x));
            }
            let y = if j >= lo && j <= lo + q { want[j - lo] } else { ZERO };
            if !((DD::from(*x) - y).f().abs() <= 200.0 * EPS) {
                return bad(format!("function {} is {:?} instead of {:?}", j, x, y.f()));
            }
            sum = sum + DD::from(*x);
        }
        if !((sum - ONE).f().abs() <= 200.0 * EPS) {
            return bad(format!("they sum to {:?}", sum.f()));
        }
    }
}

/// Data points as a user might have them.
fn dataset(g: &GenSpec, count: usize, distinct: bool) -> MatD {
    let mut r = Rng::sub(g.seed, 5);
    let style = r.weighted(&[3.0, 2.0, 1.0, 1.0, 1.0]);
    let scale = *r.pick(&[1.0, 1.0, 1.0, 1.0, 100.0, 1e-3, 1e4, 1e-6, 1e-9, 1e9]);
    let mut m = MatD::zeros(g.dim, count);
    let dir: Vec<f64> = (0..g.dim).map(|_| r.f() + 0.1).collect();
    let mut at: Vec<f64> = (0..g.dim).map(|_| r.f() * 2.0 - 1.0).collect();
    for i in 0..count {
        let step = match style {
            3 => 10f64.powi(r.range(0, 4) as i32 - 2),
            _ => 0.1 + r.f(),
        };
        let stay = !distinct && i > 0 && style == 4 && r.chance(0.3);
        for d in 0..g.dim {
            match style {
                // scattered
                0 => at[d] = r.f() * 2.0 - 1.0,
                // a walk
                1 | 3 => at[d] += step * (r.f() - 0.3),
                // collinear
                2 => at[d] += step * dir[d],
                // lattice
                _ if !stay => at[d] = r.range(0, 4) as f64,
                _ => {}
            }
        }
        if distinct && i > 0 && (0..g.dim).all(|d| (scale * at[d] - m[(d, i - 1)]).abs() < 1e-3 * scale) {
            at[0] += 0.5;
        }
        for d in 0..g.dim {
            m[(d, i)] = scale * at[d];
        }
    }
    match r.weighted(&[12.0, 1.0, 1.0, 1.0, 1.0]) {
        // closed
        1 if count > 3 => {
            let first = m.column(0).into_owned();
            if !distinct || m.column(count - 2) != first {
                m.set_column(count - 1, &first);
            }
        }
        // a coordinate that is not used
        2 if g.dim > 1 => {
            let old = m.clone();
            m.row_mut(g.dim - 1).fill(0.0);
            if distinct && (1..count).any(|i| m.column(i) == m.column(i - 1)) {
                m = old;
            }
        }
        // far away
        3 if !distinct => m.add_scalar_mut(64.0 * scale),
        // standing still at the ends
        4 if !distinct && count > 3 => {
            let (a, b) = (m.column(0).into_owned(), m.column(count - 1).into_owned());
            for i in 1..=r.below((count / 2).min(4)) {
                m.set_column(i, &a);
            }
            for i in 1..=r.below((count / 2).min(4)) {
                m.set_column(count - 1 - i, &b);
            }
        }
        _ => {}
    }
    // shapes data often have, exactly or almost
    let mut q = Rng::sub(g.seed, 7);
    if q.chance(0.3) {
        let old = m.clone();
        let n = count - 1;
        let mut t = 0.0;
        let (w, f) = (1 + q.below(3), q.f());
        let shape = q.below(8);
        for i in 0..count {
            for d in 0..g.dim {
                m[(d, i)] = match shape {
                    // forth and back
                    0 => m[(d, i.min(n - i))],
                    // mirrored at the middle
                    1 if 2 * i > n => -m[(d, n - i)],
                    1 if 2 * i == n => 0.0,
                    // mirrored, and closed
                    2 if i == 0 || i == n || 2 * i == n => 0.0,
                    2 if 2 * i > n => -m[(d, n - i)],
                    // the same over and over
                    3 if i > w => m[(d, i - w - 1)],
                    // a polynomial
                    4 => scale * dir[d] * (0..=w).fold(0.0, |s, k| s + (t - f).powi(k as i32)),
                    // waves
                    5 => scale * (6.283185307179586 * t + d as f64 * 1.5707963267948966).cos(),
                    // a graph: the first coordinate is the parameter
                    6 if d == 0 => scale * t,
                    // evenly on a line
                    7 => scale * dir[d] * i as f64,
                    _ => m[(d, i)],
                };
            }
            t = (i + 1) as f64 / n.max(1) as f64;
        }
        if q.chance(0.5) {
            let by = scale * 10f64.powi(-(q.range(2, 13) as i32));
            let all = q.chance(0.3);
            let (a, b) = (q.below(g.dim), q.below(count));
            for d in 0..g.dim {
                for i in 0..count {
                    if all || (d, i) == (a, b) {
                        m[(d, i)] += by * (q.f() - 0.5);
                    }
                }
            }
        }
        if distinct && (1..count).any(|i| (m.column(i) - m.column(i - 1)).amax() < 1e-3 * scale) {
            m = old;
        }
    }
    if g.data >= 8 {
        // almost the same data as those of another request
        let mut r = Rng::sub(g.seed, g.data as u64);
        m[(r.below(g.dim), r.below(count))] += scale * (0.1 + r.f());
    }
    if m.column(0) == m.column(count - 1) && count == 2 {
        m[(0, 1)] += scale;
    }
    if (1..count).all(|i| (m.column(i) - m.column(i - 1)).amax() < 1e-4 * scale) {
        m[(0, 0)] += scale;
    }
    m
}
/// Strictly ascending parameters from 0 to 1.
fn custom(g: &GenSpec, m: usize) -> Vec<f64> {
    let mut r = Rng::sub(g.seed, 6);
    let mut v = vec![0.0];
    for _ in 0..m {
        v.push(v[v.len() - 1] + 0.2 + r.f());
    }
    let top = v[m];
    v.iter_mut().for_each(|x| *x /= top);
    let mut q = Rng::sub(g.seed, 8);
    if q.chance(0.25) {
        // almost even, or mirrored
        let by = if q.chance(0.3) { 0.0 } else { 10f64.powi(-(q.range(2, 15) as i32)) };
        for i in 1..m {
            v[i] = i as f64 / m as f64 + by * (q.f() - 0.5) / m as f64;
        }
    } else if q.chance(0.1) {
        for i in 1..m {
            v[i] = if 2 * i == m {
                0.5
            } else if 2 * i > m {
                1.0 - v[m - i]
            } else {
                v[i] * 0.5 / v[(m + 1) / 2].max(0.5)
            };
        }
    }
    if g.data >= 8 && m > 1 {
        let mut r = Rng::sub(g.seed, g.data as u64);
        let i = r.range(1, m - 1);
        v[i] = v[i - 1] + (v[i + 1] - v[i - 1]) * (0.3 + 0.4 * r.f());
    }
    v
}
/// How far apart, exactly.
fn steps(q: &MatD, root: bool) -> Vec<DD> {
    (1..q.ncols())
        .map(|g| {
            let mut s = ZERO;
            for d in 0..q.nrows() {
                let x = DD::from(q[(d, g)]) - DD::from(q[(d, g - 1)]);
                s = s + x * x;
            }
            let s = sqrt(s);
            if root {
                sqrt(s)
            } else {
                s
            }
        })
        .collect()
}
fn sqrt(x: DD) -> DD {
    if x.is_zero() {
        return ZERO;
    }
    let mut y = DD::from(x.h.sqrt());
    for _ in 0..2 {
        y = (y + x / y) * DD::from(0.5);
    }
    y
}
/// The parameters a method documents: 0 equally spaced, 1 centripetal, 2 chord length, 3 the given ones.
fn want_params(method: usize, q: &MatD, given: &[f64]) -> Vec<DD> {
    let m = q.ncols() - 1;
    match method {
        0 => (0..=m).map(|g| DD::from(g as f64) / DD::from(m as f64)).collect(),
        3 => given.iter().map(|&x| DD::from(x)).collect(),
        _ => {
            let s = steps(q, method == 1);
            let sum = s.iter().fold(ZERO, |a, b| a + *b);
            let mut v = vec![ZERO];
            for x in &s {
                v.push(v[v.len() - 1] + *x / sum);
            }
            v
        }
    }
}
fn make_params(method: usize, q: &DataPoints, given: &[f64], direct: bool) -> Parameters {
    use parameters::{methods, Method};
    match (method, direct) {
        (0, false) => parameters::generate(q, Method::EquallySpaced),
        (1, false) => parameters::generate(q, Method::Centripetal),
        (2, false) => parameters::generate(q, Method::ChordLength),
        (0, true) => methods::equally_spaced(q.segments()),
        (1, true) => methods::centripetal(q),
        (2, true) => methods::chord_length(q),
        _ => Parameters::new(VecD::from_column_slice(given), given.len() - 1),
    }
}
/// The knots a method documents: 0 uniform, 1 averaging, 2 de Boor.
fn want_knots(method: usize, p: usize, n: usize, u: &[DD]) -> Vec<DD> {
    let mut t = vec![ZERO; p + 1];
    let spans = n - p + 1;
    for j in 1..spans {
        t.push(match method {
            0 => DD::from(j as f64) / DD::from(spans as f64),
            1 => (j..j + p).fold(ZERO, |s, i| s + u[i]) / DD::from(p as f64),
            _ => {
                // j (m+1) / (n-p+1), exactly
                let (i, rest) = (j * u.len() / spans, j * u.len() % spans);
                let al = DD::from(rest as f64) / DD::from(spans as f64);
                (ONE - al) * u[i - 1] + al * u[i]
            }
        });
    }
    t.extend(vec![ONE; p + 1]);
    t
}
fn make_knots(method: usize, p: usize, n: usize, u: &Parameters, direct: bool) -> Result<Knots, CurveError> {
    use knots::{methods, Method};
    match (method, direct) {
        (0, false) => knots::generate(p, n, u, Method::Uniform),
        (1, false) => knots::generate(p, n, u, Method::Averaging),
        (_, false) => knots::generate(p, n, u, Method::DeBoor),
        (0, true) => methods::uniform(p, n),
        (1, true) => methods::averaging(p, n, u),
        (_, true) => methods::de_boor(p, n, u),
    }
}
const KM: [&str; 3] = ["uniform", "averaging", "de Boor"];
const PM: [&str; 4] = ["equally spaced", "centripetal", "chord-length", "given"];

pub fn run_params(op: &Op, what: &str, out: &mut Out) {
    let g = op.gen.unwrap();
    out.ok = true;
    let method = op.flag % 3;
    // now and then a lot of data
    let m = if op.x / 2 % 16 == 0 { g.n * (2 + op.x / 32 % 61) } else { g.n };
    let pts = dataset(&g, m + 1, op.x % 2 == 0);
    let (r, hit) = attempts(
        op,
        &mut || {
            let q = DataPoints::new(pts.clone());
            let u = make_params(method, &q, &[], op.flag / 3 % 2 == 1);
            (u.vector().as_slice().to_vec(), u.segments())
        },
        &mut || {},
    );
    let (v, segments) = match r {
        Ok(v) => v,
        Err(e) => return failed(op, what, &e, hit),
    };
    v.iter().for_each(|x| hash_f(&mut out.h, *x));
    if !oracles() {
        return;
    }
    checked("C15");
    checked("C09");
    let bad = |s: String| viol(&["C15"], format!("{}: {} parameters of {} points: {} ({:?})", what, PM[method], m + 1, s, v));
    if v.len() != m + 1 || segments != m {
        return bad(format!("{} parameters for {} segments", v.len(), segments));
    }
    if v[0] != 0.0 || v[m] != 1.0 {
        return bad("not from 0 to 1".into());
    }
    let slack = 8.0 * EPS * m as f64;
    if v.iter().any(|x| !(*x <= 1.0)) {
        return bad("not within [0,1]".into());
    }
    if (1..=m).any(|i| !(v[i] >= v[i - 1] - 4.0 * EPS)) {
        return bad("not ascending".into());
    }
    let want = want_params(method, &pts, &[]);
    for (i, (x, y)) in v.iter().zip(&want).enumerate() {
        if !((DD::from(*x) - *y).f().abs() <= 2.0 * slack) {
            return bad(format!("parameter {} is {:?} instead of {:?}", i, x, y.f()));
        }
    }
}

pub fn run_knots(op: &Op, what: &str, out: &mut Out) {
    let g = op.gen.unwrap();
    out.ok = true;
    // now and then a lot of knots
    let (p, n) = (g.p, if op.x / 32 % 24 == 0 && g.p <= 4 { g.n * (2 + op.x / 768 % 29) } else { g.n });
    let method = op.flag % 3;
    let way = op.flag / 3 % 3;
    let mut pm = g.kind as usize % 4;
    if way == 2 && pm == 3 {
        pm = 2;
    }
    // de Boor's knots are meant for more data than control points, too
    let m = if method != 1 && way != 2 && op.x % 2 == 1 { n + 1 + op.x / 2 % 12 } else { n };
    let pts = dataset(&g, m + 1, true);
    let given = custom(&g, m);
    let (r, hit) = attempts(
        op,
        &mut || {
            let q = DataPoints::new(pts.clone());
            let k = if way == 2 {
                let c = generate(Generation::Manual {
                    degree: p,
                    points: ControlPoints::new(pts.clone()),
                    knots: knots::Generation::Method {
                        parameter_method: match pm {
                            0 => parameters::Method::EquallySpaced,
                            1 => parameters::Method::Centripetal,
                            _ => parameters::Method::ChordLength,
                        },
                        knot_method: match method {
                            0 => knots::Method::Uniform,
                            1 => knots::Method::Averaging,
                            _ => knots::Method::DeBoor,
                        },
                    },
                })?;
                c.knots
            } else {
                let u = make_params(pm, &q, &given, false);
                make_knots(method, p, n, &u, way == 1)?
            };
            let all: Vec<Vec<f64>> =
                (0..=k.max_derivative()).map(|d| k.vector_derivative(d).as_slice().to_vec()).collect();
            Ok::<_, CurveError>((all, k.degree(), k.segments(), knots::is_uniform(&k)))
        },
        &mut || {},
    );
    let bad = |s: String| {
        viol(&["C14"], format!("{}: {} knots of degree {} with {} segments from {} parameters: {}", what, KM[method], p, n, PM[pm], s))
    };
    let (all, kp, kn, uniform) = match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return viol(&["C14", "C09"], format!("{}: a valid request was refused: {}", what, e)),
        Err(e) => return failed(op, what, &e, hit),
    };
    all.iter().flatten().for_each(|x| hash_f(&mut out.h, *x));
    out.h.s(&format!("{:?}", uniform));
    if !oracles() {
        return;
    }
    checked("C14");
    checked("C09");
    if kp != p || kn != n || all.len() != p + 1 || all[0].len() != n + p + 2 {
        return bad(format!("degree {}, {} segments, {} vectors, {:?}", kp, kn, all.len(), all.first()));
    }
    let t = &all[0];
    for (k, v) in all.iter().enumerate() {
        if v[..] != t[k..t.len() - k] {
            return bad(format!("knots of derivative {} are {:?} for {:?}", k, v, t));
        }
    }
    if t[..=p].iter().any(|x| *x != 0.0) || t[n + 1..].iter().any(|x| *x != 1.0) {
        return bad(format!("not clamped: {:?}", t));
    }
    if t.windows(2).any(|x| !(x[0] <= x[1])) {
        return bad(format!("not ascending: {:?}", t));
    }
    let want = want_knots(method, p, n, &want_params(pm, &pts, &given));
    for i in 0..t.len() {
        if !((DD::from(t[i]) - want[i]).f().abs() <= 32.0 * EPS * (m + 1) as f64) {
            return bad(format!("knot {} is {:?} instead of {:?}", i, t[i], want[i].f()));
        }
    }
    if method == 0 && uniform != Ok(true) {
        bad(format!("is_uniform is {:?}", uniform));
    }
    let off = (p + 1..=n).any(|i| (t[i] - (i - p) as f64 / (n - p + 1) as f64).abs() > 1e-9);
    if off && uniform != Ok(false) {
        bad(format!("is_uniform is {:?} for {:?}", uniform, t));
    }
}

/// The values of all basis functions at all parameters.
fn collocation(t: &[DD], p: usize, n: usize, us: &[f64]) -> Vec<Vec<DD>> {
    us.iter()
        .map(|&u| {
            let (lo, b) = model::basis(t, p, DD::from(u));
            let mut row = vec![ZERO; n + 1];
            row[lo..=lo + p].copy_from_slice(&b);
            row
        })
        .collect()
}
fn rows(q: &MatD) -> Vec<Vec<DD>> {
    (0..q.ncols()).map(|g| (0..q.nrows()).map(|d| DD::from(q[(d, g)])).collect()).collect()
}
fn norm(a: &[Vec<DD>]) -> f64 {
    a.iter().map(|r| r.iter().map(|x| x.f().abs()).sum::<f64>()).fold(0.0, f64::max)
}
fn largest(a: &[Vec<DD>]) -> f64 {
    a.iter().flatten().map(|x| x.f().abs()).fold(0.0, f64::max)
}

struct Made {
    curve: Curve,
    us: Vec<f64>,
}

pub fn run_interp(op: &Op, what: &str, out: &mut Out) {
    let g = op.gen.unwrap();
    let dst = op.s[0];
    let before = enter(dst, what);
    out.ok = true;
    let (p, n) = (g.p, g.n);
    // 0: as offered by `generate`; otherwise with parameters and knots of choice
    let way = g.kind as usize % 3;
    let (pm, km) = if way == 0 { (0, 0) } else { (op.flag % 4, [1, 1, 2, 0][op.flag / 4 % 4]) };
    let pts = dataset(&g, n + 1, true);
    let given = custom(&g, n);
    let (r, hit) = attempts(
        op,
        &mut || {
            let q = DataPoints::new(pts.clone());
            let u = make_params(pm, &q, &given, false);
            let us = u.vector().as_slice().to_vec();
            let curve = if way == 0 {
                generate(Generation::Interpolation { degree: p, points: &q })?
            } else {
                let k = make_knots(km, p, n, &u, false)?;
                let c = interpolate(&k, &q, &u);
                Curve::new(k, ControlPoints::new(c))?
            };
            Ok::<_, CurveError>(Made { curve, us })
        },
        &mut || {
            if let Some(s) = &before {
                unchanged(what, dst, s)
            }
        },
    );
    let made = match r {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return viol(&["C16", "C09"], format!("{}: a valid request was refused: {}", what, e)),
        Err(e) => return failed(op, what, &e, hit),
    };
    put(dst, Some(made.curve));
    checked("C09");
    let post = match settle(dst, what, "C16") {
        Some(s) => s,
        None => return,
    };
    let v = match evaluate(w().slots[dst].curve.as_ref().unwrap(), &made.us, 0..=0) {
        Ok(v) => v,
        Err(e) => return viol(&["C16", "C01", "C09"], format!("{}: evaluating the result: {:?}", what, e)),
    };
    hash_vals(&mut out.h, &v);
    if !oracles() {
        return;
    }
    let name = format!("{} ({} knots, {} parameters)", what, KM[km], PM[pm]);
    if post.p != p || post.n() != n || post.dim != g.dim {
        return viol(&["C16"], format!("{}: {} for {} points", name, brief(&post), n + 1));
    }
    let t: Vec<DD> = post.t().iter().map(|&x| DD::from(x)).collect();
    // on the parameters it should have used
    let us: Vec<f64> = want_params(pm, &pts, &given).iter().map(|x| x.f()).collect();
    let (want, inv) = match model::solve(collocation(&t, p, n, &us), &rows(&pts)) {
        Some(x) if x.1 < 1e5 => x,
        _ => return probe(Probe::InterpIll),
    };
    checked("C16");
    let mag = largest(&want).max(largest(&rows(&pts)));
    let tol = 1e3 * EPS * mag * (n + 1) as f64;
    for (gth, (u, _, r)) in v.iter().enumerate() {
        match r {
            Ok(x) => {
                for d in 0..g.dim {
                    let e = (x[d] - pts[(d, gth)]).abs();
                    ratio(7, e / tol);
                    if !(e <= tol) {
                        return viol(
                            &["C16"],
                            format!(
                                "{}: coordinate {} at parameter {:?} is {:?}, that of data point {} is {:?} (allowed error {:e}, condition {:e})",
                                name, d, u, x[d], gth, pts[(d, gth)], tol, inv
                            ),
                        );
                    }
                }
            }
            Err(e) => return viol(&["C16", "C01"], format!("{}: evaluation at {:?}: {}", name, u, e)),
        }
    }
}

pub fn run_fit(op: &Op, what: &str, out: &mut Out) {
    let g = op.gen.unwrap();
    let dst = op.s[0];
    let before = enter(dst, what);
    out.ok = true;
    let mut r = Rng::sub(g.seed, 7);
    let (p, n) = (g.p, g.n);
    let mut m = n + if r.chance(0.2) { 0 } else { r.range(1, 20) };
    if r.chance(0.04) {
        m = n + (20.0 * (2.8 * r.f()).exp()) as usize;
    }
    let fixed = op.flag % 2 == 1;
    let way = g.kind as usize % 3;
    let most = if fixed { n as i64 - 2 } else { n as i64 - 1 };
    let pen = if most >= 1 && r.chance(0.5) {
        Some((*r.pick(&[0.0, 1e-6, 1e-3, 0.1, 0.5, 1.0, 2.5, 10.0, 1e3]), {
            let top = (most as usize).min(if r.chance(0.7) { 3 } else { 7 });
            r.range(1, top)
        }))
    } else {
        None
    };
    let penalized = pen.is_some_and(|x| x.0 > 0.0);
    let (pm, km) = if way == 0 {
        (0, 0)
    } else {
        (op.flag / 2 % 4, if penalized { 0 } else { [2, 2, 0, 0][op.flag / 8 % 4] })
    };
    let pts = dataset(&g, m + 1, (pm == 1 || pm == 2) && (km == 2 || r.chance(0.5)));
    let given = custom(&g, m);
    let penalty = || pen.map(|(lambda, kappa)| Penalization { lambda, kappa });
    let (r, hit) = attempts(
        op,
        &mut || {
            let q = DataPoints::new(pts.clone());
            let u = make_params(pm, &q, &given, false);
            let us = u.vector().as_slice().to_vec();
            let curve = if way == 0 {
                generate(Generation::LeastSquaresFit {
                    degree: p,
                    points: &q,
                    intended_segments: n,
                    method: if fixed { FitMethod::FixedEnds } else { FitMethod::LooseEnds },
                    penalization: penalty(),
                })?
            } else {
                let k = make_knots(km, p, n, &u, false)?;
                let c = if fixed { fit::fixed::fit(&k, &q, &u, penalty()) } else { fit::loose::fit(&k, &q, &u, penalty()) }
                    .map_err(|err| CurveError::FitError { err })?;
                Curve::new(k, ControlPoints::new(c))?
            };
            Ok::<_, CurveError>(Made { curve, us })
        },
        &mut || {
            if let Some(s) = &before {
                unchanged(what, dst, s)
            }
        },
    );
    let name = format!(
        "{} ({} ends, degree {}, n = {}, m = {}, penalty {:?}, {} knots, {} parameters)",
        what,
        if fixed { "fixed" } else { "loose" },
        p,
        n,
        m,
        pen,
        KM[km],
        PM[pm]
    );
    let made = match r {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return viol(&["C17", "C09"], format!("{}: a valid request was refused: {}", name, e)),
        Err(e) => return failed(op, &name, &e, hit),
    };
    put(dst, Some(made.curve));
    checked("C09");
    let post = match settle(dst, what, "C17") {
        Some(s) => s,
        None => return,
    };
    if !oracles() {
        return;
    }
    if post.p != p || post.n() != n || post.dim != g.dim {
        return viol(&["C17"], format!("{}: {}", name, brief(&post)));
    }
    checked("C17");
    let got = |i: usize, d: usize| post.pk[0].1[i * g.dim + d];
    if fixed {
        for d in 0..g.dim {
            if got(0, d) != pts[(d, 0)] || got(n, d) != pts[(d, m)] {
                return viol(&["C17"], format!("{}: the ends are not those of the data", name));
            }
        }
    }
    let (lo, hi) = if fixed { (1, n - 1) } else { (0, n) };
    if lo > hi {
        return;
    }
    let t: Vec<DD> = post.t().iter().map(|&x| DD::from(x)).collect();
    let nm = collocation(&t, p, n, &made.us);
    let q = rows(&pts);
    // the data to be approximated by the free control points
    let rest: Vec<Vec<DD>> = (0..=m)
        .map(|gth| {
            (0..g.dim)
                .map(|d| if fixed { q[gth][d] - nm[gth][0] * q[0][d] - nm[gth][n] * q[m][d] } else { q[gth][d] })
                .collect()
        })
        .collect();
    let data = if fixed { 1..m } else { 0..m + 1 };
    let k = hi - lo + 1;
    let mut a = vec![vec![ZERO; k]; k];
    let mut b = vec![vec![ZERO; g.dim]; k];
    for gth in data.clone() {
        for i in 0..k {
            let x = nm[gth][lo + i];
            if x.is_zero() {
                continue;
            }
            for j in 0..k {
                a[i][j] = a[i][j] + x * nm[gth][lo + j];
            }
            for d in 0..g.dim {
                b[i][d] = b[i][d] + x * rest[gth][d];
            }
        }
    }
    if let Some((lambda, kappa)) = pen {
        // finite differences of the free control points
        let mut row = vec![1.0];
        for _ in 0..kappa {
            let mut next = vec![0.0; row.len() + 1];
            for (i, x) in row.iter().enumerate() {
                next[i] -= x;
                next[i + 1] += x;
            }
            row = next;
        }
        for at in 0..k - kappa {
            for (i, x) in row.iter().enumerate() {
                for (j, y) in row.iter().enumerate() {
                    a[at + i][at + j] = a[at + i][at + j] + DD::from(lambda) * DD::from(x * y);
                }
            }
        }
    }
    let scale = norm(&a);
    let (want, inv) = match model::solve(a, &b) {
        Some(x) if x.1 < 1e4 && x.1 * scale < 1e7 => x,
        _ => return probe(Probe::FitIll),
    };
    let big = largest(&want).max(largest(&q));
    let tol = 100.0 * EPS * inv * (scale * big + largest(&b)) * (m + 1) as f64;
    for i in 0..k {
        for d in 0..g.dim {
            let e = (DD::from(got(lo + i, d)) - want[i][d]).f().abs();
            ratio(6, e / tol);
            if !(e <= tol) {
                return viol(
                    &["C17"],
                    format!(
                        "{}: coordinate {} of control point {} is {:?}, the minimum is at {:?} (allowed error {:e})",
                        name,
                        d,
                        lo + i,
                        got(lo + i, d),
                        want[i][d].f(),
                        tol
                    ),
                );
            }
        }
    }
}

/// Requests with at most a few preconditions violated, and requests that just meet them.
pub fn run_refuse(op: &Op, what: &str, out: &mut Out) {
    use CurveError::{DegreeAndSegmentsMismatch, DegreeTooLow};
    let g = op.gen.unwrap();
    out.ok = true;
    let mut r = Rng::sub(g.seed, 8);
    let (p, n) = (g.p, g.n);
    let fe = |err: FitError| CurveError::FitError { err };
    let mismatch = |p: usize, n: usize| DegreeAndSegmentsMismatch { p, n };
    // the errors one of which has to be reported; none: the request is fine
    let mut reasons: Vec<CurveError> = vec![];
    let case = op.flag % 7;
    let x = op.x;
    let mut deg = p;
    let mut seg = n;
    match r.weighted(&[2.0, 1.0, 2.0, 1.0]) {
        0 => {}
        1 => deg = 0,
        2 => seg = r.range(1, p),
        _ => seg = p,
    }
    let zero = || DegreeTooLow { p: 0, limit: 0 };
    let mut pts = dataset(&g, seg + 1, true);
    let method = x % 3;
    let mut lambda = None;
    let mut fixed = false;
    let mut m = seg;
    let mut us = seg;
    let mut tilted = false;
    match case {
        // knots
        0 => {
            if deg == 0 {
                reasons.push(zero());
            } else if deg > seg {
                reasons.push(mismatch(deg, seg));
            }
        }
        // a control polygon with generated knots
        1 => {
            if deg == 0 {
                reasons.push(zero());
            }
            if deg > seg {
                reasons.push(mismatch(deg, seg));
            }
        }
        // interpolation
        2 => {
            if deg == 0 {
                reasons.push(zero());
            }
            if deg > seg {
                reasons.push(mismatch(deg, seg));
            }
        }
        // given knots and points
        3 | 4 => {
            if deg == 0 {
                return;
            }
            if deg > seg {
                reasons.push(mismatch(deg, seg));
            }
        }
        // fits
        _ => {
            fixed = r.chance(0.5);
            m = match r.weighted(&[3.0, 1.0, 1.5]) {
                0 => seg + r.range(1, 8),
                1 => seg,
                _ => r.range(1, seg),
            };
            pts = dataset(&g, m + 1, true);
            us = m;
            if case == 6 {
                if deg == 0 {
                    return;
                }
                if r.chance(0.2) {
                    us = if r.chance(0.5) { m + 1 } else { m.max(2) - 1 };
                }
                tilted = r.chance(0.3) && seg > deg;
            }
            if r.chance(0.6) {
                let l = *r.pick(&[-1.0, -0.5, -1e-17, -1e-300, -0.0, 0.0, 1e-300, 1e-17, 1e-9, 0.5, 1.0]);
                let k = match r.below(4) {
                    0 => seg - 1,
                    1 => seg + r.range(0, 3),
                    _ => r.range(1, seg),
                };
                lambda = Some((l, k));
            }
            if case == 5 && deg == 0 {
                reasons.push(zero());
            }
            if deg > seg {
                reasons.push(if case == 5 {
                    mismatch(deg, seg)
                } else {
                    fe(FitError::RequestedPolynomialSegmentAndSplineDegreeMismatch { n: seg, p: deg })
                });
            }
            if seg > m {
                reasons.push(fe(FitError::RequestedPolynomialSegmentAndDataSegementMismatch { n: seg, m }));
            }
            if us != m {
                reasons.push(fe(FitError::DataSegmentsAndParameterSegmentsMismatch { m, mp: us }));
            }
            if let Some((l, k)) = lambda {
                if l < 0.0 {
                    reasons.push(fe(FitError::NegativeLambda { lambda: l }));
                }
                if l > 0.0 && tilted {
                    reasons.push(fe(FitError::NonUniformKnots));
                }
                // fixed ends leave two control points less to take differences of
                if k + 1 + usize::from(fixed) > seg {
                    reasons.push(fe(FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n: seg, kappa: k }));
                }
                // (the differences take a time exponential in their order)
                if k == 0 || k > 12 && k < seg {
                    return;
                }
            }
        }
    }
    // knots of that degree need that many values to be knots at all
    if matches!(case, 3 | 4 | 6) && deg > seg + 1 {
        return;
    }
    let penalty = || lambda.map(|(lambda, kappa)| Penalization { lambda, kappa });
    let fm = || if fixed { FitMethod::FixedEnds } else { FitMethod::LooseEnds };
    // clamped knots, whatever their number
    let plain = |p: usize, n: usize, tilt: bool| {
        let mut t = vec![0.0; p + 1];
        for i in 1..=n.saturating_sub(p) {
            let x = i as f64 / (n - p + 1) as f64;
            t.push(if tilt { x * x } else { x });
        }
        t.truncate(n + 1);
        t.resize(n + p + 2, 1.0);
        Knots::new(p, VecD::from_column_slice(&t))
    };
    let (r, hit) = attempts(
        op,
        &mut || match case {
            0 => {
                let u = Parameters::new(VecD::from_column_slice(&custom(&g, seg.max(1))), seg);
                make_knots(method, deg, seg, &u, x / 3 % 2 == 0).map(|_| ())
            }
            1 => generate(Generation::Manual {
                degree: deg,
                points: ControlPoints::new(pts.clone()),
                knots: if method == 0 {
                    knots::Generation::Uniform
                } else {
                    knots::Generation::Method {
                        parameter_method: parameters::Method::ChordLength,
                        knot_method: if method == 1 { knots::Method::Averaging } else { knots::Method::DeBoor },
                    }
                },
            })
            .map(|_| ()),
            2 => {
                let q = DataPoints::new(pts.clone());
                generate(Generation::Interpolation { degree: deg, points: &q }).map(|_| ())
            }
            3 => Curve::new(plain(deg, seg, false), ControlPoints::new(pts.clone())).map(|_| ()),
            4 => generate(Generation::Manual {
                degree: deg,
                points: ControlPoints::new(pts.clone()),
                knots: knots::Generation::Manual { knots: plain(deg, seg, true) },
            })
            .map(|_| ()),
            5 => {
                let q = DataPoints::new(pts.clone());
                generate(Generation::LeastSquaresFit {
                    degree: deg,
                    points: &q,
                    intended_segments: seg,
                    method: fm(),
                    penalization: penalty(),
                })
                .map(|_| ())
            }
            _ => {
                let q = DataPoints::new(pts.clone());
                let u = Parameters::new(VecD::from_column_slice(&custom(&g, us)), us);
                let k = plain(deg, seg, tilted);
                if fixed { fit::fixed::fit(&k, &q, &u, penalty()) } else { fit::loose::fit(&k, &q, &u, penalty()) }
                    .map(|_| ())
                    .map_err(fe)
            }
        },
        &mut || {},
    );
    let name = format!(
        "{} (case {}: degree {}, n = {}, m = {}, {} parameters, penalty {:?}, {} ends{})",
        what,
        case,
        deg,
        seg,
        m,
        us + 1,
        lambda,
        if fixed { "fixed" } else { "loose" },
        if tilted { ", non-uniform knots" } else { "" }
    );
    out.h.s(&format!("{:?}", r));
    if !oracles() {
        return;
    }
    checked("C18");
    match r {
        Ok(Ok(())) if reasons.is_empty() => checked("C09"),
        Ok(Ok(())) => viol(&["C18"], format!("{}: accepted in spite of {:?}", name, reasons)),
        Ok(Err(e)) if reasons.contains(&e) => probe(Probe::RefusedRequest),
        Ok(Err(e)) if reasons.is_empty() => viol(&["C18", "C09"], format!("{}: refused with {:?}", name, e)),
        Ok(Err(e)) => viol(&["C18"], format!("{}: refused with {:?} instead of one of {:?}", name, e, reasons)),
        Err(e) if reasons.is_empty() => failed(op, &name, &e, hit),
        Err(e) => viol(&["C18", "C09"], format!("{}: {:?} instead of one of {:?}", name, e, reasons)),
    }
}
