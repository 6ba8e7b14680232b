//! One simulated process: shared curves, clients executing operations on them, and the oracles.

mod made;

use crate::alloc::ARENA;
use crate::dd::{DD, ONE};
use crate::model::{self, Merged, Snap, M};
use crate::rng::{Fnv, Rng};
use crate::rt::{self, call, outside, Fail};
use crate::scn::{GenSpec, Kind, Op, Scn, UArg};
use bsplines::curve::basis::basis;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, DomainKnotComparatorType as Cmp, Knots};
use bsplines::curve::parameters;
use bsplines::curve::points::methods::fit::{Method as FitMethod, Penalization};
use bsplines::curve::points::{ControlPoints, DataPoints, Points};
use bsplines::curve::{Curve, CurveError};
use bsplines::manipulation::insert::{insert, InsertError};
use bsplines::manipulation::merge::{self, Constraints, MergeError};
use bsplines::manipulation::reverse::{reverse, reversed};
use bsplines::manipulation::split::{split, split_and_normalize, SplitError};
use bsplines::types::{MatD, VecD, VecHelpers};

pub const EPS: f64 = f64::EPSILON;
/// Rounding allowance, in units of the machine precision times the error amplification of the quantity compared.
pub const EV: f64 = 500.0;
pub const CP: f64 = 500.0;
pub const MG: f64 = 5e1;
/// Curves do not grow beyond this many points.
fn max_n(p: usize) -> usize {
    if p < 9 {
        300
    } else {
        40
    }
}
/// Knots are equal or at least this far apart.
const NEAR: f64 = 0.5e-12;

trait No {
    const V: bool = false;
}
impl<T> No for T {}
struct IsSync<T>(std::marker::PhantomData<T>);
impl<T: Sync> IsSync<T> {
    const V: bool = true;
}
struct IsSend<T>(std::marker::PhantomData<T>);
impl<T: Send> IsSend<T> {
    const V: bool = true;
}
pub const SHARED_READS: bool = IsSync::<Curve>::V;
pub const THREADS: bool = IsSend::<Curve>::V;

pub const NP: usize = 18;
pub const NK: usize = 32;
pub const PROPS: [&str; NP] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18",
];

struct Slot {
    curve: Option<Curve>,
    snap: Option<Snap>,
    readers: u32,
    writer: bool,
    /// The largest multiplicity of a knot among the curves the operation working on it uses.
    limit: usize,
    /// It is a derivative curve, possibly changed since.
    deriv: bool,
}

/// Which parts of a run are executed.
#[derive(Clone, Copy, PartialEq)]
pub enum Variant {
    /// As scheduled, with faults, oracles on.
    Sim,
    /// As scheduled, only results are recorded.
    Plain,
    /// The given operations one after the other, without faults; only results are recorded.
    Serial,
}

pub struct World {
    scn: Scn,
    variant: Variant,
    slots: Vec<Slot>,
    order: u64,
    seen: Vec<&'static str>,
    checks: [u64; NP],
    ratio: [f64; 8],
    kinds: [u64; NK],
    probes: [u64; 32],
}
static mut WORLD: *mut World = std::ptr::null_mut();
fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}

/// Rare situations worth knowing about.
#[derive(Clone, Copy)]
pub enum Probe {
    InsertRepeated,
    InsertToBreak,
    InsertBehindRepeated,
    SplitAtKnot,
    SplitAtRepeated,
    MergeUnequal,
    MergeConstrained,
    MergeInfeasible,
    MergeIll,
    MergeDegree4,
    OomAborted,
    OomAbsorbed,
    InsertPartial,
    RefusedInsert,
    RefusedSplit,
    RefusedMerge,
    RefusedEval,
    EvalAtKnot,
    EvalDiscontinuous,
    DerivOfDeriv,
    Large,
    SharedRead,
    Skipped,
    DegreeZero,
    InterpIll,
    FitIll,
    RefusedRequest,
    N,
}
pub const PROBES: [&str; Probe::N as usize] = [
    "insertion at an existing knot",
    "insertion making the curve break apart (multiplicity degree+1)",
    "insertion behind another repeated knot",
    "split at an existing knot",
    "split at a repeated knot",
    "merge of curves with different numbers of segments",
    "merge with constraints",
    "merge with contradictory constraints (no verdict on the shape)",
    "merge too ill-conditioned for a verdict on the shape",
    "merge of degree four or higher",
    "operation interrupted by an allocation failure",
    "operation succeeded despite a failed allocation",
    "multiple insertion interrupted half way",
    "refused insertion",
    "refused split",
    "refused merge, append or prepend",
    "refused evaluation",
    "evaluation exactly at an interior knot",
    "evaluation of a curve with a discontinuity",
    "derivative curve of a derivative curve",
    "curve with more than 40 segments",
    "two clients reading one curve at once",
    "operation skipped as not applicable",
    "operation on a curve of degree zero",
    "interpolation too ill-conditioned for a verdict",
    "least-squares fit too ill-conditioned for a verdict",
    "refused generation request",
];
fn probe(p: Probe) {
    w().probes[p as usize] += 1;
}

fn viol(tags: &[&'static str], msg: String) {
    for t in tags {
        if w().seen.contains(t) {
            continue;
        }
        w().seen.push(t);
        rt::shared().line(&format!("V {} {}", t, msg.replace('\n', " ")));
    }
}
fn checked(tag: &str) {
    if let Some(i) = PROPS.iter().position(|p| *p == tag) {
        w().checks[i] += 1;
    }
}
fn oracles() -> bool {
    w().variant == Variant::Sim
}
/// Keeps the largest observed error in units of its allowance.
fn ratio(class: usize, r: f64) {
    let x = &mut w().ratio[class];
    if r > *x {
        *x = r;
    }
}

// ------------------------------------------------------------------------------------------------------ observing

pub fn snap(c: &Curve) -> Result<Snap, Fail> {
    let mut s = Snap { p: 0, dim: 0, uk: vec![], pk: vec![] };
    call(None, || {
        s.p = c.degree();
        s.dim = c.dimension();
        for k in 0..=c.knots.max_derivative() {
            let v = c.knots.vector_derivative(k);
            outside(|| s.uk.push(v.as_slice().to_vec()));
        }
        for k in 0..=c.points.max_derivative() {
            let m = c.points.matrix_derivative(k);
            outside(|| s.pk.push((m.ncols(), m.as_slice().to_vec())));
        }
    })?;
    Ok(s)
}

fn hash_f(h: &mut Fnv, x: f64) {
    h.u(if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() })
}
fn hash_snap(h: &mut Fnv, s: &Snap) {
    h.u(s.p as u64);
    h.u(s.dim as u64);
    for v in &s.uk {
        h.u(v.len() as u64);
        v.iter().for_each(|&x| hash_f(h, x));
    }
    for (n, v) in &s.pk {
        h.u(*n as u64);
        v.iter().for_each(|&x| hash_f(h, x));
    }
}
fn same(a: &Snap, b: &Snap) -> bool {
    let (mut x, mut y) = (Fnv::default(), Fnv::default());
    hash_snap(&mut x, a);
    hash_snap(&mut y, b);
    x.0 == y.0
}
fn diff(a: &Snap, b: &Snap) -> String {
    if a.p != b.p || a.dim != b.dim {
        return format!("degree {} -> {}, dimension {} -> {}", a.p, b.p, a.dim, b.dim);
    }
    for k in 0..a.uk.len().max(b.uk.len()) {
        if a.uk.get(k) != b.uk.get(k) {
            return format!("knots of derivative {}: {:?} -> {:?}", k, a.uk.get(k), b.uk.get(k));
        }
    }
    for k in 0..a.pk.len().max(b.pk.len()) {
        let bits = |s: &Snap| s.pk.get(k).map(|x| x.1.iter().map(|v| v.to_bits()).collect::<Vec<_>>());
        if a.pk.get(k) != b.pk.get(k) || bits(a) != bits(b) {
            let n = |s: &Snap| s.pk.get(k).map(|x| x.0);
            let i = match (a.pk.get(k), b.pk.get(k)) {
                (Some(x), Some(y)) => x.1.iter().zip(&y.1).position(|(p, q)| p.to_bits() != q.to_bits()),
                _ => None,
            };
            return format!("control points of derivative {}: {:?} -> {:?} points, first difference at {:?}", k, n(a), n(b), i);
        }
    }
    "no difference".into()
}

fn brief(s: &Snap) -> String {
    let t: Vec<String> = s.interior().iter().take(12).map(|x| format!("{:?}", x)).collect();
    format!("degree {} with {} points and interior knots [{}{}]", s.p, s.count(), t.join(", "),
        if s.interior().len() > 12 { ", .." } else { "" })
}

/// Orders of derivatives above the degree.
fn above(x: usize, p: usize) -> usize {
    match x % 10 {
        0 => p + 2,
        1 => p + 3,
        2 => 2 * p + 1,
        3 => 2 * p + 2,
        4 => 64,
        5 => 255,
        6 => 256,
        7 => 1 << 32,
        8 => usize::MAX - 1,
        _ => usize::MAX,
    }
}

type Vals = Vec<(f64, usize, Result<Vec<f64>, CurveError>)>;

fn evaluate(c: &Curve, us: &[f64], ks: std::ops::RangeInclusive<usize>) -> Result<Vals, Fail> {
    let mut out: Vals = vec![];
    call(None, || {
        for &u in us {
            for k in ks.clone() {
                let v = if k == 0 { c.evaluate(u) } else { c.evaluate_derivative(u, k) };
                outside(|| out.push((u, k, v.map(|v| v.as_slice().to_vec()))));
            }
        }
    })?;
    Ok(out)
}

/// Compares values with a model; `want` gives the expected values and their error amplification.
fn compare(
    tags: &[&'static str],
    what: &str,
    vals: &Vals,
    mag: &[f64],
    class: usize,
    want: impl Fn(f64, usize) -> (Vec<DD>, f64),
) {
    for t in tags {
        checked(t);
    }
    for (u, k, v) in vals {
        let v = match v {
            Ok(v) => v,
            Err(e) => return viol(tags, format!("{}: derivative {} at {:?} was refused: {}", what, k, u, e)),
        };
        let (x, s) = want(*u, *k);
        if v.len() != x.len() {
            return viol(tags, format!("{}: derivative {} at {:?} has dimension {}", what, k, u, v.len()));
        }
        for d in 0..v.len() {
            let err = (DD::from(v[d]) - x[d]).f().abs();
            let tol = EPS * s * mag[d];
            if tol > 0.0 {
                ratio(class, err / tol);
            }
            if !(err <= EV * tol) {
                return viol(
                    tags,
                    format!(
                        "{}: derivative {} at {:?}, coordinate {}: {:?} instead of {:?} (allowed error {:e})",
                        what,
                        k,
                        u,
                        d,
                        v[d],
                        x[d].f(),
                        EV * tol
                    ),
                );
            }
        }
    }
}

/// The values a curve reports must be those of its own knots and points.
fn own_values(vals: &Vals, s: &Snap, m: &M) {
    for (u, k, _) in vals {
        if *k == 0 && s.interior().contains(u) {
            probe(Probe::EvalAtKnot);
            if s.mult(*u) > s.p {
                probe(Probe::EvalDiscontinuous);
            }
        }
    }
    compare(&["C01"], &format!("curve of {}", brief(s)), vals, &m.mag, 0, |u, k| {
        let (v, s) = m.eval(DD::from(u), k);
        (v, s)
    });
}

/// Everything that must hold of a curve whatever happened to it.
fn well_formed(what: &str, s: &Snap, limit: usize) -> bool {
    checked("C11");
    if let Err(e) = s.sane() {
        viol(&["C11", "C01"], format!("{}: {}", what, e));
        return false;
    }
    let (p, n, t) = (s.p, s.n(), s.t());
    let bad = |m: String| viol(&["C11"], format!("{}: {} (knots {:?})", what, m, t));
    if t[..=p].iter().any(|&x| x != t[0]) || t[n + 1..].iter().any(|&x| x != t[n + 1]) {
        bad("ends not clamped".into());
        return false;
    }
    if t.iter().any(|&x| !(0.0..=1.0).contains(&x)) {
        bad("knots outside of [0,1]".into());
    }
    let inner = s.interior();
    if inner.iter().any(|&x| x <= s.a() || x >= s.b()) {
        bad("an interior knot lies at an end".into());
        return false;
    }
    for &u in inner {
        if s.mult(u) > limit.max(p + 1) {
            bad(format!("knot {:?} is repeated {} times", u, s.mult(u)));
            return false;
        }
    }
    if s.uk.len() != p + 1 || s.pk.len() != p + 1 {
        viol(
            &["C11", "C01"],
            format!("{}: {} knot vectors and {} point sets for degree {}", what, s.uk.len(), s.pk.len(), p),
        );
        return false;
    }
    for k in 0..=p {
        if s.uk[k] != t[k..t.len() - k] {
            viol(&["C11", "C01"], format!("{}: knots of derivative {} are {:?} for {:?}", what, k, s.uk[k], t));
            return false;
        }
        if s.pk[k].0 != n + 1 - k || s.pk[k].1.len() != s.pk[k].0 * s.dim {
            viol(&["C11", "C01"], format!("{}: {} points of derivative {} for n = {}", what, s.pk[k].0, k, n));
            return false;
        }
    }
    true
}

/// The reported derivative points must be those of the points.
fn own_points(what: &str, s: &Snap, m: &M) {
    checked("C01");
    for k in 1..=s.p {
        for i in 0..s.pk[k].0 {
            for d in 0..s.dim {
                let x = s.pk[k].1[i * s.dim + d];
                let err = (DD::from(x) - m.c[k][i][d]).f().abs();
                let tol = EPS * m.s[k][i] * m.mag[d];
                if tol > 0.0 {
                    ratio(1, err / tol);
                }
                if !(err <= EV * tol) {
                    return viol(
                        &["C01", "C11"],
                        format!(
                            "{}: point {} of derivative {} is {:?} instead of {:?} ({})",
                            what,
                            i,
                            k,
                            x,
                            m.c[k][i][d].f(),
                            brief(s)
                        ),
                    );
                }
            }
        }
    }
}

/// Knots and points of `s` against an exact result.
fn same_curve(tags: &[&'static str], what: &str, s: &Snap, m: &M, class: usize) -> bool {
    for t in tags {
        checked(t);
    }
    if s.p != m.p || s.dim != m.dim || s.t().len() != m.t.len() || s.count() != m.c[0].len() {
        viol(
            tags,
            format!(
                "{}: degree {}, dimension {}, {} knots and {} points instead of {}, {}, {} and {}",
                what,
                s.p,
                s.dim,
                s.t().len(),
                s.count(),
                m.p,
                m.dim,
                m.t.len(),
                m.c[0].len()
            ),
        );
        return false;
    }
    for i in 0..m.t.len() {
        let err = (DD::from(s.t()[i]) - m.t[i]).f().abs();
        if !(err <= 16.0 * EPS) {
            viol(tags, format!("{}: knot {} is {:?} instead of {:?}", what, i, s.t()[i], m.t[i].f()));
            return false;
        }
    }
    for i in 0..s.count() {
        for d in 0..s.dim {
            let x = s.pk[0].1[i * s.dim + d];
            let err = (DD::from(x) - m.c[0][i][d]).f().abs();
            let tol = EPS * m.mag[d];
            if tol > 0.0 {
                ratio(class, err / tol);
            }
            if !(err <= CP * tol) {
                viol(
                    tags,
                    format!(
                        "{}: coordinate {} of control point {} is {:?} instead of {:?}",
                        what,
                        d,
                        i,
                        x,
                        m.c[0][i][d].f()
                    ),
                );
                return false;
            }
        }
    }
    true
}

// ----------------------------------------------------------------------------------------------------- arguments

const BAD: [f64; 14] = [
    -0.1,
    1.1,
    f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    -f64::MIN_POSITIVE,
    1.0 + EPS,
    -5e-324,
    2.0,
    -1e300,
    f64::MAX,
    1.0,
    0.0,
    -0.0,
];

fn resolve(u: &UArg, s: &Snap) -> f64 {
    let (a, b) = (s.a(), s.b());
    let br = s.breaks();
    let map = |x: f64| {
        if a == 0.0 && b == 1.0 {
            x
        } else {
            (a + (b - a) * x).clamp(a, b)
        }
    };
    let mid = |j: usize| {
        let j = j % (br.len() - 1);
        br[j] + (br[j + 1] - br[j]) / 2.0
    };
    match *u {
        UArg::Pool(i) => map(w().scn.pool[i % w().scn.pool.len()]),
        UArg::Raw(x) => map(x),
        UArg::Knot(j) => br[j % br.len()],
        UArg::Inner(j) => {
            if br.len() > 2 {
                br[1 + j % (br.len() - 2)]
            } else {
                mid(j)
            }
        }
        UArg::Mid(j) => mid(j),
        UArg::Near(j, d) => {
            let x = br[j % br.len()];
            let delta = [0.0, 1e-12, 1e-9, 1e-4][(d >> 1) as usize & 3];
            let y = match (d >> 1 & 3, d & 1) {
                (0, 0) => x + x.abs().max(0.01) * EPS,
                (0, _) => x - x.abs().max(0.01) * EPS,
                (_, 0) => x + delta,
                _ => x - delta,
            };
            y.clamp(a, b)
        }
        UArg::Bad(i) => BAD[i % BAD.len()],
    }
}
fn params(us: &[UArg], s: &Snap) -> Vec<f64> {
    us.iter()
        .map(|u| resolve(u, s))
        .map(|u| if u >= s.a() && u <= s.b() { u } else { s.a() })
        .collect()
}
/// Parameters well inside of spans, and both ends.
fn inside(us: &[f64], s: &Snap) -> Vec<f64> {
    let br = s.breaks();
    let mut v: Vec<f64> = us
        .iter()
        .map(|&u| {
            let j = br.windows(2).position(|x| u < x[1]).unwrap_or(br.len() - 2);
            let g = br[j + 1] - br[j];
            u.clamp(br[j] + 0.01 * g, br[j + 1] - 0.01 * g)
        })
        .collect();
    v.push(s.a());
    v.push(s.b());
    v
}

// ----------------------------------------------------------------------------------------------------- generation

pub struct Data {
    pub points: MatD,
    pub knots: Vec<f64>,
    pub pen: Option<(f64, usize)>,
    pub method: (usize, usize),
}

/// Control points as they come with special shapes.
fn structure(m: &mut MatD, p: usize, r: &mut Rng) {
    let n = m.ncols();
    let copy = |m: &mut MatD, from: usize, to: usize| {
        for d in 0..m.nrows() {
            m[(d, to)] = m[(d, from)];
        }
    };
    match r.below(9) {
        // closed
        0 => copy(m, 0, n - 1),
        // closed, and smoothly
        1 => (0..p.min(n / 2)).for_each(|i| copy(m, i, n - p.min(n / 2) + i)),
        // points on top of each other
        2 => {
            for _ in 0..r.range(1, 3) {
                let i = r.below(n);
                for j in i + 1..(i + 1 + r.range(1, p + 1)).min(n) {
                    copy(m, i, j);
                }
            }
        }
        // the same forth and back
        3 => (0..n / 2).for_each(|i| copy(m, i, n - 1 - i)),
        // evenly on a line
        4 => {
            for d in 0..m.nrows() {
                let (a, b) = (m[(d, 0)], m[(d, n - 1)]);
                for i in 0..n {
                    m[(d, i)] = a + (b - a) * i as f64;
                }
            }
        }
        // nothing but one point
        5 => {
            let i = r.below(n);
            for j in (0..n).filter(|&j| j != i) {
                m.column_mut(j).fill(0.0);
            }
        }
        // a coordinate that is not used
        6 => {
            let d = r.below(m.nrows());
            m.row_mut(d).fill(*r.pick(&[0.0, -0.0, 1.0]));
        }
        // a straight piece
        7 => {
            let i = r.below(n);
            let k = r.range(2, p + 3);
            for d in 0..m.nrows() {
                let (a, s) = (m[(d, i)], r.range(0, 8) as f64 / 4.0 - 1.0);
                for j in i..(i + k).min(n) {
                    m[(d, j)] = a + s * (j - i) as f64;
                }
            }
        }
        // mirrored
        _ => {
            for i in 0..n / 2 {
                for d in 0..m.nrows() {
                    m[(d, n - 1 - i)] = -m[(d, i)];
                }
            }
        }
    }
}

pub fn data(g: &GenSpec, pool: &[f64]) -> Data {
    let mut r = Rng::new(g.seed);
    let count = match g.kind {
        4 | 5 => g.n + 1 + r.below(7),
        _ => g.n + 1,
    };
    let class = if g.kind == 2 && (g.data == 4 || g.data == 5) { 0 } else { g.data };
    let mags = [1.0, 1e6, 1e-6, 1e3, 1e-3];
    let far = g.seed % 3 == 0;
    let scale: Vec<f64> = (0..g.dim)
        .map(|_| match class {
            1 if far => 1e12,
            1 => 1e5,
            2 if far => 1e-12,
            2 => 1e-5,
            3 => *r.pick(&mags),
            _ => 1.0,
        })
        .collect();
    let same: Vec<f64> = (0..g.dim).map(|_| r.f() * 4.0 - 2.0).collect();
    let mut points = MatD::zeros(g.dim, count);
    for i in 0..count {
        for d in 0..g.dim {
            points[(d, i)] = match class {
                4 => r.range(0, 6) as f64 - 3.0,
                5 => same[d],
                6 => 100.0 + r.f(),
                _ => (r.f() * 2.0 - 1.0) * scale[d],
            };
        }
    }
    if class == 7 && matches!(g.kind, 0 | 1 | 6) {
        structure(&mut points, g.p, &mut r);
        let mut q = Rng::sub(g.seed, 9);
        if q.chance(0.4) {
            // only almost
            let by = 10f64.powi(-(q.range(2, 14) as i32));
            let all = q.chance(0.3);
            let (a, b) = (q.below(g.dim), q.below(count));
            for d in 0..g.dim {
                for i in 0..count {
                    if all || (d, i) == (a, b) {
                        points[(d, i)] += by * (q.f() - 0.5);
                    }
                }
            }
        }
    }
    // custom knots
    let (p, n) = (g.p, g.n);
    let mut inner: Vec<f64> = vec![];
    while inner.len() < n - p {
        let u = match r.below(3) {
            0 => *r.pick(pool),
            1 => r.range(1, 31) as f64 / 32.0,
            _ => 0.001 + 0.998 * (r.f() * 1e4).round() / 1e4,
        };
        if inner.iter().any(|&x| x != u && (x - u).abs() < 1e-5) {
            continue;
        }
        let top = if r.chance(0.05) { p + 1 } else { p };
        let m = if r.chance(0.4) { r.range(1, top.max(1)) } else { 1 };
        for _ in 0..m {
            if inner.len() < n - p && inner.iter().filter(|&&x| x == u).count() < top {
                inner.push(u);
            }
        }
    }
    inner.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut knots = vec![0.0; p + 1];
    knots.extend(inner);
    knots.extend(vec![1.0; p + 1]);
    let pen = if n >= 4 && r.chance(0.4) { Some((*r.pick(&[0.0, 0.5, 1.0]), r.range(1, 2))) } else { None };
    Data { points, knots, pen, method: (r.below(3), r.below(3)) }
}

fn fit_method(kind: u8) -> FitMethod {
    if kind == 5 {
        FitMethod::FixedEnds
    } else {
        FitMethod::LooseEnds
    }
}

pub fn build(g: &GenSpec, d: &Data) -> Result<Curve, CurveError> {
    let pm = || match d.method.0 {
        0 => parameters::Method::EquallySpaced,
        1 => parameters::Method::Centripetal,
        _ => parameters::Method::ChordLength,
    };
    let km = || match d.method.1 {
        0 => knots::Method::Uniform,
        1 => knots::Method::DeBoor,
        _ => knots::Method::Averaging,
    };
    match g.kind {
        0 => generate(Generation::Manual {
            degree: g.p,
            points: ControlPoints::new(d.points.clone()),
            knots: knots::Generation::Uniform,
        }),
        1 => generate(Generation::Manual {
            degree: g.p,
            points: ControlPoints::new(d.points.clone()),
            knots: knots::Generation::Manual { knots: given_knots(g, d) },
        }),
        2 => generate(Generation::Manual {
            degree: g.p,
            points: ControlPoints::new(d.points.clone()),
            knots: knots::Generation::Method { parameter_method: pm(), knot_method: km() },
        }),
        3 => {
            let q = DataPoints::new(d.points.clone());
            generate(Generation::Interpolation { degree: g.p, points: &q })
        }
        4 | 5 => {
            let q = DataPoints::new(d.points.clone());
            generate(Generation::LeastSquaresFit {
                degree: g.p,
                points: &q,
                intended_segments: g.n,
                method: fit_method(g.kind),
                penalization: d.pen.map(|(lambda, kappa)| Penalization { lambda, kappa }),
            })
        }
        _ => Curve::new(given_knots(g, d), ControlPoints::new(d.points.clone())),
    }
}

/// Knots as given; sometimes they are filled in after they were made, and not derived again by the caller.
fn given_knots(g: &GenSpec, d: &Data) -> Knots {
    let given = VecD::from_column_slice(&d.knots);
    if g.seed % 8 < 6 {
        return Knots::new(g.p, given);
    }
    let mut k = Knots::new(g.p, VecD::from_fn(given.len(), |i, _| i as f64));
    k.vector_mut().copy_from(&given);
    k
}

/// A request that cannot be met.
fn build_bad(g: &GenSpec, d: &Data, x: usize) -> Result<Curve, CurveError> {
    match x {
        0 => generate(Generation::Manual {
            degree: d.points.ncols(),
            points: ControlPoints::new(d.points.clone()),
            knots: knots::Generation::Uniform,
        }),
        1 => generate(Generation::Manual {
            degree: 0,
            points: ControlPoints::new(d.points.clone()),
            knots: knots::Generation::Uniform,
        }),
        2 | 3 | 5 => {
            let q = DataPoints::new(d.points.clone());
            let m = d.points.ncols() - 1;
            generate(Generation::LeastSquaresFit {
                degree: g.p,
                points: &q,
                intended_segments: if x == 2 {
                    m + 1
                } else if x == 3 {
                    g.p - 1
                } else {
                    g.p
                },
                method: FitMethod::LooseEnds,
                penalization: if x == 5 { Some(Penalization { lambda: -1.0, kappa: 0 }) } else { None },
            })
        }
        _ => {
            let p = d.points.ncols();
            let mut t = vec![0.0; p + 1];
            t.extend(vec![1.0; p + 1]);
            Curve::new(Knots::new(p, VecD::from_column_slice(&t)), ControlPoints::new(d.points.clone()))
        }
    }
}

// ------------------------------------------------------------------------------------------------------- execution

fn lock(rd: &[usize], wr: &[usize]) {
    loop {
        let ok = wr.iter().all(|&i| w().slots[i].readers == 0 && !w().slots[i].writer) &&
            rd.iter().all(|&i| !w().slots[i].writer && (SHARED_READS || w().slots[i].readers == 0));
        if ok {
            break;
        }
        rt::wait_locks();
    }
    for &i in wr {
        w().slots[i].writer = true;
    }
    for &i in rd {
        if !wr.contains(&i) {
            w().slots[i].readers += 1;
            if w().slots[i].readers > 1 {
                probe(Probe::SharedRead);
            }
        }
    }
}
fn unlock(rd: &[usize], wr: &[usize]) {
    for &i in rd {
        if !wr.contains(&i) {
            w().slots[i].readers -= 1;
        }
    }
    for &i in wr {
        w().slots[i].writer = false;
    }
    rt::locks_changed();
}

/// Checks that nobody touched the slot since it was last written, and returns its content.
fn enter(i: usize, what: &str) -> Option<Snap> {
    let s = &mut w().slots[i];
    let c = s.curve.as_ref()?;
    let old = s.snap.clone()?;
    if !oracles() {
        return Some(old);
    }
    checked("C08");
    match snap(c) {
        Ok(now) if same(&now, &old) => Some(old),
        Ok(now) => {
            viol(&["C08"], format!("{}: curve {} changed although nobody worked on it: {}", what, i, diff(&old, &now)));
            s.snap = Some(now.clone());
            Some(now)
        }
        Err(e) => {
            viol(&["C08", "C09"], format!("{}: reading curve {}: {:?}", what, i, e));
            s.curve = None;
            s.snap = None;
            None
        }
    }
}

/// Records the content of a slot after an operation; a malformed curve is dropped.
fn settle(i: usize, what: &str, owner: &'static str) -> Option<Snap> {
    let s = &mut w().slots[i];
    let c = s.curve.as_ref()?;
    match snap(c) {
        Ok(now) => {
            if oracles() {
                let kmax = call(None, || c.max_derivative());
                match kmax {
                    Ok(k) if k == now.p => {}
                    other => viol(&["C11", "C01"], format!("{}: max_derivative of degree {}: {:?}", what, now.p, other)),
                }
            }
            if oracles() && !well_formed(what, &now, s.limit) {
                viol(&[owner], format!("{}: the result is malformed", what));
                s.curve = None;
                s.snap = None;
                return None;
            }
            if now.n() > 40 {
                probe(Probe::Large);
            }
            s.snap = Some(now.clone());
            Some(now)
        }
        Err(e) => {
            viol(&["C11", "C09", owner], format!("{}: reading the result: {:?}", what, e));
            s.curve = None;
            s.snap = None;
            None
        }
    }
}

struct Out {
    h: Fnv,
    ok: bool,
}

/// The error of a parameter out of range must name it and the range.
fn named(u: f64, x: f64, lower: f64, upper: f64) -> bool {
    u.to_bits() == x.to_bits() && lower == 0.0 && upper == 1.0
}

fn owner(k: Kind) -> &'static str {
    k.owner()
}

/// Runs `f` once per planned allocation failure, then without; `after` inspects the state after each failed attempt.
fn attempts<T>(op: &Op, f: &mut dyn FnMut() -> T, after: &mut dyn FnMut()) -> (Result<T, Fail>, bool) {
    let mut hit = false;
    if oracles() {
        for &at in &op.oom {
            match call(Some(at), &mut *f) {
                Err(Fail::Oom) => {
                    hit = true;
                    probe(Probe::OomAborted);
                    after();
                }
                other => {
                    // fault not reached, or absorbed
                    return (other, hit);
                }
            }
        }
    }
    (call(None, &mut *f), hit)
}

/// A legal call panicked or ran out of memory that was there.
fn failed(op: &Op, what: &str, e: &Fail, hit: bool) {
    let mut t = vec![owner(op.kind), "C09"];
    if hit {
        t.push("C06");
    }
    viol(&t, format!("{}: {:?}", what, e));
}

fn unchanged(what: &str, i: usize, pre: &Snap) {
    checked("C06");
    let c = match &w().slots[i].curve {
        Some(c) => c,
        None => return,
    };
    match snap(c) {
        Ok(now) if same(&now, pre) => {}
        Ok(now) => {
            viol(&["C06"], format!("{}: the curve was left changed: {}", what, diff(pre, &now)));
            w().slots[i].snap = Some(now);
        }
        Err(e) => {
            viol(&["C06"], format!("{}: the curve was left unreadable: {:?}", what, e));
            w().slots[i].curve = None;
            w().slots[i].snap = None;
        }
    }
}

/// One step of an operation on the parts of a curve; interrupted, it must have no effect.
fn step(op: &Op, what: &str, i: usize, f: &mut dyn FnMut(&mut Curve)) -> bool {
    let pre = match snap(w().slots[i].curve.as_ref().unwrap()) {
        Ok(s) => s,
        Err(e) => {
            viol(&["C09", owner(op.kind)], format!("{}: reading the curve: {:?}", what, e));
            return false;
        }
    };
    let mut run = || {
        if let Some(c) = w().slots[i].curve.as_mut() {
            f(c)
        }
    };
    let (r, hit) = attempts(op, &mut run, &mut || unchanged(what, i, &pre));
    if let Err(e) = &r {
        failed(op, what, e, hit);
    }
    r.is_ok() && w().slots[i].curve.is_some()
}

fn hash_vals(h: &mut Fnv, v: &Vals) {
    for (_, k, r) in v {
        h.u(*k as u64);
        match r {
            Ok(v) => v.iter().for_each(|&x| hash_f(h, x)),
            Err(e) => h.s(&format!("{:?}", e)),
        }
    }
}

/// Evaluates a curve everywhere of interest, compares with its own knots and points, and returns the values.
fn look(out: &mut Out, op: &Op, what: &str, i: usize, s: &Snap, us: &[f64]) -> Option<(Vals, M)> {
    let c = w().slots[i].curve.as_ref()?;
    match evaluate(c, us, 0..=s.p + 1) {
        Ok(v) => {
            hash_vals(&mut out.h, &v);
            if !oracles() {
                return None;
            }
            let m = s.model();
            own_points(what, s, &m);
            own_values(&v, s, &m);
            Some((v, m))
        }
        Err(e) => {
            viol(&["C01", "C09", owner(op.kind)], format!("{}: evaluating the result: {:?}", what, e));
            None
        }
    }
}

fn put(i: usize, c: Option<Curve>) {
    let s = &mut w().slots[i];
    let old = std::mem::replace(&mut s.curve, c);
    s.snap = None;
    s.deriv = false;
    // the destructor is code of the system under test, too
    if call(None, || drop(old)).is_err() {
        viol(&["C09"], "dropping a curve panicked".into());
    }
}

pub fn exec(client: usize, op: &Op) {
    let (rd, wr) = op.slots();
    lock(&rd, &wr);
    w().order += 1;
    let order = w().order;
    w().kinds[op.kind as usize] += 1;
    let what = format!("client {} {}", client, op.show());
    let mut out = Out { h: Fnv::default(), ok: false };
    // a derivative curve has the knots of the curve, at a lower degree
    let limit = rd.iter().chain(&wr).filter_map(|&i| w().slots[i].snap.as_ref()).map(Snap::max_mult).max().unwrap_or(0);
    for &i in &wr {
        w().slots[i].limit = limit;
    }
    run(op, &what, &mut out);
    if out.ok {
        // inputs are never changed
        for &i in rd.iter().filter(|i| !wr.contains(i)) {
            enter(i, &format!("{} (read only)", what));
        }
        for &i in &wr {
            if let Some(s) = &w().slots[i].snap {
                hash_snap(&mut out.h, s);
            } else {
                out.h.u(7);
            }
        }
    } else {
        probe(Probe::Skipped);
    }
    rt::shared().line(&format!("R {} {} {} {:x}", client, op.id, order, out.h.0));
    unlock(&rd, &wr);
}

fn run(op: &Op, what: &str, out: &mut Out) {
    let [s0, s1, s2] = op.s;
    if matches!(op.kind, Kind::Gen | Kind::BadGen) {
        return run_gen(op, what, out);
    }
    match op.kind {
        Kind::Knots => return made::run_knots(op, what, out),
        Kind::Params => return made::run_params(op, what, out),
        Kind::Interp => return made::run_interp(op, what, out),
        Kind::Fit => return made::run_fit(op, what, out),
        Kind::Refuse => return made::run_refuse(op, what, out),
        _ => {}
    }
    let pre = match enter(s0, what) {
        Some(s) => s,
        None => return,
    };
    if pre.p == 0 {
        probe(Probe::DegreeZero);
    }
    match op.kind {
        Kind::Eval => {
            let us = params(&op.u, &pre);
            let c = w().slots[s0].curve.as_ref().unwrap();
            let mut ks: Vec<usize> = (0..=if op.flag == 0 { 0 } else { pre.p + 1 }).collect();
            if op.x > 0 {
                ks.push(above(op.x, pre.p));
            }
            out.ok = true;
            let (r, hit) = attempts(
                op,
                &mut || {
                    let mut o: Vec<(f64, usize, Result<VecD, CurveError>)> = vec![];
                    for &u in &us {
                        for &k in &ks {
                            o.push((u, k, if k == 0 { c.evaluate(u) } else { c.evaluate_derivative(u, k) }));
                        }
                    }
                    o
                },
                &mut || unchanged(what, s0, &pre),
            );
            match r {
                Ok(v) => {
                    let v: Vals =
                        v.into_iter().map(|(u, k, r)| (u, k, r.map(|x| x.as_slice().to_vec()))).collect();
                    hash_vals(&mut out.h, &v);
                    if oracles() {
                        let m = pre.model();
                        own_values(&v, &pre, &m);
                        checked("C09");
                    }
                }
                Err(e) => failed(op, what, &e, hit),
            }
        }
        Kind::BadEval => {
            let u = match op.u[0] {
                UArg::Bad(i) => BAD[i % (BAD.len() - 3)],
                _ => return,
            };
            out.ok = true;
            let c = w().slots[s0].curve.as_ref().unwrap();
            let k = if op.x < 4 { op.x } else { above(op.x, pre.p) };
            probe(Probe::RefusedEval);
            checked("C01");
            match call(None, || c.evaluate_derivative(u, k)) {
                Ok(Err(CurveError::ParameterOutOfBounds { u: x, lower_bound, upper_bound }))
                    if named(u, x, lower_bound, upper_bound) => {}
                Ok(r) => viol(&["C01"], format!("{}: evaluation at {:?} gave {:?}", what, u, r)),
                Err(e) => viol(&["C01", "C09"], format!("{}: evaluation at {:?}: {:?}", what, u, e)),
            }
            unchanged(what, s0, &pre);
        }
        Kind::Lookup => {
            out.ok = true;
            lookup(op, what, out, s0, &pre);
        }
        Kind::Insert => run_insert(op, what, out, &pre),
        Kind::Reverse | Kind::Reversed => {
            out.ok = true;
            let dst = if op.kind == Kind::Reverse { s0 } else { s1 };
            if op.kind == Kind::Reverse {
                let flag = op.flag;
                let (r, hit) = attempts(
                    op,
                    &mut || {
                        let c = w().slots[s0].curve.as_mut().unwrap();
                        if flag == 0 {
                            c.reverse();
                        } else {
                            reverse(c);
                        }
                    },
                    &mut || unchanged(what, s0, &pre),
                );
                if let Err(e) = r {
                    failed(op, what, &e, hit);
                    return unchanged(what, s0, &pre);
                }
            } else {
                let (r, hit) = attempts(
                    op,
                    &mut || {
                        let c = w().slots[s0].curve.as_ref().unwrap();
                        if op.flag == 0 {
                            reversed(c)
                        } else {
                            let mut d = c.clone();
                            d.reverse();
                            d
                        }
                    },
                    &mut || unchanged(what, s0, &pre),
                );
                match r {
                    Ok(c) => put(dst, Some(c)),
                    Err(e) => return failed(op, what, &e, hit),
                }
            }
            let post = match settle(dst, what, "C04") {
                Some(s) => s,
                None => return,
            };
            checked("C09");
            let us = inside(&params(&op.u, &post), &post);
            let v = look(out, op, what, dst, &post, &us);
            if !oracles() {
                return;
            }
            let m = pre.model();
            same_curve(&["C04"], what, &post, &m.reversed(), 2);
            if let Some((v, own)) = v {
                let (pa, pb) = (pre.a(), pre.b());
                let (qa, qb) = (post.a(), post.b());
                compare(&["C04"], &format!("{} (was {})", what, brief(&pre)), &v, &m.mag, 3, |u, k| {
                    let x = ONE - DD::from(u);
                    let (mut y, s) = at(&m, &pre, x, k, u == qa, u == qb, pb, pa);
                    if k % 2 == 1 {
                        y.iter_mut().for_each(|v| *v = -*v);
                    }
                    (y, s + own.eval(DD::from(u), k).1)
                });
            }
        }
        Kind::Clone => {
            out.ok = true;
            let (r, hit) = attempts(
                op,
                &mut || w().slots[s0].curve.as_ref().unwrap().clone(),
                &mut || unchanged(what, s0, &pre),
            );
            match r {
                Ok(c) => put(s1, Some(c)),
                Err(e) => return failed(op, what, &e, hit),
            }
            checked("C08");
            checked("C09");
            if let Some(post) = settle(s1, what, "C08") {
                if oracles() && !same(&pre, &post) {
                    viol(&["C08"], format!("{}: the clone differs: {}", what, diff(&pre, &post)));
                }
            }
        }
        Kind::Drop => {
            out.ok = true;
            put(s0, None);
        }
        Kind::Deriv => {
            out.ok = true;
            let k = op.x % (pre.p + 1);
            let twice = w().slots[s0].deriv && k > 0;
            let (r, hit) = attempts(
                op,
                &mut || w().slots[s0].curve.as_ref().unwrap().get_derivative_curve(k),
                &mut || unchanged(what, s0, &pre),
            );
            match r {
                Ok(c) => put(s1, Some(c)),
                Err(e) => return failed(op, what, &e, hit),
            }
            w().slots[s1].deriv = k > 0;
            if twice {
                probe(Probe::DerivOfDeriv);
            }
            checked("C09");
            let post = match settle(s1, what, "C10") {
                Some(s) => s,
                None => return,
            };
            let mut us = params(&op.u, &post);
            us.push(post.a());
            us.push(post.b());
            let v = look(out, op, what, s1, &post, &us);
            if !oracles() {
                return;
            }
            checked("C10");
            if post.p != pre.p - k || post.dim != pre.dim || post.count() != pre.count() - k {
                return viol(&["C10"], format!("{}: {} of a curve of {}", what, brief(&post), brief(&pre)));
            }
            if post.t() != &pre.t()[k..pre.t().len() - k] {
                return viol(&["C10"], format!("{}: knots {:?} for {:?}", what, post.t(), pre.t()));
            }
            let m = pre.model();
            for i in 0..post.count() {
                for d in 0..post.dim {
                    let err = (DD::from(post.pk[0].1[i * post.dim + d]) - m.c[k][i][d]).f().abs();
                    if !(err <= EV * EPS * m.s[k][i] * m.mag[d]) {
                        return viol(&["C10"], format!("{}: point {} of the derivative curve is wrong", what, i));
                    }
                }
            }
            if let Some((v, _)) = v {
                compare(&["C10"], &format!("{} (of {})", what, brief(&pre)), &v, &m.mag, 4, |u, j| {
                    m.eval(DD::from(u), j + k)
                });
            }
        }
        Kind::Split => run_split(op, what, out, &pre),
        Kind::Normalize => {
            if pre.a() == 0.0 && pre.b() == 1.0 {
                return;
            }
            out.ok = true;
            let (a, b) = (pre.a(), pre.b());
            let done = step(op, what, s0, &mut |c| {
                if op.flag == 0 {
                    c.knots.normalize();
                } else {
                    c.knots.rescale((a, b), (0.0, 1.0));
                }
            }) && step(op, what, s0, &mut |c| c.points.derive(&c.knots));
            if !done {
                return;
            }
            if let Some(post) = settle(s0, what, "C03") {
                let us = inside(&params(&op.u, &post), &post);
                let v = look(out, op, what, s0, &post, &us);
                if oracles() {
                    let m = pre.model();
                    same_curve(&["C03"], what, &post, &m.normalized(), 5);
                    if let Some((v, own)) = v {
                        piece(&["C03"], what, &v, &m, &own, &pre, &post, a, b);
                    }
                }
            }
        }
        Kind::Move => {
            out.ok = true;
            let mut r = Rng::new(op.x as u64);
            let i = r.below(pre.count());
            let d: Vec<f64> = (0..pre.dim).map(|_| r.f() * 2.0 - 1.0).collect();
            let (mut want, mut knots) = (pre.pk[0].1.clone(), pre.t().to_vec());
            let p = pre.p;
            // an interior knot with room on both sides
            let j = p + 1 + r.below(pre.count() - p);
            let (lo, hi) = (knots[j - 1], knots[(j + 1).min(knots.len() - 1)]);
            let knot = op.flag % 3 == 2 && j < pre.count() && hi - lo > 1e-3;
            let to = lo + (hi - lo) * (0.25 + 0.5 * r.f());
            if knot {
                knots[j] = to;
            } else {
                want[i * pre.dim..(i + 1) * pre.dim].copy_from_slice(&d);
            }
            let mut done = step(op, what, s0, &mut |c| match op.flag % 6 {
                _ if knot => c.knots.vector_mut()[j] = to,
                0 => d.iter().enumerate().for_each(|(e, x)| c.points.get_mut(i)[e] = *x),
                1 => d.iter().enumerate().for_each(|(e, x)| c.points.matrix_mut()[(e, i)] = *x),
                _ => d.iter().enumerate().for_each(|(e, x)| c.points.matrix_derivative_mut(0)[(e, i)] = *x),
            });
            if knot {
                done = done && step(op, what, s0, &mut |c| c.knots.derive());
            }
            if !(done && step(op, what, s0, &mut |c| c.points.derive(&c.knots))) {
                return;
            }
            if let Some(post) = settle(s0, what, "C11") {
                let us = params(&[UArg::Knot(0), UArg::Mid(i), UArg::Pool(i)], &post);
                look(out, op, what, s0, &post, &us);
                if oracles() && (post.pk[0].1 != want || post.t() != knots) {
                    viol(&["C11"], format!("{}: moving point {} or knot {} changed something else", what, i, j));
                }
            }
        }
        Kind::Merge | Kind::Append | Kind::Prepend => {
            let other = match enter(s1, what) {
                Some(s) => s,
                None => return,
            };
            run_merge(op, what, out, &pre, &other, s2);
        }
        Kind::Basis => made::run_basis(op, what, out, s0, &pre),
        _ => unreachable!(),
    }
}

/// Model values at a mapped parameter; the ends of the new curve are mapped to the ends of the old one.
#[allow(clippy::too_many_arguments)]
fn at(m: &M, s: &Snap, x: DD, k: usize, first: bool, last: bool, xa: f64, xb: f64) -> (Vec<DD>, f64) {
    let x = if first {
        DD::from(xa)
    } else if last {
        DD::from(xb)
    } else {
        x
    };
    let _ = s;
    let (v, sc) = m.eval(x, k);
    // the parameter itself may be off by a few roundings
    (v, 4.0 * (sc + m.eval(x, k + 1).1))
}

/// A piece `post` covering `[x0, x1]` of the curve `pre` must retrace it.
#[allow(clippy::too_many_arguments)]
fn piece(tags: &[&'static str], what: &str, v: &Vals, m: &M, own: &M, pre: &Snap, post: &Snap, x0: f64, x1: f64) {
    let (qa, qb) = (post.a(), post.b());
    let ratio = (DD::from(x1) - DD::from(x0)) / (DD::from(qb) - DD::from(qa));
    compare(tags, &format!("{} (of {})", what, brief(pre)), v, &m.mag, 6, |u, k| {
        let x = DD::from(x0) + (DD::from(u) - DD::from(qa)) * ratio;
        // the value at the right end is the limit from the left
        let (mut y, s) = if u == qb && k <= m.p {
            let j = left_span(m, DD::from(x1));
            let (y, s) = m.eval_span(DD::from(x1), k, j);
            (y, 4.0 * (s + if k < m.p { m.eval_span(DD::from(x1), k + 1, j).1 } else { 0.0 }))
        } else {
            at(m, pre, x, k, u == qa, false, x0, x1)
        };
        let mut f = ONE;
        for _ in 0..k {
            f = f * ratio;
        }
        y.iter_mut().for_each(|v| *v = f * *v);
        let o = |k: usize| own.eval(DD::from(u), k).1;
        (y, s * f.h.abs() + o(k) + o(k + 1))
    });
}
/// The span left of `x`.
fn left_span(m: &M, x: DD) -> usize {
    let mut best = m.p;
    for j in m.p..=m.n() {
        if m.t[j].lt(m.t[j + 1]) && m.t[j].lt(x) {
            best = j;
        }
    }
    best
}

fn run_gen(op: &Op, what: &str, out: &mut Out) {
    let dst = op.s[0];
    let g = op.gen.unwrap();
    let d = data(&g, &w().scn.pool);
    out.ok = true;
    let before = enter(dst, what);
    if op.kind == Kind::BadGen {
        let r = call(None, || match build_bad(&g, &d, op.x) {
            Ok(c) => Some(snap_len(&c)),
            Err(_) => None,
        });
        checked("C06");
        match r {
            Ok(None) => {}
            Ok(Some(n)) => viol(&["C06"], format!("{}: an impossible request was served with {} points", what, n)),
            Err(e) => viol(&["C06", "C09"], format!("{}: an impossible request: {:?}", what, e)),
        }
        if let Some(s) = before {
            unchanged(what, dst, &s);
        }
        return;
    }
    let (r, hit) = attempts(op, &mut || build(&g, &d), &mut || {
        if let Some(s) = &before {
            unchanged(what, dst, s)
        }
    });
    let c = match r {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return viol(&["C11", "C09"], format!("{}: a valid request was refused: {}", what, e)),
        Err(e) => return failed(op, what, &e, hit),
    };
    put(dst, Some(c));
    checked("C09");
    let post = match settle(dst, what, "C11") {
        Some(s) => s,
        None => return,
    };
    if oracles() {
        checked("C11");
        if post.p != g.p || post.n() != g.n || post.dim != g.dim {
            viol(&["C11"], format!("{}: {} in dimension {}", what, brief(&post), post.dim));
        } else if (g.kind <= 2 || g.kind == 6) && post.pk[0].1 != d.points.as_slice() {
            viol(&["C11"], format!("{}: the control points given were changed", what));
        } else if (g.kind == 1 || g.kind == 6) && post.t() != &d.knots[..] {
            viol(&["C11"], format!("{}: the knots given were changed: {:?}", what, post.t()));
        }
    }
    let us = params(&[UArg::Knot(0), UArg::Knot(1), UArg::Mid(0), UArg::Pool(0), UArg::Raw(1.0)], &post);
    look(out, op, what, dst, &post, &us);
}
fn snap_len(c: &Curve) -> usize {
    c.points.count()
}

fn run_insert(op: &Op, what: &str, out: &mut Out, pre: &Snap) {
    let i = op.s[0];
    let u = resolve(&op.u[0], pre);
    let legal = u > 0.0 && u < 1.0;
    let m = if legal { pre.mult(u) } else { 0 };
    if legal {
        // keep away from other knots, from the outside of cut pieces, and from very long curves
        if !(u > pre.a() && u < pre.b()) || pre.n() + op.x.min(pre.p + 1) > max_n(pre.p) {
            return;
        }
        if pre.breaks().iter().any(|&x| x != u && (x - u).abs() < NEAR) {
            return;
        }
    }
    out.ok = true;
    let free = (pre.p + 1).saturating_sub(m);
    let want = if legal { op.x.min(free) } else { 0 };
    let ok = legal && op.x <= free;
    if legal {
        if m > 0 {
            probe(Probe::InsertRepeated);
        }
        if m + want > pre.p {
            probe(Probe::InsertToBreak);
        }
        if pre.interior().iter().any(|&x| x < u && pre.mult(x) > 1) {
            probe(Probe::InsertBehindRepeated);
        }
    }
    // evaluate before: whatever the curve remembers must not survive the insertion
    let us0 = params(&op.u[1..], pre);
    if let Err(e) = evaluate(w().slots[i].curve.as_ref().unwrap(), &us0, 0..=pre.p) {
        viol(&["C01", "C09"], format!("{}: evaluating before: {:?}", what, e));
    }
    let count = |s: &Snap| s.count() - pre.count();
    let mut done = 0;
    // insertions are repeated as far as they were not done when memory ran out
    let mut result: Option<Result<Result<(), InsertError>, Fail>> = None;
    let mut hit = false;
    let mut plans: Vec<Option<(u64, u64)>> = if oracles() { op.oom.iter().map(|x| Some(*x)).collect() } else { vec![] };
    plans.push(None);
    for plan in plans {
        let left = op.x - done;
        let r = call(plan, || {
            let c = w().slots[i].curve.as_mut().unwrap();
            match op.flag {
                0 => c.insert_times(u, left).map(|_| ()),
                1 => (0..left).try_for_each(|_| insert(c, u)),
                _ => (0..left).try_for_each(|_| c.insert(u).map(|_| ())),
            }
        });
        if r == Err(Fail::Oom) && plan.is_some() {
            hit = true;
            probe(Probe::OomAborted);
            checked("C06");
            match snap(w().slots[i].curve.as_ref().unwrap()) {
                Ok(now) if now.pk.is_empty() || now.count() < pre.count() || count(&now) > want => {
                    viol(&["C06"], format!("{}: interrupted, the curve has {:?} points", what, now.pk.first()));
                }
                Ok(now) => {
                    let n = count(&now);
                    if n > 0 {
                        probe(Probe::InsertPartial);
                    }
                    let good = if n == done {
                        same(&now, w().slots[i].snap.as_ref().unwrap())
                    } else {
                        now.sane().is_ok() && whole(&now, &refine(pre, u, n))
                    };
                    if !good {
                        viol(
                            &["C06"],
                            format!("{}: interrupted, the curve was left changed: {}", what, diff(pre, &now)),
                        );
                        put(i, None);
                        return;
                    }
                    w().slots[i].snap = Some(now);
                    done = n;
                }
                Err(e) => {
                    viol(&["C06"], format!("{}: interrupted, the curve was left unreadable: {:?}", what, e));
                    put(i, None);
                    return;
                }
            }
            continue;
        }
        result = Some(r);
        break;
    }
    let result = result.unwrap();
    let r = match result {
        Ok(r) => r,
        Err(e) => {
            if legal {
                failed(op, what, &e, hit);
            } else {
                viol(&["C02", "C09"], format!("{}: inserting {:?}: {:?}", what, u, e));
            }
            return unchanged(what, i, &pre.clone());
        }
    };
    if oracles() {
        checked("C02");
        checked("C09");
        if !ok {
            probe(Probe::RefusedInsert);
        }
        match &r {
            Ok(()) if ok || op.x == 0 => {}
            Err(InsertError::OutOfBounds { u: x, lower_bound, upper_bound })
                if !legal && named(u, *x, *lower_bound, *upper_bound) => {}
            Err(InsertError::MultiplicityError { u: x, m, p }) if legal && !ok && *x == u && *m > *p && *p == pre.p => {}
            r => {
                let mut t = vec!["C02"];
                if ok {
                    t.push("C09");
                }
                viol(
                    &t,
                    format!("{}: inserting {:?} {} times (present {} times) into a curve of {} gave {:?}", what, u, op.x, m, brief(pre), r),
                )
            }
        }
    }
    out.h.s(&format!("{:?}", r));
    let post = match settle(i, what, "C02") {
        Some(s) => s,
        None => return,
    };
    if !oracles() {
        look(out, op, what, i, &post, &us_after(&us0, u, pre));
        return;
    }
    // a refused multiple insertion may have inserted some of the knots, but only whole ones
    let n = if post.count() >= pre.count() { count(&post) } else { 0 };
    if !legal || op.x == 0 {
        unchanged(what, i, pre);
    } else if r.is_err() {
        checked("C06");
        if n > want || (n > 0 && !whole(&post, &refine(pre, u, n))) || (n == 0 && !same(&post, pre)) {
            viol(&["C06"], format!("{}: refused, but the curve was left changed: {}", what, diff(pre, &post)));
        }
    } else if ok && n != op.x {
        viol(&["C02"], format!("{}: {} insertions of {:?} added {} points", what, op.x, u, n));
    }
    let v = look(out, op, what, i, &post, &us_after(&us0, u, pre));
    if n <= want && legal {
        same_curve(&["C02"], &format!("{} into a curve of {}", what, brief(pre)), &post, &refine(pre, u, n), 2);
        if let Some((v, own)) = v {
            let m = pre.model();
            compare(&["C02"], &format!("{} into a curve of {}", what, brief(pre)), &v, &m.mag, 7, |x, k| {
                let (y, s) = m.eval(DD::from(x), k);
                (y, s + own.eval(DD::from(x), k).1)
            });
        }
    }
}
fn us_after(us0: &[f64], u: f64, pre: &Snap) -> Vec<f64> {
    let mut v = us0.to_vec();
    if u > pre.a() && u < pre.b() {
        v.push(u);
    }
    v.push(pre.a());
    v.push(pre.b());
    v
}
fn refine(pre: &Snap, u: f64, n: usize) -> M {
    let mut m = pre.model();
    for _ in 0..n {
        m = m.insert(DD::from(u));
    }
    m
}
/// Is this a complete curve with exactly these knots and points?
fn whole(s: &Snap, m: &M) -> bool {
    if s.uk.len() != s.p + 1 || s.pk.len() != s.p + 1 || s.t().len() != m.t.len() || s.count() != m.c[0].len() {
        return false;
    }
    if s.t().iter().zip(&m.t).any(|(a, b)| DD::from(*a) != *b) {
        return false;
    }
    let near = |a: f64, b: DD, tol: f64| (DD::from(a) - b).f().abs() <= tol;
    for k in 0..=s.p {
        if s.uk[k] != s.t()[k..s.t().len() - k] || s.pk[k].0 != s.count() - k {
            return false;
        }
        for i in 0..s.pk[k].0 {
            for d in 0..s.dim {
                if !near(s.pk[k].1[i * s.dim + d], m.c[k][i][d], EV * EPS * m.s[k][i] * m.mag[d]) {
                    return false;
                }
            }
        }
    }
    true
}

fn run_split(op: &Op, what: &str, out: &mut Out, pre: &Snap) {
    let [s0, s1, s2] = op.s;
    let u = resolve(&op.u[0], pre);
    let legal = u > 0.0 && u < 1.0;
    let m = if legal { pre.mult(u) } else { 0 };
    if legal {
        if !(u > pre.a() && u < pre.b()) || pre.n() > max_n(pre.p) {
            return;
        }
        if pre.breaks().iter().any(|&x| x != u && (x - u).abs() < NEAR) {
            return;
        }
    }
    out.ok = true;
    let ok = legal && m <= pre.p;
    if ok && m > 0 {
        probe(Probe::SplitAtKnot);
        if m > 1 {
            probe(Probe::SplitAtRepeated);
        }
    }
    let (nl, nr) = match op.flag {
        2 => (true, false),
        3 => (false, true),
        4 => (false, false),
        _ => (true, true),
    };
    let (r, hit) = attempts(
        op,
        &mut || {
            let c = w().slots[s0].curve.as_ref().unwrap();
            match op.flag {
                0 => c.split(u),
                1 => split(c, u),
                _ => split_and_normalize(c, u, (nl, nr)),
            }
        },
        &mut || unchanged(what, s0, pre),
    );
    checked("C03");
    let (l, r) = match r {
        Ok(Ok(x)) if ok => x,
        Ok(Ok(_)) => return viol(&["C03"], format!("{}: an inadmissible split at {:?} was carried out", what, u)),
        Ok(Err(e)) => {
            out.h.s(&format!("{:?}", e));
            let fine = match &e {
                SplitError::OutOfBounds { u: x, lower_bound, upper_bound } => !legal && named(u, *x, *lower_bound, *upper_bound),
                SplitError::MultiplicityTooHigh { u: x, p, multiplicity } => {
                    legal && !ok && *x == u && *multiplicity > *p && *p == pre.p
                }
                _ => false,
            };
            if !fine {
                let mut t = vec!["C03"];
                if ok {
                    t.push("C09");
                }
                viol(&t, format!("{}: splitting a curve of {} at {:?} was refused: {}", what, brief(pre), u, e));
            }
            probe(Probe::RefusedSplit);
            return unchanged(what, s0, pre);
        }
        Err(e) if ok => return failed(op, what, &e, hit),
        Err(e) => return viol(&["C03", "C09"], format!("{}: splitting at {:?}: {:?}", what, u, e)),
    };
    checked("C09");
    let m = pre.model();
    let (ml, mr) = m.split(DD::from(u));
    put(s1, Some(l));
    if s1 != s2 {
        put(s2, Some(r));
    } else {
        let r = call(None, || drop(r));
        let _ = r;
    }
    for (left, i, norm, want, x0, x1) in [(true, s1, nl, &ml, pre.a(), u), (false, s2, nr, &mr, u, pre.b())] {
        if !left && s1 == s2 {
            break;
        }
        let name = format!("{} ({} part of a curve of {})", what, if left { "left" } else { "right" }, brief(pre));
        let post = match settle(i, &name, "C03") {
            Some(s) => s,
            None => continue,
        };
        let us = inside(&params(&op.u[1..], &post), &post);
        let v = look(out, op, &name, i, &post, &us);
        if !oracles() {
            continue;
        }
        let mut want = if norm { want.normalized() } else { want.clone() };
        want.mag = m.mag.clone();
        same_curve(&["C03"], &name, &post, &want, 5);
        if let Some((v, own)) = v {
            piece(&["C03"], &name, &v, &m, &own, pre, &post, x0, x1);
        }
    }
    // a destination may have been the source
}

fn lookup(op: &Op, what: &str, out: &mut Out, i: usize, s: &Snap) {
    let c = w().slots[i].curve.as_ref().unwrap();
    let us = params(&op.u, s);
    let (p, n, t) = (s.p, s.n(), s.t());
    let normed = s.a() == 0.0 && s.b() == 1.0;
    struct L {
        head: Vec<(usize, usize, &'static str)>,
        flags: Vec<(bool, bool, &'static str)>,
        at: Vec<(f64, usize, [usize; 4], usize)>,
        inner: Vec<f64>,
        dom: Vec<f64>,
        dom_k: Vec<f64>,
        cut: Vec<f64>,
        col: Vec<f64>,
        uniform: Option<Result<bool, CurveError>>,
    }
    let mut l = L {
        head: vec![],
        flags: vec![],
        at: vec![],
        inner: vec![],
        dom: vec![],
        dom_k: vec![],
        cut: vec![],
        col: vec![],
        uniform: None,
    };
    // one of everything that can be asked for by number
    let (ki, ii, di, ci) = (op.x % (p + 1), op.x % (n - p).max(1), op.x % (n - p + 2), op.x % (n + 1));
    let (c0, c1) = (op.x % (t.len() + 1), op.x / 7 % (t.len() + 1));
    let (g0, g1) = (c0.min(c1), c0.max(c1));
    let r = call(None, || {
        let q = &c.knots;
        let (a, b, d, e) = (c.degree(), c.segments(), c.dimension(), c.points.count());
        let (f, g, h, k) = (q.degree(), q.segments(), q.internal_count(), q.domain_count());
        let (x, y, z) = (knots::is_clamped(q), knots::is_normed(q), knots::is_sorted(q));
        let (il, dl) = (q.internal(), q.domain());
        let mut lens = [(0usize, 0usize, 0usize); 16];
        for j in 0..=p {
            lens[j] = (q.len(j), q.segments_derivative(j), c.points.count_derivative(j));
        }
        let (kd, pd, cd) = (q.max_derivative(), c.points.max_derivative(), c.max_derivative());
        let dk = q.domain_derivative(ki);
        let ik = if n > p { q.internal_knot(ii) } else { 0.0 };
        let dki = q.domain_knot(di);
        let uniform = knots::is_uniform(q);
        let v = q.vector();
        let (head, mid, tail) = (v.head(c0), v.segment(g0, g1 - g0), v.tail(c0));
        let (col, pdim, pempty) = (c.points.get(ci), c.points.dimension(), c.points.is_empty());
        outside(|| {
            l.inner = il.iter().copied().collect();
            l.dom = dl.iter().copied().collect();
            l.dom_k = dk.iter().copied().collect();
            l.dom_k.push(dki);
            l.dom_k.push(ik);
            l.cut = head.iter().chain(mid.iter()).chain(tail.iter()).copied().collect();
            l.col = col.iter().copied().collect();
            l.uniform = Some(uniform);
            l.head = vec![
                (a, p, "degree"),
                (b, n, "segments"),
                (d, s.dim, "dimension"),
                (e, n + 1, "count"),
                (f, p, "knots.degree"),
                (g, n, "knots.segments"),
                (h, n - p, "internal_count"),
                (k, n - p + 2, "domain_count"),
                (kd, p, "knots.max_derivative"),
                (pd, p, "points.max_derivative"),
                (cd, p, "max_derivative"),
                (pdim, s.dim, "points.dimension"),
                (pempty as usize, 0, "points.is_empty"),
            ];
            for j in 0..=p {
                l.head.push((lens[j].0, t.len() - 2 * j, "knots.len"));
                l.head.push((lens[j].1, n, "segments_derivative"));
                l.head.push((lens[j].2, n + 1 - j, "count_derivative"));
            }
            l.flags = vec![(x, normed, "is_clamped"), (y, normed, "is_normed"), (z, true, "is_sorted")];
        });
        for &u in &us {
            let k = if p > 0 { op.x % p } else { 0 };
            let m = q.multiplicity(u);
            let inner = u > t[p] && u < t[n + 1];
            let f = if inner {
                [
                    q.find_idx(u, k, Cmp::Left),
                    q.find_idx(u, k, Cmp::LeftOrEqual),
                    q.find_idx(u, k, Cmp::RightOrEqual),
                    q.find_idx(u, k, Cmp::Right),
                ]
            } else {
                [usize::MAX; 4]
            };
            outside(|| l.at.push((u, k, f, m)));
        }
    });
    if let Err(e) = r {
        return viol(&["C11", "C09"], format!("{}: {:?}", what, e));
    }
    for (_, _, f, m) in &l.at {
        f.iter().for_each(|x| out.h.u(*x as u64));
        out.h.u(*m as u64);
    }
    l.head.iter().for_each(|x| out.h.u(x.0 as u64));
    l.flags.iter().for_each(|x| out.h.u(x.0 as u64));
    [&l.inner, &l.dom, &l.dom_k, &l.cut, &l.col].into_iter().flatten().for_each(|x| hash_f(&mut out.h, *x));
    out.h.s(&format!("{:?}", l.uniform));
    if !oracles() {
        return;
    }
    checked("C11");
    let bad = |m: String| viol(&["C11"], format!("{}: {} for knots {:?}", what, m, t));
    for (x, y, name) in &l.head {
        if x != y {
            return bad(format!("{} is {} instead of {}", name, x, y));
        }
    }
    for (x, y, name) in &l.flags {
        if x != y {
            return bad(format!("{} is {}", name, x));
        }
    }
    if l.inner != s.interior() || l.dom != t[p..=n + 1] {
        return bad(format!("interior knots {:?}, domain {:?}", l.inner, l.dom));
    }
    let mut dom_k = s.uk[ki][p - ki..=n + 1 - ki].to_vec();
    dom_k.push(t[p + di]);
    dom_k.push(if n > p { t[p + 1 + ii] } else { 0.0 });
    if l.dom_k != dom_k {
        return bad(format!("domain of derivative {} and numbers {} and {} in it are {:?}", ki, di, ii, l.dom_k));
    }
    let cut: Vec<f64> = t[..c0].iter().chain(&t[g0..g1]).chain(&t[t.len() - c0..]).copied().collect();
    if l.cut != cut {
        return bad(format!("head {}, segment {}..{} and tail {} are {:?}", c0, g0, g1, c0, l.cut));
    }
    if l.col[..] != s.pk[0].1[ci * s.dim..(ci + 1) * s.dim] {
        return bad(format!("control point {} is {:?}", ci, l.col));
    }
    let off = (p + 1..=n).any(|i| (t[i] - (i - p) as f64 / (n - p + 1) as f64).abs() > 1e-9);
    let even = normed && (p + 1..=n).all(|i| t[i] == (i - p) as f64 / (n - p + 1) as f64);
    match &l.uniform {
        Some(Ok(x)) if p > 0 && !(*x && (off || !normed) || !*x && even) => {}
        Some(Err(CurveError::DegreeTooLow { .. })) if p == 0 => {}
        x => return bad(format!("is_uniform is {:?}", x)),
    }
    for (u, k, f, m) in &l.at {
        let dom = &t[p..=n + 1];
        let want = dom.iter().filter(|x| *x == u).count();
        if *m != want {
            return bad(format!("multiplicity of {:?} is {} instead of {}", u, m, want));
        }
        if f[0] == usize::MAX {
            continue;
        }
        let tk = &s.uk[*k];
        let (lo, hi) = (p - k, tk.len() - 1 - (p - k));
        let inr = |x: usize| x >= lo && x <= hi;
        let ok = f.iter().all(|&x| inr(x)) &&
            tk[f[0]] < *u &&
            *u <= tk[f[0] + 1] &&
            if want > 0 { tk[f[1]] == *u } else { tk[f[1]] < *u && *u < tk[f[1] + 1] } &&
            if want > 0 { tk[f[2]] == *u } else { tk[f[2]] > *u && *u > tk[f[2] - 1] } &&
            tk[f[3]] > *u &&
            *u >= tk[f[3] - 1];
        if !ok {
            return bad(format!("knots around {:?} (derivative {}) are looked up as {:?}", u, k, f));
        }
    }
}

/// A curve whose knots are not clamped at one or both ends cannot be merged with anything.
fn merge_unclamped(op: &Op, what: &str, out: &mut Out, pre: &Snap) {
    let (s0, p) = (op.s[0], pre.p);
    if p == 0 {
        return;
    }
    let n = p + op.s[2];
    let len = n + p + 2;
    // `flag` 3: open at the right end, 4: at the left, 5: at both, 6: only the outermost knot differs
    let knots: Vec<f64> = (0..len)
        .map(|i| match op.flag {
            3 => (i as f64 - p as f64).max(0.0) / (len - 1 - p) as f64,
            4 => (i as f64 / (len - 1 - p) as f64).min(1.0),
            5 => i as f64 / (len - 1) as f64,
            _ if i <= p => 0.0,
            _ if i <= n => (i - p) as f64 / (n + 1 - p) as f64,
            _ if i == n + 1 => 1.0 - 0.01 / n as f64,
            _ => 1.0,
        })
        .collect();
    let curve = || w().slots[s0].curve.as_ref().unwrap();
    let made = call(None, || {
        let points = MatD::from_fn(pre.dim, n + 1, |r, c| (r + c * c) as f64);
        (Curve::new(Knots::new(p, VecD::from_vec(knots.clone())), ControlPoints::new(points)), curve().clone())
    });
    let (open, mut copy) = match made {
        Ok((Ok(o), c)) => (o, c),
        _ => return,
    };
    checked("C05");
    let r = call(None, || match op.x % 3 {
        0 => (merge::merge(curve(), &open), merge::merge(&open, curve())),
        1 => (merge::merge_from(curve(), &open), merge::merge_from(&open, curve())),
        _ => (merge::merge_to(curve(), &open), merge::merge_to(&open, curve())),
    });
    match r {
        Ok((Err(a), Err(b))) => out.h.s(&format!("{:?} {:?}", a, b)),
        Ok(_) => viol(&["C05"], format!("{}: merged with a curve that is not clamped", what)),
        Err(e) => viol(&["C05", "C09"], format!("{}: a curve that is not clamped: {:?}", what, e)),
    }
    let r = call(None, || {
        if op.x % 2 == 0 {
            copy.append(&open);
        } else {
            copy.prepend(&open);
        }
    });
    if r.is_ok() {
        viol(&["C05", "C06"], format!("{}: appended a curve that is not clamped", what));
    }
    match snap(&copy) {
        Ok(now) if same(&now, pre) => {}
        _ => viol(&["C06", "C05"], format!("{}: refused, but the curve was left changed", what)),
    }
    probe(Probe::RefusedMerge);
    unchanged(what, s0, pre);
}

fn run_merge(op: &Op, what: &str, out: &mut Out, pre: &Snap, other: &Snap, s2: usize) {
    let [s0, s1, _] = op.s;
    let p = pre.p;
    // `a` comes first on the merged curve
    let prepend = op.kind == Kind::Prepend;
    let (sa, sb) = if prepend { (other, pre) } else { (pre, other) };
    let normed = |s: &Snap| s.a() == 0.0 && s.b() == 1.0;
    let split_at = op.x.min(op.u.len());
    let cs: Vec<f64> = op.u[..split_at].iter().map(|u| resolve(u, pre)).collect();
    let co: Vec<f64> = op.u[split_at..].iter().map(|u| resolve(u, other)).collect();
    let (ca, cb): (Vec<f64>, Vec<f64>) = match (op.kind, op.flag) {
        (Kind::Merge, 1) => (vec![1.0], vec![]),
        (Kind::Merge, 2) => (vec![], vec![0.0]),
        (Kind::Merge, _) => (vec![], vec![]),
        (_, 0) => (vec![], vec![]),
        (Kind::Append, _) => (cs.clone(), co.clone()),
        _ => (co.clone(), cs.clone()),
    };
    let mut reasons: Vec<&str> = vec![];
    if pre.p != other.p {
        reasons.push("DegreeMismatch");
    }
    if pre.dim != other.dim {
        reasons.push("DimensionMismatch");
    }
    if !normed(pre) || !normed(other) {
        reasons.push("UnclampedCurve");
        reasons.push("UnnormedCurve");
    }
    if ca.len() + cb.len() >= p.min(other.p) {
        reasons.push("TooManyConstraints");
    }
    // the knots of both are squeezed into half of the domain
    let tight = |s: &Snap| s.breaks().windows(2).any(|w| w[1] - w[0] < 2.0 * NEAR);
    if reasons.is_empty() && (sa.n() + sb.n() > max_n(p) || p > 8 || tight(sa) || tight(sb)) {
        return;
    }
    // out-of-range constraints are nobody's business
    if ca.iter().chain(&cb).any(|x| !(0.0..=1.0).contains(x)) && reasons.is_empty() {
        return;
    }
    out.ok = true;
    let ok = reasons.is_empty();
    if op.kind == Kind::Merge && op.flag > 2 {
        return merge_unclamped(op, what, out, pre);
    }
    let legal_merge = |r: Result<Curve, MergeError>| r;
    let dst;
    if op.kind == Kind::Merge {
        dst = s2;
        let (r, hit) = attempts(
            op,
            &mut || {
                let a = w().slots[s0].curve.as_ref().unwrap();
                let b = w().slots[s1].curve.as_ref().unwrap();
                match op.flag {
                    1 => merge::merge_from(a, b),
                    2 => merge::merge_to(a, b),
                    _ => merge::merge(a, b),
                }
            },
            &mut || {
                unchanged(what, s0, pre);
                unchanged(what, s1, other);
            },
        );
        checked("C05");
        match r.map(legal_merge) {
            Ok(Ok(c)) if ok => put(dst, Some(c)),
            Ok(Ok(_)) => return viol(&["C05"], format!("{}: merged although {:?}", what, reasons)),
            Ok(Err(e)) => {
                let name = format!("{:?}", e);
                out.h.s(&name);
                if !reasons.iter().any(|r| name.starts_with(r)) {
                    let mut t = vec!["C05"];
                    if ok {
                        t.push("C09");
                    }
                    viol(&t, format!("{}: refused with {} ({} and {}; reasons {:?})", what, name, brief(pre), brief(other), reasons));
                }
                probe(Probe::RefusedMerge);
                unchanged(what, s0, pre);
                return unchanged(what, s1, other);
            }
            Err(e) if ok => return failed(op, what, &e, hit),
            Err(e) => return viol(&["C05", "C09"], format!("{}: incompatible curves: {:?}", what, e)),
        }
    } else {
        dst = s0;
        // appending a curve to itself needs a copy
        let copy = if s0 == s1 {
            match call(None, || w().slots[s1].curve.as_ref().unwrap().clone()) {
                Ok(c) => Some(c),
                Err(e) => return failed(op, what, &e, false),
            }
        } else {
            None
        };
        let copy_ptr = copy.as_ref().map(|c| c as *const Curve);
        let (r, hit) = attempts(
            op,
            &mut || {
                let b: &Curve = match copy_ptr {
                    Some(c) => unsafe { &*c },
                    None => unsafe { &*(w().slots[s1].curve.as_ref().unwrap() as *const Curve) },
                };
                let a = w().slots[s0].curve.as_mut().unwrap();
                let k = |v: &Vec<f64>| Constraints { params: v.clone() };
                match (prepend, op.flag) {
                    (false, 0) => a.append(b),
                    (true, 0) => a.prepend(b),
                    (false, _) => a.append_constrained(k(&cs), b, k(&co)),
                    (true, _) => a.prepend_constrained(k(&cs), b, k(&co)),
                };
            },
            &mut || {
                unchanged(what, s0, pre);
                unchanged(what, s1, other);
            },
        );
        checked("C05");
        match r {
            Ok(()) if ok => {}
            Ok(()) => {
                viol(&["C05"], format!("{}: merged although {:?}", what, reasons));
                settle(s0, what, "C05");
                return;
            }
            Err(e) if ok => {
                failed(op, what, &e, hit);
                unchanged(what, s0, pre);
                return;
            }
            Err(_) => {
                // refused by panicking: nothing may have changed
                probe(Probe::RefusedMerge);
                unchanged(what, s0, pre);
                if s0 != s1 {
                    unchanged(what, s1, other);
                }
                return;
            }
        }
    }
    checked("C09");
    let post = match settle(dst, what, "C05") {
        Some(s) => s,
        None => return,
    };
    let name = format!("{} ({} before {})", what, brief(sa), brief(sb));
    let us = inside(&params(&[UArg::Pool(0), UArg::Pool(1), UArg::Mid(sa.n()), UArg::Raw(0.51)], &post), &post);
    let v = look(out, op, &name, dst, &post, &us);
    if !oracles() {
        return;
    }
    if sa.n() != sb.n() {
        probe(Probe::MergeUnequal);
    }
    if ca.len() + cb.len() > 0 {
        probe(Probe::MergeConstrained);
    }
    if p >= 4 {
        probe(Probe::MergeDegree4);
    }
    let bad = |m: String| viol(&["C05"], format!("{}: {}", name, m));
    let (na, nb) = (sa.n(), sb.n());
    if post.p != p || post.dim != pre.dim || post.count() != na + nb + 2 - p {
        return bad(format!("the result has {}", brief(&post)));
    }
    // knots: both halves, joined by a simple knot
    let mut t: Vec<f64> = sa.t()[..na + 2].iter().map(|x| x / 2.0).collect();
    t.extend(sb.t()[p + 1..].iter().map(|x| 0.5 + x / 2.0));
    if t.iter().zip(post.t()).any(|(a, b)| !((a - b).abs() <= 8.0 * EPS)) {
        return bad(format!("knots {:?} instead of {:?}", post.t(), t));
    }
    // points out of reach of the joint stay
    let mag: Vec<f64> = (0..post.dim)
        .map(|d| {
            let f = |s: &Snap| (0..s.count()).map(|i| s.pk[0].1[i * s.dim + d].abs()).fold(0.0, f64::max);
            f(sa).max(f(sb))
        })
        .collect();
    for d in 0..post.dim {
        let get = |s: &Snap, i: usize| s.pk[0].1[i * s.dim + d];
        for i in 0..=na - p {
            if !((get(&post, i) - get(sa, i)).abs() <= CP * EPS * mag[d]) {
                return bad(format!("control point {} moved", i));
            }
        }
        for i in 0..=nb - p {
            let j = post.n() - i;
            if !((get(&post, j) - get(sb, nb - i)).abs() <= CP * EPS * mag[d]) {
                return bad(format!("control point {} moved", j));
            }
        }
    }
    match model::merge(&sa.model(), &sb.model(), &ca, &cb) {
        Merged::Infeasible => probe(Probe::MergeInfeasible),
        Merged::Ill => probe(Probe::MergeIll),
        Merged::Ok { a, b, cond, moved } => {
            if cond > 1e7 {
                return probe(Probe::MergeIll);
            }
            let m = post.model();
            let two = DD::from(2.0);
            let half = |x: DD| {
                let left = x.lt(DD::from(0.5));
                (left, if left { two * x } else { two * x - ONE })
            };
            let want = |x: DD, k: usize| {
                let (left, y) = half(x);
                let h = if left { &a } else { &b };
                let (mut v, s) = h.eval(y, k);
                let s = s + h.eval(y, k + 1).1;
                let mut f = ONE;
                for _ in 0..k {
                    f = f * two;
                }
                v.iter_mut().for_each(|v| *v = f * *v);
                (v, s * f.h)
            };
            let big: Vec<f64> = mag.iter().map(|x| x * (1.0 + moved)).collect();
            let br = post.breaks();
            for x in br.windows(2) {
                let x = (DD::from(x[0]) + DD::from(x[1])) * DD::from(0.5);
                for k in 0..=p {
                    let (got, s1) = m.eval(x, k);
                    let s1 = s1 + m.eval(x, k + 1).1;
                    let (exp, s2) = want(x, k);
                    for d in 0..post.dim {
                        let err = (got[d] - exp[d]).f().abs();
                        let tol = EPS * cond * s1.max(s2) * big[d];
                        if tol > 0.0 && err > 0.0 {
                            rt::shared().stats[31] += 1;
                            merge_ratio(err / tol);
                        }
                        if !(err <= MG * tol) {
                            return bad(format!(
                                "derivative {} of the result at {:?}, coordinate {}: {:?} instead of {:?} (allowed error {:e})",
                                k,
                                x.f(),
                                d,
                                got[d].f(),
                                exp[d].f(),
                                MG * tol
                            ));
                        }
                    }
                }
            }
            if let Some((v, _)) = v {
                for (u, k, v) in &v {
                    if *u == 0.0 || *u == 1.0 || *k > p {
                        continue;
                    }
                    if let Ok(v) = v {
                        let (exp, s) = want(DD::from(*u), *k);
                        let s = s.max(m.eval(DD::from(*u), *k).1 + m.eval(DD::from(*u), *k + 1).1);
                        for d in 0..post.dim {
                            let err = (DD::from(v[d]) - exp[d]).f().abs();
                            if !(err <= MG * EPS * cond * s * big[d]) {
                                return bad(format!(
                                    "evaluating derivative {} at {:?}, coordinate {}: {:?} instead of {:?}",
                                    k,
                                    u,
                                    d,
                                    v[d],
                                    exp[d].f()
                                ));
                            }
                        }
                    }
                }
            }
        }
    }
}
fn merge_ratio(r: f64) {
    ratio(8 - 1, 0.0);
    let x = &mut w().probes[31];
    let r = (r * 1000.0) as u64;
    if r > *x {
        *x = r;
    }
}

// ---------------------------------------------------------------------------------------------------------- memory

fn live() -> u64 {
    unsafe { (*std::ptr::addr_of!(ARENA)).live_bytes }
}

/// Nothing may remain of a large curve that is gone, apart from what remains of small ones.
fn residue(r: &mut Rng) {
    let p = r.range(1, 2);
    let small = GenSpec { kind: 1, p, n: p + 3, dim: r.range(1, 3), data: 0, seed: r.next() >> 16 };
    let mut held = vec![];
    for spec in [small, GenSpec { n: p + r.range(200, 400), ..small }] {
        rt::begin_op(3000 + spec.n);
        let mut op = Op::new(3000, Kind::Gen);
        op.gen = Some(spec);
        run(&op, "a curve to be dropped", &mut Out { h: Fnv::default(), ok: false });
        if let (Some(c), Some(s)) = (&w().slots[0].curve, &w().slots[0].snap) {
            if round(c, &s.clone(), 42).is_err() {
                return;
            }
        }
        put(0, None);
        held.push(live());
    }
    checked("C12");
    if held[1] > held[0] + 1024 {
        viol(
            &["C12"],
            format!("{} bytes remain held after a curve of degree {} with many points is gone, {} after a small one", held[1], p, held[0]),
        );
    }
}

/// One round of everything that can be done to a curve, leaving nothing behind.
fn round(c: &Curve, s: &Snap, seed: u64) -> Result<(), Fail> {
    let mut r = Rng::new(seed);
    let br = s.breaks();
    let mid = br[0] + (br[1] - br[0]) * 0.5;
    let (p, a, b) = (s.p, s.a(), s.b());
    call(None, || {
        for _ in 0..2 {
            let mut d = c.clone();
            let _ = d.evaluate(mid);
            let _ = d.evaluate_derivative(mid, p);
            let _ = d.evaluate(7.0);
            let _ = d.insert(mid);
            let _ = d.insert_times(mid, p + 3);
            let _ = d.insert(-1.0);
            d.reverse();
            let _ = d.get_derivative_curve(p / 2);
            let _ = d.points.derive(&d.knots);
            d.knots.derive();
        }
        let _ = c.split(mid);
        let _ = c.split(f64::NAN);
        let _ = reversed(c);
        if a == 0.0 && b == 1.0 && s.n() < 60 {
            let _ = merge::merge(c, c);
            let _ = merge::merge_from(c, c);
            if p > 0 {
                let mut d = c.clone();
                d.append(c);
                d.prepend(c);
            }
        }
    })?;
    // the same under memory pressure
    for _ in 0..6 {
        let at = r.log_uniform(400.0) - 1;
        let which = r.below(5);
        let e = call(Some((at, at + 1)), || match which {
            0 => {
                let mut d = c.clone();
                let _ = d.insert_times(mid, 2);
            }
            1 => {
                let _ = c.split(mid);
            }
            2 => {
                let _ = c.evaluate_derivative(mid, p / 2);
            }
            3 => {
                let _ = c.get_derivative_curve(p / 2);
            }
            _ => {
                if p > 0 && a == 0.0 && b == 1.0 && s.n() < 60 {
                    let mut d = c.clone();
                    d.append(c);
                }
            }
        });
        if let Err(Fail::Panic(m)) = e {
            return Err(Fail::Panic(m));
        }
    }
    Ok(())
}

/// Operations that leave a curve as it is, or that it refuses. The arguments change from one repetition to the next.
fn again(what: usize, c: &mut Curve, s: &Snap, spec: &GenSpec, u: f64, fail: Option<(u64, u64)>) -> Result<(), Fail> {
    let (p, unit) = (s.p, s.a() == 0.0 && s.b() == 1.0);
    call(fail, || match what {
        0 => {
            c.reverse();
            c.reverse();
        }
        1 => {
            c.knots.derive();
            c.points.derive(&c.knots);
        }
        2 => {
            // beyond the highest multiplicity
            let _ = c.insert(s.t()[p + 1]);
            let _ = c.insert(0.0);
            let _ = c.insert(-u);
            let _ = c.insert(f64::NAN);
        }
        3 => {
            for k in 0..=p {
                let _ = c.evaluate_derivative(u, k);
            }
            let _ = c.evaluate(7.0 + u);
            let _ = c.evaluate(f64::NAN);
        }
        4 => {
            let _ = c.split(u);
            let _ = split_and_normalize(c, u, (false, false));
        }
        5 => {
            let _ = c.split(s.t()[p + 1]);
            let _ = c.split(-u);
            let _ = c.split(f64::NAN);
        }
        6 => {
            let mut d = c.clone();
            let _ = d.insert_times(u, p + 3);
        }
        7 => {
            let _ = reversed(c);
            let _ = c.clone();
        }
        8 => {
            for k in 0..=p {
                let _ = c.get_derivative_curve(k);
            }
        }
        9 if unit && p > 0 && s.n() < 60 => {
            let _ = merge::merge(c, c);
            let _ = merge::merge_to(c, c);
            let mut d = c.clone();
            d.append(c);
        }
        10 => {
            // refused: another dimension, another degree
            let e = Curve::new(
                Knots::new(1, VecD::from_column_slice(&[0.0, 0.0, u, 1.0, 1.0])),
                ControlPoints::new(MatD::zeros(s.dim + 1, 3)),
            );
            if let Ok(e) = e {
                let _ = merge::merge(c, &e);
                let _ = merge::merge(&e, c);
            }
        }
        11 => {
            let _ = (c.knots.multiplicity(u), c.max_derivative(), knots::is_sorted(&c.knots), knots::is_normed(&c.knots));
            let _ = (knots::is_clamped(&c.knots), knots::is_uniform(&c.knots));
            let _ = c.knots.find_idx(u, 0, Cmp::Left);
            let _ = c.knots.find_idx(u, 0, Cmp::LeftOrEqual);
            let _ = c.knots.find_idx(u, 0, Cmp::Right);
            let _ = c.knots.evaluate(0, 0, p, u);
        }
        12 => {
            let mut d = data(spec, &w().scn.pool);
            d.points[(0, 0)] += u;
            let _ = build(spec, &d);
        }
        13 => {
            let d = data(spec, &w().scn.pool);
            let _ = build_bad(spec, &d, (u * 1e6) as usize % 6);
        }
        14 => {
            let x = c.points.get(0)[0];
            c.points.get_mut(0)[0] = x + u;
            c.points.derive(&c.knots);
            c.points.get_mut(0)[0] = x;
            c.points.derive(&c.knots);
        }
        15 => {
            c.knots.rescale((s.a(), s.b()), (s.a(), s.b()));
            let _ = c.clone();
        }
        16 => {
            let m = 3 + (u * 1e6) as usize % 9;
            let q = DataPoints::new(MatD::from_fn(2, m + 1, |i, j| u + (i * j) as f64));
            for method in [parameters::Method::EquallySpaced, parameters::Method::Centripetal, parameters::Method::ChordLength] {
                let t = parameters::generate(&q, method);
                for method in [knots::Method::Uniform, knots::Method::Averaging, knots::Method::DeBoor] {
                    let k = knots::generate(2, m, &t, method);
                    let _ = k.map(|k| (knots::is_uniform(&k), k.evaluate(0, 1, 2, u)));
                }
            }
        }
        17 => {
            // refused requests
            let q = DataPoints::new(MatD::from_fn(2, 4, |i, j| u + (i + 2 * j) as f64));
            let _ = generate(Generation::Interpolation { degree: 5, points: &q });
            let _ = generate(Generation::Interpolation { degree: 0, points: &q });
            let t = parameters::generate(&q, parameters::Method::ChordLength);
            let _ = knots::generate(0, 3, &t, knots::Method::Averaging);
            let _ = knots::generate(4, 3, &t, knots::Method::DeBoor);
            for method in [FitMethod::FixedEnds, FitMethod::LooseEnds] {
                for (n, lambda) in [(3, -u), (2, u), (6, u)] {
                    let _ = generate(Generation::LeastSquaresFit {
                        degree: 2,
                        points: &q,
                        intended_segments: n,
                        method: match method {
                            FitMethod::FixedEnds => FitMethod::FixedEnds,
                            FitMethod::LooseEnds => FitMethod::LooseEnds,
                        },
                        penalization: Some(Penalization { lambda, kappa: n.min(4) }),
                    });
                }
            }
        }
        // replaced by copies of itself
        20 => {
            let d = c.clone();
            *c = d;
        }
        21 => {
            let d = c.get_derivative_curve(0);
            *c = d;
        }
        22 => {
            let d = reversed(c);
            *c = d;
        }
        18 if unit && p > 1 && s.n() < 60 => {
            let mut d = c.clone();
            let one = || Constraints { params: vec![u] };
            let none = || Constraints { params: vec![] };
            d.append_constrained(one(), c, none());
            let mut d = c.clone();
            d.prepend_constrained(none(), c, one());
        }
        _ => {
            for k in 0..=p {
                for i in 0..=s.n() - k {
                    let _ = c.knots.evaluate(k, i, p, u);
                }
            }
            let _ = basis(c.knots.vector(), 0, p, 0, s.n(), u);
        }
    })
}
const AGAIN: usize = 23;

/// Repeats one kind of operation on one curve many times, possibly always interrupted at the same allocation.
fn repeat(i: usize, s: &Snap, r: &mut Rng) {
    let what = r.below(AGAIN);
    let heavy = matches!(what, 4 | 6 | 8 | 9 | 12 | 13 | 16 | 17 | 18) || s.n() > 40;
    let reps: usize = if heavy { 24 } else { 96 };
    let spec = gen_small(r);
    let fail = if r.chance(0.4) {
        let at = r.log_uniform(200.0) - 1;
        Some((at, at + [1, 1000][r.below(2)]))
    } else {
        None
    };
    let br = s.breaks();
    let (lo, hi) = br.windows(2).fold((br[0], br[0]), |m, x| if x[1] - x[0] > m.1 - m.0 { (x[0], x[1]) } else { m });
    let mut held = Vec::with_capacity(16);
    for n in 1..=reps {
        rt::begin_op(2000 + i);
        let u = lo + (hi - lo) * (0.25 + 0.5 * n as f64 / (reps + 1) as f64);
        let c = match w().slots[i].curve.as_mut() {
            Some(c) => c,
            None => return,
        };
        if let Err(Fail::Panic(_)) = again(what, c, s, &spec, u, fail) {
            return;
        }
        if fail.is_some() && matches!(what, 1 | 14) {
            // an interrupted derivation is completed
            let done = call(None, || {
                c.knots.derive();
                c.points.derive(&c.knots);
            });
            if done.is_err() {
                return;
            }
        }
        if n.is_power_of_two() || n == reps {
            held.push(live());
        }
    }
    checked("C12");
    let last = &held[held.len() - 5..];
    if last.windows(2).all(|x| x[1] > x[0]) {
        viol(
            &["C12"],
            format!(
                "repeating operation {} {} times on a curve of {}{} keeps {:?} bytes",
                what,
                reps,
                brief(s),
                if fail.is_some() { ", interrupted by a failing allocation each time," } else { "" },
                held
            ),
        );
    }
}
fn gen_small(r: &mut Rng) -> GenSpec {
    let p = r.range(1, 3);
    GenSpec { kind: r.below(7) as u8, p, n: p + r.range(2, 5), dim: r.range(1, 2), data: 0, seed: r.next() }
}

fn memory() {
    for i in 0..w().slots.len() {
        rt::begin_op(2000 + i);
        let s = match (&w().slots[i].curve, &w().slots[i].snap) {
            (Some(_), Some(s)) => s.clone(),
            _ => continue,
        };
        let mut r = Rng::sub(w().scn.seed, 77 + i as u64);
        for _ in 0..r.below(3) {
            repeat(i, &s, &mut r);
        }
        let c = match w().slots[i].curve.as_ref() {
            Some(c) => c,
            None => continue,
        };
        let mut held = Vec::with_capacity(8);
        for j in 0..if r.chance(0.3) { 5 } else { 0 } {
            // the same round again and again: whatever may be set up once is set up in the first
            rt::begin_op(2000 + i + j);
            if round(c, &s, 42).is_err() {
                return;
            }
            held.push(live());
        }
        checked("C12");
        if held.len() > 1 && held[1..].windows(2).all(|x| x[1] > x[0]) {
            viol(&["C12"], format!("repeating the same operations on a curve of {} keeps {:?} bytes", brief(&s), held));
        }
        // what the curve itself occupies
        let before = live();
        let fresh = call(None, || {
            Curve::new(
                Knots::new(s.p, VecD::from_column_slice(s.t())),
                ControlPoints::new(MatD::from_column_slice(s.dim, s.count(), &s.pk[0].1)),
            )
        });
        let rebuilt = live().wrapping_sub(before);
        drop(fresh);
        let before = live();
        put(i, None);
        let own = before.wrapping_sub(live());
        checked("C12");
        if own > 2 * rebuilt + 512 {
            viol(
                &["C12"],
                format!("a curve of {} occupies {} bytes, one just like it built afresh {}", brief(&s), own, rebuilt),
            );
        }
    }
    let mut r = Rng::sub(w().scn.seed, 76);
    if r.chance(0.1) {
        residue(&mut r);
    }
}

// ------------------------------------------------------------------------------------------------------------ runs

fn body(c: usize) {
    let ops = w().scn.clients[c].clone();
    for op in &ops {
        rt::begin_op(op.id);
        exec(c, op);
    }
}

/// Runs a scenario in this (forked) process and does not return.
pub fn simulate(scn: &Scn, variant: Variant, order: Option<&[(usize, usize)]>, prop: &str, sh: &'static mut rt::Shared) -> ! {
    let arena = unsafe { &mut *std::ptr::addr_of_mut!(ARENA) };
    let flip = variant == Variant::Serial;
    let reuse = match (flip, scn.reuse) {
        (false, r) => r,
        (true, crate::alloc::Reuse::Never) => crate::alloc::Reuse::Lifo,
        (true, _) => crate::alloc::Reuse::Never,
    };
    arena.setup(
        if flip { scn.base ^ 0x40_0000_0000 } else { scn.base },
        reuse,
        if flip { scn.fill.map_or(Some(0x4141_4141_4141_4141), |v| Some(!v)) } else { scn.fill },
    );
    rt::install();
    let concurrent = variant != Variant::Serial && THREADS;
    let cfg = rt::Cfg {
        sched_seed: scn.sched_seed,
        mean: scn.mean,
        yield_p: scn.yield_p,
        stall_p: scn.stall_p,
        clock_seed: scn.clock_seed ^ if flip { 0x5555 } else { 0 },
        cap: 1_500_000_000,
        trace: scn.trace.clone(),
    };
    let n = if concurrent { scn.clients.len() } else { 1 };
    rt::start(sh, cfg);
    let world = Box::new(World {
        scn: scn.clone(),
        variant,
        slots: (0..scn.init.len()).map(|_| Slot { curve: None, snap: None, readers: 0, writer: false, limit: 0, deriv: false }).collect(),
        order: 0,
        seen: vec![],
        checks: [0; NP],
        ratio: [0.0; 8],
        kinds: [0; NK],
        probes: [0; 32],
    });
    unsafe { WORLD = Box::into_raw(world) };
    let wanted = |c: usize, id: usize| order.is_none_or(|o| o.contains(&(c, id)));
    for (i, g) in scn.init.iter().enumerate() {
        if !wanted(99, i) {
            continue;
        }
        let mut op = Op::new(1000 + i, Kind::Gen);
        op.s[0] = i;
        op.gen = Some(*g);
        let mut out = Out { h: Fnv::default(), ok: false };
        run(&op, &format!("init {}", i), &mut out);
        rt::shared().line(&format!("R 99 {} 0 {:x}", i, out.h.0));
    }
    if concurrent {
        rt::run_clients(n, body);
    } else if let Some(order) = order {
        for &(c, id) in order {
            if c == 99 {
                continue;
            }
            if let Some(op) = scn.clients[c].iter().find(|o| o.id == id) {
                let op = op.clone();
                rt::begin_op(op.id);
                exec(c, &op);
            }
        }
    } else {
        for c in 0..scn.clients.len() {
            for op in scn.clients[c].clone() {
                rt::begin_op(op.id);
                exec(c, &op);
            }
        }
    }
    if variant == Variant::Sim {
        for i in 0..w().slots.len() {
            enter(i, "at the end");
        }
        if prop == "C12" {
            memory();
        }
        let sh = rt::shared();
        let j = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        sh.line(&format!("C {}", j(&w().checks)));
        sh.line(&format!("K {}", j(&w().kinds)));
        sh.line(&format!("P {}", j(&w().probes)));
        sh.line(&format!("E {}", w().ratio.iter().map(|x| format!("{:e}", x)).collect::<Vec<_>>().join(" ")));
    }
    let sh = rt::shared();
    let a = unsafe { &*std::ptr::addr_of!(ARENA) };
    sh.stats[rt::St::Points as usize] = rt::total_points();
    sh.stats[rt::St::Allocs as usize] = a.total;
    sh.stats[rt::St::Reused as usize] = a.reused;
    rt::shared().status = rt::DONE;
    unsafe { crate::sys::_exit(0) }
}
