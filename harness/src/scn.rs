//! A scenario: everything that decides one simulated run, and its text form (the replay file).

use crate::alloc::Reuse;
use crate::rng::Rng;
use crate::rt::Sw;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum UArg {
    /// One of the parameters shared by the whole run.
    Pool(usize),
    /// A break point of the curve, ends included.
    Knot(usize),
    /// An interior break point.
    Inner(usize),
    /// The middle of a span.
    Mid(usize),
    /// Next to a break point: `.1` selects the distance.
    Near(usize, i8),
    Raw(f64),
    /// Outside of the domain.
    Bad(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Gen,
    Eval,
    BadEval,
    Deriv,
    Clone,
    Insert,
    Reverse,
    Reversed,
    Split,
    Merge,
    Append,
    Prepend,
    Lookup,
    Move,
    Normalize,
    BadGen,
    Drop,
    Basis,
    Knots,
    Params,
    Interp,
    Fit,
    Refuse,
}
pub const KINDS: [(Kind, &str); 23] = [
    (Kind::Gen, "gen"),
    (Kind::Eval, "eval"),
    (Kind::BadEval, "badeval"),
    (Kind::Deriv, "deriv"),
    (Kind::Clone, "clone"),
    (Kind::Insert, "insert"),
    (Kind::Reverse, "reverse"),
    (Kind::Reversed, "reversed"),
    (Kind::Split, "split"),
    (Kind::Merge, "merge"),
    (Kind::Append, "append"),
    (Kind::Prepend, "prepend"),
    (Kind::Lookup, "lookup"),
    (Kind::Move, "move"),
    (Kind::Normalize, "normalize"),
    (Kind::BadGen, "badgen"),
    (Kind::Drop, "drop"),
    (Kind::Basis, "basis"),
    (Kind::Knots, "knots"),
    (Kind::Params, "params"),
    (Kind::Interp, "interpolate"),
    (Kind::Fit, "fit"),
    (Kind::Refuse, "refuse"),
];
impl Kind {
    pub fn name(self) -> &'static str {
        KINDS.iter().find(|k| k.0 == self).unwrap().1
    }
    /// The property that is broken when the operation fails altogether.
    pub fn owner(self) -> &'static str {
        match self {
            Kind::Gen | Kind::Move | Kind::Lookup => "C11",
            Kind::Eval | Kind::BadEval => "C01",
            Kind::Deriv => "C10",
            Kind::Clone | Kind::Drop => "C08",
            Kind::Insert => "C02",
            Kind::Reverse | Kind::Reversed => "C04",
            Kind::Split | Kind::Normalize => "C03",
            Kind::Merge | Kind::Append | Kind::Prepend => "C05",
            Kind::BadGen => "C06",
            Kind::Basis => "C13",
            Kind::Knots => "C14",
            Kind::Params => "C15",
            Kind::Interp => "C16",
            Kind::Fit => "C17",
            Kind::Refuse => "C18",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct GenSpec {
    /// 0 uniform, 1 custom knots, 2 parametrised knots, 3 interpolation, 4 fit with loose ends, 5 fit with fixed ends,
    /// 6 Curve::new.
    pub kind: u8,
    pub p: usize,
    pub n: usize,
    pub dim: usize,
    /// Data: 0 of order one, 1 large, 2 small, 3 mixed magnitudes, 4 small integers, 5 constant, 6 offset,
    /// 7 with a structure.
    pub data: u8,
    pub seed: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    /// Stable within its client.
    pub id: usize,
    pub kind: Kind,
    pub s: [usize; 3],
    pub u: Vec<UArg>,
    pub x: usize,
    pub flag: usize,
    pub gen: Option<GenSpec>,
    /// Failing allocations per attempt.
    pub oom: Vec<(u64, u64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scn {
    pub seed: u64,
    pub pool: Vec<f64>,
    pub init: Vec<GenSpec>,
    pub clients: Vec<Vec<Op>>,
    pub sched_seed: u64,
    pub mean: f64,
    pub yield_p: f64,
    pub stall_p: f64,
    pub clock_seed: u64,
    pub reuse: Reuse,
    pub fill: Option<u64>,
    pub base: usize,
    pub trace: Option<Vec<Sw>>,
}

impl Op {
    pub fn new(id: usize, kind: Kind) -> Op {
        Op { id, kind, s: [0; 3], u: vec![], x: 0, flag: 0, gen: None, oom: vec![] }
    }
    /// Slots read and slots written.
    pub fn slots(&self) -> (Vec<usize>, Vec<usize>) {
        let s = self.s;
        match self.kind {
            Kind::Gen | Kind::Insert | Kind::Reverse | Kind::Move | Kind::Normalize | Kind::BadGen | Kind::Drop => {
                (vec![], vec![s[0]])
            }
            Kind::Interp | Kind::Fit => (vec![], vec![s[0]]),
            Kind::Knots | Kind::Params | Kind::Refuse => (vec![], vec![]),
            Kind::Eval | Kind::BadEval | Kind::Lookup | Kind::Basis => (vec![s[0]], vec![]),
            Kind::Deriv | Kind::Clone | Kind::Reversed => (vec![s[0]], vec![s[1]]),
            Kind::Split => (vec![s[0]], vec![s[1], s[2]]),
            Kind::Merge => (vec![s[0], s[1]], vec![s[2]]),
            Kind::Append | Kind::Prepend => (vec![s[1]], vec![s[0]]),
        }
    }
}

fn show_u(u: &UArg) -> String {
    match u {
        UArg::Pool(i) => format!("pool:{}", i),
        UArg::Knot(i) => format!("knot:{}", i),
        UArg::Inner(i) => format!("inner:{}", i),
        UArg::Mid(i) => format!("mid:{}", i),
        UArg::Near(i, d) => format!("near:{}:{}", i, d),
        UArg::Raw(x) => format!("raw:{:?}", x),
        UArg::Bad(i) => format!("bad:{}", i),
    }
}
fn read_u(s: &str) -> UArg {
    let v: Vec<&str> = s.split(':').collect();
    let i = || v[1].parse().unwrap();
    match v[0] {
        "pool" => UArg::Pool(i()),
        "knot" => UArg::Knot(i()),
        "inner" => UArg::Inner(i()),
        "mid" => UArg::Mid(i()),
        "near" => UArg::Near(i(), v[2].parse().unwrap()),
        "raw" => UArg::Raw(v[1].parse().unwrap()),
        _ => UArg::Bad(i()),
    }
}
fn show_gen(g: &GenSpec) -> String {
    format!("{},{},{},{},{},{}", g.kind, g.p, g.n, g.dim, g.data, g.seed)
}
fn read_gen(s: &str) -> GenSpec {
    let v: Vec<u64> = s.split(',').map(|x| x.parse().unwrap()).collect();
    GenSpec {
        kind: v[0] as u8,
        p: v[1] as usize,
        n: v[2] as usize,
        dim: v[3] as usize,
        data: v[4] as u8,
        seed: v[5],
    }
}
impl Op {
    pub fn show(&self) -> String {
        let mut o = format!("{} {} s={},{},{}", self.id, self.kind.name(), self.s[0], self.s[1], self.s[2]);
        if !self.u.is_empty() {
            write!(o, " u={}", self.u.iter().map(show_u).collect::<Vec<_>>().join(",")).unwrap();
        }
        if self.x != 0 {
            write!(o, " x={}", self.x).unwrap();
        }
        if self.flag != 0 {
            write!(o, " flag={}", self.flag).unwrap();
        }
        if let Some(g) = &self.gen {
            write!(o, " gen={}", show_gen(g)).unwrap();
        }
        if !self.oom.is_empty() {
            let v: Vec<String> = self.oom.iter().map(|(a, b)| format!("{}-{}", a, b)).collect();
            write!(o, " oom={}", v.join(",")).unwrap();
        }
        o
    }
    pub fn read(s: &str) -> Op {
        let mut it = s.split_whitespace();
        let id = it.next().unwrap().parse().unwrap();
        let name = it.next().unwrap();
        let kind = KINDS.iter().find(|k| k.1 == name).expect("operation").0;
        let mut op = Op::new(id, kind);
        for kv in it {
            let (k, v) = kv.split_once('=').unwrap();
            match k {
                "s" => {
                    for (i, x) in v.split(',').enumerate() {
                        op.s[i] = x.parse().unwrap()
                    }
                }
                "u" => op.u = v.split(',').map(read_u).collect(),
                "x" => op.x = v.parse().unwrap(),
                "flag" => op.flag = v.parse().unwrap(),
                "gen" => op.gen = Some(read_gen(v)),
                "oom" => {
                    op.oom = v
                        .split(',')
                        .map(|p| {
                            let (a, b) = p.split_once('-').unwrap();
                            (a.parse().unwrap(), b.parse().unwrap())
                        })
                        .collect()
                }
                _ => panic!("unknown field {}", k),
            }
        }
        op
    }
}

impl Scn {
    pub fn show(&self) -> String {
        let mut o = String::new();
        writeln!(o, "seed {}", self.seed).unwrap();
        writeln!(o, "pool {}", self.pool.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(" ")).unwrap();
        writeln!(
            o,
            "env sched={} mean={:?} yield={:?} stall={:?} clock={} reuse={:?} fill={} base={:x}",
            self.sched_seed,
            self.mean,
            self.yield_p,
            self.stall_p,
            self.clock_seed,
            self.reuse,
            self.fill.map_or("none".into(), |v| format!("{:x}", v)),
            self.base
        )
        .unwrap();
        for g in &self.init {
            writeln!(o, "init {}", show_gen(g)).unwrap();
        }
        for c in &self.clients {
            writeln!(o, "client").unwrap();
            for op in c {
                writeln!(o, "op {}", op.show()).unwrap();
            }
        }
        if let Some(t) = &self.trace {
            writeln!(o, "trace").unwrap();
            for s in t {
                writeln!(o, "switch client={} op={} at={}:{} to={}", s.client, s.op, s.kind as u8 as char, s.pt, s.to)
                    .unwrap();
            }
        }
        o
    }
    pub fn read(text: &str) -> Scn {
        let mut s = Scn {
            seed: 0,
            pool: vec![],
            init: vec![],
            clients: vec![],
            sched_seed: 0,
            mean: 0.0,
            yield_p: 0.0,
            stall_p: 0.0,
            clock_seed: 0,
            reuse: Reuse::Lifo,
            fill: None,
            base: 0x6000_0000_0000,
            trace: None,
        };
        for line in text.lines() {
            let line = line.split('#').next().unwrap().trim();
            let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
            match k {
                "seed" => s.seed = rest.parse().unwrap(),
                "pool" => s.pool = rest.split_whitespace().map(|x| x.parse().unwrap()).collect(),
                "env" => {
                    for kv in rest.split_whitespace() {
                        let (k, v) = kv.split_once('=').unwrap();
                        match k {
                            "sched" => s.sched_seed = v.parse().unwrap(),
                            "mean" => s.mean = v.parse().unwrap(),
                            "yield" => s.yield_p = v.parse().unwrap(),
                            "stall" => s.stall_p = v.parse().unwrap(),
                            "clock" => s.clock_seed = v.parse().unwrap(),
                            "reuse" => {
                                s.reuse = match v {
                                    "Lifo" => Reuse::Lifo,
                                    "Fifo" => Reuse::Fifo,
                                    _ => Reuse::Never,
                                }
                            }
                            "fill" => s.fill = u64::from_str_radix(v, 16).ok(),
                            "base" => s.base = usize::from_str_radix(v, 16).unwrap(),
                            _ => panic!("unknown setting {}", k),
                        }
                    }
                }
                "init" => s.init.push(read_gen(rest)),
                "client" => s.clients.push(vec![]),
                "op" => s.clients.last_mut().unwrap().push(Op::read(rest)),
                "trace" => s.trace = Some(vec![]),
                "switch" => {
                    let mut w = Sw { client: 0, op: 0, kind: 0, to: 0, pt: 0 };
                    for kv in rest.split_whitespace() {
                        let (k, v) = kv.split_once('=').unwrap();
                        match k {
                            "client" => w.client = v.parse().unwrap(),
                            "op" => w.op = v.parse().unwrap(),
                            "at" => {
                                let (a, b) = v.split_once(':').unwrap();
                                w.kind = a.as_bytes()[0] as u16;
                                w.pt = b.parse().unwrap();
                            }
                            _ => w.to = v.parse().unwrap(),
                        }
                    }
                    s.trace.as_mut().unwrap().push(w);
                }
                _ => {}
            }
        }
        s
    }
}

// --------------------------------------------------------------------------------------------------- generation

/// Weights of the operations, per property.
fn weights(prop: &str) -> Vec<(Kind, f64)> {
    use Kind::*;
    let mut w = vec![
        (Gen, 1.0),
        (Eval, 3.0),
        (BadEval, 0.3),
        (Deriv, 0.8),
        (Clone, 1.0),
        (Insert, 3.0),
        (Reverse, 1.0),
        (Reversed, 0.5),
        (Split, 1.5),
        (Merge, 1.5),
        (Append, 0.8),
        (Prepend, 0.8),
        (Lookup, 0.7),
        (Move, 0.5),
        (Normalize, 0.4),
        (BadGen, 0.2),
        (Drop, 0.2),
        (Basis, 0.4),
        (Knots, 0.1),
        (Params, 0.1),
        (Interp, 0.15),
        (Fit, 0.15),
        (Refuse, 0.1),
    ];
    let boost: &[(Kind, f64)] = match prop {
        "C01" => &[(Eval, 3.0), (BadEval, 2.0), (Gen, 1.5)],
        "C02" => &[(Insert, 3.5)],
        "C03" => &[(Split, 4.0), (Insert, 1.3), (Normalize, 2.0)],
        "C04" => &[(Reverse, 4.0), (Reversed, 6.0)],
        "C05" => &[(Merge, 3.0), (Append, 3.0), (Prepend, 3.0), (Gen, 2.0)],
        "C06" => &[(Insert, 1.5), (Append, 2.5), (Prepend, 2.5), (BadEval, 2.0), (BadGen, 3.0), (Split, 1.3)],
        "C07" => &[(Eval, 2.0), (Knots, 3.0), (Params, 3.0), (Interp, 3.0), (Fit, 3.0), (Basis, 2.0)],
        "C09" => &[(Interp, 2.0), (Fit, 2.0)],
        "C13" => &[(Basis, 15.0)],
        "C14" => &[(Knots, 60.0), (Params, 5.0)],
        "C15" => &[(Params, 60.0), (Knots, 5.0)],
        "C16" => &[(Interp, 40.0), (Params, 3.0)],
        "C17" => &[(Fit, 40.0), (Params, 3.0)],
        "C18" => &[(Refuse, 60.0), (BadGen, 3.0)],
        "C08" => &[(Clone, 3.0), (Insert, 1.3), (Move, 3.0)],
        "C10" => &[(Deriv, 6.0)],
        "C11" => &[(Lookup, 4.0), (Move, 2.0), (Normalize, 2.0), (Gen, 2.0)],
        _ => &[],
    };
    for (k, f) in boost {
        w.iter_mut().find(|x| x.0 == *k).unwrap().1 *= f;
    }
    w
}

fn degree(r: &mut Rng) -> usize {
    match r.weighted(&[1.2, 2.0, 3.0, 1.5, 0.8, 0.4, 0.12, 0.06, 0.06]) {
        8 => r.range(9, 10),
        i => i + 1,
    }
}
fn dimension(r: &mut Rng) -> usize {
    match r.weighted(&[2.0, 2.0, 2.0, 0.3, 0.1, 0.1]) {
        5 => r.range(6, 20),
        i => i + 1,
    }
}

fn gen_spec(r: &mut Rng, shape: (usize, usize)) -> GenSpec {
    // most curves of a run share degree and dimension, so that they can be merged
    let (p, dim) = if r.chance(0.85) {
        shape
    } else {
        (degree(r), dimension(r))
    };
    let extra = match r.weighted(&[2.0, 4.0, 2.0, 0.25]) {
        0 => 0,
        1 => r.range(1, 6),
        _ if p >= 9 => r.range(0, 8),
        2 => r.range(4, 14),
        _ if p <= 4 => (14.0 * (3.0 * r.f()).exp()) as usize,
        _ => r.range(20, 60),
    };
    let kind = [0, 1, 2, 3, 4, 5, 6][r.weighted(&[3.0, 4.0, 1.0, 0.7, 0.5, 0.5, 1.5])];
    let mut n = p + extra;
    if (3..=5).contains(&kind) {
        n = n.min(p + 10);
        if kind == 5 {
            n = n.max(2);
        }
    }
    GenSpec { kind, p, n, dim, data: r.weighted(&[6.0, 1.0, 1.0, 1.0, 2.0, 0.3, 1.0, 1.5]) as u8, seed: r.next() >> 16 }
}

fn uarg(r: &mut Rng) -> UArg {
    match r.weighted(&[3.0, 2.0, 2.0, 2.0, 1.0]) {
        0 => UArg::Pool(r.below(8)),
        1 => UArg::Knot(r.below(64)),
        2 => UArg::Mid(r.below(64)),
        3 if r.chance(0.03) => UArg::Raw(*r.pick(&[-0.0, 5e-324, 1e-300, 1e-16, 1.0 - 0.5 * f64::EPSILON])),
        3 => UArg::Raw((r.f() * 4096.0).round() / 4096.0),
        _ => UArg::Near(r.below(64), r.below(8) as i8),
    }
}
/// A parameter at which something is inserted or split: usually admissible.
fn cut(r: &mut Rng, bad: f64) -> UArg {
    if r.chance(bad) {
        return UArg::Bad(r.below(16));
    }
    match r.weighted(&[3.0, 3.0, 2.0, 1.0, 1.0]) {
        0 => UArg::Pool(r.below(8)),
        1 => UArg::Inner(r.below(64)),
        2 => UArg::Mid(r.below(64)),
        3 => UArg::Raw((r.range(1, 4095) as f64) / 4096.0),
        _ => UArg::Near(r.below(64), r.weighted(&[0.2, 0.2, 0.4, 0.4, 1.0, 1.0, 1.0, 1.0]) as i8),
    }
}

fn gen_op(r: &mut Rng, recent: &mut Vec<Op>, id: usize, prop: &str, w: &[(Kind, f64)], slots: usize, shape: (usize, usize), oom: f64) -> Op {
    let kind = w[r.weighted(&w.iter().map(|x| x.1).collect::<Vec<_>>())].0;
    let mut op = Op::new(id, kind);
    for s in op.s.iter_mut() {
        *s = r.below(slots);
    }
    let bad = if prop == "C06" { 0.3 } else { 0.08 };
    match kind {
        Kind::Gen => op.gen = Some(gen_spec(r, shape)),
        Kind::BadGen => {
            op.gen = Some(gen_spec(r, shape));
            op.x = r.below(6);
        }
        Kind::Eval => {
            op.u = (0..r.range(1, 6)).map(|_| uarg(r)).collect();
            // 0: values only, 1: all derivatives
            op.flag = r.weighted(&[1.0, 2.0]);
            // one order above the degree
            op.x = if r.chance(0.3) { 10 + r.below(10) } else { 0 };
        }
        Kind::BadEval => {
            op.u = vec![UArg::Bad(r.below(16))];
            op.x = if r.chance(0.7) { r.below(4) } else { 10 + r.below(10) };
        }
        Kind::Deriv => {
            op.x = r.below(12);
            op.u = (0..3).map(|_| uarg(r)).collect();
        }
        Kind::Insert => {
            op.x = match r.weighted(&[0.6, 0.33, 0.05, 0.02]) {
                0 => 1,
                1 => r.range(2, 8),
                2 => r.range(9, 13),
                _ => [0, 64, 256, 1 << 32, usize::MAX][r.below(5)],
            };
            op.flag = r.below(3);
            op.u = vec![cut(r, bad)];
            op.u.extend((0..2).map(|_| uarg(r)));
        }
        Kind::Reverse | Kind::Reversed | Kind::Normalize => {
            op.flag = r.below(2);
            op.u = (0..3).map(|_| uarg(r)).collect();
        }
        Kind::Split => {
            op.u = vec![cut(r, bad)];
            op.u.extend((0..3).map(|_| uarg(r)));
            op.flag = r.weighted(&[4.0, 2.0, 0.5, 0.5, 0.7]);
        }
        Kind::Merge => {
            op.flag = r.weighted(&[12.0, 4.0, 4.0, 0.25, 0.25, 0.25, 0.25]);
            op.x = r.below(3);
        }
        Kind::Append | Kind::Prepend => {
            if r.chance(0.5) {
                // constrained
                op.flag = 1;
                let total = r.range(0, shape.0.max(1) - 1) + usize::from(r.chance(bad));
                op.u = (0..total)
                    .map(|_| match r.below(4) {
                        0 => UArg::Pool(r.below(8)),
                        1 => UArg::Knot(r.below(64)),
                        2 => UArg::Mid(r.below(64)),
                        _ => UArg::Knot(0),
                    })
                    .collect();
                op.x = r.range(0, total);
                if r.chance(0.4) {
                    // the ends at the joint
                    for (i, u) in op.u.iter_mut().enumerate() {
                        let left = (kind == Kind::Append) == (i < op.x);
                        *u = UArg::Raw(if left { 1.0 } else { 0.0 });
                        break;
                    }
                } else if r.chance(0.3) {
                    // all near the joint, possibly close to each other
                    let gap = 0.5 / r.log_uniform(200.0) as f64;
                    for (i, u) in op.u.iter_mut().enumerate() {
                        let left = (kind == Kind::Append) == (i < op.x);
                        let d = (gap * (r.below(3) as f64 + i as f64)).min(1.0);
                        *u = UArg::Raw(if left { 1.0 - d } else { d });
                    }
                }
            }
        }
        Kind::Lookup => op.u = (0..r.range(1, 4)).map(|_| uarg(r)).collect(),
        Kind::Move => {
            op.x = r.below(1 << 20);
            op.flag = r.below(6);
        }
        Kind::Basis => {
            op.u = (0..r.range(1, 4)).map(|_| uarg(r)).collect();
            op.x = r.below(10);
            op.flag = r.below(2);
        }
        Kind::Knots | Kind::Params | Kind::Interp | Kind::Fit | Kind::Refuse => {
            let mut g = gen_spec(r, shape);
            g.kind = r.below(64) as u8;
            g.p = match r.weighted(&[1.5, 2.0, 3.0, 1.5, 1.0, 0.5, 0.3, 0.1]) {
                7 => r.range(8, 10),
                i => i + 1,
            };
            g.n = g.p + match r.weighted(&[1.0, 4.0, 3.0, 0.5]) {
                0 => 0,
                1 => r.range(1, 5),
                2 => r.range(4, 14),
                _ => r.range(15, 30),
            };
            g.dim = if r.chance(0.03) { r.range(5, 20) } else { r.range(1, 4) };
            op.x = r.below(1 << 16);
            op.flag = r.below(64);
            if !recent.is_empty() && r.chance(0.35) {
                // much like an earlier request
                let old = r.pick(recent);
                let o = old.gen.unwrap();
                (g.p, g.n, g.dim) = (o.p, o.n, o.dim);
                if r.chance(0.7) {
                    (op.x, op.flag, g.kind) = (old.x, old.flag, o.kind);
                }
                if r.chance(0.5) {
                    g.seed = o.seed;
                    if r.chance(0.7) {
                        g.data = 8 + r.below(8) as u8;
                    }
                }
            }
            op.gen = Some(g);
            recent.push(op.clone());
        }
        Kind::Clone | Kind::Drop => {}
    }
    if r.chance(oom) {
        for _ in 0..r.range(1, 3) {
            // early, late and in between; sometimes the outage lasts
            let a = match r.below(3) {
                0 => r.below(12) as u64,
                _ => r.log_uniform(if matches!(kind, Kind::Insert) { 300.0 } else { 1500.0 }) - 1,
            };
            let n = if r.chance(0.7) { 1 } else { 1 << r.range(1, 6) };
            op.oom.push((a, a + n));
        }
    }
    op
}

pub fn pool(r: &mut Rng) -> Vec<f64> {
    let mut v = vec![0.5, 1.0 / 3.0, 0.25, 0.75];
    while v.len() < 8 {
        v.push(match r.below(3) {
            0 => r.range(1, 9) as f64 / 10.0,
            1 => r.range(1, 15) as f64 / 16.0,
            _ => (r.f() * 0.98) + 0.01,
        });
    }
    v
}

pub fn generate(prop: &str, seed: u64, run: u64) -> Scn {
    let seed = crate::rng::mix(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ crate::rng::mix(run + 1));
    let mut r = Rng::sub(seed, 1);
    let clients = if matches!(prop, "C07" | "C08") {
        [1, 2, 3, 4][r.weighted(&[0.3, 3.0, 2.0, 1.0])]
    } else {
        [1, 2, 3, 4][r.weighted(&[2.0, 3.0, 1.5, 0.7])]
    };
    let slots = clients.max(2) + r.below(3);
    // now and then a long history: many different operations, or a few repeated over and over
    let long = if prop == "C12" { 0 } else { [0, 1, 2, 3][r.weighted(&[1.0, 0.006, 0.006, 0.006])] };
    let mut shape = (degree(&mut r), dimension(&mut r));
    if long > 0 {
        shape.0 = shape.0.min(3);
    }
    let oom_rate = match prop {
        "C06" => [0.0, 0.3, 0.7][r.weighted(&[1.0, 3.0, 2.0])],
        "C09" | "C12" => [0.0, 0.2, 0.6][r.weighted(&[1.0, 2.0, 1.0])],
        _ => [0.0, 0.1, 0.4][r.weighted(&[3.0, 2.0, 0.7])],
    };
    // swarm: some kinds of operations are off in this run
    let mut w = weights(prop);
    let focus = w.iter().map(|x| x.1).fold(0.0, f64::max);
    for x in w.iter_mut() {
        if x.1 < focus && r.chance(0.25) {
            x.1 = 0.0;
        }
    }
    let per = match r.weighted(&[3.0, 3.0, 1.0]) {
        0 => r.range(2, 6),
        1 => r.range(5, 14),
        _ => r.range(12, 30),
    };
    let per = if long == 1 { r.range(60, 300) } else { per };
    let per = (per / clients).max(2);
    let init = (0..slots).map(|_| gen_spec(&mut r, shape)).collect();
    let mut recent = vec![];
    let prog = (0..clients)
        .map(|_| {
            let n = per + r.below(3);
            let mut ops: Vec<Op> =
                (0..n).map(|i| gen_op(&mut r, &mut recent, i, prop, &w, slots, shape, oom_rate)).collect();
            if long >= 2 {
                ops.truncate(if long == 2 { 8 } else { r.range(1, 2) });
                let k = ops.len();
                let total = if long == 2 { k * r.range(10, 40) / clients } else { r.range(270, 600) };
                for i in k..total {
                    ops.push(Op { id: i, ..ops[i % k].clone() });
                }
            }
            ops
        })
        .collect();
    Scn {
        seed,
        pool: pool(&mut r),
        init,
        clients: prog,
        sched_seed: r.next(),
        mean: [0.0, 5.0, 40.0, 400.0, 4000.0][r.weighted(&[0.7, 0.5, 1.5, 2.0, 2.0])],
        yield_p: *r.pick(&[0.05, 0.5, 0.9]),
        stall_p: *r.pick(&[0.0, 0.0, 0.2]),
        clock_seed: r.next(),
        reuse: [Reuse::Lifo, Reuse::Fifo, Reuse::Never][r.weighted(&[3.0, 1.0, 1.0])],
        fill: [
            None,
            Some(u64::MAX),
            Some(0x7ff8_0000_0000_0001),
            Some(0xaaaa_aaaa_aaaa_aaaa),
            Some(0),
            Some(0x3ff0_0000_0000_0000),
        ][r.below(6)],
        base: 0x6000_0000_0000 + r.below(64) * 0x1_0000_0000 + r.below(256) * 4096,
        trace: None,
    }
}
