//! Double-double arithmetic (about 32 decimal digits) for the reference model.

use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct DD {
    pub h: f64,
    pub l: f64,
}

pub const ZERO: DD = DD { h: 0.0, l: 0.0 };
pub const ONE: DD = DD { h: 1.0, l: 0.0 };

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
fn split(a: f64) -> (f64, f64) {
    let t = 134_217_729.0 * a;
    let hi = t - (t - a);
    (hi, a - hi)
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

impl DD {
    pub fn f(self) -> f64 {
        self.h + self.l
    }
    pub fn abs(self) -> DD {
        if self.h < 0.0 {
            -self
        } else {
            self
        }
    }
    pub fn lt(self, o: DD) -> bool {
        self.h < o.h || (self.h == o.h && self.l < o.l)
    }
    pub fn le(self, o: DD) -> bool {
        !o.lt(self)
    }
    pub fn is_zero(self) -> bool {
        self.h == 0.0
    }
}
impl From<f64> for DD {
    fn from(h: f64) -> Self {
        DD { h, l: 0.0 }
    }
}
impl Neg for DD {
    type Output = DD;
    fn neg(self) -> DD {
        DD { h: -self.h, l: -self.l }
    }
}
impl Add for DD {
    type Output = DD;
    fn add(self, o: DD) -> DD {
        let (s, e) = two_sum(self.h, o.h);
        let (t, f) = two_sum(self.l, o.l);
        let (s, e) = quick_two_sum(s, e + t);
        let (h, l) = quick_two_sum(s, e + f);
        DD { h, l }
    }
}
impl Sub for DD {
    type Output = DD;
    fn sub(self, o: DD) -> DD {
        self + (-o)
    }
}
impl Mul for DD {
    type Output = DD;
    fn mul(self, o: DD) -> DD {
        let (p, e) = two_prod(self.h, o.h);
        let (h, l) = quick_two_sum(p, e + (self.h * o.l + self.l * o.h));
        DD { h, l }
    }
}
impl Div for DD {
    type Output = DD;
    fn div(self, o: DD) -> DD {
        let q1 = self.h / o.h;
        let r = self - o * DD::from(q1);
        let q2 = r.h / o.h;
        let r = r - o * DD::from(q2);
        let q3 = r.h / o.h;
        let (h, l) = quick_two_sum(q1, q2);
        DD { h, l } + DD::from(q3)
    }
}
