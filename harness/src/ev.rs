//! Values with a running error bound.
//!
//! The reference computations are done in `f64`; `e` bounds how far a single-precision evaluation
//! of the same formula (in any reasonable order of operations) can be from `v`. Comparing against
//! that bound keeps the oracle quiet on re-ordered or re-associated arithmetic, and tight wherever
//! the formula is well-conditioned.
use std::ops::{Add, Div, Mul, Neg, Sub};

/// Per-operation relative slack: four single-precision half-ulps.
const U: f64 = 1.0 / 4_194_304.0; // 2^-22
/// Per-operation absolute slack: underflow to zero / subnormals in single precision.
const TINY: f64 = 1.5e-38;
/// Beyond this an `f32` evaluation may overflow.
const HUGE: f64 = 1e37;

#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub v: f64,
    pub e: f64,
}

impl Ev {
    pub const BAD: Ev = Ev { v: f64::NAN, e: f64::INFINITY };

    /// A value that is exact in both the reference and the implementation.
    pub fn exact(v: f64) -> Ev {
        if v.is_finite() {
            Ev { v, e: 0.0 }
        } else {
            Ev::BAD
        }
    }

    fn mk(v: f64, e: f64) -> Ev {
        if !v.is_finite() || !e.is_finite() || v.abs() + e > HUGE {
            Ev::BAD
        } else {
            Ev { v, e: e + v.abs() * U + TINY }
        }
    }

    pub fn ok(&self) -> bool {
        self.v.is_finite() && self.e.is_finite()
    }

    /// The fourth root, if the argument is certainly positive.
    pub fn root4(self) -> Ev {
        if !self.ok() || self.v <= 0.0 || self.v <= 4.0 * self.e {
            return Ev::BAD;
        }
        let r = self.v.sqrt().sqrt();
        let lo = (self.v - self.e).sqrt().sqrt();
        Ev::mk(r, r - lo + r * U)
    }

    pub fn pow(self, n: u32) -> Ev {
        let mut r = self;
        for _ in 1..n {
            r = r * self;
        }
        r
    }

    /// Allow for intermediate terms of the given magnitude.
    pub fn room(self, magnitude: f64) -> Ev {
        if !self.ok() {
            return self;
        }
        Ev::mk(self.v, self.e + magnitude.abs() * U)
    }

    /// The bound used when comparing with an actual value.
    pub fn tol(&self) -> f64 {
        4.0 * self.e + 1e-37
    }

    /// Compare with a value computed by the code under test. `None`: ill-conditioned, no verdict.
    pub fn agrees(&self, actual: f32) -> Option<bool> {
        if !self.ok() {
            return None;
        }
        Some((f64::from(actual) - self.v).abs() <= self.tol())
    }
}

impl From<f32> for Ev {
    fn from(v: f32) -> Ev {
        Ev::exact(f64::from(v))
    }
}

impl Add for Ev {
    type Output = Ev;
    fn add(self, o: Ev) -> Ev {
        Ev::mk(self.v + o.v, self.e + o.e)
    }
}
impl Sub for Ev {
    type Output = Ev;
    fn sub(self, o: Ev) -> Ev {
        // Allow for the operands having been scaled or summed in a different order.
        Ev::mk(self.v - o.v, self.e + o.e)
    }
}
impl Neg for Ev {
    type Output = Ev;
    fn neg(self) -> Ev {
        Ev { v: -self.v, e: self.e }
    }
}
impl Mul for Ev {
    type Output = Ev;
    fn mul(self, o: Ev) -> Ev {
        Ev::mk(
            self.v * o.v,
            self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e,
        )
    }
}
impl Div for Ev {
    type Output = Ev;
    fn div(self, o: Ev) -> Ev {
        if !self.ok() || !o.ok() || o.v == 0.0 || o.v.abs() <= 4.0 * o.e {
            return Ev::BAD;
        }
        let q = self.v / o.v;
        let d = o.v.abs() - o.e;
        Ev::mk(q, (self.e + q.abs() * o.e) / d)
    }
}
