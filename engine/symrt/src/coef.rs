//! Coefficients: exact rationals (i128/i128); on overflow, or for floating constants with long mantissas, an
//! inexact f64 ("F"). Terms whose inexact coefficient cancels to rounding level are dropped.
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug)]
pub enum Coef {
    Q(i128, i128),
    F(f64),
}
use Coef::*;

fn gcd(mut a: i128, mut b: i128) -> i128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a.abs()
}

impl PartialEq for Coef {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Q(a, b), Q(c, d)) => a == c && b == d,
            (F(a), F(b)) => a.to_bits() == b.to_bits(),
            _ => false,
        }
    }
}
impl Eq for Coef {}
impl std::hash::Hash for Coef {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        match self {
            Q(a, b) => {
                (*a as u64).hash(h);
                (*b as u64).hash(h);
            }
            F(f) => f.to_bits().hash(h),
        }
    }
}

impl Coef {
    pub const ONE: Coef = Q(1, 1);
    pub const ZERO: Coef = Q(0, 1);
    pub fn q(n: i128, d: i128) -> Coef {
        if d == 1 {
            return Q(n, 1);
        }
        let g = gcd(n, d);
        let s = if d < 0 { -1 } else { 1 };
        if g == 0 {
            return Q(0, 1);
        }
        Q(s * n / g, s * d / g)
    }
    pub fn int(n: i64) -> Coef {
        Q(n as i128, 1)
    }
    /// Exact when the value is a dyadic rational with a short mantissa; otherwise inexact.
    pub fn from_f64(f: f64) -> Coef {
        if f == 0.0 {
            return Q(0, 1);
        }
        let bits = f.to_bits();
        let exp = ((bits >> 52) & 0x7ff) as i32 - 1075;
        let mut m = ((bits & ((1u64 << 52) - 1)) | (1u64 << 52)) as i128;
        if exp < -1074 + 1 || exp > 900 {
            return F(f);
        }
        let mut e = exp;
        while m % 2 == 0 {
            m /= 2;
            e += 1;
        }
        if m.abs() < (1 << 40) && e > -60 && e < 40 {
            let m = if f < 0.0 { -m } else { m };
            if e >= 0 {
                return Q(m << e, 1);
            } else {
                return Q(m, 1i128 << (-e));
            }
        }
        // short decimals (1e-12, 0.1, 3.0518e-5 ...) are read as the decimal they abbreviate
        let s = format!("{:e}", f.abs());
        if let Some((man, ex)) = s.split_once('e') {
            let ex: i32 = ex.parse().unwrap();
            let digits: String = man.chars().filter(|c| *c != '.').collect();
            let dp = man.find('.').map_or(0, |p| (man.len() - p - 1) as i32);
            if digits.len() <= 9 && ex - dp > -30 && ex - dp < 20 {
                let n: i128 = digits.parse().unwrap();
                let n = if f < 0.0 { -n } else { n };
                let p = ex - dp;
                return if p >= 0 { Coef::q(n * 10i128.pow(p as u32), 1) } else { Coef::q(n, 10i128.pow((-p) as u32)) };
            }
        }
        F(f)
    }
    pub fn f(&self) -> f64 {
        match self {
            Q(n, d) => {
                if *d == 1 {
                    *n as f64
                } else {
                    *n as f64 / *d as f64
                }
            }
            F(f) => *f,
        }
    }
    pub fn is_zero(&self) -> bool {
        match self {
            Q(n, _) => *n == 0,
            F(f) => *f == 0.0,
        }
    }
    pub fn exact(&self) -> bool {
        matches!(self, Q(..))
    }
    pub fn sgn(&self) -> i32 {
        match self {
            Q(n, _) => n.signum() as i32,
            F(f) => {
                if *f > 0.0 {
                    1
                } else if *f < 0.0 {
                    -1
                } else {
                    0
                }
            }
        }
    }
    pub fn neg(self) -> Coef {
        match self {
            Q(n, d) => Q(-n, d),
            F(f) => F(-f),
        }
    }
    pub fn add(self, o: Coef) -> Coef {
        if let (Q(a, b), Q(c, d)) = (self, o) {
            if b == 1 && d == 1 {
                if let Some(s) = a.checked_add(c) {
                    return Q(s, 1);
                }
            }
            if let (Some(x), Some(y), Some(z)) = (a.checked_mul(d), c.checked_mul(b), b.checked_mul(d)) {
                if let Some(s) = x.checked_add(y) {
                    return Coef::q(s, z);
                }
            }
        }
        let (x, y) = (self.f(), o.f());
        let s = x + y;
        if s.abs() <= 1e-12 * (x.abs() + y.abs()) {
            return Q(0, 1);
        }
        F(s)
    }
    pub fn mul(self, o: Coef) -> Coef {
        match (self, o) {
            (Q(0, _), _) | (_, Q(0, _)) => return Q(0, 1),
            (Q(1, 1), x) | (x, Q(1, 1)) => return x,
            (Q(a, b), Q(c, d)) => {
                let g1 = gcd(a, d);
                let g2 = gcd(c, b);
                if let (Some(n), Some(m)) = ((a / g1).checked_mul(c / g2), (b / g2).checked_mul(d / g1)) {
                    return Coef::q(n, m);
                }
            }
            _ => (),
        }
        F(self.f() * o.f())
    }
    pub fn inv(self) -> Coef {
        match self {
            Q(n, d) => {
                if n < 0 {
                    Q(-d, -n)
                } else {
                    Q(d, n)
                }
            }
            F(f) => F(1.0 / f),
        }
    }
    pub fn abs(self) -> Coef {
        if self.sgn() < 0 {
            self.neg()
        } else {
            self
        }
    }
    pub fn cmp(&self, o: &Coef) -> Ordering {
        self.add(o.neg()).sgn().cmp(&0)
    }
    pub fn sqrt(self) -> Coef {
        if let Q(n, d) = self {
            let isq = |x: i128| -> Option<i128> {
                let r = (x as f64).sqrt().round() as i128;
                (r.checked_mul(r)? == x).then_some(r)
            };
            if let (Some(a), Some(b)) = (isq(n), isq(d)) {
                return Q(a, b);
            }
        }
        F(self.f().sqrt())
    }
    /// decimal/rational text for the solver (exact for both variants)
    pub fn smt(&self) -> String {
        match self {
            Q(n, 1) => format!("{}", n),
            Q(n, d) => format!("{}/{}", n, d),
            F(f) => {
                // exact decimal expansion of a double is accepted by Z3; cap the tail at 1e-60 absolute
                let s = format!("{:.60}", f);
                s
            }
        }
    }
}
