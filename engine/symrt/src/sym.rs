//! `Sym`: the symbolic stand-in for `f64`. Concrete values stay hardware doubles; anything touched by a symbolic
//! input is a term over the reals. Comparisons on symbolic values are decided (and forked) by the engine.
use crate::arena::{self, AtomKind};
use crate::coef::Coef;
use crate::engine::{eng, NEG, POS, ZERO};
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

#[derive(Clone, Copy)]
pub enum Sym {
    C(f64),
    T(u32),
}
use Sym::*;

pub type P = Vec<(u32, Coef)>;

impl Sym {
    #[inline(always)]
    pub const fn c(x: f64) -> Sym {
        C(x)
    }
    /// concrete value in constant contexts
    pub const fn cval(self) -> f64 {
        match self {
            C(x) => x,
            T(_) => panic!("symbolic value in a constant"),
        }
    }
    pub fn poly(self) -> P {
        match self {
            C(x) => {
                if x == 0.0 {
                    vec![]
                } else {
                    assert!(x.is_finite(), "non-finite constant in a symbolic term");
                    vec![(0, Coef::from_f64(x))]
                }
            }
            T(t) => arena::with(|a| a.p(t).to_vec()),
        }
    }
    pub fn from_poly(p: P) -> Sym {
        if p.is_empty() {
            return C(0.0);
        }
        if p.len() == 1 && p[0].0 == 0 {
            return C(p[0].1.f());
        }
        T(arena::with(|a| a.intern(p)))
    }
    pub fn is_const(self) -> bool {
        matches!(self, C(_))
    }
    fn atom(kind: AtomKind, lo: f64, hi: f64) -> Sym {
        let t = arena::with(|a| {
            let at = a.atom(kind, lo, hi);
            let m = a.mon(&[(at, 1)]);
            a.intern(vec![(m, Coef::ONE)])
        });
        T(t)
    }
    pub fn var(name: &str, lo: f64, hi: f64) -> Sym {
        T(eng(|e| e.var(name, lo, hi)))
    }
    /// term id for a value that must be symbolic
    fn tid(self) -> u32 {
        match self {
            T(t) => t,
            C(_) => {
                let p = self.poly();
                arena::with(|a| a.intern(p))
            }
        }
    }
    /// 3-way sign, deciding (forking) where needed
    pub fn sign3(self) -> i32 {
        match self {
            C(x) => {
                if x > 0.0 {
                    1
                } else if x < 0.0 {
                    -1
                } else {
                    0
                }
            }
            T(_) => {
                let p = self.poly();
                [-1, 0, 1][eng(|e| e.decide(&p, &[NEG, ZERO, POS]))]
            }
        }
    }
    fn is_zero_d(self) -> bool {
        match self {
            C(x) => x == 0.0,
            T(_) => {
                let p = self.poly();
                eng(|e| e.decide(&p, &[ZERO, NEG | POS])) == 0
            }
        }
    }
    fn neg_d(self) -> bool {
        match self {
            C(x) => x < 0.0,
            T(_) => {
                let p = self.poly();
                eng(|e| e.decide(&p, &[NEG, ZERO | POS])) == 0
            }
        }
    }
    fn addp(self, o: Sym) -> Sym {
        match (self, o) {
            (C(a), C(b)) => C(a + b),
            (C(a), _) if a == 0.0 => o,
            (_, C(b)) if b == 0.0 => self,
            (C(a), _) if !a.is_finite() => self,
            (_, C(b)) if !b.is_finite() => o,
            _ => {
                let (p, q) = (self.poly(), o.poly());
                Sym::from_poly(arena::with(|a| a.add(&p, &q)))
            }
        }
    }
    fn negp(self) -> Sym {
        match self {
            C(a) => C(-a),
            T(_) => {
                let p = self.poly();
                Sym::from_poly(p.into_iter().map(|(m, c)| (m, c.neg())).collect())
            }
        }
    }
    fn mulp(self, o: Sym) -> Sym {
        match (self, o) {
            (C(a), C(b)) => C(a * b),
            (C(a), _) if !a.is_finite() => Self::inf_times(a, o),
            (_, C(b)) if !b.is_finite() => Self::inf_times(b, self),
            (C(a), _) if a == 0.0 => C(0.0),
            (_, C(b)) if b == 0.0 => C(0.0),
            _ => {
                let (p, q) = (self.poly(), o.poly());
                Sym::from_poly(arena::with(|a| {
                    let r = a.mul(&p, &q);
                    reduce(a, r)
                }))
            }
        }
    }
    fn inf_times(a: f64, o: Sym) -> Sym {
        if a.is_nan() {
            return C(f64::NAN);
        }
        match o.sign3() {
            0 => C(f64::NAN),
            s => C(a * s as f64),
        }
    }
    fn divp(self, o: Sym) -> Sym {
        match (self, o) {
            (C(a), C(b)) => C(a / b),
            (_, C(b)) if b.is_nan() => C(b),
            (T(_), C(b)) if b.is_infinite() => C(0.0),
            (T(_), C(b)) => {
                if b == 0.0 {
                    return match self.sign3() {
                        0 => C(f64::NAN),
                        s => C(s as f64 / b),
                    };
                }
                let p = self.poly();
                let k = Coef::from_f64(b).inv();
                Sym::from_poly(arena::with(|a| a.scale(&p, k)))
            }
            (_, T(_)) => {
                if o.is_zero_d() {
                    return match self.sign3() {
                        0 => C(f64::NAN),
                        s => C(s as f64 * f64::INFINITY),
                    };
                }
                if let C(a) = self {
                    if !a.is_finite() {
                        return Self::inf_times(a, o);
                    }
                }
                let (p, q) = (self.poly(), o.poly());
                if let Some(r) = arena::with(|a| a.div_exact(&p, &q)) {
                    return Sym::from_poly(r);
                }
                self.mulp(o.recip_atom())
            }
        }
    }
    /// reciprocal of a multi-term value already known to be non-zero: content times Inv(primitive part)
    fn recip_atom(self) -> Sym {
        let p = self.poly();
        let (rest, outer) = arena::with(|a| {
            let c = a.content_mon(&p);
            let m = a.mon(&c);
            let im = a.mon_pow(m, -1);
            let q = a.shift(&p, im);
            let (_, lc) = a.lead(&q).unwrap();
            let q = a.scale(&q, lc.inv());
            (a.intern(q), vec![(im, lc.inv())])
        });
        let (l, h) = arena::with(|a| a.ival(rest));
        let (lo, hi) = if l > 0.0 || h < 0.0 { (1.0 / h, 1.0 / l) } else { (f64::NEG_INFINITY, f64::INFINITY) };
        let inv = Sym::atom(AtomKind::Inv(rest), lo, hi);
        Sym::from_poly(outer).mulp(inv)
    }

    // ---------------------------------------------------------------- f64 API
    pub fn abs(self) -> Sym {
        match self {
            C(a) => C(a.abs()),
            T(_) => {
                if self.neg_d() {
                    self.negp()
                } else {
                    self
                }
            }
        }
    }
    pub fn signum(self) -> Sym {
        match self {
            C(a) => C(a.signum()),
            T(_) => C(if self.neg_d() { -1.0 } else { 1.0 }),
        }
    }
    pub fn sqrt(self) -> Sym {
        match self {
            C(a) => C(a.sqrt()),
            T(t) => {
                if self.neg_d() {
                    return C(f64::NAN);
                }
                let p = self.poly();
                if let Some(r) = arena::with(|a| a.sqrt_exact(&p)) {
                    return Sym::from_poly(r).abs();
                }
                let (l, h) = arena::with(|a| a.ival(t));
                Sym::atom(AtomKind::Sqrt(t), l.max(0.0).sqrt() * (1.0 - 1e-15), h.max(0.0).sqrt() * (1.0 + 1e-15))
            }
        }
    }
    pub fn powi(self, n: i32) -> Sym {
        match self {
            C(a) => C(a.powi(n)),
            T(_) => {
                let mut r = C(1.0);
                for _ in 0..n.unsigned_abs() {
                    r = r * self;
                }
                if n < 0 {
                    C(1.0) / r
                } else {
                    r
                }
            }
        }
    }
    pub fn powf(self, n: Sym) -> Sym {
        match (self, n) {
            (C(a), C(b)) => C(a.powf(b)),
            (_, C(b)) if b == b.trunc() && b.abs() < 64.0 => self.powi(b as i32),
            (_, C(b)) if b == 0.5 => self.sqrt(),
            _ => unsupported("powf"),
        }
    }
    pub fn recip(self) -> Sym {
        C(1.0) / self
    }
    pub fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    pub fn hypot(self, o: Sym) -> Sym {
        (self * self + o * o).sqrt()
    }
    pub fn is_nan(self) -> bool {
        matches!(self, C(a) if a.is_nan())
    }
    pub fn is_finite(self) -> bool {
        match self {
            C(a) => a.is_finite(),
            T(_) => true,
        }
    }
    pub fn is_infinite(self) -> bool {
        matches!(self, C(a) if a.is_infinite())
    }
    pub fn is_normal(self) -> bool {
        match self {
            C(a) => a.is_normal(),
            T(_) => !self.is_zero_d(),
        }
    }
    pub fn is_sign_negative(self) -> bool {
        match self {
            C(a) => a.is_sign_negative(),
            T(_) => self.neg_d(),
        }
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn max(self, o: Sym) -> Sym {
        match (self, o) {
            (C(a), C(b)) => C(a.max(b)),
            _ if self.is_nan() => o,
            _ if o.is_nan() => self,
            _ => {
                if self < o {
                    o
                } else {
                    self
                }
            }
        }
    }
    pub fn min(self, o: Sym) -> Sym {
        match (self, o) {
            (C(a), C(b)) => C(a.min(b)),
            _ if self.is_nan() => o,
            _ if o.is_nan() => self,
            _ => {
                if o < self {
                    o
                } else {
                    self
                }
            }
        }
    }
    pub fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        assert!(lo <= hi);
        let mut x = self;
        if x < lo {
            x = lo;
        }
        if x > hi {
            x = hi;
        }
        x
    }
    pub fn copysign(self, o: Sym) -> Sym {
        let m = self.abs();
        if o.is_sign_negative() {
            -m
        } else {
            m
        }
    }
    fn frac_nonneg(self) -> Sym {
        let t = self.tid();
        let (l, h) = arena::with(|a| a.ival(t));
        if l >= 0.0 && h < 1.0 {
            return self;
        }
        Sym::atom(AtomKind::Frac(t), 0.0, 1.0)
    }
    pub fn fract(self) -> Sym {
        match self {
            C(a) => C(a.fract()),
            T(_) => {
                if self.neg_d() {
                    -((-self).frac_nonneg())
                } else {
                    self.frac_nonneg()
                }
            }
        }
    }
    pub fn trunc(self) -> Sym {
        match self {
            C(a) => C(a.trunc()),
            T(_) => self - self.fract(),
        }
    }
    pub fn floor(self) -> Sym {
        match self {
            C(a) => C(a.floor()),
            T(_) => {
                if self.neg_d() {
                    let f = (-self).frac_nonneg();
                    if f.is_zero_d() {
                        self
                    } else {
                        self + f - C(1.0)
                    }
                } else {
                    self - self.frac_nonneg()
                }
            }
        }
    }
    pub fn ceil(self) -> Sym {
        match self {
            C(a) => C(a.ceil()),
            T(_) => -((-self).floor()),
        }
    }
    pub fn round(self) -> Sym {
        match self {
            C(a) => C(a.round()),
            T(_) => {
                if self.neg_d() {
                    return -((-self).round());
                }
                let t = self.tid();
                self + Sym::atom(AtomKind::RoundErr(t), -0.5, 0.5)
            }
        }
    }
    pub fn round_ties_even(self) -> Sym {
        match self {
            C(a) => C(a.round_ties_even()),
            T(_) => self.round(),
        }
    }
    pub fn rem_euclid(self, o: Sym) -> Sym {
        match (self, o) {
            (C(a), C(b)) => C(a.rem_euclid(b)),
            _ => unsupported("rem_euclid"),
        }
    }
    pub fn atan(self) -> Sym {
        match self {
            C(a) => C(a.atan()),
            T(t) => {
                // atan is monotone; kept as an opaque value compared through its argument
                Sym::atom(AtomKind::Fun("atan", t), -1.5707963267948968, 1.5707963267948968)
            }
        }
    }
    pub fn to_degrees(self) -> Sym {
        self * C(180.0) / C(std::f64::consts::PI)
    }
    pub fn to_radians(self) -> Sym {
        self * C(std::f64::consts::PI) / C(180.0)
    }
    pub fn midpoint(self, o: Sym) -> Sym {
        (self + o) / C(2.0)
    }
    pub fn div_euclid(self, o: Sym) -> Sym {
        match (self, o) {
            (C(a), C(b)) => C(a.div_euclid(b)),
            _ => unsupported("div_euclid"),
        }
    }
    pub fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    pub fn to_ne_bytes(self) -> [u8; 8] {
        boxed(self).to_ne_bytes()
    }
    pub fn from_ne_bytes(b: [u8; 8]) -> Sym {
        unboxed(u64::from_ne_bytes(b))
    }
    pub fn cbrt(self) -> Sym {
        self.fun1("cbrt", f64::cbrt, -1e9, 1e9)
    }
    pub fn atan2(self, o: Sym) -> Sym {
        match (self, o) {
            (C(a), C(b)) => C(a.atan2(b)),
            _ => match o.sign3() {
                1 => (self / o).atan(),
                0 => C(self.sign3() as f64 * std::f64::consts::FRAC_PI_2),
                _ => (self / o).atan() + C(if self.neg_d() { -std::f64::consts::PI } else { std::f64::consts::PI }),
            },
        }
    }
    fn fun1(self, name: &'static str, f: fn(f64) -> f64, lo: f64, hi: f64) -> Sym {
        match self {
            C(a) => C(f(a)),
            T(t) => Sym::atom(AtomKind::Fun(name, t), lo, hi),
        }
    }
    pub fn sin(self) -> Sym {
        self.fun1("sin", f64::sin, -1.0, 1.0)
    }
    pub fn cos(self) -> Sym {
        self.fun1("cos", f64::cos, -1.0, 1.0)
    }
    pub fn tan(self) -> Sym {
        self.fun1("tan", f64::tan, f64::NEG_INFINITY, f64::INFINITY)
    }
    pub fn exp(self) -> Sym {
        self.fun1("exp", f64::exp, 0.0, f64::INFINITY)
    }
    pub fn ln(self) -> Sym {
        self.fun1("ln", f64::ln, f64::NEG_INFINITY, f64::INFINITY)
    }
    pub fn log2(self) -> Sym {
        self.fun1("log2", f64::log2, f64::NEG_INFINITY, f64::INFINITY)
    }
    pub fn log10(self) -> Sym {
        self.fun1("log10", f64::log10, f64::NEG_INFINITY, f64::INFINITY)
    }
    pub fn exp2(self) -> Sym {
        self.fun1("exp2", f64::exp2, 0.0, f64::INFINITY)
    }
    pub fn exp_m1(self) -> Sym {
        self.fun1("exp_m1", f64::exp_m1, -1.0, f64::INFINITY)
    }
    pub fn ln_1p(self) -> Sym {
        self.fun1("ln_1p", f64::ln_1p, f64::NEG_INFINITY, f64::INFINITY)
    }
    pub fn sinh(self) -> Sym {
        self.fun1("sinh", f64::sinh, f64::NEG_INFINITY, f64::INFINITY)
    }
    pub fn cosh(self) -> Sym {
        self.fun1("cosh", f64::cosh, 1.0, f64::INFINITY)
    }
    pub fn tanh(self) -> Sym {
        self.fun1("tanh", f64::tanh, -1.0, 1.0)
    }
    pub fn asin(self) -> Sym {
        self.fun1("asin", f64::asin, -1.6, 1.6)
    }
    pub fn acos(self) -> Sym {
        self.fun1("acos", f64::acos, -0.1, 3.2)
    }
    pub fn asinh(self) -> Sym {
        self.fun1("asinh", f64::asinh, f64::NEG_INFINITY, f64::INFINITY)
    }
    pub fn acosh(self) -> Sym {
        self.fun1("acosh", f64::acosh, 0.0, f64::INFINITY)
    }
    pub fn atanh(self) -> Sym {
        self.fun1("atanh", f64::atanh, f64::NEG_INFINITY, f64::INFINITY)
    }
    pub fn log(self, b: Sym) -> Sym {
        self.ln() / b.ln()
    }
    pub fn total_cmp(&self, o: &Sym) -> Ordering {
        match (*self, *o) {
            (C(a), C(b)) => a.total_cmp(&b),
            _ => self.partial_cmp(o).unwrap(),
        }
    }
    /// Order-isomorphic code: equal values get equal bits, and for non-negative values bits order as values do.
    pub fn to_bits(self) -> u64 {
        // +0 keeps its real pattern; everything else is ranked among the values seen on this path
        if self.is_zero_d() {
            return match self {
                C(a) => a.to_bits(),
                _ => 0,
            };
        }
        let neg = self.neg_d();
        let v = if neg { -self } else { self };
        let t = v.tid();
        let mut lo = 0usize;
        let mut hi = eng(|e| e.ranks.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            let (mt, mr) = eng(|e| e.ranks[mid]);
            if mt == t {
                return mr | if neg { 1 << 63 } else { 0 };
            }
            let p = (v - T(mt)).poly();
            match eng(|e| e.decide(&p, &[NEG, ZERO, POS])) {
                0 => hi = mid,
                1 => return mr | if neg { 1 << 63 } else { 0 },
                _ => lo = mid + 1,
            }
        }
        let r = eng(|e| {
            let below = if lo == 0 { 1u64 } else { e.ranks[lo - 1].1 };
            let above = if lo == e.ranks.len() { 0x7ff0_0000_0000_0000 } else { e.ranks[lo].1 };
            let r = below + (above - below) / 2;
            assert!(r > below && r < above, "rank space exhausted");
            e.ranks.insert(lo, (t, r));
            r
        });
        r | if neg { 1 << 63 } else { 0 }
    }
    pub fn to_be_bytes(self) -> [u8; 8] {
        boxed(self).to_be_bytes()
    }
    pub fn to_le_bytes(self) -> [u8; 8] {
        boxed(self).to_le_bytes()
    }
    pub fn from_be_bytes(b: [u8; 8]) -> Sym {
        unboxed(u64::from_be_bytes(b))
    }
    pub fn from_le_bytes(b: [u8; 8]) -> Sym {
        unboxed(u64::from_le_bytes(b))
    }
    pub fn from_bits(b: u64) -> Sym {
        unboxed(b)
    }
}

pub fn unsupported(what: &str) -> ! {
    panic!("SYMRT-UNSUPPORTED: {} on a symbolic value", what)
}

/// serialised form of a value: concrete doubles as they are, symbolic ones as a tagged quiet NaN carrying the id
pub fn boxed(s: Sym) -> u64 {
    match s {
        C(a) => a.to_bits(),
        T(t) => 0x7ff4_5a00_0000_0000 | t as u64,
    }
}
pub fn unboxed(b: u64) -> Sym {
    if b >> 32 == 0x7ff4_5a00 {
        T(b as u32)
    } else {
        C(f64::from_bits(b))
    }
}

/// use the defining equation s*s = t of square-root atoms to lower exponents
fn reduce(a: &mut arena::Arena, p: P) -> P {
    let mut hit = None;
    'o: for (m, _) in p.iter() {
        for (at, e) in a.mons[*m as usize].iter() {
            if *e >= 2 {
                if let AtomKind::Sqrt(t) = a.atoms[*at as usize].kind {
                    hit = Some((*at, t));
                    break 'o;
                }
            }
        }
    }
    let Some((at, t)) = hit else { return p };
    let mut out: P = vec![];
    let q = a.p(t).to_vec();
    for (m, c) in p {
        let e = a.mons[m as usize].iter().find(|x| x.0 == at).map_or(0, |x| x.1);
        if e >= 2 {
            let f = a.mon(&[(at, -2)]);
            let nm = a.mon_mul(m, f);
            let piece = a.mul(&q, &[(nm, c)]);
            out = a.add(&out, &piece);
        } else {
            out = a.add(&out, &[(m, c)]);
        }
    }
    reduce(a, out)
}

// a single opaque atan value compared with a constant is decided through its argument
fn as_atan(s: Sym) -> Option<Sym> {
    if let T(t) = s {
        return arena::with(|a| {
            let p = a.p(t);
            if p.len() == 1 && p[0].1 == Coef::ONE {
                let m = a.mons[p[0].0 as usize].clone();
                if m.len() == 1 && m[0].1 == 1 {
                    if let AtomKind::Fun("atan", u) = a.atoms[m[0].0 as usize].kind {
                        return Some(T(u));
                    }
                }
            }
            None
        });
    }
    None
}
fn tan_const(x: f64) -> f64 {
    if x == std::f64::consts::FRAC_PI_4 {
        1.0
    } else if x >= std::f64::consts::FRAC_PI_2 {
        f64::INFINITY
    } else if x <= -std::f64::consts::FRAC_PI_2 {
        f64::NEG_INFINITY
    } else {
        x.tan()
    }
}

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        match (*self, *o) {
            (C(a), C(b)) => a == b,
            (T(a), T(b)) if a == b => true,
            (C(a), _) | (_, C(a)) if !a.is_finite() => false,
            _ => {
                if let (Some(a), Some(b)) = (as_atan(*self), as_atan(*o)) {
                    return a == b;
                }
                (*self - *o).is_zero_d()
            }
        }
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        match (*self, *o) {
            (C(a), C(b)) => a.partial_cmp(&b),
            (T(a), T(b)) if a == b => Some(Ordering::Equal),
            (C(a), T(_)) if !a.is_finite() => 0.0f64.partial_cmp(&a).map(|x| x.reverse()),
            (T(_), C(b)) if !b.is_finite() => 0.0f64.partial_cmp(&b),
            // magnitudes no bounded input reaches
            (T(_), C(b)) if b.abs() >= 1e300 => 0.0f64.partial_cmp(&b),
            (C(a), T(_)) if a.abs() >= 1e300 => a.partial_cmp(&0.0),
            _ => {
                match (as_atan(*self), as_atan(*o), *self, *o) {
                    (Some(a), Some(b), ..) => return a.partial_cmp(&b),
                    (Some(a), _, _, C(k)) => return a.partial_cmp(&C(tan_const(k))),
                    (_, Some(b), C(k), _) => return C(tan_const(k)).partial_cmp(&b),
                    _ => (),
                }
                Some((*self - *o).sign3().cmp(&0))
            }
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        match (*self, *o) {
            (T(_), T(_)) | (T(_), C(_)) | (C(_), T(_)) if plain(*self, *o) => (*self - *o).neg_d(),
            _ => self.partial_cmp(o) == Some(Ordering::Less),
        }
    }
    fn gt(&self, o: &Sym) -> bool {
        o.lt(self)
    }
    fn le(&self, o: &Sym) -> bool {
        if self.is_nan() || o.is_nan() {
            return false;
        }
        !o.lt(self)
    }
    fn ge(&self, o: &Sym) -> bool {
        o.le(self)
    }
}
fn plain(a: Sym, b: Sym) -> bool {
    let f = |s: Sym| match s {
        C(x) => x.is_finite() && x.abs() < 1e300,
        T(_) => as_atan(s).is_none(),
    };
    f(a) && f(b)
}

macro_rules! bin {
    ($tr:ident, $f:ident, $imp:ident, $atr:ident, $af:ident) => {
        impl $tr for Sym {
            type Output = Sym;
            #[inline]
            fn $f(self, o: Sym) -> Sym {
                self.$imp(o)
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $f(self, o: &'a Sym) -> Sym {
                self.$imp(*o)
            }
        }
        impl<'a> $tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                self.$imp(o)
            }
        }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym {
            type Output = Sym;
            fn $f(self, o: &'b Sym) -> Sym {
                self.$imp(*o)
            }
        }
        impl $tr<f64> for Sym {
            type Output = Sym;
            fn $f(self, o: f64) -> Sym {
                self.$imp(C(o))
            }
        }
        impl $tr<Sym> for f64 {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                C(self).$imp(o)
            }
        }
        impl $atr for Sym {
            fn $af(&mut self, o: Sym) {
                *self = self.$imp(o);
            }
        }
        impl<'a> $atr<&'a Sym> for Sym {
            fn $af(&mut self, o: &'a Sym) {
                *self = self.$imp(*o);
            }
        }
        impl $atr<f64> for Sym {
            fn $af(&mut self, o: f64) {
                *self = self.$imp(C(o));
            }
        }
    };
}
impl Sym {
    fn subp(self, o: Sym) -> Sym {
        match (self, o) {
            (C(a), C(b)) => C(a - b),
            (T(a), T(b)) if a == b => C(0.0),
            _ => self.addp(o.negp()),
        }
    }
    fn remp(self, o: Sym) -> Sym {
        match (self, o) {
            (C(a), C(b)) => C(a % b),
            (_, C(b)) if b == 1.0 => self.fract(),
            _ => unsupported("%"),
        }
    }
}
bin!(Add, add, addp, AddAssign, add_assign);
bin!(Sub, sub, subp, SubAssign, sub_assign);
bin!(Mul, mul, mulp, MulAssign, mul_assign);
bin!(Div, div, divp, DivAssign, div_assign);
bin!(Rem, rem, remp, RemAssign, rem_assign);
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        self.negp()
    }
}
impl<'a> Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        self.negp()
    }
}
impl Default for Sym {
    fn default() -> Sym {
        C(0.0)
    }
}
impl Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(C(0.0), |a, b| a + b)
    }
}
impl<'a> Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(C(0.0), |a, b| a + *b)
    }
}
impl Product for Sym {
    fn product<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(C(1.0), |a, b| a * b)
    }
}
impl<'a> Product<&'a Sym> for Sym {
    fn product<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(C(1.0), |a, b| a * *b)
    }
}
macro_rules! from_num {
    ($($t:ty),*) => { $(
        impl From<$t> for Sym { fn from(x: $t) -> Sym { C(x as f64) } }
        impl ToSym for $t { fn to_sym_(self) -> Sym { C(self as f64) } }
    )* }
}
/// `expr as f64`
pub trait ToSym {
    fn to_sym_(self) -> Sym;
}
from_num!(i8, u8, i16, u16, i32, u32, f32, f64);
macro_rules! to_only { ($($t:ty),*) => { $( impl ToSym for $t { fn to_sym_(self) -> Sym { C(self as f64) } } )* } }
to_only!(i64, u64, i128, u128, isize, usize);
impl ToSym for Sym {
    fn to_sym_(self) -> Sym {
        self
    }
}
pub fn to_sym<T: ToSym>(t: T) -> Sym {
    t.to_sym_()
}
/// A printed value: its term, and the number of decimals where these are few enough to matter.
fn token(t: u32, f: &mut fmt::Formatter) -> fmt::Result {
    let s = match f.precision() {
        Some(p) if p < 10 => format!("@{}p{}", t, p),
        _ => format!("@{}", t),
    };
    let w = f.width().unwrap_or(0);
    match f.align() {
        Some(fmt::Alignment::Left) => write!(f, "{:<w$}", s),
        Some(fmt::Alignment::Center) => write!(f, "{:^w$}", s),
        _ => write!(f, "{:>w$}", s),
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            C(a) => fmt::Display::fmt(a, f),
            T(t) => token(*t, f),
        }
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            C(a) => fmt::LowerExp::fmt(a, f),
            T(t) => token(*t, f),
        }
    }
}
impl fmt::UpperExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            C(a) => fmt::UpperExp::fmt(a, f),
            T(t) => token(*t, f),
        }
    }
}
impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            C(a) => fmt::Debug::fmt(a, f),
            T(t) => write!(f, "@{}", t),
        }
    }
}
impl std::str::FromStr for Sym {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<Sym, Self::Err> {
        if let Some(h) = s.strip_prefix('@') {
            if let Ok(t) = h.parse::<u32>() {
                return Ok(T(t));
            }
            // printed with few decimals: what is read back is the rounded value
            if let Some((t, p)) = h.split_once('p') {
                if let (Ok(t), Ok(p)) = (t.parse::<u32>(), p.parse::<i32>()) {
                    let s = C(10f64.powi(p));
                    return Ok(match T(t) * s {
                        C(a) => C(a.round()) / s,
                        x => (x + Sym::atom(AtomKind::PrintErr(x.tid()), -0.5, 0.5)) / s,
                    });
                }
            }
        }
        s.parse::<f64>().map(C)
    }
}
impl num_traits::Zero for Sym {
    fn zero() -> Sym {
        C(0.0)
    }
    fn is_zero(&self) -> bool {
        self.is_zero_d()
    }
}
impl num_traits::One for Sym {
    fn one() -> Sym {
        C(1.0)
    }
}
impl num_traits::Num for Sym {
    type FromStrRadixErr = std::num::ParseFloatError;
    fn from_str_radix(s: &str, _: u32) -> Result<Sym, Self::FromStrRadixErr> {
        s.parse()
    }
}

/// `std::f64` constants
pub mod f64m {
    use super::Sym;
    pub const EPSILON: Sym = Sym::c(f64::EPSILON);
    pub const MAX: Sym = Sym::c(f64::MAX);
    pub const MIN: Sym = Sym::c(f64::MIN);
    pub const MIN_POSITIVE: Sym = Sym::c(f64::MIN_POSITIVE);
    pub const INFINITY: Sym = Sym::c(f64::INFINITY);
    pub const NEG_INFINITY: Sym = Sym::c(f64::NEG_INFINITY);
    pub const NAN: Sym = Sym::c(f64::NAN);
    pub mod consts {
        use super::Sym;
        macro_rules! k { ($($n:ident),*) => { $( pub const $n: Sym = Sym::c(std::f64::consts::$n); )* } }
        k!(PI, TAU, E, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, FRAC_1_PI, FRAC_2_PI, SQRT_2, FRAC_1_SQRT_2, LN_2, LN_10, LOG2_E, LOG10_E);
    }
}
impl Sym {
    pub const EPSILON: Sym = Sym::c(f64::EPSILON);
    pub const MAX: Sym = Sym::c(f64::MAX);
    pub const MIN: Sym = Sym::c(f64::MIN);
    pub const MIN_POSITIVE: Sym = Sym::c(f64::MIN_POSITIVE);
    pub const INFINITY: Sym = Sym::c(f64::INFINITY);
    pub const NEG_INFINITY: Sym = Sym::c(f64::NEG_INFINITY);
    pub const NAN: Sym = Sym::c(f64::NAN);
}

impl Sym {
    /// the integer a cast gives: the path forks over the integers the value can reach
    fn int_part(self) -> i128 {
        if self.neg_d() {
            return -(-self).int_part();
        }
        let mut hi = 1i128;
        while !(self < C(hi as f64)) {
            hi *= 2;
            if hi > 1 << 40 {
                unsupported("cast to integer");
            }
        }
        let mut lo = hi / 2;
        while hi - lo > 1 {
            let mid = (lo + hi) / 2;
            if self < C(mid as f64) {
                hi = mid
            } else {
                lo = mid
            }
        }
        lo
    }
}
/// any other `as` cast to a primitive type, floats saturating as the language has it
/// a float bound by a pattern, behind however many references
pub trait Fp {
    fn fp(&self) -> Sym;
}
impl Fp for Sym {
    fn fp(&self) -> Sym {
        *self
    }
}
impl<T: Fp + ?Sized> Fp for &T {
    fn fp(&self) -> Sym {
        (**self).fp()
    }
}
impl<T: Fp + ?Sized> Fp for &mut T {
    fn fp(&self) -> Sym {
        (**self).fp()
    }
}

pub trait As<T> {
    fn as_(self) -> T;
}
macro_rules! as_prim {
    ($t:ty : $($f:ty),*) => { $( impl As<$t> for $f { #[inline] fn as_(self) -> $t { self as $t } } )* };
}
macro_rules! as_all {
    ($($t:ty),*) => { $(
        as_prim!($t: u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
        impl As<$t> for Sym {
            fn as_(self) -> $t {
                match self {
                    C(a) => a as $t,
                    T(_) => (self.int_part() as f64) as $t,
                }
            }
        }
    )* };
}
as_all!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32);
macro_rules! as_bool {
    ($($t:ty),*) => { $( as_prim!($t: bool, char); )* };
}
as_bool!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
