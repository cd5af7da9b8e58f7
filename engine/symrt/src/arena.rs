//! Hash-consed terms: sparse Laurent polynomials over "atoms" (input variables and a few function symbols with
//! defining axioms). The arena is thread-local and survives between paths; everything in it is structural.
use crate::coef::Coef;
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_i32(&mut self, x: i32) {
        self.write_u64(x as u32 as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AtomKind {
    /// named input variable with inclusive bounds (stored as bits)
    Var(String, u64, u64),
    /// non-negative square root of a term
    Sqrt(u32),
    /// reciprocal of a (non-zero on this path) term
    Inv(u32),
    /// round(t) = t + e with |e| <= 1/2
    RoundErr(u32),
    /// what printing with few decimals adds, in units of the last one
    PrintErr(u32),
    /// fractional part of a non-negative term: 0 <= f < 1
    Frac(u32),
    /// uninterpreted bounded function (sin, cos, exp, ...) of terms
    Fun(&'static str, u32),
}

pub struct Atom {
    pub kind: AtomKind,
    pub lo: f64,
    pub hi: f64,
}

pub type Poly = Rc<[(u32, Coef)]>;

#[derive(Default)]
pub struct Arena {
    pub atoms: Vec<Atom>,
    atom_ids: FxMap<AtomKind, u32>,
    pub mons: Vec<Rc<[(u32, i32)]>>,
    mon_ids: FxMap<Rc<[(u32, i32)]>, u32>,
    mon_mul: FxMap<(u32, u32), u32>,
    pub terms: Vec<Poly>,
    term_ids: FxMap<Poly, u32>,
    ivals: FxMap<u32, (f64, f64)>,
    pub work: u64,
}

thread_local!(pub static ARENA: RefCell<Arena> = RefCell::new(Arena::new()));

pub fn with<T>(f: impl FnOnce(&mut Arena) -> T) -> T {
    ARENA.with(|a| f(&mut a.borrow_mut()))
}

fn imul((a, b): (f64, f64), (c, d): (f64, f64)) -> (f64, f64) {
    let m = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { x * y };
    let v = [m(a, c), m(a, d), m(b, c), m(b, d)];
    let (mut l, mut h) = (v[0], v[0]);
    for x in v {
        if x < l {
            l = x
        }
        if x > h {
            h = x
        }
    }
    widen((l, h))
}
fn widen((l, h): (f64, f64)) -> (f64, f64) {
    (if l == 0.0 { 0.0 } else { l - l.abs() * 1e-15 }, if h == 0.0 { 0.0 } else { h + h.abs() * 1e-15 })
}
fn ipow(i: (f64, f64), e: i32) -> (f64, f64) {
    if e < 0 {
        if i.0 > 0.0 || i.1 < 0.0 {
            return ipow(widen((1.0 / i.1, 1.0 / i.0)), -e);
        }
        return (f64::NEG_INFINITY, f64::INFINITY);
    }
    if e % 2 == 0 {
        let (a, b) = (i.0.abs(), i.1.abs());
        let lo = if i.0 <= 0.0 && i.1 >= 0.0 { 0.0 } else { a.min(b) };
        let hi = a.max(b);
        return widen((lo.powi(e), hi.powi(e)));
    }
    widen((i.0.powi(e), i.1.powi(e)))
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena::default();
        a.mon(&[]);
        a
    }
    pub fn mon(&mut self, m: &[(u32, i32)]) -> u32 {
        if let Some(i) = self.mon_ids.get(m) {
            return *i;
        }
        let r: Rc<[(u32, i32)]> = m.into();
        let i = self.mons.len() as u32;
        self.mons.push(r.clone());
        self.mon_ids.insert(r, i);
        i
    }
    pub fn atom(&mut self, kind: AtomKind, lo: f64, hi: f64) -> u32 {
        if let Some(i) = self.atom_ids.get(&kind) {
            return *i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(Atom { kind: kind.clone(), lo, hi });
        self.atom_ids.insert(kind, i);
        i
    }
    pub fn mon_mul(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.mon_mul.get(&k) {
            return *r;
        }
        let (x, y) = (self.mons[a as usize].clone(), self.mons[b as usize].clone());
        let mut o: Vec<(u32, i32)> = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j == y.len() || (i < x.len() && x[i].0 < y[j].0) {
                o.push(x[i]);
                i += 1;
            } else if i == x.len() || y[j].0 < x[i].0 {
                o.push(y[j]);
                j += 1;
            } else {
                let e = x[i].1 + y[j].1;
                if e != 0 {
                    o.push((x[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        let r = self.mon(&o);
        self.mon_mul.insert(k, r);
        r
    }
    pub fn mon_pow(&mut self, m: u32, e: i32) -> u32 {
        let v: Vec<_> = self.mons[m as usize].iter().map(|(a, x)| (*a, x * e)).collect();
        self.mon(&v)
    }
    pub fn intern(&mut self, p: Vec<(u32, Coef)>) -> u32 {
        let r: Poly = p.into();
        if let Some(i) = self.term_ids.get(&r) {
            return *i;
        }
        let i = self.terms.len() as u32;
        self.terms.push(r.clone());
        self.term_ids.insert(r, i);
        i
    }
    pub fn p(&self, t: u32) -> Poly {
        self.terms[t as usize].clone()
    }
    pub fn add(&mut self, a: &[(u32, Coef)], b: &[(u32, Coef)]) -> Vec<(u32, Coef)> {
        let mut o = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        self.work += (a.len() + b.len()) as u64;
        while i < a.len() || j < b.len() {
            if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
                o.push(a[i]);
                i += 1;
            } else if i == a.len() || b[j].0 < a[i].0 {
                o.push(b[j]);
                j += 1;
            } else {
                let c = a[i].1.add(b[j].1);
                if !c.is_zero() {
                    o.push((a[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        o
    }
    pub fn scale(&self, a: &[(u32, Coef)], c: Coef) -> Vec<(u32, Coef)> {
        if c.is_zero() {
            return vec![];
        }
        a.iter().map(|(m, x)| (*m, x.mul(c))).filter(|(_, x)| !x.is_zero()).collect()
    }
    pub fn mul(&mut self, a: &[(u32, Coef)], b: &[(u32, Coef)]) -> Vec<(u32, Coef)> {
        self.work += (a.len() * b.len()) as u64;
        if a.len() == 1 && a[0].0 == 0 {
            return self.scale(b, a[0].1);
        }
        if b.len() == 1 && b[0].0 == 0 {
            return self.scale(a, b[0].1);
        }
        let mut acc: Vec<(u32, Coef)> = Vec::with_capacity(a.len() * b.len());
        for (m, x) in a {
            for (n, y) in b {
                acc.push((self.mon_mul(*m, *n), x.mul(*y)));
            }
        }
        acc.sort_unstable_by_key(|t| t.0);
        let mut o: Vec<(u32, Coef)> = Vec::with_capacity(acc.len());
        // sum equal monomials with the total magnitude in view, so that float cancellation is recognised
        let mut i = 0;
        while i < acc.len() {
            let m = acc[i].0;
            let mut c = acc[i].1;
            let mut mag = c.f().abs();
            let mut j = i + 1;
            while j < acc.len() && acc[j].0 == m {
                mag = mag.max(acc[j].1.f().abs());
                c = c.add(acc[j].1);
                j += 1;
            }
            let tiny = !c.exact() && c.f().abs() <= 1e-12 * mag;
            if !c.is_zero() && !tiny {
                o.push((m, c));
            }
            i = j;
        }
        o
    }
    /// multiply every monomial by `m`
    pub fn shift(&mut self, a: &[(u32, Coef)], m: u32) -> Vec<(u32, Coef)> {
        let mut v: Vec<_> = a.iter().map(|(n, c)| (self.mon_mul(*n, m), *c)).collect();
        v.sort_unstable_by_key(|t| t.0);
        v
    }
    pub fn atom_ival(&self, a: u32) -> (f64, f64) {
        (self.atoms[a as usize].lo, self.atoms[a as usize].hi)
    }
    pub fn mon_ival(&self, m: u32) -> (f64, f64) {
        let mut r = (1.0, 1.0);
        for (a, e) in self.mons[m as usize].iter() {
            r = imul(r, ipow(self.atom_ival(*a), *e));
        }
        r
    }
    pub fn ival_poly(&self, p: &[(u32, Coef)]) -> (f64, f64) {
        let (mut l, mut h) = (0.0f64, 0.0f64);
        for (m, c) in p {
            let i = imul(self.mon_ival(*m), (c.f(), c.f()));
            l += i.0;
            h += i.1;
            l -= l.abs() * 1e-15;
            h += h.abs() * 1e-15;
        }
        if l.is_nan() {
            l = f64::NEG_INFINITY
        }
        if h.is_nan() {
            h = f64::INFINITY
        }
        (l, h)
    }
    pub fn ival(&mut self, t: u32) -> (f64, f64) {
        if let Some(i) = self.ivals.get(&t) {
            return *i;
        }
        let p = self.p(t);
        let r = self.ival_poly(&p);
        self.ivals.insert(t, r);
        r
    }
    pub fn eval_poly(&self, p: &[(u32, Coef)], vals: &[f64]) -> f64 {
        let mut s = 0.0;
        for (m, c) in p {
            let mut x = c.f();
            for (a, e) in self.mons[*m as usize].iter() {
                x *= vals[*a as usize].powi(*e);
            }
            s += x;
        }
        s
    }
    pub fn degree(&self, p: &[(u32, Coef)]) -> i32 {
        p.iter().map(|(m, _)| self.mons[*m as usize].iter().map(|x| x.1.abs()).sum::<i32>()).max().unwrap_or(0)
    }
    /// minimal exponent of every atom over all monomials (the common Laurent factor)
    pub fn content_mon(&self, p: &[(u32, Coef)]) -> Vec<(u32, i32)> {
        if p.is_empty() {
            return vec![];
        }
        let mut mins: FxMap<u32, (i32, usize)> = FxMap::default();
        for (m, _) in p {
            for (a, e) in self.mons[*m as usize].iter() {
                let x = mins.entry(*a).or_insert((*e, 0));
                x.0 = x.0.min(*e);
                x.1 += 1;
            }
        }
        let mut v: Vec<_> = mins
            .into_iter()
            .map(|(a, (e, n))| (a, if n < p.len() { e.min(0) } else { e }))
            .filter(|x| x.1 != 0)
            .collect();
        v.sort();
        v
    }
    /// exact division in the Laurent polynomial ring (graded-lex leading terms); None when not divisible
    pub fn div_exact(&mut self, a: &[(u32, Coef)], b: &[(u32, Coef)]) -> Option<Vec<(u32, Coef)>> {
        if a.is_empty() {
            return Some(vec![]);
        }
        if b.len() == 1 {
            let im = self.mon_pow(b[0].0, -1);
            let s = self.shift(a, im);
            return Some(self.scale(&s, b[0].1.inv()));
        }
        if a.len() < b.len() || a.len() > 400 || b.len() > 60 {
            if a.len() != b.len() {
                return None;
            }
        }
        // strip Laurent content so that ordinary polynomial division applies
        let (ca, cb) = (self.content_mon(a), self.content_mon(b));
        let (ma, mb) = (self.mon(&ca), self.mon(&cb));
        let (ia, ib) = (self.mon_pow(ma, -1), self.mon_pow(mb, -1));
        let mut r = self.shift(a, ia);
        let d = self.shift(b, ib);
        let dl = self.lead(&d)?;
        let mut q: Vec<(u32, Coef)> = vec![];
        let mut steps = 0;
        while !r.is_empty() {
            steps += 1;
            if steps > 400 {
                return None;
            }
            let rl = self.lead(&r)?;
            let inv = self.mon_pow(dl.0, -1);
            let m = self.mon_mul(rl.0, inv);
            if self.mons[m as usize].iter().any(|x| x.1 < 0) {
                return None;
            }
            let c = rl.1.mul(dl.1.inv());
            q.push((m, c));
            let sub = self.shift(&d, m);
            let sub = self.scale(&sub, c.neg());
            r = self.add(&r, &sub);
            // the leading term must vanish even with inexact coefficients
            r.retain(|x| x.0 != rl.0);
        }
        q.sort_unstable_by_key(|t| t.0);
        let back = self.mon_mul(ma, ib);
        Some(self.shift(&q, back))
    }
    fn key(&self, m: u32) -> (i32, Vec<(u32, i32)>) {
        let v = &self.mons[m as usize];
        (v.iter().map(|x| x.1).sum(), v.iter().map(|x| (u32::MAX - x.0, x.1)).collect())
    }
    /// leading term: graded order, ties broken lexicographically with the smallest atom id dominating
    pub fn lead(&self, p: &[(u32, Coef)]) -> Option<(u32, Coef)> {
        p.iter()
            .max_by(|a, b| {
                let (ka, kb) = (self.key(a.0), self.key(b.0));
                ka.0.cmp(&kb.0).then_with(|| {
                    // lex on exponents, atom by atom
                    let (va, vb) = (&self.mons[a.0 as usize], &self.mons[b.0 as usize]);
                    let (mut i, mut j) = (0, 0);
                    loop {
                        match (va.get(i), vb.get(j)) {
                            (None, None) => return std::cmp::Ordering::Equal,
                            (Some(x), None) => return x.1.cmp(&0),
                            (None, Some(y)) => return 0.cmp(&y.1),
                            (Some(x), Some(y)) => {
                                if x.0 == y.0 {
                                    if x.1 != y.1 {
                                        return x.1.cmp(&y.1);
                                    }
                                    i += 1;
                                    j += 1;
                                } else if x.0 < y.0 {
                                    return x.1.cmp(&0);
                                } else {
                                    return 0.cmp(&y.1);
                                }
                            }
                        }
                    }
                })
            })
            .copied()
    }
    /// square root of a perfect-square polynomial, up to sign
    pub fn sqrt_exact(&mut self, p: &[(u32, Coef)]) -> Option<Vec<(u32, Coef)>> {
        if p.is_empty() {
            return Some(vec![]);
        }
        if p.len() > 120 {
            return None;
        }
        let c = self.content_mon(p);
        if c.iter().any(|x| x.1 % 2 != 0) {
            return None;
        }
        let cm = self.mon(&c);
        let ic = self.mon_pow(cm, -1);
        let p0 = self.shift(p, ic);
        let l = self.lead(&p0)?;
        if l.1.sgn() < 0 || self.mons[l.0 as usize].iter().any(|x| x.1 % 2 != 0) {
            return None;
        }
        let half: Vec<_> = self.mons[l.0 as usize].iter().map(|x| (x.0, x.1 / 2)).collect();
        let hm = self.mon(&half);
        let hc = l.1.sqrt();
        let mut r: Vec<(u32, Coef)> = vec![(hm, hc)];
        let inv = self.mon_pow(hm, -1);
        for _ in 0..40 {
            let sq = self.mul(&r, &r);
            let nsq = self.scale(&sq, Coef::int(-1));
            let rem = self.add(&p0, &nsq);
            if rem.is_empty() {
                let half: Vec<_> = c.iter().map(|x| (x.0, x.1 / 2)).collect();
                let hm = self.mon(&half);
                return Some(self.shift(&r, hm));
            }
            let rl = self.lead(&rem)?;
            let m = self.mon_mul(rl.0, inv);
            if self.mons[m as usize].iter().any(|x| x.1 < 0) || r.iter().any(|x| x.0 == m) {
                return None;
            }
            let k = rl.1.mul(hc.mul(Coef::int(2)).inv());
            r = self.add(&r, &[(m, k)]);
        }
        None
    }
    /// atoms occurring in a polynomial
    pub fn atoms_of(&self, p: &[(u32, Coef)], out: &mut Vec<u32>) {
        for (m, _) in p {
            for (a, _) in self.mons[*m as usize].iter() {
                if !out.contains(a) {
                    out.push(*a);
                }
            }
        }
    }
    pub fn show_poly(&self, p: &[(u32, Coef)]) -> String {
        if p.is_empty() {
            return "0".into();
        }
        let mut s = String::new();
        for (k, (m, c)) in p.iter().enumerate() {
            if k == 12 {
                s += &format!(" + ...({} terms)", p.len());
                break;
            }
            if k > 0 {
                s += " + ";
            }
            s += &match c {
                Coef::Q(n, 1) => format!("{}", n),
                Coef::Q(n, d) => format!("{}/{}", n, d),
                Coef::F(f) => format!("{}", f),
            };
            for (a, e) in self.mons[*m as usize].iter() {
                s += "*";
                s += &match &self.atoms[*a as usize].kind {
                    AtomKind::Var(n, ..) => n.clone(),
                    AtomKind::Sqrt(t) => format!("sqrt(t{})", t),
                    AtomKind::Inv(t) => format!("inv(t{})", t),
                    AtomKind::PrintErr(t) => format!("perr(t{})", t),
                    AtomKind::RoundErr(t) => format!("rerr(t{})", t),
                    AtomKind::Frac(t) => format!("frac(t{})", t),
                    AtomKind::Fun(n, t) => format!("{}(t{})", n, t),
                };
                if *e != 1 {
                    s += &format!("^{}", e);
                }
            }
        }
        s
    }
}
