//! Path exploration by re-execution: every branch on a symbolic real is decided by the solver, both feasible sides
//! are explored, and the obligations collected on a path are discharged against its path condition at its end.
use crate::arena::{self, Arena, AtomKind, FxMap, Poly};
use crate::coef::Coef;
use crate::z3::{Ast, Res, Z3};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub const ANY: u8 = 7;

pub fn flip_mask(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}

/// A condition over symbolic values. `S(t, m)`: the sign of term `t` lies in `m`.
#[derive(Clone, Debug)]
pub enum Prop {
    B(bool),
    S(u32, u8),
    And(Vec<Prop>),
    Or(Vec<Prop>),
}
impl Prop {
    pub fn not(&self) -> Prop {
        match self {
            Prop::B(b) => Prop::B(!b),
            Prop::S(t, m) => Prop::S(*t, ANY & !m),
            Prop::And(v) => Prop::Or(v.iter().map(|p| p.not()).collect()),
            Prop::Or(v) => Prop::And(v.iter().map(|p| p.not()).collect()),
        }
    }
}

/// Unwinding payload that ends a path early (infeasible, assumption failed, resource limit).
pub struct PathEnd(pub &'static str);

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub decisions: u64,
    pub forks: u64,
    pub feas_queries: u64,
    pub feas_unknown: u64,
    pub obl_queries: u64,
    pub obligations: u64,
    pub obl_normal_form: u64,
    /// decided by control flow alone on the path
    pub obl_path: u64,
    pub obl_solver: u64,
    pub solver_s: f64,
    pub witness_sat: u64,
    pub reach: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub inconclusive: Vec<String>,
    pub failures: Vec<Failure>,
    pub truncated: bool,
    pub samples: Vec<String>,
    pub max_path_decisions: u64,
}
#[derive(Clone, Debug)]
pub struct Failure {
    pub label: String,
    pub choices: Vec<(String, usize, usize)>,
    pub vars: Vec<(String, f64)>,
    pub how: String,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.paths += o.paths;
        self.infeasible += o.infeasible;
        self.decisions += o.decisions;
        self.forks += o.forks;
        self.feas_queries += o.feas_queries;
        self.feas_unknown += o.feas_unknown;
        self.obl_queries += o.obl_queries;
        self.obligations += o.obligations;
        self.obl_normal_form += o.obl_normal_form;
        self.obl_path += o.obl_path;
        self.obl_solver += o.obl_solver;
        self.solver_s += o.solver_s;
        self.witness_sat += o.witness_sat;
        self.max_path_decisions = self.max_path_decisions.max(o.max_path_decisions);
        for (k, v) in o.reach {
            *self.reach.entry(k).or_default() += v;
        }
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for i in o.inconclusive {
            if self.inconclusive.len() < 20 {
                self.inconclusive.push(i)
            }
        }
        for f in o.failures {
            let n = self.failures.iter().filter(|g| g.label == f.label).count();
            if n < 12 && self.failures.len() < 200 {
                self.failures.push(f)
            }
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s)
            }
        }
        self.truncated |= o.truncated;
    }
}

pub struct Engine {
    z: Z3,
    term_ast: FxMap<u32, Ast>,
    mon_ast: FxMap<u32, Ast>,
    atom_ast: FxMap<u32, Ast>,
    asserted_atoms: Vec<u32>,
    prefix: Vec<u8>,
    pos: usize,
    log: Vec<u8>,
    siblings: Vec<Vec<u8>>,
    facts: FxMap<u32, u8>,
    pc: Vec<Prop>,
    obls: Vec<(String, Prop)>,
    pub choices: Vec<(String, usize, usize)>,
    vars: BTreeMap<String, (u32, f64, f64)>,
    pub ranks: Vec<(u32, u64)>,
    pub st: Stats,
    pub active: bool,
    deadline: Instant,
    rng: u64,
    pub last_panic: Option<String>,
    pub fresh: u64,
}

thread_local!(pub static ENGINE: RefCell<Option<Box<Engine>>> = RefCell::new(None));

pub fn eng<T>(f: impl FnOnce(&mut Engine) -> T) -> T {
    ENGINE.with(|e| f(e.borrow_mut().as_mut().expect("symbolic operation outside an exploration")))
}

fn end(why: &'static str) -> ! {
    std::panic::resume_unwind(Box::new(PathEnd(why)))
}

/// Sign-preserving canonical form: clears negative exponents, divides by factors of known sign and by the leading
/// coefficient. Returns the polynomial and whether signs are flipped.
pub fn canon(a: &mut Arena, p: &[(u32, Coef)]) -> (Vec<(u32, Coef)>, bool) {
    let mut flip = false;
    let c = a.content_mon(p);
    let mut div: Vec<(u32, i32)> = vec![];
    for (at, e) in c {
        let (lo, hi) = a.atom_ival(at);
        if lo > 0.0 {
            div.push((at, e));
        } else if hi < 0.0 {
            div.push((at, e));
            if e % 2 != 0 {
                flip = !flip;
            }
        } else if e < 0 {
            div.push((at, -2 * ((-e + 1) / 2)));
        }
    }
    let m = a.mon(&div);
    let im = a.mon_pow(m, -1);
    let mut q = a.shift(p, im);
    if let Some((_, lc)) = a.lead(&q) {
        if lc.sgn() < 0 {
            flip = !flip;
        }
        q = a.scale(&q, lc.abs().inv());
        if lc.sgn() < 0 {
            q = a.scale(&q, Coef::int(-1));
        }
    }
    (q, flip)
}

fn static_mask(a: &mut Arena, t: u32) -> u8 {
    let (l, h) = a.ival(t);
    let mut m = ANY;
    if l > 0.0 {
        m &= POS
    } else if l >= 0.0 {
        m &= POS | ZERO
    }
    if h < 0.0 {
        m &= NEG
    } else if h <= 0.0 {
        m &= NEG | ZERO
    }
    m
}

impl Engine {
    fn new(deadline: Instant, seed: u64) -> Engine {
        Engine {
            z: Z3::new(3000),
            term_ast: Default::default(),
            mon_ast: Default::default(),
            atom_ast: Default::default(),
            asserted_atoms: vec![],
            prefix: vec![],
            pos: 0,
            log: vec![],
            siblings: vec![],
            facts: Default::default(),
            pc: vec![],
            obls: vec![],
            choices: vec![],
            vars: Default::default(),
            ranks: vec![],
            st: Stats::default(),
            active: false,
            deadline,
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            last_panic: None,
            fresh: 0,
        }
    }
    fn begin(&mut self, prefix: Vec<u8>) {
        SEEDS.with(|s| s.set(0));
        set_schedule(0);
        let big = arena::with(|a| a.terms.len() > 600_000 || a.mons.len() > 1_500_000);
        if big || self.z.made > 1_500_000 {
            self.z = Z3::new(3000);
            self.term_ast.clear();
            self.mon_ast.clear();
            self.atom_ast.clear();
            arena::ARENA.with(|a| *a.borrow_mut() = Arena::new());
        } else {
            self.z.reset();
        }
        self.asserted_atoms.clear();
        self.prefix = prefix;
        self.pos = 0;
        self.log.clear();
        self.siblings.clear();
        self.facts.clear();
        self.pc.clear();
        self.obls.clear();
        self.choices.clear();
        self.vars.clear();
        self.ranks.clear();
        self.last_panic = None;
        self.fresh = 0;
        self.active = true;
    }
    fn rnd(&mut self) -> f64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        (self.rng >> 11) as f64 / (1u64 << 53) as f64
    }

    // ------------------------------------------------------------------ terms -> solver
    fn ast_atom(&mut self, at: u32) -> Ast {
        if let Some(x) = self.atom_ast.get(&at) {
            return *x;
        }
        let name = arena::with(|a| match &a.atoms[at as usize].kind {
            AtomKind::Var(n, ..) => n.clone(),
            _ => format!("!a{}", at),
        });
        let x = self.z.var(&name);
        self.atom_ast.insert(at, x);
        x
    }
    fn ast_mon(&mut self, m: u32) -> Ast {
        if let Some(x) = self.mon_ast.get(&m) {
            return *x;
        }
        let v = arena::with(|a| a.mons[m as usize].clone());
        let mut f = vec![];
        for (at, e) in v.iter() {
            assert!(*e > 0, "negative exponent reached the solver");
            let x = self.ast_atom(*at);
            for _ in 0..*e {
                f.push(x);
            }
        }
        let x = self.z.mul(&f);
        self.mon_ast.insert(m, x);
        x
    }
    fn ast_poly(&mut self, p: &[(u32, Coef)]) -> Ast {
        let mut s = Vec::with_capacity(p.len());
        for (m, c) in p {
            let mut f = vec![];
            if *m == 0 || !matches!(c, Coef::Q(1, 1)) {
                f.push(self.z.num_ast(&c.smt()));
            }
            if *m != 0 {
                f.push(self.ast_mon(*m));
            }
            s.push(self.z.mul(&f));
        }
        self.z.add(&s)
    }
    fn ast_term(&mut self, t: u32) -> Ast {
        if let Some(x) = self.term_ast.get(&t) {
            return *x;
        }
        let p = arena::with(|a| a.p(t));
        let x = self.ast_poly(&p);
        self.term_ast.insert(t, x);
        x
    }
    /// assert the defining axioms of every atom in `t`, once per path
    fn need_atoms(&mut self, t: u32) {
        let mut ats = vec![];
        arena::with(|a| {
            let p = a.p(t);
            a.atoms_of(&p, &mut ats)
        });
        for at in ats {
            self.need_atom(at);
        }
    }
    fn need_atom(&mut self, at: u32) {
        if self.asserted_atoms.contains(&at) {
            return;
        }
        self.asserted_atoms.push(at);
        for ax in self.axioms(at) {
            self.z.assert(ax);
        }
    }
    fn axioms(&mut self, at: u32) -> Vec<Ast> {
        let (kind, lo, hi) = arena::with(|a| {
            let x = &a.atoms[at as usize];
            (x.kind.clone(), x.lo, x.hi)
        });
        let x = self.ast_atom(at);
        let mut out = vec![];
        if lo.is_finite() {
            let l = self.z.num_ast(&Coef::from_f64(lo).smt());
            out.push(self.z.le(l, x));
        }
        if hi.is_finite() {
            let h = self.z.num_ast(&Coef::from_f64(hi).smt());
            out.push(self.z.le(x, h));
        }
        match kind {
            AtomKind::Sqrt(t) => {
                // s*s = t, cleared of denominators
                let p = arena::with(|a| {
                    let s = a.mon(&[(at, 2)]);
                    let q = a.p(t);
                    let nq = a.scale(&q, Coef::int(-1));
                    let q = a.add(&[(s, Coef::ONE)], &nq);
                    let (q, _) = canon(a, &q);
                    a.intern(q)
                });
                self.need_atoms(p);
                let e = self.ast_term(p);
                let z = self.z.num_ast("0");
                out.push(self.z.eq(e, z));
            }
            AtomKind::Inv(t) => {
                let p = arena::with(|a| {
                    let s = a.mon(&[(at, 1)]);
                    let q = a.p(t);
                    let q = a.shift(&q, s);
                    let q = a.add(&q, &[(0, Coef::int(-1))]);
                    let (q, _) = canon(a, &q);
                    a.intern(q)
                });
                self.need_atoms(p);
                let e = self.ast_term(p);
                let z = self.z.num_ast("0");
                out.push(self.z.eq(e, z));
            }
            AtomKind::Frac(t) => {
                // only ever taken of a non-negative value: the integer part is not negative
                self.need_atoms(t);
                let e = self.ast_term(t);
                out.push(self.z.le(x, e));
            }
            AtomKind::RoundErr(t) => {
                // only ever taken of a non-negative value: the result is not negative either
                self.need_atoms(t);
                let e = self.ast_term(t);
                let e = self.z.add(&[e, x]);
                let z = self.z.num_ast("0");
                out.push(self.z.le(z, e));
            }
            _ => (),
        }
        out
    }
    fn ast_sign(&mut self, t: u32, mask: u8) -> Ast {
        let p = self.ast_term(t);
        let z = self.z.num_ast("0");
        match mask & ANY {
            0 => self.z.or(&[]),
            NEG => self.z.lt(p, z),
            ZERO => self.z.eq(p, z),
            3 => self.z.le(p, z),
            POS => self.z.lt(z, p),
            5 => {
                let e = self.z.eq(p, z);
                self.z.not(e)
            }
            6 => self.z.le(z, p),
            _ => self.z.and(&[]),
        }
    }
    fn ast_prop(&mut self, p: &Prop) -> Ast {
        match p {
            Prop::B(true) => self.z.and(&[]),
            Prop::B(false) => self.z.or(&[]),
            Prop::S(t, m) => {
                self.need_atoms(*t);
                self.ast_sign(*t, *m)
            }
            Prop::And(v) => {
                let w: Vec<_> = v.iter().map(|x| self.ast_prop(x)).collect();
                self.z.and(&w)
            }
            Prop::Or(v) => {
                let w: Vec<_> = v.iter().map(|x| self.ast_prop(x)).collect();
                self.z.or(&w)
            }
        }
    }
    /// the property is violated with a margin: equalities by at least `d`, strict/non-strict orders by `d`
    fn ast_viol(&mut self, p: &Prop, d: f64) -> Ast {
        match p {
            Prop::B(b) => {
                if *b {
                    self.z.or(&[])
                } else {
                    self.z.and(&[])
                }
            }
            Prop::S(t, m) => {
                self.need_atoms(*t);
                let x = self.ast_term(*t);
                let dp = self.z.num_ast(&Coef::from_f64(d).smt());
                let dn = self.z.num_ast(&Coef::from_f64(-d).smt());
                let bad = ANY & !m;
                let mut alts = vec![];
                if bad & ZERO != 0 && bad & (POS | NEG) == 0 {
                    return self.ast_sign(*t, ZERO);
                }
                if bad & POS != 0 {
                    alts.push(self.z.le(dp, x));
                }
                if bad & NEG != 0 {
                    alts.push(self.z.le(x, dn));
                }
                let sgn = self.ast_sign(*t, bad);
                let gap = self.z.or(&alts);
                self.z.and(&[sgn, gap])
            }
            Prop::And(v) => {
                let w: Vec<_> = v.iter().map(|x| self.ast_viol(x, d)).collect();
                self.z.or(&w)
            }
            Prop::Or(v) => {
                let w: Vec<_> = v.iter().map(|x| self.ast_viol(x, d)).collect();
                self.z.and(&w)
            }
        }
    }
    fn zcheck(&mut self) -> Res {
        let t = Instant::now();
        let r = self.z.check();
        self.st.solver_s += t.elapsed().as_secs_f64();
        r
    }

    // ------------------------------------------------------------------ decisions
    fn take(&mut self, options: &[usize]) -> usize {
        // options: feasible alternatives; first is followed, the rest are queued
        let pick = options[0];
        for o in &options[1..] {
            let mut s = self.log.clone();
            s.push(*o as u8);
            self.siblings.push(s);
            self.st.forks += 1;
        }
        self.log.push(pick as u8);
        self.st.decisions += 1;
        pick
    }
    fn replayed(&mut self) -> Option<usize> {
        if self.pos < self.prefix.len() {
            let v = self.prefix[self.pos];
            self.pos += 1;
            self.log.push(v);
            Some(v as usize)
        } else {
            self.pos += 1;
            None
        }
    }
    pub fn choice(&mut self, name: &str, n: usize) -> usize {
        assert!(n > 0 && n < 250, "choice {} has {} options", name, n);
        let v = if n == 1 {
            0
        } else {
            match self.replayed() {
                Some(v) => v,
                None => {
                    let o: Vec<usize> = (0..n).collect();
                    self.take(&o)
                }
            }
        };
        self.choices.push((name.to_string(), v, n));
        mirror_choice(name, v, n);
        v
    }
    /// decide which class of signs the polynomial has; `classes` partition {NEG, ZERO, POS}
    pub fn decide(&mut self, p: &[(u32, Coef)], classes: &[u8]) -> usize {
        let which = |s: u8| classes.iter().position(|c| c & s != 0).unwrap();
        if p.is_empty() {
            return which(ZERO);
        }
        if p.len() == 1 && p[0].0 == 0 {
            return which(if p[0].1.sgn() > 0 { POS } else { NEG });
        }
        let (key, flip, stat) = arena::with(|a| {
            let (q, f) = canon(a, p);
            let t = a.intern(q);
            (t, f, static_mask(a, t))
        });
        if arena::with(|a| {
            let p = a.p(key);
            p.len() == 1 && p[0].0 == 0
        }) {
            return which(if flip { NEG } else { POS });
        }
        let cl: Vec<u8> = classes.iter().map(|c| if flip { flip_mask(*c) } else { *c }).collect();
        let cur = stat & self.facts.get(&key).copied().unwrap_or(ANY);
        let cand: Vec<usize> = (0..cl.len()).filter(|i| cl[*i] & cur != 0).collect();
        if cand.len() == 1 {
            return cand[0];
        }
        if cand.is_empty() {
            end("infeasible");
        }
        if Instant::now() > self.deadline {
            self.st.truncated = true;
            end("deadline");
        }
        self.need_atoms(key);
        let pick = match self.replayed() {
            Some(v) => v,
            None => {
                let mut ok = vec![];
                for i in cand {
                    let c = self.ast_sign(key, cl[i] & cur);
                    self.z.push();
                    self.z.assert(c);
                    self.st.feas_queries += 1;
                    let r = self.zcheck();
                    self.z.pop();
                    match r {
                        Res::Sat => ok.push(i),
                        Res::Unknown => {
                            self.st.feas_unknown += 1;
                            ok.push(i)
                        }
                        Res::Unsat => (),
                    }
                }
                if ok.is_empty() {
                    self.st.infeasible += 1;
                    end("infeasible");
                }
                self.take(&ok)
            }
        };
        let m = cl[pick] & cur;
        self.facts.insert(key, m);
        let c = self.ast_sign(key, m);
        self.z.assert(c);
        self.pc.push(Prop::S(key, m));
        pick
    }
    pub fn var(&mut self, name: &str, lo: f64, hi: f64) -> u32 {
        let at = arena::with(|a| a.atom(AtomKind::Var(name.to_string(), lo.to_bits(), hi.to_bits()), lo, hi));
        if let Some((o, ..)) = self.vars.get(name) {
            assert!(*o == at, "variable {} declared twice with different bounds", name);
        }
        self.vars.insert(name.to_string(), (at, lo, hi));
        self.need_atom(at);
        arena::with(|a| {
            let m = a.mon(&[(at, 1)]);
            a.intern(vec![(m, Coef::ONE)])
        })
    }
    /// simplify to canonical sign conditions and constants
    fn simp(&mut self, p: &Prop) -> Prop {
        match p {
            Prop::B(b) => Prop::B(*b),
            Prop::S(t, m) => {
                let (key, flip, stat, konst) = arena::with(|a| {
                    let q = a.p(*t);
                    let (q, f) = canon(a, &q);
                    let k = match q.len() {
                        0 => Some(ZERO),
                        1 if q[0].0 == 0 => Some(if f { NEG } else { POS }),
                        _ => None,
                    };
                    let t = a.intern(q);
                    (t, f, static_mask(a, t), k)
                });
                if let Some(k) = konst {
                    return Prop::B(k & m != 0);
                }
                let m = if flip { flip_mask(*m) } else { *m };
                let cur = stat & self.facts.get(&key).copied().unwrap_or(ANY);
                if cur & m == 0 {
                    return Prop::B(false);
                }
                if cur & !m == 0 {
                    return Prop::B(true);
                }
                Prop::S(key, m)
            }
            Prop::And(v) => {
                let mut o = vec![];
                for x in v {
                    match self.simp(x) {
                        Prop::B(true) => (),
                        Prop::B(false) => return Prop::B(false),
                        y => o.push(y),
                    }
                }
                if o.is_empty() {
                    Prop::B(true)
                } else {
                    Prop::And(o)
                }
            }
            Prop::Or(v) => {
                let mut o = vec![];
                for x in v {
                    match self.simp(x) {
                        Prop::B(false) => (),
                        Prop::B(true) => return Prop::B(true),
                        y => o.push(y),
                    }
                }
                if o.is_empty() {
                    Prop::B(false)
                } else {
                    Prop::Or(o)
                }
            }
        }
    }
    pub fn assume(&mut self, p: &Prop) {
        match self.simp(p) {
            Prop::B(true) => (),
            Prop::B(false) => end("assumption"),
            q => {
                let a = self.ast_prop(&q);
                self.z.assert(a);
                if let Prop::S(k, m) = q {
                    let cur = self.facts.get(&k).copied().unwrap_or(ANY);
                    self.facts.insert(k, cur & m);
                }
                self.pc.push(q);
                if self.replayed().is_none() {
                    self.st.feas_queries += 1;
                    if self.zcheck() == Res::Unsat {
                        end("assumption");
                    }
                    self.take(&[0]);
                }
            }
        }
    }
    pub fn check(&mut self, label: &str, p: &Prop) {
        self.st.obligations += 1;
        *self.st.labels.entry(label.to_string()).or_default() += 1;
        if let Prop::B(true) = p {
            self.st.obl_path += 1;
            return;
        }
        match self.simp(p) {
            Prop::B(true) => self.st.obl_normal_form += 1,
            q => self.obls.push((label.to_string(), q)),
        }
    }
    pub fn reach(&mut self, label: &str) {
        *self.st.reach.entry(label.to_string()).or_default() += 1;
    }

    // ------------------------------------------------------------------ end of a path
    fn assignment(&mut self, vals: &[f64]) -> Vec<(String, f64)> {
        self.vars.iter().zip(vals).map(|((n, (_, lo, hi)), v)| (n.clone(), if v.is_nan() { *lo } else { v.clamp(*lo, *hi) })).collect()
    }
    fn model(&mut self) -> Vec<(String, f64)> {
        let ats: Vec<u32> = self.vars.values().map(|v| v.0).collect();
        let asts: Vec<Ast> = ats.iter().map(|a| self.ast_atom(*a)).collect();
        let v = self.z.model(&asts);
        self.assignment(&v)
    }
    fn fail(&mut self, label: String, vars: Vec<(String, f64)>, how: &str) {
        let n = self.st.failures.iter().filter(|g| g.label == label).count();
        if n < 6 {
            let f = Failure { label, choices: self.choices.clone(), vars, how: how.to_string() };
            self.st.failures.push(f);
        }
    }
    fn discharge(&mut self) {
        let obls = std::mem::take(&mut self.obls);
        // vacuity witness: the path condition itself must be satisfiable
        if obls.is_empty() {
            self.st.obl_queries += 1;
            match self.zcheck() {
                Res::Sat => {
                    self.st.witness_sat += 1;
                    self.sample();
                }
                Res::Unsat => self.st.infeasible += 1,
                Res::Unknown => self.st.feas_unknown += 1,
            }
            return;
        }
        let bad: Vec<Ast> = obls.iter().map(|(_, p)| self.ast_prop(&p.not())).collect();
        let any = self.z.or(&bad);
        self.z.push();
        self.z.assert(any);
        self.st.obl_queries += 1;
        let r = self.zcheck();
        self.z.pop();
        if r == Res::Unsat {
            self.st.obl_solver += obls.len() as u64;
            self.st.obl_queries += 1;
            match self.zcheck() {
                Res::Sat => {
                    self.st.witness_sat += 1;
                    self.sample();
                }
                Res::Unsat => self.st.infeasible += 1,
                Res::Unknown => self.st.feas_unknown += 1,
            }
            return;
        }
        for (k, (label, p)) in obls.iter().enumerate() {
            if self.st.failures.iter().filter(|g| g.label == *label).count() >= 6 {
                continue;
            }
            self.one(label, p, bad[k]);
        }
    }
    fn sample(&mut self) {
        if self.st.samples.len() < 3 {
            let m = self.model();
            let s = format!(
                "choices [{}] witness {}",
                self.choices.iter().map(|c| format!("{}={}/{}", c.0, c.1, c.2)).collect::<Vec<_>>().join(" "),
                m.iter().map(|(n, v)| format!("{}={:.6}", n, v)).collect::<Vec<_>>().join(" ")
            );
            self.st.samples.push(s);
        }
    }
    fn one(&mut self, label: &str, p: &Prop, neg: Ast) {
        // the solver only bounds rounding errors: where they matter, a witness with true rounding comes first
        if self.rounds(p) {
            if let Some(m) = self.search(p, (1u64 << 30) as f64) {
                self.fail(label.to_string(), m, "numeric witness for a query over rounded values");
                return;
            }
        }
        // a witness with a visible margin is preferred, so that it survives floating-point replay
        let mut verdict = Res::Unknown;
        for d in [1e-1, 1e-3, 1e-6, 0.0] {
            let v = if d == 0.0 { neg } else { self.ast_viol(p, d) };
            self.z.push();
            self.z.assert(v);
            self.st.obl_queries += 1;
            let r = self.zcheck();
            if r == Res::Sat {
                let m = self.model();
                self.z.pop();
                self.fail(label.to_string(), m, &format!("solver model (margin {})", d));
                return;
            }
            self.z.pop();
            if d == 0.0 {
                verdict = r;
            } else if r == Res::Unknown {
                // fall through to the other procedures rather than burning the timeout on every margin
                verdict = r;
                break;
            }
        }
        if verdict == Res::Unsat {
            self.st.obl_solver += 1;
            return;
        }
        // numeric search for a witness (only ever used to find a counterexample, never to pass)
        if let Some(m) = self.search(p, 64.0) {
            self.fail(label.to_string(), m, "numeric witness for a query the solver left open");
            return;
        }
        // nlsat over the whole path condition
        let mut asserts: Vec<Ast> = vec![];
        let ats = self.asserted_atoms.clone();
        for a in ats {
            asserts.extend(self.axioms(a));
        }
        let pcs = self.pc.clone();
        for q in pcs.iter() {
            asserts.push(self.ast_prop(q));
        }
        asserts.push(neg);
        let vats: Vec<u32> = self.vars.values().map(|v| v.0).collect();
        let vals: Vec<Ast> = vats.iter().map(|a| self.ast_atom(*a)).collect();
        let t = Instant::now();
        let (r, vs) = self.z.check_nlsat(&asserts, &vals, 15000);
        self.st.solver_s += t.elapsed().as_secs_f64();
        self.st.obl_queries += 1;
        match r {
            Res::Unsat => self.st.obl_solver += 1,
            Res::Sat => {
                let m = self.assignment(&vs);
                self.fail(label.to_string(), m, "nlsat model");
            }
            Res::Unknown => {
                if self.st.inconclusive.len() < 20 {
                    let txt = arena::with(|a| match p {
                        Prop::S(t, m) => format!("{} mask {}", a.show_poly(&a.p(*t)), m),
                        _ => format!("{:?}", p),
                    });
                    self.st.inconclusive.push(format!("{}: {}", label, txt));
                }
            }
        }
    }
    fn eval_atoms(&mut self, given: &FxMap<u32, f64>) -> Vec<f64> {
        arena::with(|a| {
            let mut v = vec![f64::NAN; a.atoms.len()];
            for i in 0..a.atoms.len() {
                v[i] = match a.atoms[i].kind.clone() {
                    AtomKind::Var(..) => given.get(&(i as u32)).copied().unwrap_or(f64::NAN),
                    AtomKind::Sqrt(t) => a.eval_poly(&a.p(t), &v).sqrt(),
                    AtomKind::Inv(t) => 1.0 / a.eval_poly(&a.p(t), &v),
                    AtomKind::RoundErr(t) | AtomKind::PrintErr(t) => {
                        let z = a.eval_poly(&a.p(t), &v);
                        z.round() - z
                    }
                    AtomKind::Frac(t) => a.eval_poly(&a.p(t), &v).fract(),
                    AtomKind::Fun(..) => f64::NAN,
                };
            }
            v
        })
    }
    fn eval_prop(&self, p: &Prop, v: &[f64], margin: f64) -> Option<bool> {
        match p {
            Prop::B(b) => Some(*b),
            Prop::S(t, m) => {
                let (x, sc) = arena::with(|a| {
                    let q: Poly = a.p(*t);
                    let x = a.eval_poly(&q, v);
                    let sc: f64 = q.iter().map(|mc| a.eval_poly(&[*mc], v).abs()).sum();
                    (x, sc)
                });
                if x.is_nan() {
                    return None;
                }
                let s = if x > margin * sc {
                    POS
                } else if x < -margin * sc {
                    NEG
                } else {
                    ZERO
                };
                Some(s & m != 0)
            }
            Prop::And(w) => {
                for x in w {
                    if !self.eval_prop(x, v, margin)? {
                        return Some(false);
                    }
                }
                Some(true)
            }
            Prop::Or(w) => {
                for x in w {
                    if self.eval_prop(x, v, margin)? {
                        return Some(true);
                    }
                }
                Some(false)
            }
        }
    }
    fn rounds(&self, p: &Prop) -> bool {
        match p {
            Prop::B(_) => false,
            Prop::S(t, _) => arena::with(|a| {
                let mut v = vec![];
                a.atoms_of(&a.p(*t), &mut v);
                v.iter().any(|x| matches!(a.atoms[*x as usize].kind, AtomKind::RoundErr(_) | AtomKind::PrintErr(_)))
            }),
            Prop::And(v) | Prop::Or(v) => v.iter().any(|q| self.rounds(q)),
        }
    }
    fn search(&mut self, p: &Prop, grid: f64) -> Option<Vec<(String, f64)>> {
        let vars: Vec<(u32, f64, f64)> = self.vars.values().cloned().collect();
        let pcs = self.pc.clone();
        for _ in 0..400 {
            let mut g = FxMap::default();
            for (at, lo, hi) in &vars {
                let r = self.rnd();
                let x = lo + (hi - lo) * if self.rng & 3 == 0 { r * r * r } else { r };
                // short binary fractions reproduce exactly
                let x = (x * grid).round() / grid;
                g.insert(*at, x.clamp(*lo, *hi));
            }
            let v = self.eval_atoms(&g);
            if pcs.iter().all(|q| self.eval_prop(q, &v, 1e-12) == Some(true)) && self.eval_prop(p, &v, 1e-9) == Some(false) {
                let vals: Vec<f64> = vars.iter().map(|x| g[&x.0]).collect();
                return Some(self.assignment(&vals));
            }
        }
        None
    }
}

/// Limits of one exploration.
#[derive(Clone)]
pub struct Limits {
    pub seconds: f64,
    pub max_paths: u64,
    pub threads: usize,
    pub seed: u64,
}

struct Queue {
    items: Vec<Vec<u8>>,
    busy: usize,
    done_paths: u64,
    stop: bool,
}

/// Run `body` on every feasible path.
pub fn explore(lim: &Limits, body: &(dyn Fn() + Sync)) -> Stats {
    let q = Arc::new((Mutex::new(Queue { items: vec![vec![]], busy: 0, done_paths: 0, stop: false }), Condvar::new()));
    let total = Mutex::new(Stats::default());
    let deadline = Instant::now() + Duration::from_secs_f64(lim.seconds);
    install_hook();
    std::thread::scope(|s| {
        for th in 0..lim.threads.max(1) {
            let q = q.clone();
            let total = &total;
            let lim = lim.clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    ENGINE.with(|e| *e.borrow_mut() = Some(Box::new(Engine::new(deadline, lim.seed + th as u64))));
                    mirror_open();
                    loop {
                        let item = {
                            let (m, c) = &*q;
                            let mut g = m.lock().unwrap();
                            loop {
                                if g.stop {
                                    break None;
                                }
                                if let Some(i) = g.items.pop() {
                                    g.busy += 1;
                                    break Some(i);
                                }
                                if g.busy == 0 {
                                    break None;
                                }
                                g = c.wait(g).unwrap();
                            }
                        };
                        let Some(prefix) = item else {
                            q.1.notify_all();
                            break;
                        };
                        let sib = run_path(prefix, body);
                        let (m, c) = &*q;
                        let mut g = m.lock().unwrap();
                        g.busy -= 1;
                        g.done_paths += 1;
                        g.items.extend(sib.into_iter().rev());
                        if (Instant::now() > deadline || g.done_paths >= lim.max_paths) && !(g.items.is_empty() && g.busy == 0) {
                            g.stop = true;
                            eng(|e| e.st.truncated = true);
                        }
                        // enough failing paths: stop early
                        if eng(|e| e.st.failures.len() >= 40) {
                            g.stop = true;
                        }
                        drop(g);
                        c.notify_all();
                    }
                    let st = eng(|e| std::mem::take(&mut e.st));
                    total.lock().unwrap().merge(st);
                    ENGINE.with(|e| *e.borrow_mut() = None);
                })
                .unwrap();
        }
    });
    total.into_inner().unwrap()
}

// ------------------------------------------------------------------ trace of unfinished paths
// The enumerated inputs of the path every thread is on are mirrored to HX_SCRATCH/cur.*, so that a path that crashes
// the process, never ends or exhausts memory can still be replayed.
static STARTED: [std::sync::atomic::AtomicU64; 64] = [const { std::sync::atomic::AtomicU64::new(0) }; 64];
static SLOT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
thread_local! { static MIRROR: RefCell<Option<(usize, std::fs::File)>> = const { RefCell::new(None) }; }
fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}
fn mirror_open() {
    let k = SLOT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    if let Ok(d) = std::env::var("HX_SCRATCH") {
        if let Ok(f) = std::fs::File::create(format!("{}/cur.{}", d, k % 64)) {
            MIRROR.with(|m| *m.borrow_mut() = Some((k % 64, f)));
        }
    }
}
fn mirror_begin() {
    use std::io::Seek;
    MIRROR.with(|m| {
        if let Some((k, f)) = m.borrow_mut().as_mut() {
            let _ = f.set_len(0);
            let _ = f.rewind();
            STARTED[*k].store(now_ms(), std::sync::atomic::Ordering::SeqCst);
        }
    })
}
fn mirror_end() {
    MIRROR.with(|m| {
        if let Some((k, f)) = m.borrow_mut().as_mut() {
            let _ = f.set_len(0);
            STARTED[*k].store(0, std::sync::atomic::Ordering::SeqCst);
        }
    })
}
fn mirror_choice(name: &str, v: usize, n: usize) {
    use std::io::Write;
    MIRROR.with(|m| {
        if let Some((_, f)) = m.borrow_mut().as_mut() {
            let _ = f.write_all(format!("{}\t{}\t{}\n", name, v, n).as_bytes());
        }
    })
}
/// ends the process (status 97) when one path runs for longer than `secs` or memory use passes `max_mb`
pub fn watchdog(secs: u64, max_mb: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = now_ms();
        let late = STARTED.iter().any(|s| {
            let t = s.load(std::sync::atomic::Ordering::SeqCst);
            t != 0 && now > t + secs * 1000
        });
        let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) / 256;
        if late || rss > max_mb {
            eprintln!("WATCHDOG: {}", if late { format!("a path did not end within {} s", secs) } else { format!("{} MB in use", rss) });
            std::process::exit(97);
        }
    });
}

fn run_path(prefix: Vec<u8>, body: &(dyn Fn() + Sync)) -> Vec<Vec<u8>> {
    eng(|e| e.begin(prefix));
    mirror_begin();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body()));
    let sib = eng(|e| {
        e.active = false;
        let mut ok = true;
        if let Err(pl) = r {
            match pl.downcast_ref::<PathEnd>() {
                Some(PathEnd(why)) => {
                    if *why == "deadline" {
                        ok = false;
                    }
                    if *why == "assumption" || *why == "infeasible" {
                        e.st.infeasible += 1;
                        // obligations collected before the assumption are still owed
                        if e.obls.is_empty() {
                            ok = false;
                        }
                    }
                }
                None => {
                    let msg = e.last_panic.take().unwrap_or_else(|| "panic".into());
                    e.st.obligations += 1;
                    e.obls.push((format!("no-panic: {}", msg), Prop::B(false)));
                }
            }
        }
        if ok {
            e.st.paths += 1;
            e.st.max_path_decisions = e.st.max_path_decisions.max(e.log.len() as u64);
            e.discharge();
        }
        std::mem::take(&mut e.siblings)
    });
    mirror_end();
    sib
}

fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let mut inside = false;
            let _ = ENGINE.try_with(|e| {
                if let Ok(mut g) = e.try_borrow_mut() {
                    if let Some(en) = g.as_mut() {
                        en.last_panic = Some(format!("{} @ {}", msg.lines().next().unwrap_or(""), loc));
                        inside = true;
                    }
                }
            });
            if !inside || std::env::var_os("SYM_PANIC").is_some() {
                old(info);
            }
        }));
    });
}

thread_local!(static SCHED: std::cell::Cell<u8> = std::cell::Cell::new(0));
thread_local!(static SEEDS: std::cell::Cell<u32> = std::cell::Cell::new(0));
/// seed of the next hash container on this path
pub fn next_seed() -> u32 {
    SEEDS.with(|s| {
        s.set(s.get() + 1);
        s.get()
    })
}
/// 0: task order as given; 1: order is an explored choice
pub fn set_schedule(m: u8) {
    SCHED.with(|s| s.set(m));
}
/// order in which `n` parallel tasks run
pub fn schedule(n: usize) -> Vec<usize> {
    let id: Vec<usize> = (0..n).collect();
    if SCHED.with(|s| s.get()) == 0 || n < 2 {
        return id;
    }
    if n <= 4 {
        // every permutation, as successive choices
        let mut left = id;
        let mut out = vec![];
        while left.len() > 1 {
            let k = eng(|e| e.choice("schedule", left.len()));
            out.push(left.remove(k));
        }
        out.push(left[0]);
        return out;
    }
    match eng(|e| e.choice("schedule", 4)) {
        0 => id,
        1 => id.into_iter().rev().collect(),
        2 => id.iter().cloned().filter(|x| x % 2 == 1).chain(id.iter().cloned().filter(|x| x % 2 == 0)).collect(),
        _ => id.iter().cloned().skip(n / 2).chain(id.iter().cloned().take(n / 2)).collect(),
    }
}
