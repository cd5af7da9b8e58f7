//! shape functions, basis functions over cells and their descendants, quadrature, integrals
use crate::all::util::*;
use crate::hx::*;
use fem_2d::fem_domain::basis::{hierarchical_basis_fns::poly::HierPoly, BasisFnSampler, HierBasisFn, HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::mesh::element::Materials;
use fem_2d::fem_domain::domain::mesh::space::V2D;
use fem_2d::fem_problem::integration::glq::*;
use fem_2d::fem_problem::integration::{HierCurlIntegral, IntegralResult};
use fem_2d::prelude::*;
use std::cell::Cell as StdCell;

pub fn powi(x: R, n: usize) -> R {
    (0..n).fold(c(1.0), |a, _| a * x)
}
/// normal-oriented function and derivatives, from the definition
pub fn nref(n: usize, d: usize, x: R) -> R {
    let mut k = 1.0;
    for t in 0..d {
        k *= n as f64 - t as f64;
    }
    if d > n {
        c(0.0)
    } else {
        c(k) * powi(x, n - d)
    }
}
/// tangential-oriented function and derivatives, from the definition
pub fn tref(n: usize, d: usize, x: R) -> R {
    match (n, d) {
        (0, 0) => c(1.0) - x,
        (0, 1) => c(-1.0),
        (1, 0) => c(1.0) + x,
        (1, 1) => c(1.0),
        (0 | 1, _) => c(0.0),
        (_, 0) => powi(x, n) - if n % 2 == 0 { c(1.0) } else { x },
        (_, 1) => nref(n, 1, x) - if n % 2 == 0 { c(0.0) } else { c(1.0) },
        _ => nref(n, 2, x),
    }
}
pub fn b01() {
    let n_max = choice("n", 21);
    let d2 = choice("d2", 2) == 1;
    let np = pick("np", &[2usize, 3, 1, 9, 24]);
    let pts: Vec<R> = (0..np).map(|k| var(&format!("x{}", k), -1.0, 1.0)).collect();
    let h = HierPoly::with(n_max, &pts, d2);
    for n in 0..=n_max {
        for p in 0..np {
            let x = pts[p];
            check_eq("normal function", h.norm(n, p), nref(n, 0, x));
            check_eq("normal function, first derivative", h.norm_d1(n, p), nref(n, 1, x));
            check_eq("tangential function", h.tang(n, p), tref(n, 0, x));
            check_eq("tangential function, first derivative", h.tang_d1(n, p), tref(n, 1, x));
            if d2 {
                reach("second derivatives");
                check_eq("normal function, second derivative", h.norm_d2(n, p), nref(n, 2, x));
                check_eq("tangential function, second derivative", h.tang_d2(n, p), tref(n, 2, x));
            }
        }
    }
}
/// traces at the ends of the interval
pub fn b01_ends() {
    let n_max = choice("n", 21);
    let h = HierPoly::with(n_max, &[c(-1.0), c(1.0)], choice("d2", 2) == 1);
    for n in 0..=n_max {
        let (a, b) = (h.tang(n, 0), h.tang(n, 1));
        let want = match n {
            0 => (2.0, 0.0),
            1 => (0.0, 2.0),
            _ => (0.0, 0.0),
        };
        check("tangential functions of order two and up vanish at both ends, the first two at one", and(vec![eq(a, c(want.0)), eq(b, c(want.1))]));
    }
    reach("ends");
}

/// root cell grid, one or two refinement levels, one (ancestor, descendant) pair, descendant may be the cell itself
pub struct Pair {
    pub m: Mesh,
    pub a: usize,
    pub d: usize,
    /// half sizes of both cells
    pub ha: [R; 2],
    pub hd: [R; 2],
    /// descendant-local to ancestor-local: U = s u + o
    pub s: [f64; 2],
    pub o: [f64; 2],
}
pub fn pair(depth: usize, kinds: &[HRef]) -> Pair {
    let (mut m, g) = root_any(pick("shape", &[0usize, 1]));
    let mut t = Tree::new(g.cells.len());
    for _ in 0..depth {
        let l = t.leaves();
        // refine the newest leaves: depth rather than breadth
        let e = l[l.len() - 1 - choice("leaf", l.len().min(2))];
        let k = pick("kind", kinds);
        m.execute_h_refinements(vec![(e, k)]).unwrap();
        t.one(e, k);
    }
    let d = t.cells.len() - 1 - choice("desc", if depth == 0 { 1 } else { 3.min(t.cells.len()) });
    let chain = up(&t, d);
    let a = chain[choice("anc", chain.len())];
    make_pair(m, &g, &t, a, d, &(0..t.cells.len()).collect::<Vec<_>>())
}
fn up(t: &Tree, d: usize) -> Vec<usize> {
    let mut chain = vec![d];
    while let Some(p) = t.cells[*chain.last().unwrap()].parent {
        chain.push(p);
    }
    chain
}
/// cells many levels apart
pub fn narrow_pair(depth: usize) -> Pair {
    let (m, g, t) = crate::all::mesh::narrow(depth, &[]);
    let ids = crate::all::mesh::link(&m, &t);
    // the deepest cells: where the chain ends, and beside it
    let deepest = (0..t.cells.len()).max_by_key(|e| t.cells[*e].lev[0] + t.cells[*e].lev[1]).unwrap();
    let group = t.cells[t.cells[deepest].parent.unwrap()].kids.clone();
    let d = group[choice("desc", group.len())];
    let chain = up(&t, d);
    let a = chain[pick("anc", &[chain.len() - 1, chain.len() / 2, 1])];
    make_pair(m, &g, &t, a, d, &ids)
}
fn make_pair(m: Mesh, g: &Grid, t: &Tree, a: usize, d: usize, ids: &[usize]) -> Pair {
    let two = c(2.0);
    let hs = |e: usize| {
        let r = model_rect(g, t, e);
        [(r[0][1] - r[0][0]) / two, (r[1][1] - r[1][0]) / two]
    };
    let (ba, bd) = (t.cells[a].b, t.cells[d].b);
    let mut s = [0.0; 2];
    let mut o = [0.0; 2];
    for k in 0..2 {
        let w = (ba[k][1] - ba[k][0]) as f64;
        s[k] = (bd[k][1] - bd[k][0]) as f64 / w;
        o[k] = ((bd[k][1] + bd[k][0]) as f64 - (ba[k][1] + ba[k][0]) as f64) / w;
    }
    Pair { ha: hs(a), hd: hs(d), m, a: ids[a], d: ids[d], s, o }
}
pub const BK: [HRef; 5] = [HRef::T, HRef::U(None), HRef::V(None), HRef::U(Some(1)), HRef::V(Some(0))];

/// values of a basis function over its own cell and restricted to a descendant
pub fn b02() {
    let p = pair(choice("depth", pick_tier(3, 4)), pick_tier(&BK[..4], &BK[..]));
    b02_pair(p, pick_tier([3usize, 4], [6, 5]));
}
pub fn b02_narrow() {
    b02_pair(narrow_pair(pick("levels", &[10usize, 20])), [3, 2]);
    reach("narrow");
}
fn b02_pair(p: Pair, top: [usize; 2]) {
    let pts = [[var("u0", -1.0, 1.0), var("u1", -1.0, 1.0)], [var("v0", -1.0, 1.0), c(0.25)]];
    let d2 = choice("d2", 2) == 1;
    let over = if p.a == p.d && choice("self", 2) == 0 { None } else { Some(&p.m.elems[p.d]) };
    let f: HierCurlBasisFn<HierPoly> = HierBasisFn::defined_over(&p.m.elems[p.a], over, [&pts[0][..], &pts[1][..]], top, d2);
    if p.a != p.d {
        reach("descendant");
    }
    for m in 0..2 {
        for n in 0..2 {
            let big_u = pts[0][m] * c(p.s[0]) + c(p.o[0]);
            let big_v = pts[1][n] * c(p.s[1]) + c(p.o[1]);
            for i in 0..=top[0] {
                for j in 0..=top[1] {
                    let a = f.f_u([i, j], [m, n]);
                    // the covariant component: value times half the physical width is the reference value
                    check("the first family points along x with the right size", and(vec![eq(a[0] * p.ha[0], nref(i, 0, big_u) * tref(j, 0, big_v)), eq(a[1], c(0.0))]));
                    let b = f.f_v([i, j], [m, n]);
                    check("the second family points along y with the right size", and(vec![eq(b[1] * p.ha[1], tref(i, 0, big_u) * nref(j, 0, big_v)), eq(b[0], c(0.0))]));
                }
            }
            check_eq("area scale of the cell", f.sample_scale([m, n]), p.ha[0] * p.ha[1]);
            check_eq("aspect ratio", f.uv_ratio([m, n]) * p.ha[1], p.ha[0]);
            check_eq("inverse aspect ratio", f.vu_ratio([m, n]) * p.ha[0], p.ha[1]);
            let mx = f.max_uv_ratio([m, n]);
            check("larger of the two aspect ratios", and(vec![ge(mx * p.ha[1], p.ha[0]), ge(mx * p.ha[0], p.ha[1]), or(vec![eq(mx * p.ha[1], p.ha[0]), eq(mx * p.ha[0], p.ha[1])])]));
            let (j, ji) = (f.jac[m][n], f.jac_inv[m][n]);
            check("the mapping and its inverse cancel", and(vec![eq(j.u[0] * ji.u[0], c(1.0)), eq(j.v[1] * ji.v[1], c(1.0)), eq(j.u[1], c(0.0)), eq(j.v[0], c(0.0)), eq(ji.u[1], c(0.0)), eq(ji.v[0], c(0.0))]));
        }
    }
    check("relative size of the sampled part", and(vec![eq(f.u_glq_scale(), c(p.s[0])), eq(f.v_glq_scale(), c(p.s[1])), eq(f.glq_scale(), c(p.s[0] * p.s[1]))]));
    for k in 0..4 {
        check_eq("relative length of the sampled sides", f.edge_glq_scale(k), c(p.s[k / 2]));
    }
    check("derivative scale", and(vec![eq(f.deriv_scale()[0], c(p.s[0])), eq(f.deriv_scale()[1], c(p.s[1]))]));
}
/// the mapping from any part of the reference square to the plane
pub fn b02_mapping() {
    let (mut m, g) = root_any(pick("shape", &[0usize, 4]));
    m.execute_h_refinements(vec![(0, pick("kind", &KINDS3))]).unwrap();
    let (a, b) = (var("a", -1.0, 1.0), var("b", -1.0, 1.0));
    let (p, q) = (var("p", 0.01, 2.0), var("q", 0.01, 2.0));
    for e in &m.elems {
        let j = e.parametric_mapping(V2D::from([var("u", -1.0, 1.0), var("v", -1.0, 1.0)]), [[a, a + p], [b, b + q]]);
        let mut r = e.id;
        while let Some(x) = m.elems[r].parent_id() {
            r = x;
        }
        let (x, y) = g.cells[r];
        let (w, h) = (g.xs[x + 1] - g.xs[x], g.ys[y + 1] - g.ys[y]);
        // half the size of the part
        check("mapping of a part of a root cell", and(vec![eq(j.u[0], w * p / c(4.0)), eq(j.v[1], h * q / c(4.0)), eq(j.u[1], c(0.0)), eq(j.v[0], c(0.0))]));
    }
    reach("mapping");
}
/// first and second derivatives over the cell itself
pub fn b02_deriv() {
    let p = pair(choice("depth", 2), &BK[..3]);
    let pts = [[var("u0", -1.0, 1.0), c(-0.5)], [var("v0", -1.0, 1.0), c(0.25)]];
    let top = [4usize, 3];
    let over = if p.a == p.d { None } else { Some(&p.m.elems[p.d]) };
    let f: HierCurlBasisFn<HierPoly> = HierBasisFn::defined_over(&p.m.elems[p.a], over, [&pts[0][..], &pts[1][..]], top, true);
    if p.a != p.d {
        reach("derivatives over a descendant");
    }
    let s = V2D::from([c(1.0), c(1.0)]);
    let (q, r) = (var("q", 0.01, 1.0), var("r", 0.01, 1.0));
    let (one, two) = (V2D::from([q, q]), V2D::from([q, r]));
    reach("derivatives");
    for m in 0..2 {
        for n in 0..2 {
            let (u, v) = (pts[0][m] * c(p.s[0]) + c(p.o[0]), pts[1][n] * c(p.s[1]) + c(p.o[1]));
            for i in 0..=top[0] {
                for j in 0..=top[1] {
                    let (ij, mn) = ([i, j], [m, n]);
                    // relative to another cell's local coordinates: one factor per derivative
                    let by = |x: V2D, y: V2D, k: R| and(vec![eq(x[0], y[0] * k), eq(x[1], y[1] * k)]);
                    check("derivatives relative to another cell scale once per derivative", and(vec![
                        by(f.f_u_d1(ij, mn, &one), f.f_u_d1(ij, mn, &s), q), by(f.f_u_d2(ij, mn, &one), f.f_u_d2(ij, mn, &s), q * q),
                        by(f.f_v_d1(ij, mn, &one), f.f_v_d1(ij, mn, &s), q), by(f.f_v_d2(ij, mn, &one), f.f_v_d2(ij, mn, &s), q * q),
                        by(f.f_u_dd(ij, mn, &two), f.f_u_dd(ij, mn, &s), q * r), by(f.f_v_dd(ij, mn, &two), f.f_v_dd(ij, mn, &s), q * r),
                    ]));
                    let (a1, a2, aa) = (f.f_u_d1(ij, mn, &s), f.f_u_d2(ij, mn, &s), f.f_u_dd(ij, mn, &s));
                    let (b1, b2, bb) = (f.f_v_d1(ij, mn, &s), f.f_v_d2(ij, mn, &s), f.f_v_dd(ij, mn, &s));
                    check("derivatives of the first family", and(vec![
                        eq(a1[0] * p.ha[0], nref(i, 0, u) * tref(j, 1, v)),
                        eq(a2[0] * p.ha[0], nref(i, 0, u) * tref(j, 2, v)),
                        eq(aa[0] * p.ha[0], nref(i, 1, u) * tref(j, 1, v)),
                        eq(a1[1], c(0.0)), eq(a2[1], c(0.0)), eq(aa[1], c(0.0)),
                    ]));
                    check("derivatives of the second family", and(vec![
                        eq(b1[1] * p.ha[1], tref(i, 1, u) * nref(j, 0, v)),
                        eq(b2[1] * p.ha[1], tref(i, 2, u) * nref(j, 0, v)),
                        eq(bb[1] * p.ha[1], tref(i, 1, u) * nref(j, 1, v)),
                        eq(b1[0], c(0.0)), eq(b2[0], c(0.0)), eq(bb[0], c(0.0)),
                    ]));
                }
            }
        }
    }
}
/// a sampler answers like a fresh evaluation, whatever it was asked before
pub fn b03() {
    let (mut m, _) = root(pick("shape", &[1usize, 4]));
    m.execute_h_refinements(vec![(0, HRef::T)]).unwrap();
    let l = leaves(&m);
    m.execute_h_refinements(vec![(*l.last().unwrap(), pick("kind", &BK))]).unwrap();
    let mut pairs = vec![];
    for d in 0..m.elems.len() {
        pairs.push((d, None));
        for (a, _) in m.elems[d].loc_stack() {
            pairs.push((*a, Some(d)));
        }
    }
    let orders = [2usize, 3];
    let (mut s, w) = BasisFnSampler::<HierCurlBasisFn<HierPoly>>::with(orders[0], orders[1], Some(2), Some(3), choice("d2", 2) == 1);
    let (up, uw) = gauss_quadrature_points(2, s.compute_d2);
    let (vp, vw) = gauss_quadrature_points(3, s.compute_d2);
    for (a, b) in [(&w[0], &uw), (&w[1], &vw)] {
        check_b("weights belong to the requested number of points", a.len() == b.len());
        for (x, y) in a.iter().zip(b.iter()) {
            check_eq("weights are the quadrature weights", *x, *y);
        }
    }
    let mut s2 = s.clone();
    let asked: Vec<(usize, Option<usize>)> = (0..3).map(|k| pairs[(choice("ask", pairs.len().min(pick_tier(9, 40))) * if k == 1 { 2 } else { 1 } + k) % pairs.len()]).collect();
    let deriv = s.compute_d2;
    for (k, (a, d)) in asked.iter().enumerate() {
        let smp = if k == 1 { &mut s2 } else { &mut s };
        same_samples(&m, smp, *a, *d, [&up, &vp], orders, deriv);
    }
}
/// requested and default numbers of points, each direction on its own
pub fn b03_points() {
    let m = Mesh::unit();
    let orders = [pick("i", &[1usize, 2, 3, 5]), pick("j", &[1usize, 2, 4, 6])];
    let ask = [None, Some(1), Some(2), Some(3), Some(4), Some(8), Some(16)];
    let n = [pick("nu", &ask), pick("nv", &ask)];
    let d2 = choice("d2", 2) == 1;
    let (mut s, w) = BasisFnSampler::<HierCurlBasisFn<HierPoly>>::with(orders[0], orders[1], n[0], n[1], d2);
    let mut pts = vec![];
    for k in 0..2 {
        let plain = BasisFnSampler::<HierCurlBasisFn<HierPoly>>::with(orders[k], orders[k], None, None, false).1;
        check_b("a default depends on the order of its direction only", plain[0].len() == plain[1].len());
        let want = n[k].unwrap_or(plain[k].len());
        let (x, v) = gauss_quadrature_points(want, d2);
        check_b("weights belong to the requested number of points, direction by direction", w[k].len() == v.len());
        for (a, b) in w[k].iter().zip(&v) {
            check_eq("weights are the quadrature weights, direction by direction", *a, *b);
        }
        pts.push(x);
    }
    same_samples(&m, &mut s, 0, None, [&pts[0], &pts[1]], orders, d2);
    reach("points");
}
fn same_samples(m: &Mesh, smp: &mut BasisFnSampler<HierCurlBasisFn<HierPoly>>, a: usize, d: Option<usize>, [up, vp]: [&[R]; 2], orders: [usize; 2], deriv: bool) {
    let got = smp.sample_basis_fn(&m.elems[a], d.map(|x| &m.elems[x]));
    let want: HierCurlBasisFn<HierPoly> = HierBasisFn::defined_over(&m.elems[a], d.map(|x| &m.elems[x]), [up, vp], orders, deriv);
    reach("sampled");
    let p = V2D::from([c(0.5), c(3.0)]);
    let same = |x: V2D, y: V2D| and(vec![eq(x[0], y[0]), eq(x[1], y[1])]);
    for mm in 0..up.len() {
        for n in 0..vp.len() {
            for i in 0..=orders[0] {
                for j in 0..=orders[1] {
                    let (ij, mn) = ([i, j], [mm, n]);
                    check("cached samples equal fresh ones", and(vec![same(got.f_u(ij, mn), want.f_u(ij, mn)), same(got.f_v(ij, mn), want.f_v(ij, mn))]));
                    check("cached derivatives equal fresh ones", and(vec![
                        same(got.f_u_d1(ij, mn, &p), want.f_u_d1(ij, mn, &p)), same(got.f_v_d1(ij, mn, &p), want.f_v_d1(ij, mn, &p)),
                        same(got.f_u_dd(ij, mn, &p), want.f_u_dd(ij, mn, &p)), same(got.f_v_dd(ij, mn, &p), want.f_v_dd(ij, mn, &p)),
                    ]));
                    if deriv {
                        check("cached second derivatives equal fresh ones", and(vec![same(got.f_u_d2(ij, mn, &p), want.f_u_d2(ij, mn, &p)), same(got.f_v_d2(ij, mn, &p), want.f_v_d2(ij, mn, &p))]));
                    }
                }
            }
            check("cached cell scales equal fresh ones", and(vec![eq(got.sample_scale([mm, n]), want.sample_scale([mm, n])), eq(got.uv_ratio([mm, n]), want.uv_ratio([mm, n])), eq(got.vu_ratio([mm, n]), want.vu_ratio([mm, n]))]));
        }
    }
    check("cached scales equal fresh ones", and(vec![eq(got.glq_scale(), want.glq_scale()), eq(got.u_glq_scale(), want.u_glq_scale()), eq(got.v_glq_scale(), want.v_glq_scale())]));
}
/// a sampler that has answered for hundreds of pairs of cells
pub fn b03_large() {
    let (m, _, _) = match choice("size", 3) {
        0 => crate::all::mesh::large_with(1, &[], pick_tier(4, 20), 3),
        1 => crate::all::mesh::huge_to(4, &[]),
        _ => crate::all::mesh::narrow(20, &[]),
    };
    let orders = [1usize, 2];
    let (mut s, w) = BasisFnSampler::<HierCurlBasisFn<HierPoly>>::with(orders[0], orders[1], Some(1), Some(2), false);
    let (up, _) = gauss_quadrature_points(w[0].len(), false);
    let (vp, _) = gauss_quadrature_points(w[1].len(), false);
    let mut s2 = s.clone();
    let mut pairs = vec![];
    for d in 0..m.elems.len() {
        pairs.push((d, None));
        for (a, _) in m.elems[d].loc_stack() {
            pairs.push((*a, Some(d)));
        }
    }
    // forwards on the sampler, backwards on its copy, then the first ones again
    for (a, d) in &pairs {
        same_samples(&m, &mut s, *a, *d, [&up, &vp], orders, false);
    }
    for (a, d) in pairs.iter().rev() {
        same_samples(&m, &mut s2, *a, *d, [&up, &vp], orders, false);
    }
    for (a, d) in &pairs {
        same_samples(&m, &mut s, *a, *d, [&up, &vp], orders, false);
    }
    reach("large");
}

// ------------------------------------------------------------------ generic function space: every sample is a free value
thread_local! { static NEXT: StdCell<usize> = const { StdCell::new(0) }; }
pub fn reset_space() {
    NEXT.with(|n| n.set(0));
}
#[derive(Clone, Debug)]
pub struct Free {
    v: [Vec<Vec<R>>; 6],
}
impl HierCurlBasisFnSpace for Free {
    fn with(max_order: usize, points: &[R], _d2: bool) -> Self {
        let id = NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        let f = |k: &str| (0..=max_order).map(|n| (0..points.len()).map(|p| var(&format!("{}{}_{}_{}", k, id, n, p), -2.0, 2.0)).collect()).collect();
        Free { v: [f("n"), f("n1"), f("n2"), f("t"), f("t1"), f("t2")] }
    }
    fn norm(&self, n: usize, p: usize) -> R {
        self.v[0][n][p]
    }
    fn norm_d1(&self, n: usize, p: usize) -> R {
        self.v[1][n][p]
    }
    fn norm_d2(&self, n: usize, p: usize) -> R {
        self.v[2][n][p]
    }
    fn tang(&self, n: usize, p: usize) -> R {
        self.v[3][n][p]
    }
    fn tang_d1(&self, n: usize, p: usize) -> R {
        self.v[4][n][p]
    }
    fn tang_d2(&self, n: usize, p: usize) -> R {
        self.v[5][n][p]
    }
}
fn fv(s: &Free, k: usize, n: usize, p: usize) -> R {
    s.v[k][n][p]
}
/// the two function spaces created for one cell: read back through the public values
struct Known {
    u: Free,
    v: Free,
}
/// rebuild the names the spaces got
fn known(first: usize, top: [usize; 2], np: [usize; 2]) -> Known {
    let f = |id: usize, max: usize, pts: usize| {
        let g = |k: &str| (0..=max).map(|n| (0..pts).map(|p| var(&format!("{}{}_{}_{}", k, id, n, p), -2.0, 2.0)).collect()).collect::<Vec<Vec<R>>>();
        Free { v: [g("n"), g("n1"), g("n2"), g("t"), g("t1"), g("t2")] }
    };
    Known { u: f(first, top[0], np[0]), v: f(first + 1, top[1], np[1]) }
}
fn mats() -> (Materials, R, R) {
    let (er, mr) = (var("er", 0.25, 9.0), var("mr", 0.25, 9.0));
    (Materials::from_array([er, var("ei", -2.0, 2.0), mr, var("mi", -2.0, 2.0)]), er, mr)
}
/// inner product and curl-curl sums over one cell, or over a cell inside an ancestor, for arbitrary sampled functions
fn i_core(which: usize) {
    let p = pair(choice("depth", pick_tier(2, 3)), pick_tier(&BK[..4], &BK[..]));
    i_pair(which, p)
}
pub fn i01_narrow() {
    i_pair(0, narrow_pair(12));
    reach("narrow");
}
pub fn i02_narrow() {
    i_pair(1, narrow_pair(12));
    reach("narrow");
}
fn i_pair(which: usize, p: Pair) {
    reset_space();
    let np = [2usize, 3];
    let top = [1usize, 2];
    let w: [Vec<R>; 2] = [0, 1].map(|k| (0..np[k]).map(|i| var(&format!("w{}_{}", k, i), 0.01, 2.0)).collect());
    let pts: [Vec<R>; 2] = [0, 1].map(|k| (0..np[k]).map(|i| c(-0.5 + 0.5 * i as f64)).collect());
    let (da, db) = (pick("pd", &[BasisDir::U, BasisDir::V]), pick("qd", &[BasisDir::U, BasisDir::V]));
    let fa: HierCurlBasisFn<Free> = HierBasisFn::defined_over(&p.m.elems[p.a], if p.a == p.d { None } else { Some(&p.m.elems[p.d]) }, [&pts[0], &pts[1]], top, false);
    let fd: HierCurlBasisFn<Free> = HierBasisFn::defined_over(&p.m.elems[p.d], None, [&pts[0], &pts[1]], top, false);
    let (ka, kd) = (known(1, top, np), known(3, top, np));
    let (mat, er, mr) = mats();
    let oa = [choice("pi", 2), 2 * choice("pj", 2)];
    let od = [1 - oa[0], 2 - oa[1]];
    // which of the two comes first
    let swap = choice("swap", 2) == 1;
    let (got, want);
    let mut sum = c(0.0);
    // physical components over the cell that is integrated
    let field = |k: &Known, dir: BasisDir, ij: [usize; 2], h: [R; 2], m: usize, n: usize| match dir {
        BasisDir::U => [fv(&k.u, 0, ij[0], m) * fv(&k.v, 3, ij[1], n) / h[0], c(0.0)],
        _ => [c(0.0), fv(&k.u, 3, ij[0], m) * fv(&k.v, 0, ij[1], n) / h[1]],
    };
    let curl = |k: &Known, dir: BasisDir, ij: [usize; 2], h: [R; 2], m: usize, n: usize| match dir {
        BasisDir::U => -(fv(&k.u, 0, ij[0], m) * fv(&k.v, 4, ij[1], n)) / (h[0] * h[1]),
        _ => fv(&k.u, 4, ij[0], m) * fv(&k.v, 0, ij[1], n) / (h[0] * h[1]),
    };
    let det = p.hd[0] * p.hd[1];
    for m in 0..np[0] {
        for n in 0..np[1] {
            let ww = w[0][m] * w[1][n] * det;
            if which == 0 {
                let (a, b) = (field(&ka, da, oa, p.ha, m, n), field(&kd, db, od, p.hd, m, n));
                sum = sum + ww * (a[0] * b[0] + a[1] * b[1]);
            } else {
                sum = sum + ww * curl(&ka, da, oa, p.ha, m, n) * curl(&kd, db, od, p.hd, m, n);
            }
        }
    }
    let run = |a: IntegralResult| match a {
        IntegralResult::Full(x) => x,
        IntegralResult::ByParts(..) => {
            check_b("the direct integral comes in one piece", false);
            c(0.0)
        }
    };
    if which == 0 {
        let i = L2Inner::with_weights(&w[0], &w[1]);
        want = er * sum;
        got = run(if swap { i.integrate(db, da, od, oa, &fd, &fa, &mat) } else { i.integrate(da, db, oa, od, &fa, &fd, &mat) });
    } else {
        let i = CurlCurl::with_weights(&w[0], &w[1]);
        want = sum / mr;
        got = run(if swap { i.integrate(db, da, od, oa, &fd, &fa, &mat) } else { i.integrate(da, db, oa, od, &fa, &fd, &mat) });
    }
    if p.a != p.d {
        reach("inside an ancestor");
    }
    check_eq(if which == 0 { "inner product of two basis functions" } else { "curl-curl product of two basis functions" }, got, want);
    // pieces that do not exist contribute nothing
    let i = CurlCurl::with_weights(&w[0], &w[1]);
    let j = L2Inner::with_weights(&w[0], &w[1]);
    let z = |d: BasisDir, e: BasisDir| and(vec![eq(i.integrate(d, e, oa, od, &fa, &fd, &mat).full_solution(), c(0.0)), eq(j.integrate(d, e, oa, od, &fa, &fd, &mat).full_solution(), c(0.0))]);
    check("the out-of-plane direction contributes nothing", and(vec![z(BasisDir::W, da), z(da, BasisDir::W), z(BasisDir::W, BasisDir::W)]));
}
pub fn i01() {
    i_core(0)
}
pub fn i02() {
    i_core(1)
}
/// integration by parts agrees with the direct integral, in both argument orders
pub fn i03() {
    let p = pair(choice("depth", pick_tier(2, 3)), pick_tier(&BK[..4], &BK[..]));
    let n = pick_tier(5, 7);
    let top = [3usize, 4];
    let (pu, wu) = gauss_quadrature_points(n, true);
    let (pv, wv) = gauss_quadrature_points(n + 1, true);
    let (qu, xu) = gauss_quadrature_points(n, false);
    let (qv, xv) = gauss_quadrature_points(n + 1, false);
    let over = if p.a == p.d { None } else { Some(&p.m.elems[p.d]) };
    let mk = |e: usize, o: Option<&Elem>, a: &[R], b: &[R], d2: bool| -> HierCurlBasisFn<HierPoly> { HierBasisFn::defined_over(&p.m.elems[e], o, [a, b], top, d2) };
    let (fa, fd) = (mk(p.a, over, &pu, &pv, true), mk(p.d, None, &pu, &pv, true));
    let (ga, gd) = (mk(p.a, over, &qu, &qv, false), mk(p.d, None, &qu, &qv, false));
    let (da, db) = (pick("pd", &[BasisDir::U, BasisDir::V]), pick("qd", &[BasisDir::U, BasisDir::V]));
    let (mat, _, _) = mats();
    let oa = [choice("pi", 4), choice("pj", 4)];
    let swap = p.a != p.d && choice("swap", 2) == 1;
    for qi in 0..4 {
        for qj in 0..5 {
            let od = [qi, qj];
            let (d1, d2, i1, i2) = if swap { (db, da, od, oa) } else { (da, db, oa, od) };
            let (x1, x2, y1, y2) = if swap { (&fd, &fa, &gd, &ga) } else { (&fa, &fd, &ga, &gd) };
            let cb = CurlCurl::with_weights(&wu, &wv).integrate_by_parts(d1, d2, i1, i2, x1, x2, &mat).full_solution();
            let cd = CurlCurl::with_weights(&xu, &xv).integrate(d1, d2, i1, i2, y1, y2, &mat).full_solution();
            let lb = L2Inner::with_weights(&wu, &wv).integrate_by_parts(d1, d2, i1, i2, x1, x2, &mat).full_solution();
            let ld = L2Inner::with_weights(&xu, &xv).integrate(d1, d2, i1, i2, y1, y2, &mat).full_solution();
            let tag = if p.a == p.d { "one cell" } else if swap { "descendant first" } else { "ancestor first" };
            reach(tag);
            check_eq(&format!("curl-curl by parts equals the direct integral ({})", tag), cb, cd);
            check_eq(&format!("inner product over interior points equals the direct integral ({})", tag), lb, ld);
        }
    }
}
/// result record
pub fn i03_result() {
    let f = var("face", -9.0, 9.0);
    let e: [R; 4] = [0, 1, 2, 3].map(|k| var(&format!("e{}", k), -9.0, 9.0));
    check_eq("whole from parts", IntegralResult::ByParts(f, e).full_solution(), f + e[0] + e[1] + e[2] + e[3]);
    check_eq("whole from one piece", IntegralResult::Full(f).full_solution(), f);
    let (g, h) = IntegralResult::ByParts(f, e).unwrap_parts();
    check("parts", and(vec![eq(g, f), eq(h[0], e[0]), eq(h[1], e[1]), eq(h[2], e[2]), eq(h[3], e[3])]));
    check_b("one piece has no parts", catch(|| IntegralResult::Full(f).unwrap_parts()).is_err());
    check("face", and(vec![eq(IntegralResult::ByParts(f, e).get_face(), f), eq(IntegralResult::Full(f).get_face(), f)]));
    let (a, b) = (IntegralResult::ByParts(f, e).get_edges(), IntegralResult::Full(f).get_edges());
    check("edges", and((0..4).map(|k| and(vec![eq(a[k], e[k]), eq(b[k], c(0.0))])).collect()));
    reach("record");
}
/// weighted sums
pub fn i04() {
    let k = pick_tier(9, 15);
    let s = choice("counts", k * k + 4);
    let (nu, nv) = if s < k * k { (2 + s / k, 2 + s % k) } else { [(17, 3), (4, 33), (20, 20), (3, 64)][s - k * k] };
    let wu: Vec<R> = (0..nu).map(|k| var(&format!("a{}", k), -2.0, 2.0)).collect();
    let wv: Vec<R> = (0..nv).map(|k| var(&format!("b{}", k), -2.0, 2.0)).collect();
    let f: Vec<Vec<R>> = (0..nu).map(|m| (0..nv).map(|n| var(&format!("f{}_{}", m, n), -3.0, 3.0)).collect()).collect();
    let sum = |us: Vec<usize>, vs: Vec<usize>| {
        let mut s = c(0.0);
        for m in &us {
            for n in &vs {
                s = s + wu[*m] * wv[*n] * f[*m][*n];
            }
        }
        s
    };
    let inner = |n: usize| (1..n - 1).collect::<Vec<usize>>();
    check_eq("weighted sum over all points", real_gauss_quad(&wu, &wv, |m, n| f[m][n]), sum((0..nu).collect(), (0..nv).collect()));
    check_eq("weighted sum over the interior points", real_gauss_quad_inner(&wu, &wv, |m, n| f[m][n]), sum(inner(nu), inner(nv)));
    for e in 0..4 {
        let mut s = c(0.0);
        if e < 2 {
            for m in inner(nu) {
                s = s + wu[m] * f[m][if e == 0 { 0 } else { nv - 1 }];
            }
        } else {
            for n in inner(nv) {
                s = s + wv[n] * f[if e == 2 { 0 } else { nu - 1 }][n];
            }
        }
        check_eq("weighted sum along one side", real_gauss_quad_edge(&wu, &wv, e, |m, n| f[m][n]), s);
    }
    reach("sums");
}
pub fn i04_scale() {
    let n = pick("n", &[1usize, 2, 3, 4, 5, 8, 17, 40]);
    let p: Vec<R> = (0..n).map(|k| var(&format!("p{}", k), -1.0, 1.0)).collect();
    let (lo, hi) = (var("lo", -50.0, 50.0), var("hi", -50.0, 50.0));
    let (s, q) = scale_gauss_quad_points(&p, lo, hi);
    check_b("one scaled point per point", q.len() == n);
    check_eq("scale factor is half the length", s * c(2.0), hi - lo);
    for k in 0..n.min(q.len()) {
        // linear map sending -1 to lo and 1 to hi
        check_eq("points move linearly", c(2.0) * q[k], lo * (c(1.0) - p[k]) + hi * (c(1.0) + p[k]));
    }
    reach("scaled");
}
/// n points integrate every polynomial of degree 2n-1 exactly
pub fn i05() {
    let n = 1 + choice("n", pick_tier(64, 128));
    let ends = choice("ends", 2) == 1;
    let (p, w) = gauss_quadrature_points(n, ends);
    let k = if ends { 1 } else { 0 };
    check_b("number of points", p.len() == n + 2 * k && w.len() == p.len());
    if p.len() != n + 2 * k || w.len() != p.len() {
        return;
    }
    if ends {
        check("both ends are points", and(vec![eq(p[0], c(-1.0)), eq(p[n + 1], c(1.0))]));
    }
    for i in 1..p.len() {
        check("points ascend", lt(p[i - 1], p[i]));
    }
    let deg = 2 * n;
    let co: Vec<R> = (0..deg).map(|d| var(&format!("c{}", d), -1.0, 1.0)).collect();
    let mut q = c(0.0);
    let mut exact = c(0.0);
    for (d, a) in co.iter().enumerate() {
        let mut m = c(0.0);
        for i in k..k + n {
            m = m + w[i] * powi(p[i], d);
        }
        q = q + *a * m;
        if d % 2 == 0 {
            exact = exact + *a * c(2.0 / (d as f64 + 1.0));
        }
    }
    reach("moments");
    check("every polynomial of degree below twice the number of points is integrated exactly", and(vec![le(q - exact, c(1e-9)), ge(q - exact, c(-1e-9))]));
}
/// the default number of points is enough for products of two basis functions
pub fn i05_default() {
    let (a, b) = (1 + choice("i", 20), 1 + choice("j", 20));
    let (_, w) = BasisFnSampler::<HierCurlBasisFn<HierPoly>>::with(a, b, None, None, false);
    // two functions of order n: degree 2n at most, exact from n + 1 points on
    check_b("default grids are fine enough", w[0].len() > a && w[1].len() > b);
    let (_, w) = BasisFnSampler::<HierCurlBasisFn<HierPoly>>::with(a, b, Some(b + 2), Some(a + 3), false);
    check_b("requested grids are used", w[0].len() == b + 2 && w[1].len() == a + 3);
}
