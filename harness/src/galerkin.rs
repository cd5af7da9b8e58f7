//! filling of the two system matrices
use crate::all::util::*;
use crate::all::basis::BK;
use crate::hx::*;
use fem_2d::fem_domain::domain::dof::basis_spec::{BSAddress, BasisDir, BasisSpec};
use fem_2d::prelude::*;
use std::collections::BTreeMap;

// exact one-dimensional integrals of products of the shape functions, with plain polynomial arithmetic
type P1 = Vec<f64>;
fn pmul(a: &P1, b: &P1) -> P1 {
    let mut r = vec![0.0; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += x * y;
        }
    }
    r
}
/// p(s u + o)
fn pshift(p: &P1, s: f64, o: f64) -> P1 {
    let mut r = vec![0.0];
    for k in p.iter().rev() {
        r = pmul(&r, &vec![o, s]);
        r[0] += k;
    }
    r
}
fn pint(p: &P1) -> f64 {
    p.iter().enumerate().map(|(d, k)| if d % 2 == 0 { 2.0 * k / (d as f64 + 1.0) } else { 0.0 }).sum()
}
fn deriv(p: &P1) -> P1 {
    if p.len() <= 1 {
        return vec![0.0];
    }
    p.iter().enumerate().skip(1).map(|(d, k)| d as f64 * k).collect()
}
fn pnorm(n: usize) -> P1 {
    let mut v = vec![0.0; n + 1];
    v[n] = 1.0;
    v
}
fn ptang(n: usize) -> P1 {
    match n {
        0 => vec![1.0, -1.0],
        1 => vec![1.0, 1.0],
        _ => {
            let mut v = pnorm(n);
            v[n % 2] -= 1.0;
            v
        }
    }
}
/// everything the oracle needs about one basis function
#[derive(Clone)]
struct Fun {
    e: usize,
    udir: bool,
    i: usize,
    j: usize,
}
pub struct Sys {
    pub d: Domain,
    pub g: Grid,
    pub t: Tree,
    /// mesh id of every model cell
    pub id: Vec<usize>,
    pub mats: Vec<[R; 4]>,
}
impl Sys {
    /// (inner product, curl-curl) of two basis functions; zero when their cells do not overlap
    fn pair(&self, a: &Fun, b: &Fun) -> Option<[R; 2]> {
        let (c_, d_) = if a.e == b.e || self.t.is_anc(a.e, b.e) {
            (a, b)
        } else if self.t.is_anc(b.e, a.e) {
            (b, a)
        } else {
            return None;
        };
        let (bc, bd) = (self.t.cells[c_.e].b, self.t.cells[d_.e].b);
        let mut s = [0.0; 2];
        let mut o = [0.0; 2];
        for k in 0..2 {
            let w = (bc[k][1] - bc[k][0]) as f64;
            s[k] = (bd[k][1] - bd[k][0]) as f64 / w;
            o[k] = ((bd[k][1] + bd[k][0]) as f64 - (bc[k][1] + bc[k][0]) as f64) / w;
        }
        let half = |e: usize| {
            let r = model_rect(&self.g, &self.t, e);
            [(r[0][1] - r[0][0]) / c(2.0), (r[1][1] - r[1][0]) / c(2.0)]
        };
        let (hc, hd) = (half(c_.e), half(d_.e));
        let root = self.t.cells[d_.e].root;
        let m = self.mats[root % self.mats.len()];
        // value factors along u and v
        let val = |f: &Fun| if f.udir { [pnorm(f.i), ptang(f.j)] } else { [ptang(f.i), pnorm(f.j)] };
        let crl = |f: &Fun| if f.udir { [pnorm(f.i), deriv(&ptang(f.j))] } else { [deriv(&ptang(f.i)), pnorm(f.j)] };
        let integ = |p: [P1; 2], q: [P1; 2]| -> f64 { (0..2).map(|k| pint(&pmul(&pshift(&p[k], s[k], o[k]), &q[k]))).product() };
        let det = hd[0] * hd[1];
        let l2 = if c_.udir == d_.udir {
            let k = if c_.udir { 0 } else { 1 };
            m[0] * c(integ(val(c_), val(d_))) * det / (hc[k] * hd[k])
        } else {
            c(0.0)
        };
        let sg = if c_.udir == d_.udir { 1.0 } else { -1.0 };
        let cc = c(sg * integ(crl(c_), crl(d_))) * det / (hc[0] * hc[1] * hd[0] * hd[1]) / m[2];
        Some([l2, cc])
    }
}
pub fn system(shapes: &[usize], depth: usize, kinds: &[HRef], os: &[[u8; 2]]) -> Sys {
    let s = pick("shape", shapes);
    let mut g = grid_at(s, choice("place", if depth < 2 { PLACES } else { 1 }));
    let n = g.cells.len();
    let mats: Vec<[R; 4]> = (0..n.min(3)).map(|k| [var(&format!("er{}", k), 0.25, 9.0), var(&format!("ei{}", k), -2.0, 2.0), var(&format!("mr{}", k), 0.25, 9.0), var(&format!("mi{}", k), -2.0, 2.0)]).collect();
    let mut m = build(&mut g, &mats);
    let mut t = Tree::new(n);
    crate::all::mesh::grow(&mut m, &mut t, depth, kinds);
    let id = crate::all::mesh::link(&m, &t);
    let ne = m.elems.len();
    let base = pick("orders", os);
    let other = pick("orders2", os);
    let ats: std::collections::BTreeSet<usize> = [0, ne / 2, ne - 1].into_iter().take(pick_tier(2, 3)).chain([ne - 1]).collect();
    let at = pick("at", &ats.into_iter().collect::<Vec<_>>());
    for e in 0..ne {
        put_orders(&mut m, e, if e == at { other } else { base });
    }
    Sys { d: Domain::from_mesh(m, ContinuityCondition::HCurl), g, t, id, mats }
}
fn funs(s: &Sys) -> Vec<Vec<Fun>> {
    let back: BTreeMap<usize, usize> = s.id.iter().enumerate().map(|(k, v)| (*v, k)).collect();
    s.d.dofs
        .iter()
        .map(|f| {
            f.get_basis_specs()
                .iter()
                .map(|a| {
                    let b: &BasisSpec = s.d.get_basis_spec(BSAddress::new(a.elem_id, a.elem_idx)).unwrap();
                    Fun { e: back[&b.elem_id], udir: b.dir == BasisDir::U, i: b.i as usize, j: b.j as usize }
                })
                .collect()
        })
        .collect()
}
fn entries(m: &fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix, n: usize) -> BTreeMap<[usize; 2], R> {
    let mut r = BTreeMap::new();
    for (rc, v) in m.iter_upper_tri() {
        check_b("entries lie in the upper triangle", rc[0] <= rc[1] && rc[1] < n);
        check_b("one entry per position", r.insert(rc, v).is_none());
    }
    r
}
/// both matrices against the exact integrals, every pair of degrees of freedom
fn compare(s: &Sys, glq: Option<[usize; 2]>, swap: bool) {
    let r = if swap { galerkin_sample_gep_hcurl::<HierPoly, L2Inner, CurlCurl>(&s.d, glq) } else { galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&s.d, glq) };
    let gep = match r {
        Ok(g) => g,
        Err(_) => {
            check_b("sampling succeeds on a domain with degrees of freedom", false);
            return;
        }
    };
    let n = s.d.dofs.len();
    check_b("matrix sizes", gep.a.dimension == n && gep.b.dimension == n);
    let (a, b) = (entries(&gep.a, n), entries(&gep.b, n));
    let (a, b) = if swap { (b, a) } else { (a, b) };
    let fs = funs(s);
    for i in 0..n {
        for j in i..n {
            let mut l2 = c(0.0);
            let mut cc = c(0.0);
            let mut touch = false;
            let mut add = |x: &Fun, y: &Fun, k: f64| {
                if let Some([p, q]) = s.pair(x, y) {
                    touch = true;
                    l2 = l2 + c(k) * p;
                    cc = cc + c(k) * q;
                }
            };
            for (x, f) in fs[i].iter().enumerate() {
                for (y, h) in fs[j].iter().enumerate() {
                    if i != j {
                        add(f, h, 1.0);
                    } else if x <= y {
                        add(f, h, if x == y { 1.0 } else { 2.0 });
                    }
                }
            }
            let z = c(0.0);
            let (ga, gb) = (*a.get(&[i, j]).unwrap_or(&z), *b.get(&[i, j]).unwrap_or(&z));
            if touch {
                check_eq("curl-curl matrix entry", ga, cc);
                check_eq("inner-product matrix entry", gb, l2);
            } else {
                check("degrees of freedom without common support do not couple", and(vec![eq(ga, z), eq(gb, z)]));
            }
        }
    }
    reach("compared");
}
pub fn g01() {
    let depth = choice("depth", 3);
    let s = system(pick_tier(&[0usize, 1][..], &[0, 1, 2, 4][..]), depth, pick_tier(if depth < 2 { &BK[..] } else { &KINDS3[..2] }, &BK[..]), pick_tier(&[[1, 2], [3, 2]][..], &[[1, 2], [3, 2], [2, 4]][..]));
    if s.d.dofs.is_empty() {
        return;
    }
    // enough points for every product, counted per direction
    let [i, j] = s.d.mesh.max_expansion_orders();
    let g = [None, Some([(i as usize + 1).max(4), (j as usize + 2).max(4)])];
    let k = choice("points", 2);
    compare(&s, g[k], k == 1);
}
/// deeper, one chain of refinements
pub fn g01_chain() {
    let s = system(&[1], pick_tier(3, 4), pick_tier(&[HRef::V(None), HRef::U(Some(1))], &[HRef::T, HRef::U(Some(1))]), &[[2, 1]]);
    compare(&s, None, false);
}
/// many cells with many materials
pub fn g01_large() {
    let mats: Vec<[R; 4]> = (0..3).map(|k| [var(&format!("er{}", k), 0.25, 9.0), c(0.0), var(&format!("mr{}", k), 0.25, 9.0), c(0.0)]).collect();
    let huge = choice("huge", 2) == 1;
    let (mut m, g, t) = if huge { crate::all::mesh::huge_to(4, &mats) } else { crate::all::mesh::large_with(1 + choice("first", pick_tier(2, 3)), &mats, pick_tier(6, 20), 1) };
    let id = crate::all::mesh::link(&m, &t);
    if id.is_empty() {
        return;
    }
    for e in 0..m.elems.len() {
        put_orders(&mut m, e, [1 + (e % 3 == 1) as u8, 1 + (e % 5 == 2) as u8]);
    }
    let s = Sys { d: Domain::from_mesh(m, ContinuityCondition::HCurl), g, t, id, mats };
    compare(&s, if choice("points", 2) == 1 { Some([4, 5]) } else { None }, false);
    reach("large");
}
/// high, unequal orders
pub fn g01_orders() {
    let mut g = grid(1);
    let m = vec![[var("er", 0.25, 9.0), c(0.0), var("mr", 0.25, 9.0), c(0.0)]];
    let mut mesh = build(&mut g, &m);
    let hi = pick_tier(8u8, 12);
    put_orders(&mut mesh, 0, [hi, 2]);
    put_orders(&mut mesh, 1, [2, 1 + choice("n", 6) as u8]);
    let mut t = Tree::new(2);
    if choice("split", 2) == 1 {
        mesh.execute_h_refinements(vec![(1, HRef::V(None))]).unwrap();
        t.one(1, HRef::V(None));
    }
    let id = crate::all::mesh::link(&mesh, &t);
    let s = Sys { d: Domain::from_mesh(mesh, ContinuityCondition::HCurl), g, t, id, mats: m };
    reach("orders");
    compare(&s, Some([hi as usize + 1, 8]), false);
}
/// the order in which parallel tasks finish does not matter
pub fn g01_schedule() {
    schedules(true);
    let s = system(&[1], choice("depth", 2), &[HRef::U(None), HRef::V(None)], &[[1, 2]]);
    compare(&s, Some([4, 4]), false);
    reach("schedule");
}
pub fn g01_refuse() {
    use fem_2d::fem_problem::galerkin::GalerkinSamplingError as E;
    let cc = pick("cc", &[ContinuityCondition::HCurl, ContinuityCondition::HDiv, ContinuityCondition::Discontinuous]);
    let p = choice("p", 2) == 1;
    let mut m = Mesh::unit();
    if p {
        m.set_global_expansion_orders(Orders::new(2, 2));
    }
    let mut d = Domain::from_mesh(m, ContinuityCondition::HCurl);
    d.cc = cc;
    let k = choice("glq", 25);
    let glq = [k / 5 + 1, k % 5 + 1];
    let none = choice("default", 2) == 1;
    let r = galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&d, if none { None } else { Some(glq) });
    let few = !none && (glq[0] < 4 || glq[1] < 4);
    match r {
        Ok(_) => check_b("unusable input is refused", cc == ContinuityCondition::HCurl && !d.dofs.is_empty() && !few),
        Err(E::WrongContinuityCondition(a, b)) => check_b("continuity refusal is justified", a == ContinuityCondition::HCurl && b == cc && b != a),
        Err(E::EmptyDOFSet) => check_b("empty refusal is justified", d.dofs.is_empty()),
        Err(E::InvalidGLQSettings) => check_b("quadrature refusal is justified", few),
    }
    reach("refusals");
}
