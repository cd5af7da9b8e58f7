//! Integer kernels of the real crate, decided by Kani (CBMC) for every machine value.
//! Each body draws its inputs from a `Src`: symbolic under Kani, recorded bytes when a
//! counterexample is replayed natively (`kreal`).
use fem_2d::fem_domain::domain::dof::basis_spec::{BasisDir, BasisLoc, BasisSpec};
use fem_2d::fem_domain::domain::mesh::element::{Element, Materials};
use fem_2d::fem_domain::domain::mesh::h_refinement::HLevels;
use fem_2d::fem_domain::domain::mesh::p_refinement::PolyOrders;
use fem_2d::fem_domain::domain::mesh::space::{ParaDir, Point};
use fem_2d::fem_domain::domain::mesh::MAX_POLYNOMIAL_ORDER;
use fem_2d::prelude::*;
use std::sync::Arc;

pub trait Src {
    fn u8(&mut self) -> u8;
    fn u32(&mut self) -> u32;
    fn assume(&mut self, b: bool);
    fn i8(&mut self) -> i8 {
        self.u8() as i8
    }
    fn bool(&mut self) -> bool {
        let b = self.u8();
        self.assume(b < 2);
        b == 1
    }
}
#[cfg(kani)]
pub struct Any;
#[cfg(kani)]
impl Src for Any {
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn assume(&mut self, b: bool) {
        kani::assume(b)
    }
}
/// recorded inputs; leaves the process with status 0 when an assumption does not hold
pub struct Rec(pub std::vec::IntoIter<Vec<u8>>);
impl Rec {
    fn take<const N: usize>(&mut self) -> [u8; N] {
        let v = self.0.next().unwrap_or_default();
        let mut a = [0; N];
        for (x, y) in a.iter_mut().zip(v) {
            *x = y;
        }
        a
    }
}
impl Src for Rec {
    fn u8(&mut self) -> u8 {
        self.take::<1>()[0]
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take())
    }
    fn assume(&mut self, b: bool) {
        if !b {
            std::process::exit(0)
        }
    }
}

macro_rules! cov {
    ($e:expr) => {
        #[cfg(kani)]
        kani::cover!($e);
    };
}
const MAX: i64 = MAX_POLYNOMIAL_ORDER as i64;
fn order<S: Src>(s: &mut S) -> u8 {
    let n = s.u8();
    s.assume(n >= 1 && n as i64 <= MAX);
    n
}
/// the orders a basis function can have: 0 to the largest polynomial order
fn index<S: Src>(s: &mut S) -> u8 {
    let n = s.u8();
    s.assume(n as i64 <= MAX);
    n
}
/// the orders after adding `d`, where both stay in range
fn model(o: [u8; 2], d: [i64; 2]) -> Option<[u8; 2]> {
    let n = [o[0] as i64 + d[0], o[1] as i64 + d[1]];
    if n.iter().all(|x| (1..=MAX).contains(x)) {
        Some([n[0] as u8, n[1] as u8])
    } else {
        None
    }
}
fn apply(o: [u8; 2], p: PRef) -> Option<[u8; 2]> {
    let mut x = PolyOrders { ni: o[0], nj: o[1] };
    match x.refine(p) {
        Ok(()) => Some([x.ni, x.nj]),
        Err(_) => {
            assert!(x.ni == o[0] && x.nj == o[1], "a refused delta leaves both orders alone");
            None
        }
    }
}
pub fn p_single<S: Src>(s: &mut S) {
    let (a, b) = (s.i8(), s.i8());
    let o = [order(s), order(s)];
    let p = PRef::from(a, b);
    assert!(p.as_array() == [a, b], "a delta reads back as it was given");
    let want = model(o, [a as i64, b as i64]);
    cov!(want.is_some() && a != 0);
    cov!(want.is_none());
    assert!(apply(o, p) == want, "a delta moves each order by exactly its amount, or is refused");
    assert!(PRef::on_dir(ParaDir::U, a) == PRef::from(a, 0) && PRef::on_dir(ParaDir::V, a) == PRef::from(0, a), "directed deltas");
}
pub fn p_sum<S: Src>(s: &mut S) {
    let d = [[s.i8(), s.i8()], [s.i8(), s.i8()], [s.i8(), s.i8()]];
    let o = [order(s), order(s)];
    let mut p = PRef::from(d[0][0], d[0][1]);
    p += PRef::from(d[1][0], d[1][1]);
    p += PRef::from(d[2][0], d[2][1]);
    let mut q = PRef::from(d[2][0], d[2][1]);
    q += PRef::from(d[0][0], d[0][1]);
    q += PRef::from(d[1][0], d[1][1]);
    assert!(p == q, "the sum does not depend on the order of its terms");
    let t = [0, 1].map(|k| d[0][k] as i64 + d[1][k] as i64 + d[2][k] as i64);
    cov!(t[0] > 127);
    cov!(t[1] < -128);
    assert!(apply(o, p) == model(o, t), "combined deltas act as their sum");
    assert!(p.as_array() == t.map(|x| x.clamp(-128, 127) as i8), "combined deltas read back as their sum, limited to the range");
}
pub fn p_bounds<S: Src>(s: &mut S) {
    let d = [[s.i8(), s.i8()], [s.i8(), s.i8()]];
    let b = [[s.i8(), s.i8()], [s.i8(), s.i8()]];
    s.assume(b[0][0] <= b[0][1] && b[1][0] <= b[1][1]);
    let mut p = PRef::from(d[0][0], d[0][1]);
    p += PRef::from(d[1][0], d[1][1]);
    let t = [0, 1].map(|k| d[0][k] as i64 + d[1][k] as i64);
    let inside = (0..2).all(|k| t[k] >= b[k][0] as i64 && t[k] <= b[k][1] as i64);
    cov!(inside);
    cov!(!inside);
    assert!(p.falls_within(b) == inside, "range test");
    let c = p.constrained_to(b);
    let want = [0, 1].map(|k| t[k].clamp(b[k][0] as i64, b[k][1] as i64) as i8);
    assert!(c.as_array() == want, "limiting to a range picks the nearest delta inside it");
    assert!(c.falls_within(b), "a limited delta is inside its range");
    assert!(!inside || c == p, "limiting a delta inside its range changes nothing");
}
pub fn p_orders<S: Src>(s: &mut S) {
    let (i, j) = (s.u8(), s.u8());
    let ok = i >= 1 && j >= 1 && i as i64 <= MAX && j as i64 <= MAX;
    cov!(ok);
    cov!(!ok);
    match Orders::try_new(i, j) {
        Ok(o) => assert!(ok && o.to_array() == [i, j] && Orders::new(i, j) == o, "orders in range"),
        Err(_) => assert!(!ok, "orders in range are refused"),
    }
    let n = [order(s), order(s)];
    let mut x = PolyOrders { ni: n[0], nj: n[1] };
    let r = x.set([i, j]).is_ok();
    assert!(r == ok, "orders are set exactly when they are in range");
    assert!([x.ni, x.nj] == if ok { [i, j] } else { n }, "refused orders change nothing");
    assert!(x.as_array() == [x.ni as usize, x.nj as usize], "orders read back");
    let m = x.max_with([i, j]);
    assert!(m[0] >= i && m[0] >= x.ni && (m[0] == i || m[0] == x.ni), "larger order");
    assert!(m[1] >= j && m[1] >= x.nj && (m[1] == j || m[1] == x.nj), "larger order");
    assert!(PolyOrders::default().as_array() == [1, 1], "new cells start at order one");
}
fn href<S: Src>(s: &mut S) -> HRef {
    let k = s.u8();
    s.assume(k < 7);
    match k {
        0 => HRef::T,
        1 => HRef::U(None),
        2 => HRef::V(None),
        3 => HRef::U(Some(0)),
        4 => HRef::U(Some(1)),
        5 => HRef::V(Some(0)),
        _ => HRef::V(Some(1)),
    }
}
fn plus(mut a: HRef, b: HRef) -> HRef {
    a += b;
    a
}
fn splits(h: HRef) -> [bool; 2] {
    match h {
        HRef::T => [true, true],
        HRef::U(_) => [true, false],
        HRef::V(_) => [false, true],
    }
}
pub fn h_algebra<S: Src>(s: &mut S) {
    let (a, b, c) = (href(s), href(s), href(s));
    cov!(a != b);
    let ab = plus(a, b);
    assert!(ab == plus(b, a), "combining does not depend on the order");
    assert!(plus(ab, c) == plus(a, plus(b, c)), "combining does not depend on the grouping");
    assert!(plus(a, a) == a, "combining a request with itself changes nothing");
    assert!(plus(a, HRef::T) == HRef::T, "a full split contains every other");
    for k in 0..2 {
        assert!(splits(ab)[k] || !(splits(a)[k] || splits(b)[k]), "no requested direction is lost");
    }
    match (a, b) {
        (HRef::U(None), HRef::U(x)) => assert!(ab == HRef::U(x), "the extension is kept"),
        (HRef::V(None), HRef::V(x)) => assert!(ab == HRef::V(x), "the extension is kept"),
        _ => (),
    }
    let i = s.u8();
    match (HRef::u_extened(i), HRef::v_extened(i)) {
        (Ok(u), Ok(v)) => assert!(i < 2 && u == HRef::U(Some(i as usize)) && v == HRef::V(Some(i as usize)), "extended requests"),
        (Err(_), Err(_)) => assert!(i >= 2, "extended requests exist for both halves"),
        _ => assert!(false, "both extended requests agree on their index"),
    }
    assert!(HRef::t() == HRef::T && HRef::u() == HRef::U(None) && HRef::v() == HRef::V(None), "plain requests");
    let l = HLevels { u: s.u8(), v: s.u8() };
    s.assume(l.u < 200 && l.v < 200);
    let r = l.refined(a);
    assert!(r.u == l.u + splits(a)[0] as u8 && r.v == l.v + splits(a)[1] as u8, "levels count the splits in each direction");
    // across the edge first, along it second
    assert!(l.edge_ranking(ParaDir::U) == [l.v, l.u] && l.edge_ranking(ParaDir::V) == [l.u, l.v], "ranking of cells at an edge");
}
fn cell(id: usize, nodes: [usize; 4], edges: [usize; 4]) -> Elem {
    let p = Point::from([0.0, 0.0]);
    Elem::new(id, nodes, edges, Arc::new(Element::new(0, [p; 4], Materials::default())))
}
fn ids<S: Src>(s: &mut S) -> [usize; 4] {
    [s.u32() as usize, s.u32() as usize, s.u32() as usize, s.u32() as usize]
}
fn dir<S: Src>(s: &mut S) -> BasisDir {
    let k = s.u8();
    s.assume(k < 3);
    [BasisDir::U, BasisDir::V, BasisDir::W][k as usize]
}
/// which part of the cell a basis function is attached to
fn attach(nodes: [usize; 4], edges: [usize; 4], i: u8, j: u8, d: BasisDir) -> BasisLoc {
    let (lo_i, lo_j) = (i < 2, j < 2);
    let e = |k: u8| BasisLoc::EdgeBs(k, edges[k as usize]);
    match d {
        BasisDir::U if lo_j => e(j),
        BasisDir::V if lo_i => e(i + 2),
        BasisDir::W if lo_i && lo_j => BasisLoc::NodeBs(i + 2 * j, nodes[(i + 2 * j) as usize]),
        BasisDir::W if lo_i => e(i + 2),
        BasisDir::W if lo_j => e(j),
        _ => BasisLoc::ElemBs,
    }
}
pub fn b_loc<S: Src>(s: &mut S) {
    let (nodes, edges) = (ids(s), ids(s));
    let (i, j, d) = (index(s), index(s), dir(s));
    let el = cell(s.u32() as usize, nodes, edges);
    let b = BasisSpec::new(7, [i, j], d, &el, ContinuityCondition::HCurl);
    cov!(matches!(b.loc, BasisLoc::ElemBs));
    cov!(matches!(b.loc, BasisLoc::EdgeBs(3, _)));
    cov!(matches!(b.loc, BasisLoc::NodeBs(..)));
    assert!(b.loc == attach(nodes, edges, i, j, d), "attachment of a basis function");
    assert!(b.id == 7 && b.i == i && b.j == j && b.dir == d && b.elem_id == el.id && b.dof_id.is_none() && b.elem_idx.is_none(), "a new basis function keeps what it was made of");
    std::mem::forget(el);
}
pub fn b_match<S: Src>(s: &mut S) {
    // two cells; x[k] = true: the two edges at this position are the same one
    let e0 = ids(s);
    let e1 = ids(s);
    let (el0, el1) = (cell(0, [0, 1, 2, 3], e0), cell(1, [4, 5, 6, 7], e1));
    let mk = |i, j, d, el: &Elem| BasisSpec::new(0, [i, j], d, el, ContinuityCondition::HCurl);
    let (i0, j0, i1, j1) = (index(s), index(s), index(s), index(s));
    let up = |d: BasisDir| d != BasisDir::W;
    let (d0, d1) = (dir(s), dir(s));
    s.assume(up(d0) && up(d1));
    let (a, b) = (mk(i0, j0, d0, &el0), mk(i1, j1, d1, &el1));
    if let (BasisLoc::EdgeBs(k0, x), BasisLoc::EdgeBs(k1, y)) = (a.loc, b.loc) {
        s.assume(x == y);
        let m = a.matches_with_edge(&b);
        assert!(m == b.matches_with_edge(&a), "matching does not depend on who asks");
        let along = |i, j, d| if d == BasisDir::U { i } else { j };
        // the same function along the edge, from opposite sides of it
        let want = d0 == d1 && along(i0, j0, d0) == along(i1, j1, d1) && k0 / 2 == k1 / 2 && k0 != k1;
        cov!(want);
        cov!(!want);
        assert!(m == want, "functions match exactly when they are the two halves of one function across the edge");
    }
    std::mem::forget((el0, el1));
}
pub const ALL: &[(&str, fn(&mut Rec))] = &[
    ("p_single", p_single::<Rec>),
    ("p_sum", p_sum::<Rec>),
    ("p_bounds", p_bounds::<Rec>),
    ("p_orders", p_orders::<Rec>),
    ("h_algebra", h_algebra::<Rec>),
    ("b_loc", b_loc::<Rec>),
    ("b_match", b_match::<Rec>),
];

#[cfg(kani)]
mod proofs {
    use super::*;
    macro_rules! p {
        ($($n:ident)*) => { $( #[kani::proof] #[kani::unwind(22)] fn $n() { super::$n(&mut Any) } )* };
    }
    p!(p_single p_sum p_bounds p_orders h_algebra b_loc b_match);
}
