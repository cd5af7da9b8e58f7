//! expansion orders and degrees of freedom
use crate::all::util::*;
use crate::hx::*;
use fem_2d::fem_domain::basis::{hierarchical_basis_fns::poly::HierPoly, BasisFnSampler, HierBasisFn, HierCurlBasisFn};
use fem_2d::fem_domain::domain::dof::basis_spec::{BSAddress, BasisDir, BasisLoc, BasisSpec};
use fem_2d::fem_domain::domain::mesh::p_refinement::PolyOrders;
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::fem_domain::domain::mesh::MAX_POLYNOMIAL_ORDER;
use fem_2d::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

fn byte(name: &str) -> usize {
    choice(&format!("{}-hi", name), 16) * 16 + choice(name, 16)
}
fn bound() -> i64 {
    MAX_POLYNOMIAL_ORDER as i64
}
// ------------------------------------------------------------------ p-refinement requests
const DELTAS: [i8; 11] = [-128, -127, -20, -19, -3, 0, 1, 4, 19, 20, 127];
const DELTAS_Q: [i8; 7] = [-128, -19, -2, 0, 3, 19, 127];
const ORD: [u8; 5] = [1, 2, 7, 19, 20];

/// lists of requests: all or nothing, additive per cell
pub fn p01() {
    let (m0, _) = root(1);
    let mut m = m0;
    let with_kid = choice("refined", 2) == 1;
    if with_kid {
        m.execute_h_refinements(vec![(0, HRef::U(None))]).unwrap();
    }
    let n = m.elems.len();
    let os = pick_tier(&[1u8, 7, 20][..], &ORD[..]);
    let o0 = [pick("o", os), pick("p", os)];
    for e in 0..n {
        put_orders(&mut m, e, [o0[(e % 2)], o0[1 - (e % 2)]]);
    }
    let before = orders(&m);
    let len = choice("len", 4);
    let ds = pick_tier(&DELTAS_Q[..], &DELTAS[..]);
    let mut req = vec![];
    let mut sum: BTreeMap<usize, [i64; 2]> = BTreeMap::new();
    let mut missing = false;
    for k in 0..len {
        let id = if k == 0 { pick("id", &[0usize, n - 1, n, n + 7]) } else { pick("id", &[0usize, 1, n]) };
        let d = if k < 2 { pick("d", ds) } else { pick("d", &[-1i8, 127]) };
        let f = match choice("other", if k == 0 { 3 } else { 1 }) {
            0 => 0i8,
            1 => 1,
            _ => -20,
        };
        let swap = k == 1;
        let (a, b) = if swap { (f, d) } else { (d, f) };
        req.push((id, PRef::from(a, b)));
        if id >= n {
            missing = true;
        } else {
            let s = sum.entry(id).or_insert([0, 0]);
            s[0] += a as i64;
            s[1] += b as i64;
        }
    }
    let fits = sum.iter().all(|(e, s)| (0..2).all(|k| (1..=bound()).contains(&(before[*e][k] as i64 + s[k]))));
    let shape = snapshot(&m).lines().map(|l| l.split(" o[").next().unwrap().to_string()).collect::<Vec<_>>();
    match catch(|| m.execute_p_refinements(req)) {
        Err(p) => check_b(&format!("a request list never panics ({})", p.split('@').next().unwrap_or("")), false),
        Ok(r) => {
            let after = orders(&m);
            if !missing && fits {
                reach("accepted");
                check_b("a request list inside the limits is accepted", r.is_ok());
                for e in 0..n {
                    let s = sum.get(&e).copied().unwrap_or([0, 0]);
                    check_b("requests on one cell add up", (0..2).all(|k| after[e][k] as i64 == before[e][k] as i64 + s[k]));
                }
            } else {
                reach("refused");
                check_b("a request list outside the limits is refused", r.is_err());
                check_b("a refused request list changes no order", after == before);
            }
            check_b("only the orders change", shape == snapshot(&m).lines().map(|l| l.split(" o[").next().unwrap().to_string()).collect::<Vec<_>>());
        }
    }
}
/// one delta for a list of ids
pub fn p01_elems() {
    let (mut m, _) = root(3);
    let n = m.elems.len();
    for e in 0..n {
        put_orders(&mut m, e, [(e as u8) * 6 + 1, 20 - (e as u8) * 6]);
    }
    let before = orders(&m);
    let len = choice("len", 4);
    let ids: Vec<usize> = (0..len).map(|_| pick("id", &[0, 1, 2, 3, 4])).collect();
    let d = [pick("d", &[-128i8, -6, -1, 0, 1, 2, 19, 127]), pick("f", &[-13i8, 0, 5])];
    let set: BTreeSet<usize> = ids.iter().cloned().collect();
    let bad = set.len() != ids.len() || ids.iter().any(|e| *e >= n) || ids.iter().filter(|e| **e < n).any(|e| (0..2).any(|k| !(1..=bound()).contains(&(before[*e][k] as i64 + d[k] as i64))));
    let r = catch(|| m.p_refine_elems(ids.clone(), PRef::from(d[0], d[1])));
    check_b("refining a list of cells does not panic", r.is_ok());
    let Ok(r) = r else { return };
    check_b("a list of cells is refused exactly when one entry is missing, repeated or out of range", r.is_err() == bad);
    let after = orders(&m);
    for e in 0..n {
        let on = !bad && set.contains(&e);
        check_b("a list of cells is refined all or nothing", (0..2).all(|k| after[e][k] as i64 == before[e][k] as i64 + if on { d[k] as i64 } else { 0 }));
    }
    reach(if bad { "refused" } else { "accepted" });
}
fn clampo(n: u8, d: i64) -> i64 {
    (n as i64 + d).clamp(1, bound())
}
/// whole mesh: every order moves by the delta, stopping at the limits
pub fn p02() {
    let (mut m, _) = root(1);
    m.execute_h_refinements(vec![(0, HRef::V(None))]).unwrap();
    let n0 = 1 + choice("order", MAX_POLYNOMIAL_ORDER as usize) as u8;
    let d = byte("delta") as i64 - 128;
    let e = -d - 1;
    let axis = choice("axis", 2);
    let dd = if axis == 0 { [d, e] } else { [e, d] };
    for i in 0..m.elems.len() {
        put_orders(&mut m, i, [n0, 21 - n0]);
    }
    let w = m.elem_p_refinement_window(0).unwrap();
    check_b("window of valid deltas", [[w[0][0] as i64, w[0][1] as i64], [w[1][0] as i64, w[1][1] as i64]] == [[1 - n0 as i64, bound() - n0 as i64], [n0 as i64 - 20, n0 as i64 - 1]]);
    check_b("window of a missing cell", m.elem_p_refinement_window(m.elems.len()).is_err());
    if let Err(p) = catch(|| m.global_p_refinement(PRef::from(dd[0] as i8, dd[1] as i8))) {
        check_b(&format!("whole-mesh refinement does not panic ({})", p.split('@').next().unwrap_or("")), false);
        return;
    }
    reach("global");
    for o in orders(&m) {
        check_b("whole-mesh refinement moves every order by the delta, stopping at the limits", o[0] as i64 == clampo(n0, dd[0]) && o[1] as i64 == clampo(21 - n0, dd[1]));
    }
    let mx = m.max_expansion_orders();
    let os = orders(&m);
    check_b("largest orders of the mesh", mx == [os.iter().map(|o| o[0]).max().unwrap(), os.iter().map(|o| o[1]).max().unwrap()]);
}
/// filtered refinement and direct setting
pub fn p02_filter() {
    let (mut m, _) = root(1);
    m.execute_h_refinements(vec![(1, HRef::U(None))]).unwrap();
    let n = m.elems.len();
    for e in 0..n {
        put_orders(&mut m, e, [[1u8, 20, 5, 12][e], [3u8, 1, 20, 19][e]]);
    }
    let before = orders(&m);
    let mask = choice("mask", 1 << n);
    let on = |e: usize| mask >> e & 1 == 1;
    let d = [pick("d", &[-128i8, -19, -4, -1, 0, 1, 8, 19, 127]), pick("f", &[-20i8, -2, 0, 1, 100])];
    // different deltas for different cells
    let del = |e: usize| if e % 2 == 0 { d } else { [d[1], d[0]] };
    match choice("mode", 5) {
        0 => {
            let r = catch(|| m.p_refine_with_filter(|e| if on(e.id) { Some(PRef::from(del(e.id)[0], del(e.id)[1])) } else { None }));
            check_b("filtered refinement does not panic", r.is_ok());
            let a = orders(&m);
            reach("filter");
            check_b("filtered refinement clamps on the chosen cells and leaves the others", (0..n).all(|e| (0..2).all(|k| a[e][k] as i64 == if on(e) { clampo(before[e][k], del(e)[k] as i64) } else { before[e][k] as i64 })));
        }
        1 => {
            let r = catch(|| m.p_refine_with_filter_bounded(|e, w| {
                let ok = (0..2).all(|k| w[k] == [1 - before[e.id][k] as i8, 20 - before[e.id][k] as i8]);
                check_b("the filter is given the window of the cell", ok);
                if on(e.id) { Some(PRef::from(del(e.id)[0], del(e.id)[1])) } else { None }
            }));
            check_b("bounded filtered refinement does not panic", r.is_ok());
            let Ok(r) = r else { return };
            let fits = (0..n).all(|e| !on(e) || (0..2).all(|k| (1..=bound()).contains(&(before[e][k] as i64 + del(e)[k] as i64))));
            check_b("bounded filtered refinement is refused exactly when a delta does not fit", r.is_err() == !fits);
            let a = orders(&m);
            reach(if fits { "bounded ok" } else { "bounded refused" });
            check_b("bounded filtered refinement is all or nothing", (0..n).all(|e| (0..2).all(|k| a[e][k] as i64 == before[e][k] as i64 + if on(e) && fits { del(e)[k] as i64 } else { 0 })));
        }
        2 => {
            let o = Orders::new(((d[0] as i64).rem_euclid(20) + 1) as u8, ((d[1] as i64).rem_euclid(20) + 1) as u8).to_array();
            let r = catch(|| m.set_expansions_with_filter(|e| if on(e.id) { Some(Orders::new(o[0], o[1])) } else { None }));
            check_b("filtered setting does not panic", r.is_ok());
            let a = orders(&m);
            reach("set filter");
            check_b("filtered setting reaches exactly the chosen cells", (0..n).all(|e| a[e] == if on(e) { o } else { before[e] }));
        }
        3 => {
            let o = Orders::new(((d[0] as i64).rem_euclid(20) + 1) as u8, ((d[1] as i64).rem_euclid(20) + 1) as u8);
            m.set_global_expansion_orders(o);
            reach("set all");
            check_b("setting all cells reaches all cells", orders(&m).iter().all(|x| *x == o.to_array()));
        }
        _ => {
            // lists with repeats and missing ids
            let ids: Vec<usize> = (0..n).filter(|e| on(*e)).collect();
            let mut list: Vec<(usize, [u8; 2])> = ids.iter().map(|e| (*e, [(*e as u8) * 5 + 1, 20 - *e as u8])).collect();
            let flaw = choice("flaw", 3);
            match flaw {
                1 if !list.is_empty() => list.push((list[0].0, [4, 4])),
                2 => list.push((n + choice("over", 2), [4, 4])),
                _ => (),
            }
            if choice("rot", 2) == 1 && !list.is_empty() {
                list.rotate_right(1);
            }
            let bad = (flaw == 1 && !ids.is_empty()) || flaw == 2;
            let r = if choice("api", 2) == 0 {
                m.set_expansion_orders(list.iter().map(|(e, o)| (*e, Orders::new(o[0], o[1]))).collect())
            } else {
                for x in list.iter_mut() {
                    x.1 = [9, 2];
                }
                m.set_expansion_on_elems(list.iter().map(|x| x.0).collect(), Orders::new(9, 2))
            };
            check_b("setting a list is refused exactly when an id is missing or repeated", r.is_err() == bad);
            let a = orders(&m);
            reach(if bad { "list refused" } else { "list set" });
            check_b("setting a list is all or nothing", (0..n).all(|e| a[e] == list.iter().find(|x| !bad && x.0 == e).map(|x| x.1).unwrap_or(before[e])));
        }
    }
    let os = orders(&m);
    check_b("largest orders of the mesh, over refined cells too", m.max_expansion_orders() == [0, 1].map(|k| os.iter().map(|o| o[k]).max().unwrap()));
    check_b("no orders in an empty mesh", Mesh::blank().max_expansion_orders() == [0, 0]);
}
/// every pair of bytes as orders
pub fn p02_valid() {
    let i = byte("i");
    let j = choice("j", 24) + if choice("far", 2) == 1 { 232 } else { 0 };
    let (i, j) = if choice("swap", 2) == 1 { (j, i) } else { (i, j) };
    let ok = (1..=20).contains(&i) && (1..=20).contains(&j);
    match Orders::try_new(i as u8, j as u8) {
        Ok(o) => check_b("orders outside the range are refused", ok && o.to_array() == [i as u8, j as u8]),
        Err(_) => check_b("orders inside the range are accepted", !ok),
    }
    check_b("checked constructor panics exactly on bad orders", catch(|| Orders::new(i as u8, j as u8)).is_ok() == ok);
    let mut p = PolyOrders { ni: 3, nj: 4 };
    let r = p.set([i as u8, j as u8]);
    check_b("direct setting accepts exactly the valid range", r.is_ok() == ok);
    check_b("direct setting is all or nothing", [p.ni as usize, p.nj as usize] == if ok { [i, j] } else { [3, 4] });
}

// ------------------------------------------------------------------ degrees of freedom
/// a mesh with a refinement history and orders picked per cell
fn dofs_mesh(shapes: &[usize], depth: usize, kinds: &[HRef], os: &[[u8; 2]]) -> Mesh {
    let s = pick("shape", shapes);
    let mut g = grid_at(s, if depth == 0 { 0 } else { depth + s } % PLACES);
    let mut m = build(&mut g, &[]);
    for _ in 0..depth {
        step(&mut m, kinds);
    }
    let n = m.elems.len();
    // a base pair for all, another for one cell
    let base = pick("orders", os);
    let other = pick("orders2", os);
    let at = choice("at", n);
    for e in 0..n {
        put_orders(&mut m, e, if e == at { other } else { base });
    }
    m
}
const OS_Q: [[u8; 2]; 3] = [[1, 1], [2, 3], [4, 2]];
const OS_T: [[u8; 2]; 5] = [[1, 1], [2, 3], [4, 2], [1, 4], [5, 5]];

fn u_dir(b: &BasisSpec) -> bool {
    b.dir == BasisDir::U
}
/// bookkeeping: DoFs and basis functions refer to one another one to one
pub fn d01() {
    let mut m = dofs_mesh(pick_tier(&[0, 1, 4][..], &[0, 1, 2, 3, 4, 8][..]), choice("depth", 3), pick_tier(&KINDS3[..], &KINDS[..]), pick_tier(&OS_Q[..], &OS_T[..]));
    // building twice, or refining between two builds, leaves no trace of the first build
    let again = choice("again", 3);
    if again > 0 {
        m = Domain::from_mesh(m, ContinuityCondition::HCurl).mesh;
        if again == 2 {
            let l = leaves(&m);
            m.execute_h_refinements(vec![(*l.last().unwrap(), HRef::V(None))]).unwrap();
        }
    }
    let before = snapshot(&m);
    let d = Domain::from_mesh(m, ContinuityCondition::HCurl);
    bookkeeping(&d);
    completeness(&d);
    let strip = |s: &str| s.lines().map(|l| l.split(" a").next().unwrap().to_string()).collect::<Vec<_>>();
    check_b("building the degrees of freedom leaves the mesh alone", strip(&before) == strip(&snapshot(&d.mesh)));
}
fn bookkeeping(d: &Domain) {
    let n = d.mesh.elems.len();
    check_b("one list of basis functions per cell", d.basis_specs.len() == n);
    if d.basis_specs.len() != n {
        return;
    }
    reach("bookkeeping");
    let mut seen: BTreeSet<(usize, usize)> = BTreeSet::new();
    for (k, f) in d.dofs.iter().enumerate() {
        check_b("degrees of freedom are numbered consecutively", f.id == k);
        let a = f.get_basis_specs();
        check_b("a degree of freedom has one or two basis functions", a.len() == 1 || a.len() == 2);
        for x in a.iter() {
            check_b("a basis function belongs to one degree of freedom only", seen.insert((x.elem_id, x.elem_idx)));
            match catch(|| d.get_basis_spec(*x).ok().map(|b| (b.elem_id, b.elem_idx, b.dof_id))) {
                Ok(Some(b)) => check_b("a degree of freedom and its basis functions name each other", b == (x.elem_id, Some(x.elem_idx), Some(k))),
                _ => check_b("addresses held by a degree of freedom can be looked up", false),
            }
        }
        if a.len() == 2 {
            check_b("the two basis functions of a degree of freedom lie on different cells", a[0].elem_id != a[1].elem_id);
        }
    }
    check_b("every basis function in use belongs to a degree of freedom", seen.len() == d.basis_specs.iter().map(|v| v.len()).sum::<usize>());
    let mut below = vec![BTreeSet::new(); n];
    for x in 0..n {
        for y in d.mesh.elems[x].loc_stack() {
            below[y.0].insert(x);
        }
    }
    for e in 0..n {
        let o = d.mesh.elems[e].poly_orders;
        let mut ids = BTreeSet::new();
        for b in &d.basis_specs[e] {
            check_b("basis functions of a cell are distinct", ids.insert((u_dir(b), b.i, b.j)));
            let inr = match b.dir {
                BasisDir::U => b.i < o.ni && b.j <= o.nj,
                BasisDir::V => b.i <= o.ni && b.j < o.nj,
                BasisDir::W => false,
            };
            check_b("basis functions stay within the orders of the cell", inr);
            let ([i, j], dir, dof) = b.integration_data();
            check_b("integration data repeats the record", [i, j] == [b.i as usize, b.j as usize] && dir == b.dir && Some(dof) == b.dof_id);
        }
        // lookups
        let l = d.local_basis_specs(e).map(|v| v.len()).ok();
        check_b("local lookup", l == Some(d.basis_specs[e].len()));
        let same = |got: Vec<(usize, &Vec<BasisSpec>)>, want: BTreeSet<usize>| got.len() == want.len() && got.iter().all(|(x, v)| want.contains(x) && std::ptr::eq(*v, &d.basis_specs[*x]));
        let anc: BTreeSet<usize> = d.mesh.elems[e].loc_stack().iter().map(|x| x.0).collect();
        check_b("ancestor lookup", d.ancestor_basis_specs(e).map_or(false, |g| same(g, anc)));
        let desc: BTreeSet<usize> = std::mem::take(&mut below[e]);
        check_b("descendant lookup", d.descendant_basis_specs(e).map_or(false, |g| same(g, desc)));
        check_b("lookup past the end of a cell's list is an error", catch(|| d.get_basis_spec(BSAddress::new(e, d.basis_specs[e].len())).is_err()).unwrap_or(false));
    }
    for k in [n, n + 1, n + 9] {
        check_b("lookup on a missing cell is an error", catch(|| d.get_basis_spec(BSAddress::new(k, 0)).is_err()).unwrap_or(false));
        check_b("list lookup on a missing cell is an error", d.local_basis_specs(k).is_err() && d.ancestor_basis_specs(k).is_err() && d.descendant_basis_specs(k).is_err());
    }
}
/// the expected set of degrees of freedom, from the leaf cells and the pairs of cells at every edge
fn completeness(d: &Domain) {
    let m = &d.mesh;
    // wanted: sorted list of (elem, dir, i, j) groups
    let mut want: BTreeSet<Vec<(usize, bool, u8, u8)>> = BTreeSet::new();
    for e in leaves(m) {
        let o = m.elems[e].poly_orders;
        for t in 0..o.ni {
            for q in 2..=o.nj {
                want.insert(vec![(e, true, t, q)]);
            }
        }
        for t in 0..o.nj {
            for q in 2..=o.ni {
                want.insert(vec![(e, false, q, t)]);
            }
        }
    }
    for ed in &m.edges {
        if let Some([a, b]) = ed.active_elem_pair() {
            let side = |e: usize| m.elems[e].edges.iter().position(|x| *x == ed.id);
            let (Some(sa), Some(sb)) = (side(a), side(b)) else {
                check_b("an active pair shares its edge", false);
                continue;
            };
            let (pa, pb) = (m.elems[a].poly_orders, m.elems[b].poly_orders);
            let top = if ed.dir == ParaDir::U { pa.ni.min(pb.ni) } else { pa.nj.min(pb.nj) };
            for t in 0..top {
                let f = |e: usize, s: usize| if s < 2 { (e, true, t, s as u8) } else { (e, false, s as u8 - 2, t) };
                let mut g = vec![f(a, sa), f(b, sb)];
                g.sort();
                want.insert(g);
            }
        }
    }
    let mut got: BTreeSet<Vec<(usize, bool, u8, u8)>> = BTreeSet::new();
    for f in &d.dofs {
        let mut g: Vec<_> = f
            .get_basis_specs()
            .iter()
            .filter_map(|x| d.basis_specs.get(x.elem_id).and_then(|v| v.get(x.elem_idx)))
            .map(|b| (b.elem_id, u_dir(b), b.i, b.j))
            .collect();
        g.sort();
        check_b("no degree of freedom appears twice", got.insert(g));
    }
    reach("completeness");
    check_b("no degree of freedom is missing", want.is_subset(&got));
    check_b("no degree of freedom is superfluous", got.is_subset(&want));
}
/// many cells, mixed orders
fn large_orders(rounds: usize, hi: [usize; 2]) -> Mesh {
    let mesh = choice("mesh", 3);
    let mut m = if mesh == 0 {
        crate::all::mesh::large(rounds).0
    } else if mesh == 2 {
        crate::all::mesh::huge(&[]).0
    } else {
        match crate::all::mesh::deep(pick_tier(6, 8), pick_tier(&[HRef::T, HRef::U(None)][..], &KINDS[..])) {
            Some(x) => x.0,
            None => Mesh::unit(),
        }
    };
    let k = choice("orders", pick_tier(2, 6));
    for e in 0..m.elems.len() {
        let o = [1 + (e * 5 + k) % hi[0], 1 + (e * 3 + e / 7 + 2 * k) % hi[1]];
        put_orders(&mut m, e, [o[0] as u8, o[1] as u8]);
    }
    m
}
/// a few cells with several hundred functions
fn some_high(mut m: Mesh) -> Mesh {
    for e in (5..m.elems.len()).step_by(37) {
        put_orders(&mut m, e, [20, 19 + (e % 2) as u8]);
    }
    m
}
pub fn d01_vast() {
    let mut m = crate::all::mesh::vast().0;
    for e in 0..m.elems.len() {
        put_orders(&mut m, e, [1 + (e % 2) as u8, 1 + (e % 3 == 1) as u8]);
    }
    let d = Domain::from_mesh(m, ContinuityCondition::HCurl);
    bookkeeping(&d);
    completeness(&d);
    reach("vast");
}
fn narrow_orders(hi: [usize; 2]) -> Mesh {
    let mut m = crate::all::mesh::narrow(crate::all::mesh::NARROW, &[]).0;
    for e in 0..m.elems.len() {
        put_orders(&mut m, e, [1 + (e % hi[0]) as u8, 1 + (e / 2 % hi[1]) as u8]);
    }
    m
}
pub fn d01_narrow() {
    bookkeeping(&Domain::from_mesh(narrow_orders([3, 4]), ContinuityCondition::HCurl));
}
pub fn d02_narrow() {
    continuity(narrow_orders([2, 3]));
}
pub fn d03_narrow() {
    completeness(&Domain::from_mesh(narrow_orders([4, 3]), ContinuityCondition::HCurl));
}
pub fn d01_large() {
    let m = some_high(large_orders(2, [3, 4]));
    let d = Domain::from_mesh(m, ContinuityCondition::HCurl);
    bookkeeping(&d);
}
pub fn d02_large() {
    let m = some_high(large_orders(2, [4, 3]));
    continuity(m);
}
pub fn d03_large() {
    let m = some_high(large_orders(2, [7, 12]));
    let d = Domain::from_mesh(m, ContinuityCondition::HCurl);
    completeness(&d);
}
/// a step that visits every one of n cells
fn stride(n: usize) -> usize {
    [7, 11, 13].into_iter().find(|k| n % k != 0).unwrap()
}
/// long p-refinement lists over many cells: they add up, and one bad entry anywhere refuses all of it
pub fn p01_large() {
    let mut m = large_orders(0, [15, 14]);
    let n = m.elems.len();
    let before = orders(&m);
    let flaw = choice("flaw", 4);
    let at = choice("position", if flaw == 3 { 1 } else { pick_tier(9, 30) }) * (n - 1) / pick_tier(8, 29);
    // three rounds over all cells; the sum fits even where a part of it does not
    let mut req = vec![];
    for e in 0..n {
        let e = (e * stride(n) + 3) % n;
        if e % 6 != 5 {
            req.push((e, [(e % 30) as i8, -((e % 9) as i8)]));
        }
    }
    for e in 0..n {
        if e % 6 != 5 {
            req.push((e, [2, 1]));
        }
    }
    for e in (0..n).rev() {
        if e % 6 != 5 {
            req.push((e, [-((e % 30) as i8), (e % 9) as i8]));
        }
    }
    let at = at * req.len() / n;
    match flaw {
        0 => req.insert(at, (n + at, [0, 0])),
        1 => req.insert(at, ((at * 7) % n, [20, 0])),
        2 => req.insert(at, ((at * 5) % n, [0, -17])),
        _ => (),
    }
    let bad = flaw < 3;
    let r = catch(|| m.execute_p_refinements(req.iter().map(|(e, d)| (*e, PRef::from(d[0], d[1]))).collect()));
    check_b("a request list never panics", r.is_ok());
    let Ok(r) = r else { return };
    check_b("a long list is refused exactly when one entry is bad", r.is_err() == bad);
    let a = orders(&m);
    for e in 0..n {
        let on = !bad && e % 6 != 5;
        check_b("a long list adds up, or leaves everything alone", (0..2).all(|k| a[e][k] as i64 == before[e][k] as i64 + if on { [2, 1][k] } else { 0 }));
    }
    // a list of ids
    let before = a;
    let mut ids: Vec<usize> = (0..n).map(|e| (e * stride(n) + 3) % n).filter(|e| (0..2).all(|k| before[*e][k] < 20)).collect();
    let set: BTreeSet<usize> = ids.iter().cloned().collect();
    let bad = match flaw {
        0 => {
            ids.insert(at % ids.len(), n);
            true
        }
        1 => {
            let k = ids[(at * 5 + 1) % ids.len()];
            ids.insert(at % ids.len(), k);
            true
        }
        _ => set.len() != ids.len(),
    };
    let r = m.p_refine_elems(ids.clone(), PRef::from(1, 1));
    check_b("a long list of ids is refused exactly when one is missing or repeated", r.is_err() == bad);
    let a = orders(&m);
    for e in 0..n {
        let on = !bad && set.contains(&e);
        check_b("a long list of ids is refined all or nothing", (0..2).all(|k| a[e][k] == before[e][k] + on as u8));
    }
    reach("long");
}
/// whole-mesh changes on a mesh of many cells with different orders
pub fn p02_large() {
    let mut m = large_orders(0, [20, 19]);
    let n = m.elems.len();
    let before = orders(&m);
    let d = pick("d", pick_tier(&[[-20i64, 1], [-3, -7], [2, 0]][..], &[[-20, 1], [-3, -7], [2, 0], [0, 19], [19, -1]][..]));
    let del = |e: usize| [d[0] + (e % 3) as i64, d[1] - (e % 5) as i64];
    let on = |e: usize| e % 7 != 2;
    let p = |x: [i64; 2]| PRef::from(x[0] as i8, x[1] as i8);
    let mode = choice("mode", 5);
    // one cell that does not fit, anywhere
    let at = if mode == 2 || mode == 4 { choice("position", pick_tier(7, 30)) * n / pick_tier(6, 29) } else { n };
    let clamped = |e: usize, x: [i64; 2]| [clampo(before[e][0], x[0]), clampo(before[e][1], x[1])];
    let want: Vec<[i64; 2]> = match mode {
        0 => {
            m.global_p_refinement(p(d));
            (0..n).map(|e| clamped(e, d)).collect()
        }
        1 => {
            let all = m.clone();
            m.p_refine_with_filter(|e| {
                let w = &all.elems[e.id];
                check_b("the filter is shown the cell itself", [e.h_levels.u, e.h_levels.v] == [w.h_levels.u, w.h_levels.v] && e.nodes == w.nodes && e.poly_orders.ni == before[e.id][0] && e.poly_orders.nj == before[e.id][1]);
                if on(e.id) { Some(p(del(e.id))) } else { None }
            });
            (0..n).map(|e| clamped(e, if on(e) { del(e) } else { [0, 0] })).collect()
        }
        2 => {
            // deltas cut to the window by the caller, except at one cell
            let cut = |e: usize| {
                let c = clamped(e, del(e));
                if e == at {
                    [0, 20]
                } else {
                    [c[0] - before[e][0] as i64, c[1] - before[e][1] as i64]
                }
            };
            let r = m.p_refine_with_filter_bounded(|e, _| if on(e.id) { Some(p(cut(e.id))) } else { None });
            let bad = at < n && on(at);
            check_b("the bounded variant is refused exactly when one cell does not fit", r.is_err() == bad);
            (0..n).map(|e| if on(e) && !bad { clamped(e, del(e)) } else { clamped(e, [0, 0]) }).collect()
        }
        3 => {
            m.set_expansions_with_filter(|e| if on(e.id) { Some(Orders::new((e.id % 20) as u8 + 1, 20 - (e.id % 20) as u8)) } else { None });
            (0..n).map(|e| if on(e) { [(e % 20) as i64 + 1, 20 - (e % 20) as i64] } else { clamped(e, [0, 0]) }).collect()
        }
        _ => {
            let mut list: Vec<(usize, Orders)> = (0..n).map(|e| (e * stride(n) + 3) % n).filter(|e| on(*e)).map(|e| (e, Orders::new((e % 20) as u8 + 1, 20 - (e % 20) as u8))).collect();
            let dup: BTreeSet<usize> = list.iter().map(|x| x.0).collect();
            let mut bad = dup.len() != list.len();
            if at < n {
                let k = list.len();
                list.insert(at % k, (if at % 2 == 0 { n + at } else { list[(at * 11) % k].0 }, Orders::new(2, 2)));
                bad = true;
            }
            let r = m.set_expansion_orders(list);
            check_b("setting a long list is refused exactly when an id is missing or repeated", r.is_err() == bad);
            (0..n).map(|e| if !bad && dup.contains(&e) { [(e % 20) as i64 + 1, 20 - (e % 20) as i64] } else { clamped(e, [0, 0]) }).collect()
        }
    };
    let os = orders(&m);
    for e in 0..n {
        check_b("every cell of a large mesh has the orders asked for", (0..2).all(|k| os[e][k] as i64 == want[e][k]));
    }
    check_b("largest orders of the mesh, over refined cells too", m.max_expansion_orders() == [0, 1].map(|k| os.iter().map(|o| o[k]).max().unwrap()));
    reach("large");
}
/// completeness over more orders, one shared edge
pub fn d03() {
    let s = pick("shape", &[1usize, 2]);
    let (mut m, _) = root(s);
    let hi = pick_tier(5, 8);
    let o: Vec<u8> = (0..4).map(|k| 1 + choice(["a", "b", "c", "d"][k], hi) as u8).collect();
    put_orders(&mut m, 0, [o[0], o[1]]);
    put_orders(&mut m, 1, [o[2], o[3]]);
    let d = Domain::from_mesh(m, ContinuityCondition::HCurl);
    completeness(&d);
    // one cell alone has interior functions only
    let mut one = Mesh::unit();
    put_orders(&mut one, 0, [o[0], o[1]]);
    let d1 = Domain::from_mesh(one, ContinuityCondition::HCurl);
    let (a, b) = (o[0] as usize, o[1] as usize);
    check_b("a single cell has interior functions only", d1.dofs.len() == a * (b - 1) + b * (a - 1));
    completeness(&d1);
}
pub fn d03_chain() {
    let m = dofs_mesh(pick_tier(&[1, 3, 4][..], &[1, 2, 3, 4, 5, 8][..]), pick_tier(2, 3), &KINDS3, &[[2, 3], [3, 1]]);
    let d = Domain::from_mesh(m, ContinuityCondition::HCurl);
    completeness(&d);
}
/// tangential continuity of every degree of freedom, for every cell size, at every point of every edge
pub fn d02() {
    let m = dofs_mesh(pick_tier(&[1, 2, 4][..], &[1, 2, 3, 4, 5][..]), choice("depth", pick_tier(3, 4)), pick_tier(&KINDS[..], &KINDS3[..]), &[[2, 3], [3, 4]]);
    continuity(m);
}
pub fn d02_orders() {
    let s = pick("shape", &[1usize, 2]);
    let (mut m, _) = root(s);
    let n = pick_tier(16, 20) as u8;
    let k = choice("fewer", 2) as u8;
    put_orders(&mut m, 0, [n, n - k]);
    put_orders(&mut m, 1, [n - k, n]);
    continuity(m);
}
fn continuity(m: Mesh) {
    let d = Domain::from_mesh(m, ContinuityCondition::HCurl);
    let s = var("s", -1.0, 1.0);
    let n = d.mesh.elems.len();
    let pts = [c(-1.0), s, c(1.0)];
    let smp: Vec<HierCurlBasisFn<HierPoly>> = (0..n)
        .map(|e| {
            let o = d.mesh.elems[e].poly_orders;
            HierBasisFn::defined_over(&d.mesh.elems[e], None, [&pts[..], &pts[..]], [o.ni as usize, o.nj as usize], false)
        })
        .collect();
    // tangential component on side k of cell e at the local coordinate s: bottom, top, left, right
    let trace = |b: &BasisSpec, k: usize| {
        let (p, x) = [([1, 0], 0), ([1, 2], 0), ([0, 1], 1), ([2, 1], 1)][k];
        let ij = [b.i as usize, b.j as usize];
        let f = if u_dir(b) { smp[b.elem_id].f_u(ij, p) } else { smp[b.elem_id].f_v(ij, p) };
        f[x]
    };
    for f in &d.dofs {
        let a: Vec<&BasisSpec> = f.get_basis_specs().iter().filter_map(|x| d.get_basis_spec(*x).ok()).collect();
        if a.len() == 1 {
            reach("interior");
            for k in 0..4 {
                check_eq("an interior function has no tangential trace", trace(a[0], k), c(0.0));
            }
        } else if a.len() == 2 {
            reach("shared");
            let shared: Vec<usize> = (0..4).filter(|k| d.mesh.elems[a[1].elem_id].edges.contains(&d.mesh.elems[a[0].elem_id].edges[*k])).collect();
            check_b("the two cells of a degree of freedom share one edge", shared.len() == 1);
            if shared.len() != 1 {
                continue;
            }
            let id = d.mesh.elems[a[0].elem_id].edges[shared[0]];
            let other = d.mesh.elems[a[1].elem_id].edges.iter().position(|x| *x == id).unwrap();
            check_eq("tangential traces agree on the shared edge", trace(a[0], shared[0]), trace(a[1], other));
            // the trace is not identically zero
            let t = trace(a[0], shared[0]);
            check("the shared trace does not vanish", or(vec![ne(t, c(0.0)), le(s, c(0.0)), ge(s, c(1.0))]));
            for k in 0..4 {
                if k != shared[0] {
                    check_eq("no tangential trace on the other sides", trace(a[0], k), c(0.0));
                }
                if k != other {
                    check_eq("no tangential trace on the other sides", trace(a[1], k), c(0.0));
                }
            }
        }
    }
}
/// kind of every basis function and the matching rule, over all indices
pub fn d04() {
    let (m, _) = root(1);
    let e = &m.elems[choice("cell", 2)];
    let (i, j) = (choice("i", 21) as u8, choice("j", 21) as u8);
    let dir = pick("dir", &[BasisDir::U, BasisDir::V, BasisDir::W]);
    let b = BasisSpec::new(7, [i, j], dir, e, ContinuityCondition::HCurl);
    check_b("a basis function records its indices", (b.i, b.j, b.dir, b.elem_id, b.elem_idx, b.dof_id) == (i, j, dir, e.id, None, None));
    let want = match dir {
        BasisDir::U if j < 2 => BasisLoc::EdgeBs(j, e.edges[j as usize]),
        BasisDir::V if i < 2 => BasisLoc::EdgeBs(i + 2, e.edges[i as usize + 2]),
        BasisDir::W => match (i < 2, j < 2) {
            (true, true) => BasisLoc::NodeBs(i + 2 * j, e.nodes[(i + 2 * j) as usize]),
            (true, false) => BasisLoc::EdgeBs(i + 2, e.edges[i as usize + 2]),
            (false, true) => BasisLoc::EdgeBs(j, e.edges[j as usize]),
            _ => BasisLoc::ElemBs,
        },
        _ => BasisLoc::ElemBs,
    };
    check_b("a basis function is attached to the right cell, edge or node", b.loc == want);
}
/// two functions on the common edge of two cells match exactly when they face each other with one tangential index
pub fn d04_match() {
    let s = pick("shape", &[1usize, 2]);
    let (m, _) = root(s);
    let hi = pick_tier(4, 7);
    let one = |name: &str, k: usize| {
        let (i, j) = (choice(&format!("i{}", name), hi) as u8, choice(&format!("j{}", name), hi) as u8);
        let dir = pick("dir", &[BasisDir::U, BasisDir::V, BasisDir::W]);
        BasisSpec::new(k, [i, j], dir, &m.elems[k], ContinuityCondition::HCurl)
    };
    let (a, b) = (one("a", 0), one("b", 1));
    if let (BasisLoc::EdgeBs(sa, ea), BasisLoc::EdgeBs(sb, eb)) = (a.loc, b.loc) {
        if ea != eb {
            return;
        }
        reach("facing");
        // tangential index along the edge
        let tang = |x: &BasisSpec, side: u8| if side < 2 { x.i } else { x.j };
        let want = a.dir == b.dir && sa != sb && tang(&a, sa) == tang(&b, sb);
        check_b("matching rule", a.matches_with_edge(&b) == want);
        check_b("matching is symmetric", b.matches_with_edge(&a) == want);
    }
}
/// index sets per direction
pub fn d04_perm() {
    let o = PolyOrders { ni: 1 + choice("ni", 20) as u8, nj: 1 + choice("nj", 20) as u8 };
    for (dir, iu, jv) in [(BasisDir::U, 0, 1), (BasisDir::V, 1, 0), (BasisDir::W, 1, 1)] {
        let got: Vec<[u8; 2]> = o.permutations(dir).collect();
        let set: BTreeSet<[u8; 2]> = got.iter().cloned().collect();
        let (a, b) = (o.ni as usize + iu, o.nj as usize + jv);
        check_b("index set of a direction", got.len() == a * b && set.len() == a * b && set.iter().all(|p| (p[0] as usize) < a && (p[1] as usize) < b));
    }
    check_b("orders as an array", o.as_array() == [o.ni as usize, o.nj as usize]);
    check_b("largest of two", o.max_with([7, 3]) == [o.ni.max(7), o.nj.max(3)]);
}
#[allow(dead_code)]
type Unused = BasisFnSampler<HierCurlBasisFn<HierPoly>>;

// ------------------------------------------------------------------ D05: the same steps give the same numbers
fn grow(g: &mut Grid, v: usize, rounds: usize, hi: [usize; 2]) -> Domain {
    let mut m = build(g, &[]);
    for r in 0..rounds {
        let mut req: Vec<(usize, HRef)> = leaves(&m).into_iter().filter(|e| (e + r + v) % (r + 2) != 0).map(|e| (e, KINDS[(e * 5 + r * 3 + v) % 7])).collect();
        // out of order
        req.reverse();
        let k = (v * 5 + r) % req.len().max(1);
        req.rotate_left(k);
        // (cells at the end of a thin chain may be refused: both times)
        let _ = m.execute_h_refinements(req);
    }
    for e in 0..m.elems.len() {
        let o = [1 + (e * 5 + v) % hi[0], 1 + (e * 3 + e / 7 + 2 * v) % hi[1]];
        put_orders(&mut m, e, [o[0] as u8, o[1] as u8]);
    }
    Domain::from_mesh(m, ContinuityCondition::HCurl)
}
fn numbers(d: &Domain) -> String {
    let mut s = String::new();
    for f in &d.dofs {
        s += &format!("F{} {:?}\n", f.id, f.get_basis_specs().iter().map(|a| (a.elem_id, a.elem_idx)).collect::<Vec<_>>());
    }
    for (e, l) in d.basis_specs.iter().enumerate() {
        for b in l {
            s += &format!("B{} {} {} {} {:?} {:?} {} {:?} {:?}\n", e, b.id, b.i, b.j, b.dir, b.loc, b.elem_id, b.elem_idx, b.dof_id);
        }
    }
    s
}
fn same_numbers(mut g: Grid, v: usize, rounds: usize, hi: [usize; 2]) {
    let a = grow(&mut g, v, rounds, hi);
    // other work in between leaves no trace
    if choice("between", 2) == 1 {
        // (far from the first, so that no coordinate of one can meet one of the other)
        let mut o = grid_c(1);
        for k in 0..o.xs.len() {
            o.xs[k] = o.xs[k] + c(50000.0);
        }
        for k in 0..o.ys.len() {
            o.ys[k] = o.ys[k] + c(90000.0);
        }
        let _ = grow(&mut o, v + 1, 2, [2, 3]);
    }
    let b = grow(&mut g, v, rounds, hi);
    check_b("the same steps give the same cells, edges and nodes", snapshot(&a.mesh) == snapshot(&b.mesh));
    if a.mesh.nodes.len() == b.mesh.nodes.len() {
        for n in 0..a.mesh.nodes.len() {
            let (p, q) = (pt(&a.mesh, n), pt(&b.mesh, n));
            check("the same steps put the nodes at the same places", and(vec![eq(p.x, q.x), eq(p.y, q.y)]));
        }
    }
    check_b("the same steps give the same degrees of freedom and basis functions", numbers(&a) == numbers(&b));
    // a copy of the finished mesh gives them too
    let again = Domain::from_mesh(a.mesh.clone(), ContinuityCondition::HCurl);
    check_b("a mesh that was used before gives the same degrees of freedom", numbers(&a) == numbers(&again));
    reach("twice");
}
pub fn d05() {
    let shape = pick_tier(&[0, 1, 3, 4][..], &[0, 1, 2, 3, 4, 6, 8][..]);
    let g = grid(pick("shape", shape));
    schedules(true);
    same_numbers(g, choice("pattern", pick_tier(21, 84)), choice("rounds", pick_tier(4, 5)), [3, 4]);
    schedules(false);
}
pub fn d05_large() {
    let g = crate::all::mesh::large_grid();
    same_numbers(g, choice("pattern", pick_tier(20, 60)), 2 + choice("rounds", pick_tier(2, 3)), [3, 5]);
}
