//! sampled fields, derived quantities and their VTK export
use crate::all::basis::{nref, tref};
use crate::all::util::*;
use crate::hx::*;
use fem_2d::fem_domain::basis::hierarchical_basis_fns::poly::HierPoly;
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::fields::{UniformFieldError, UniformFieldSpace};
use fem_2d::prelude::*;
use std::collections::BTreeMap;

/// a legacy VTK file, read token by token
struct Vtk {
    points: Vec<[R; 3]>,
    cells: Vec<Vec<usize>>,
    types: Vec<usize>,
    n_data: usize,
    data: Vec<(String, Vec<R>)>,
}
struct Tok<'a> {
    it: std::str::SplitWhitespace<'a>,
}
impl<'a> Tok<'a> {
    fn word(&mut self) -> Result<&'a str, String> {
        self.it.next().ok_or_else(|| "file ends early".to_string())
    }
    fn expect(&mut self, w: &str) -> Result<(), String> {
        let x = self.word()?;
        if x == w {
            Ok(())
        } else {
            Err(format!("{} expected", w))
        }
    }
    fn int(&mut self) -> Result<usize, String> {
        self.word()?.parse().map_err(|_| "count expected".to_string())
    }
    fn real(&mut self) -> Result<R, String> {
        parse_r(self.word()?).ok_or_else(|| "number expected".to_string())
    }
}
fn read_vtk(path: &str) -> Result<Vtk, String> {
    let text = std::fs::read_to_string(path).map_err(|_| "no file".to_string())?;
    let mut lines = text.splitn(3, '\n');
    let head = lines.next().unwrap_or("");
    if !head.starts_with("# vtk DataFile Version ") {
        return Err("not a VTK file".into());
    }
    if lines.next().map_or(true, |t| t.len() > 255) {
        return Err("title line".into());
    }
    let mut t = Tok { it: lines.next().unwrap_or("").split_whitespace() };
    t.expect("ASCII")?;
    t.expect("DATASET")?;
    t.expect("UNSTRUCTURED_GRID")?;
    t.expect("POINTS")?;
    let n = t.int()?;
    t.word()?;
    let mut points = vec![];
    for _ in 0..n {
        points.push([t.real()?, t.real()?, t.real()?]);
    }
    t.expect("CELLS")?;
    let nc = t.int()?;
    let size = t.int()?;
    let mut cells = vec![];
    let mut used = 0;
    for _ in 0..nc {
        let k = t.int()?;
        used += k + 1;
        cells.push((0..k).map(|_| t.int()).collect::<Result<Vec<_>, _>>()?);
    }
    if used != size {
        return Err("cell list size".into());
    }
    t.expect("CELL_TYPES")?;
    let nt = t.int()?;
    let types = (0..nt).map(|_| t.int()).collect::<Result<Vec<_>, _>>()?;
    t.expect("POINT_DATA")?;
    let n_data = t.int()?;
    let mut data = vec![];
    while let Some(w) = t.it.next() {
        if w != "SCALARS" {
            return Err("SCALARS expected".into());
        }
        let name = t.word()?.to_string();
        t.word()?;
        if t.word()? == "1" {
            t.expect("LOOKUP_TABLE")?;
        }
        t.word()?;
        let v = (0..n_data).map(|_| t.real()).collect::<Result<Vec<_>, _>>()?;
        data.push((name, v));
    }
    Ok(Vtk { points, cells, types, n_data, data })
}
fn out_file() -> String {
    let f = format!("{}/out.vtk", scratch());
    let _ = std::fs::remove_file(&f);
    f
}
fn export(s: &UniformFieldSpace, names: &[&str]) -> Option<Vtk> {
    let f = out_file();
    let r = catch(|| s.print_quantities_to_vkt(&f, names.iter().map(|n| n.to_string()).collect()).is_ok());
    check_b("known quantities are written", r == Ok(true));
    match read_vtk(&f) {
        Ok(v) => Some(v),
        Err(e) => {
            check_b(&format!("the written file reads as an unstructured grid ({})", e), false);
            None
        }
    }
}
fn values(v: &Vtk, name: &str) -> Option<Vec<R>> {
    let hit: Vec<_> = v.data.iter().filter(|d| d.0 == name).collect();
    check_b("every requested quantity is written once", hit.len() == 1);
    hit.first().map(|d| d.1.clone())
}

/// refined mesh with its model; symbolic or concrete coordinates
fn some_mesh(sym: bool, depth: usize, shapes: &[usize], kinds: &[HRef]) -> (Mesh, Grid, Tree) {
    let sh = pick("shape", shapes);
    let (mut m, g) = if sym { root_any(sh) } else { root_c(sh) };
    let mut t = Tree::new(g.cells.len());
    for _ in 0..depth {
        let l = t.leaves();
        let e = l[choice("leaf", l.len().min(pick_tier(3, 6)))];
        let k = pick("kind", kinds);
        m.execute_h_refinements(vec![(e, k)]).unwrap();
        t.one(e, k);
    }
    (m, g, t)
}
/// sample position k of n, on [-1, 1]
fn at(k: usize, n: usize) -> f64 {
    -1.0 + 2.0 * k as f64 / (n as f64 - 1.0)
}
const DENS: [[usize; 2]; 5] = [[2, 3], [3, 2], [2, 2], [4, 2], [2, 5]];

/// the values of the x and y fields
pub fn f01() {
    let depth = choice("depth", pick_tier(3, 4));
    let (mut m, g, t) = some_mesh(true, depth, &[0, 1, 2], &[HRef::T, HRef::U(None), HRef::V(Some(0))]);
    let o = pick("orders", pick_tier(&[[2u8, 1], [2, 3]][..], &[[1, 1], [2, 1], [2, 3], [4, 3]][..]));
    for e in 0..m.elems.len() {
        let s = (e % 2) as u8;
        put_orders(&mut m, e, [o[0] + s, o[1] + if e % 3 == 0 { 1 } else { 0 }]);
    }
    let ids: Vec<usize> = (0..t.cells.len()).collect();
    field_check(m, &g, &t, &ids, pick("dens", pick_tier(&DENS[..2], &DENS[..])));
}
fn field_check(m: Mesh, g: &Grid, t: &Tree, ids: &[usize], dens: [usize; 2]) {
    let dom = Domain::from_mesh(m, ContinuityCondition::HCurl);
    let n = dom.dofs.len();
    // one symbolic weight per degree of freedom, so that no two contributions can stand in for each other
    let sol: Vec<R> = (0..n).map(|k| var(&format!("s{}", k), -8.0, 8.0)).collect();
    let mut sp = UniformFieldSpace::new(&dom, dens);
    let wrong = sol.iter().cloned().chain(vec![c(1.0)]).collect::<Vec<_>>();
    check_b("a solution of the wrong length is refused", matches!(sp.xy_fields::<HierPoly>("w", wrong), Err(UniformFieldError::MismatchedSolutionSize(a, b)) if a == n && b == n + 1));
    if n > 0 {
        check_b("a solution of the wrong length is refused", sp.xy_fields::<HierPoly>("w", sol[1..].to_vec()).is_err());
    }
    let names = sp.xy_fields::<HierPoly>("E", sol.clone()).expect("a solution of the right length was refused");
    check_b("the quantities carry the requested name", names[0] == "E_x" && names[1] == "E_y");
    let Some(v) = export(&sp, &["E_x", "E_y"]) else { return };
    let (Some(xs), Some(ys)) = (values(&v, "E_x"), values(&v, "E_y")) else { return };
    let lv = leaves_by_id(t, ids);
    check_b("one value per sample point", xs.len() == lv.len() * dens[0] * dens[1]);
    if xs.len() != lv.len() * dens[0] * dens[1] {
        return;
    }
    let two = c(2.0);
    let mut at_ = 0;
    for &l in &lv {
        let mut chain = vec![l];
        while let Some(p) = t.cells[*chain.last().unwrap()].parent {
            chain.push(p)
        }
        let r = model_rect(g, t, *chain.last().unwrap());
        let hw = [(r[0][1] - r[0][0]) / two, (r[1][1] - r[1][0]) / two];
        let bl = t.cells[l].b;
        for a in 0..dens[0] {
            for b in 0..dens[1] {
                let loc = [at(a, dens[0]), at(b, dens[1])];
                let (mut fx, mut fy) = (c(0.0), c(0.0));
                for &e in &chain {
                    let be = t.cells[e].b;
                    let mut q = [0.0; 2];
                    let mut rel = [0.0; 2];
                    for k in 0..2 {
                        let w = (be[k][1] - be[k][0]) as f64;
                        q[k] = ((bl[k][1] - bl[k][0]) as f64 * loc[k] + (bl[k][1] + bl[k][0]) as f64 - (be[k][1] + be[k][0]) as f64) / w;
                        rel[k] = UNIT as f64 / w;
                    }
                    for bs in dom.local_basis_specs(ids[e]).unwrap() {
                        let (i, j, s) = (bs.i as usize, bs.j as usize, sol[bs.dof_id.unwrap()]);
                        match bs.dir {
                            BasisDir::U => fx = fx + s * c(rel[0]) * nref(i, 0, c(q[0])) * tref(j, 0, c(q[1])),
                            BasisDir::V => fy = fy + s * c(rel[1]) * tref(i, 0, c(q[0])) * nref(j, 0, c(q[1])),
                            _ => (),
                        }
                    }
                }
                if chain.len() > 1 {
                    reach("inherited");
                }
                check_eq("the x field is the sum of the weighted basis functions", xs[at_] * hw[0], fx);
                check_eq("the y field is the sum of the weighted basis functions", ys[at_] * hw[1], fy);
                at_ += 1;
            }
        }
    }
    reach("sampled");
}
/// the field is linear in the solution, and evaluating one field leaves another alone
pub fn f01_linear() {
    let depth = choice("depth", 2);
    let (mut m, _, t) = some_mesh(false, depth, &[0, 1], &[HRef::T, HRef::V(None)]);
    for e in 0..m.elems.len() {
        put_orders(&mut m, e, [3, 3]);
    }
    let dom = Domain::from_mesh(m, ContinuityCondition::HCurl);
    let n = dom.dofs.len();
    let a: Vec<R> = (0..n).map(|k| var(&format!("a{}", k), -8.0, 8.0)).collect();
    let b: Vec<R> = (0..n).map(|k| var(&format!("b{}", k), -8.0, 8.0)).collect();
    let f = var("f", -4.0, 4.0);
    let dens = [3, 2];
    let mut sp = UniformFieldSpace::new(&dom, dens);
    sp.xy_fields::<HierPoly>("A", a.clone()).unwrap();
    sp.xy_fields::<HierPoly>("B", b.clone()).unwrap();
    sp.xy_fields::<HierPoly>("C", (0..n).map(|k| a[k] * f + b[k]).collect()).unwrap();
    // the same name again: the newer one counts
    sp.xy_fields::<HierPoly>("D", a.clone()).unwrap();
    sp.xy_fields::<HierPoly>("D", b.clone()).unwrap();
    let Some(v) = export(&sp, &["A_x", "B_x", "C_x", "A_y", "B_y", "C_y", "D_x", "D_y"]) else { return };
    let get = |n: &str| values(&v, n).unwrap_or_default();
    for d in ["x", "y"] {
        let (va, vb, vc, vd) = (get(&format!("A_{}", d)), get(&format!("B_{}", d)), get(&format!("C_{}", d)), get(&format!("D_{}", d)));
        let want = t.leaves().len() * 6;
        check_b("one value per sample point", [&va, &vb, &vc, &vd].iter().all(|x| x.len() == want));
        for k in 0..va.len().min(vb.len()).min(vc.len()).min(vd.len()) {
            check_eq("fields superpose", vc[k], va[k] * f + vb[k]);
            check_eq("a field computed again replaces the old one", vd[k], vb[k]);
        }
        if SYMBOLIC && va.iter().any(|x| val(*x).is_none()) {
            reach("not zero");
        }
    }
    reach("superposed");
}
/// points, cells and their attachment
pub fn f02() {
    let depth = choice("depth", pick_tier(3, 4));
    let (m, g, t) = some_mesh(true, depth, &[0, 1, 4], &[HRef::T, HRef::U(None), HRef::V(None), HRef::U(Some(1))]);
    let ids: Vec<usize> = (0..t.cells.len()).collect();
    file_check(m, &g, &t, &ids, pick("dens", &DENS));
}
/// leaf cells of the model in the order of their ids in the mesh
fn leaves_by_id(t: &Tree, ids: &[usize]) -> Vec<usize> {
    let mut v = t.leaves();
    v.sort_by_key(|e| ids[*e]);
    v
}
fn file_check(m: Mesh, g: &Grid, t: &Tree, ids: &[usize], dens: [usize; 2]) {
    let dom = Domain::from_mesh(m, ContinuityCondition::HCurl);
    let mut sp = UniformFieldSpace::new(&dom, dens);
    let sol: Vec<R> = (0..dom.dofs.len()).map(|k| c(1.0 + k as f64)).collect();
    sp.xy_fields::<HierPoly>("E", sol).unwrap();
    let f = out_file();
    let all = choice("all", 2) == 1;
    let v = if all {
        check_b("all quantities are written", sp.print_all_to_vtk(&f).is_ok());
        match read_vtk(&f) {
            Ok(v) => v,
            Err(e) => return check_b(&format!("the written file reads as an unstructured grid ({})", e), false),
        }
    } else {
        let names: &[&str] = pick("names", &[&["E_y", "E_x"][..], &["E_x"][..], &[][..]]);
        let Some(v) = export(&sp, names) else { return };
        check_b("the quantities appear in the requested order", v.data.iter().map(|d| d.0.as_str()).eq(names.iter().cloned()));
        v
    };
    if all {
        let mut k: Vec<_> = v.data.iter().map(|d| d.0.clone()).collect();
        k.sort();
        check_b("every quantity is written", k == ["E_x", "E_y"]);
    }
    let lv = leaves_by_id(t, ids);
    let [nx, ny] = dens;
    let np = nx * ny * lv.len();
    check_b("one point per sample, one value per point", v.points.len() == np && v.n_data == np);
    if v.points.len() != np {
        return;
    }
    // where the values of sample (a, b) of leaf l are stored: x outer, y inner, leaves by id
    for (k, &l) in lv.iter().enumerate() {
        let r = model_rect(g, t, l);
        for a in 0..nx {
            for b in 0..ny {
                let p = v.points[(k * nx + a) * ny + b];
                let f = |q: [R; 2], s: f64| q[0] + (q[1] - q[0]) * c((s + 1.0) / 2.0);
                check("points sit where the samples are taken", and(vec![eq(p[0], f(r[0], at(a, nx))), eq(p[1], f(r[1], at(b, ny))), eq(p[2], c(0.0))]));
            }
        }
    }
    check_b("number of cells", v.cells.len() == (nx - 1) * (ny - 1) * lv.len() && v.types.len() == v.cells.len());
    check_b("cells are quadrilaterals", v.types.iter().all(|t| *t == 9) && v.cells.iter().all(|x| x.len() == 4));
    // every cell is one patch of the sample grid of one leaf, walked around its rim; every patch once
    let mut seen: BTreeMap<(usize, usize, usize), usize> = BTreeMap::new();
    for q in &v.cells {
        let pos: Vec<(usize, usize, usize)> = q.iter().filter(|i| **i < np).map(|i| (i / (nx * ny), i % (nx * ny) / ny, i % ny)).collect();
        if pos.len() != 4 {
            check_b("cells refer to existing points", false);
            continue;
        }
        let (l, a, b) = (pos[0].0, pos.iter().map(|p| p.1).min().unwrap(), pos.iter().map(|p| p.2).min().unwrap());
        let rim = [(l, a, b), (l, a + 1, b), (l, a + 1, b + 1), (l, a, b + 1)];
        let ok = (0..4).any(|s| (0..4).all(|i| pos[i] == rim[(s + i) % 4]) || (0..4).all(|i| pos[i] == rim[(s + 4 - i) % 4]));
        check_b("every cell is one patch of the sample grid, walked around its rim", ok);
        *seen.entry((l, a, b)).or_default() += 1;
    }
    check_b("every patch is covered exactly once", seen.len() == v.cells.len());
    reach("file compared");
}
/// many cells, many samples
fn large_fields() -> Option<(Mesh, Grid, Tree, Vec<usize>)> {
    let (mut m, g, t) = if choice("huge", 2) == 1 { crate::all::mesh::huge_to(4, &[]) } else { crate::all::mesh::large(0) };
    let ids = crate::all::mesh::link(&m, &t);
    if ids.is_empty() {
        return None;
    }
    for e in 0..m.elems.len() {
        put_orders(&mut m, e, [1 + (e % 3) as u8, 1 + (e / 2 % 2) as u8]);
    }
    Some((m, g, t, ids))
}
const DENS_L: [[usize; 2]; 4] = [[2, 17], [9, 4], [3, 8], [26, 2]];
pub fn f01_large() {
    let Some((m, g, t, ids)) = large_fields() else { return };
    field_check(m, &g, &t, &ids, pick("dens", &DENS_L));
}
pub fn f02_large() {
    let Some((m, g, t, ids)) = large_fields() else { return };
    file_check(m, &g, &t, &ids, pick("dens", &DENS_L));
}
/// derived quantities
pub fn f03() {
    let (mut m, _, t) = some_mesh(false, choice("depth", 2), &[0, 1], &[HRef::T, HRef::U(None)]);
    for e in 0..m.elems.len() {
        put_orders(&mut m, e, [2, 2]);
    }
    let dom = Domain::from_mesh(m, ContinuityCondition::HCurl);
    let n = dom.dofs.len();
    let sol: Vec<R> = (0..n).map(|k| var(&format!("s{}", k), -8.0, 8.0)).collect();
    let dens = pick("dens", &[[2usize, 3], [3, 2]]);
    let mut sp = UniformFieldSpace::new(&dom, dens);
    let [xn, yn] = sp.xy_fields::<HierPoly>("E", sol).unwrap();
    let k = var("k", -4.0, 4.0);
    let mut model: BTreeMap<String, Vec<R>> = BTreeMap::new();
    {
        let Some(v) = export(&sp, &[&xn, &yn]) else { return };
        for d in v.data {
            model.insert(d.0, d.1);
        }
    }
    let want = t.leaves().len() * 6;
    check_b("one value per sample point", model.len() == 2 && model.values().all(|v| v.len() == want));
    // a short program of derivations, overwriting and refusals included
    for s in 0..pick_tier(2, 3) {
        let names: Vec<String> = model.keys().cloned().chain(vec!["none".to_string()]).collect();
        let a = pick("a", &names);
        let to = pick("to", &["E_x".to_string(), "Q".to_string(), "R".to_string()]);
        match choice("op", 3) {
            0 => {
                let r = sp.map_to_quantity(&a, &to, |x| *x * k + c(2.0));
                match model.get(&a).cloned() {
                    Some(v) => {
                        check_b("mapping a known quantity succeeds", r.is_ok());
                        model.insert(to, v.iter().map(|x| *x * k + c(2.0)).collect());
                        reach("mapped");
                    }
                    None => {
                        check_b("mapping an unknown quantity is refused", matches!(r, Err(UniformFieldError::MissingQuantity(q)) if q == a));
                        reach("refused");
                    }
                }
            }
            _ => {
                let b = pick("b", &names);
                // not symmetric in its arguments
                let r = sp.expression_2arg([&a, &b], &to, |x, y| x * k - y);
                match (model.get(&a).cloned(), model.get(&b).cloned()) {
                    (Some(v), Some(w)) => {
                        check_b("combining known quantities succeeds", r.is_ok());
                        model.insert(to, v.iter().zip(&w).map(|(x, y)| *x * k - *y).collect());
                        reach("combined");
                    }
                    (p, _) => {
                        let bad = if p.is_none() { &a } else { &b };
                        check_b("combining an unknown quantity is refused", matches!(r, Err(UniformFieldError::MissingQuantity(q)) if q == *bad));
                        reach("refused");
                    }
                }
            }
        }
        let _ = s;
    }
    let names: Vec<String> = model.keys().cloned().collect();
    let Some(v) = export(&sp, &names.iter().map(|s| s.as_str()).collect::<Vec<_>>()) else { return };
    for nm in &names {
        let Some(got) = values(&v, nm) else { continue };
        check_b("one value per sample point", got.len() == want);
        for (x, y) in got.iter().zip(&model[nm]) {
            check_eq("derived quantities hold the pointwise result", *x, *y);
        }
    }
    // what is not there cannot be written, and no file appears in its place
    let f = out_file();
    check_b("writing an unknown quantity is refused", sp.print_quantities_to_vkt(&f, vec![xn.clone(), "none".into()]).is_err());
    check_b("a refused export writes nothing", !std::path::Path::new(&f).exists());
    let all = sp.print_all_to_vtk(&f).is_ok();
    let cnt = read_vtk(&f).map(|v| v.data.len()).unwrap_or(0);
    check_b("writing everything covers exactly the known quantities", all && cnt == model.len());
    reach("compared");
}
/// lists of quantities: any order, any length, an unknown one anywhere
pub fn f02_select() {
    let (m, _) = root_c(1);
    let dom = Domain::from_mesh(m, ContinuityCondition::HCurl);
    let mut sp = UniformFieldSpace::new(&dom, [2, 2]);
    let sol: Vec<R> = (0..dom.dofs.len()).map(|k| var(&format!("s{}", k), -4.0, 4.0)).collect();
    let [xn, yn] = sp.xy_fields::<HierPoly>("E", sol).unwrap();
    let mut names = vec![xn, yn];
    for k in 0..4 {
        let n = ["A", "Zz", "b_c", "Q9"][k].to_string();
        let from = names[k % 2].clone();
        check_b("mapping a known quantity succeeds", sp.map_to_quantity(&from, &n, |x| *x * c(0.5 * (k + 1) as f64) + c(k as f64)).is_ok());
        names.push(n);
    }
    let len = 1 + choice("len", 6);
    let (start, way) = (choice("start", 6), choice("way", 2));
    let mut list: Vec<String> = (0..len).map(|k| names[if way == 0 { (start + k) % 6 } else { (start + 6 - k) % 6 }].clone()).collect();
    let unknown = choice("unknown", len + 2);
    let known = list.clone();
    if unknown <= len {
        list.insert(unknown, "none".into());
    }
    let f = out_file();
    let old = choice("old file", 2) == 1;
    if old {
        std::fs::write(&f, "older").unwrap();
    }
    let r = catch(|| sp.print_quantities_to_vkt(&f, list.clone()).is_ok());
    check_b("a list is written exactly if it names known quantities only", r == Ok(unknown > len));
    if unknown <= len {
        let now = std::fs::read_to_string(&f).ok();
        check_b("a refused export writes nothing", now.as_deref() == if old { Some("older") } else { None });
        return reach("refused list");
    }
    match read_vtk(&f) {
        Ok(v) => {
            check_b("the file holds exactly the named quantities", {
                let mut a: Vec<&String> = v.data.iter().map(|d| &d.0).collect();
                let mut b: Vec<&String> = known.iter().collect();
                a.sort();
                b.sort();
                a == b
            });
            let find = |n: &str| v.data.iter().find(|d| d.0 == n).map(|d| d.1.clone());
            // the values of each mapped quantity against its source, when both were asked for
            for k in 0..4 {
                if let (Some(x), Some(y)) = (find(&names[k % 2]), find(&names[2 + k])) {
                    check_b("one value per point", x.len() == v.points.len() && y.len() == v.points.len());
                    for (x, y) in x.iter().zip(&y) {
                        check("each name holds its own values", and(vec![le(*y - (*x * c(0.5 * (k + 1) as f64) + c(k as f64)), c(1e-9)), ge(*y - (*x * c(0.5 * (k + 1) as f64) + c(k as f64)), c(-1e-9))]));
                    }
                }
            }
            reach("list written");
        }
        Err(e) => check_b(&format!("the written file reads as an unstructured grid ({})", e), false),
    }
}
/// a path that cannot be written is an error
pub fn f02_path() {
    let (m, _) = root_c(choice("shape", 2));
    let dom = Domain::from_mesh(m, ContinuityCondition::HCurl);
    let sp = UniformFieldSpace::new(&dom, [2, 2]);
    let r = catch(|| sp.print_all_to_vtk(format!("{}/missing/dir/x.vtk", scratch())).is_err());
    check_b("a path that cannot be written is an error", r == Ok(true));
    if full_device() {
        let r = catch(|| sp.print_all_to_vtk("/dev/full").is_err());
        check_b("a device without space is an error", r == Ok(true));
    }
    reach("unwritable");
}
