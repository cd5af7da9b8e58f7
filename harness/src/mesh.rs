//! refinement histories: geometry, connectivity, navigation, active edges, boundary, requests
use crate::all::util::*;
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::fem_domain::domain::mesh::MIN_EDGE_LENGTH;
use fem_2d::prelude::*;
use crate::hx::*;
use std::collections::{BTreeMap, BTreeSet};

/// model cell -> element id, following child lists in position order
pub fn link(m: &Mesh, t: &Tree) -> Vec<usize> {
    let mut id = vec![usize::MAX; t.cells.len()];
    for (k, cl) in t.cells.iter().enumerate() {
        if cl.parent.is_none() {
            id[k] = cl.root;
        }
        let e = id[k];
        let got = m.elems[e].child_ids().map(|v| v.to_vec()).unwrap_or_default();
        check_b("child count of every cell", got.len() == cl.kids.len());
        check_b("has_children agrees with the child list", m.elems[e].has_children() == !cl.kids.is_empty());
        if got.len() != cl.kids.len() {
            // nothing below can be compared
            return vec![];
        }
        for (a, b) in cl.kids.iter().zip(got) {
            check_b("child id in range", b < m.elems.len());
            if b >= m.elems.len() {
                return vec![];
            }
            id[*a] = b;
        }
    }
    check_b("number of cells", m.elems.len() == t.cells.len());
    if m.elems.len() != t.cells.len() {
        return vec![];
    }
    let set: BTreeSet<usize> = id.iter().cloned().collect();
    check_b("every cell appears once", set.len() == t.cells.len());
    id
}
/// a history: up to `depth` requests; each refines one or several leaves
pub fn history(shape: usize, depth: usize, kinds: &[HRef]) -> (Mesh, Grid, Tree) {
    let (mut m, g) = root_any(shape);
    let mut t = Tree::new(g.cells.len());
    grow(&mut m, &mut t, depth, kinds);
    (m, g, t)
}
pub fn grow(m: &mut Mesh, t: &mut Tree, depth: usize, kinds: &[HRef]) {
    for _ in 0..depth {
        let l = t.leaves();
        let n = choice("leaf", l.len());
        let k = pick("kind", kinds);
        let ids = link(m, t);
        if ids.is_empty() {
            return;
        }
        let r = m.execute_h_refinements(vec![(ids[l[n]], k)]);
        check_b("an eligible cell can be refined", r.is_ok());
        t.one(l[n], k);
    }
}
pub fn geometry(m: &Mesh, g: &Grid, t: &Tree) {
    let ids = link(m, t);
    if ids.is_empty() {
        return;
    }
    reach("geometry compared");
    for (k, cl) in t.cells.iter().enumerate() {
        let e = &m.elems[ids[k]];
        let want = model_rect(g, t, k);
        for (n, (a, b)) in [(0, 0), (1, 0), (0, 1), (1, 1)].into_iter().enumerate() {
            let p = pt(m, e.nodes[n]);
            check("corner lies where the split puts it", and(vec![eq(p.x, want[0][a]), eq(p.y, want[1][b])]));
        }
        let pr = e.parametric_range();
        for d in 0..2 {
            for s in 0..2 {
                check_eq("reference-range of the cell", pr[d][s], fr(cl.b[d][s]) * c(2.0) - c(1.0));
            }
        }
        check_b("cell belongs to its root element", e.element.id == cl.root);
        let rn = [e.element.points[0], e.element.points[3]];
        let x = rn[0].x + (rn[1].x - rn[0].x) * (pr[0][0] + c(1.0)) / c(2.0);
        let y = rn[0].y + (rn[1].y - rn[0].y) * (pr[1][1] + c(1.0)) / c(2.0);
        check("reference-range maps onto the cell", and(vec![eq(x, want[0][0]), eq(y, want[1][1])]));
        let ep = m.elem_points(ids[k]).unwrap();
        let dp = m.elem_diag_points(ids[k]).unwrap();
        check("corner accessors", and(vec![eq(ep[1].x, want[0][1]), eq(ep[1].y, want[1][0]), eq(ep[2].x, want[0][0]), eq(ep[2].y, want[1][1]), eq(dp[0].x, want[0][0]), eq(dp[0].y, want[1][0]), eq(dp[1].x, want[0][1]), eq(dp[1].y, want[1][1])]));
    }
    // leaf areas add up to the root areas
    let mut area = vec![c(0.0); g.cells.len()];
    for k in t.leaves() {
        let r = rect(m, ids[k]);
        area[t.cells[k].root] = area[t.cells[k].root] + (r[0][1] - r[0][0]) * (r[1][1] - r[1][0]);
    }
    for (r, &(i, j)) in g.cells.iter().enumerate() {
        check_eq("leaf areas tile the root", area[r], (g.xs[i + 1] - g.xs[i]) * (g.ys[j + 1] - g.ys[j]));
    }
}
const SIDES: [(usize, usize); 4] = [(0, 1), (2, 3), (0, 2), (1, 3)];
pub fn connectivity(m: &Mesh) {
    reach("connectivity compared");
    for (i, e) in m.elems.iter().enumerate() {
        check_b("cell ids count up", e.id == i);
        for (s, (a, b)) in SIDES.into_iter().enumerate() {
            check_b("edge id in range", e.edges[s] < m.edges.len());
            let d = &m.edges[e.edges[s]];
            check_b("edge joins the corners of its side", d.nodes == [e.nodes[a], e.nodes[b]]);
            check_b("edge direction matches its side", d.dir == if s < 2 { ParaDir::U } else { ParaDir::V });
        }
    }
    for (i, d) in m.edges.iter().enumerate() {
        check_b("edge ids count up", d.id == i);
        let (p, q) = (pt(m, d.nodes[0]), pt(m, d.nodes[1]));
        let len = if d.dir == ParaDir::U { q.x - p.x } else { q.y - p.y };
        let off = if d.dir == ParaDir::U { q.y - p.y } else { q.x - p.x };
        check("edge is axis-parallel, ordered, with its length recorded", and(vec![eq(off, c(0.0)), gt(len, c(0.0)), eq(d.length, len)]));
        let ep = m.edge_points(i).unwrap();
        check("edge end accessor", and(vec![eq(ep[0].x, p.x), eq(ep[0].y, p.y), eq(ep[1].x, q.x), eq(ep[1].y, q.y)]));
        check_b("edge child flags agree", d.has_children() == d.child_ids().is_some() && d.has_children() == d.child_node_id().is_some());
        if let Some(k) = d.child_ids() {
            reach("split edge");
            let mn = d.child_node_id().unwrap();
            let mp = pt(m, mn);
            check("edge midpoint", and(vec![eq(mp.x, mid(p.x, q.x)), eq(mp.y, mid(p.y, q.y))]));
            check_b("edge halves", k.len() == 2 && m.edges[k[0]].nodes == [d.nodes[0], mn] && m.edges[k[1]].nodes == [mn, d.nodes[1]]);
            check_b("edge halves know their parent", k.iter().all(|x| m.edges[*x].parent_id() == Some(i) && m.edges[*x].dir == d.dir));
        }
        if let Some(pa) = d.parent_id() {
            check_b("parent edge lists the half", m.edges[pa].child_ids().map_or(false, |k| k.contains(&i)));
        }
    }
    let mut pairs = BTreeSet::new();
    for d in &m.edges {
        check_b("one edge per pair of nodes", pairs.insert(d.nodes));
    }
    for (i, n) in m.nodes.iter().enumerate() {
        check_b("node ids count up", n.id == i);
        // (on larger meshes by their places in the grid, see `border`)
        for o in m.nodes[..i].iter().take(if m.nodes.len() > 900 { 0 } else { i }) {
            check("no two nodes coincide", or(vec![ne(n.coords.x, o.coords.x), ne(n.coords.y, o.coords.y)]));
        }
    }
    let used: BTreeSet<usize> = m.elems.iter().flat_map(|e| e.nodes).collect();
    let used_e: BTreeSet<usize> = m.elems.iter().flat_map(|e| e.edges).collect();
    check_b("every node is a corner of some cell", used.len() == m.nodes.len());
    check_b("every edge is a side of some cell", used_e.len() == m.edges.len());
}
/// edges and nodes on the border of the domain, from the model alone
pub fn border(m: &Mesh, g: &Grid, t: &Tree) {
    let ids = link(m, t);
    if ids.is_empty() {
        return;
    }
    reach("border compared");
    let (w, h) = (g.nx as i64 * UNIT as i64, g.ny as i64 * UNIT as i64);
    let inside = |x: i64, y: i64| -> bool {
        // (x, y) in half-units
        if x < 0 || y < 0 || x >= 2 * w || y >= 2 * h {
            return false;
        }
        g.cells.contains(&((x / (2 * UNIT as i64)) as usize, (y / (2 * UNIT as i64)) as usize))
    };
    // where the edges and nodes are, in grid units
    let mut pos: BTreeMap<usize, (i64, i64)> = BTreeMap::new();
    for k in 0..t.cells.len() {
        let b = gbox(g, t, k);
        for (n, (a, d)) in [(0, 0), (1, 0), (0, 1), (1, 1)].into_iter().enumerate() {
            pos.insert(m.elems[ids[k]].nodes[n], (b[0][a] as i64, b[1][d] as i64));
        }
    }
    check_b("no two nodes coincide", pos.values().collect::<BTreeSet<_>>().len() == pos.len());
    for (n, &(x, y)) in &pos {
        let full = [(-1, -1), (1, -1), (-1, 1), (1, 1)].iter().all(|(dx, dy)| inside(2 * x + dx, 2 * y + dy));
        check_b("node border flag", m.nodes[*n].boundary == !full);
    }
    for d in &m.edges {
        let (Some(p), Some(q)) = (pos.get(&d.nodes[0]), pos.get(&d.nodes[1])) else { continue };
        let (mx, my) = (p.0 + q.0, p.1 + q.1);
        let both = if p.1 == q.1 { inside(mx, my - 1) && inside(mx, my + 1) } else { inside(mx - 1, my) && inside(mx + 1, my) };
        check_b("edge border flag", d.boundary == !both);
        check_b("edge on the border", d.is_boundary() == !both);
        if !both {
            reach("border edge");
            check_b("a border edge has no active pair", d.active_elem_pair().is_none());
        }
    }
}
pub fn navigation(m: &Mesh, t: &Tree) {
    let ids = link(m, t);
    if ids.is_empty() {
        return;
    }
    reach("navigation compared");
    let n = t.cells.len();
    let mut below = vec![BTreeSet::new(); n];
    for d in 0..n {
        let mut x = t.cells[d].parent;
        while let Some(p) = x {
            below[p].insert(ids[d]);
            x = t.cells[p].parent;
        }
    }
    for k in 0..n {
        let cl = &t.cells[k];
        let e = &m.elems[ids[k]];
        check_b("parent id", e.parent_id() == cl.parent.map(|p| ids[p]));
        check_b("refinement levels", [e.h_levels.u, e.h_levels.v] == cl.lev);
        let mut anc = vec![];
        let mut x = cl.parent;
        while let Some(p) = x {
            anc.push(ids[p]);
            x = t.cells[p].parent;
        }
        check_b("ancestor list, nearest first", m.ancestor_elems(ids[k], false).ok() == Some(anc.clone()));
        let mut a2 = anc.clone();
        a2.insert(0, ids[k]);
        check_b("ancestor list with the cell itself", m.ancestor_elems(ids[k], true).ok() == Some(a2));
        let st: Vec<usize> = e.loc_stack().iter().map(|x| x.0).collect();
        anc.reverse();
        check_b("position stack names the ancestors, root first", st == anc);
        let want = std::mem::take(&mut below[k]);
        for inc in [false, true] {
            let got = m.descendant_elems(ids[k], inc).unwrap_or_default();
            let set: BTreeSet<usize> = got.iter().cloned().collect();
            let mut w = want.clone();
            if inc {
                w.insert(ids[k]);
            }
            check_b("descendants, each once", set.len() == got.len() && set == w);
        }
        // positions relative to every ancestor
        let mut x = cl.parent;
        while let Some(p) = x {
            let rr = e.relative_parametric_range(ids[p]);
            let pb_ = t.cells[p].b;
            for d in 0..2 {
                let (o, len) = (pb_[d][0] as f64, (pb_[d][1] - pb_[d][0]) as f64);
                for s in 0..2 {
                    check_eq("range relative to an ancestor", rr[d][s], c(2.0 * (cl.b[d][s] as f64 - o) / len - 1.0));
                }
            }
            reach("relative range");
            x = t.cells[p].parent;
        }
    }
    check_b("unknown cell refused", m.descendant_elems(n, true).is_err() && m.ancestor_elems(n, true).is_err() && m.ancestor_elems(n + 7, false).is_err() && m.elem_points(n).is_err() && m.elem_diag_points(n).is_err() && m.elem_is_h_refineable(n).is_err());
    let mut below = vec![BTreeSet::new(); m.edges.len()];
    for j in 0..m.edges.len() {
        let mut x = m.edges[j].parent_id();
        while let Some(p) = x {
            below[p].insert(j);
            x = m.edges[p].parent_id();
        }
    }
    for i in 0..m.edges.len() {
        let w = std::mem::take(&mut below[i]);
        for inc in [false, true] {
            let mut w = w.clone();
            if inc {
                w.insert(i);
            }
            let got = m.descendant_edges(i, inc).unwrap_or_default();
            let set: BTreeSet<usize> = got.iter().cloned().collect();
            check_b("edge descendants, each once", set.len() == got.len() && set == w);
        }
    }
    for k in [m.edges.len(), m.edges.len() + 1, m.edges.len() + 40] {
        let r = catch(|| m.descendant_edges(k, true).is_err());
        check_b("unknown edge refused", r == Ok(true));
        check_b("unknown edge refused by the end accessor", catch(|| m.edge_points(k).is_err()) == Ok(true));
    }
}
/// which edges carry an active pair, and which cells form it
pub fn active(m: &Mesh, t: &Tree, g: &Grid) {
    let ids = link(m, t);
    if ids.is_empty() {
        return;
    }
    reach("active pairs compared");
    let mut cell_of = vec![0; t.cells.len()];
    for (k, e) in ids.iter().enumerate() {
        cell_of[*e] = k;
    }
    // cells by side: sides[edge][0] lie below/left of it, [1] above/right
    let mut sides: Vec<[Vec<usize>; 2]> = vec![[vec![], vec![]]; m.edges.len()];
    for k in 0..t.cells.len() {
        let e = &m.elems[ids[k]];
        for s in 0..4 {
            sides[e.edges[s]][if s % 2 == 1 { 0 } else { 1 }].push(k);
        }
    }
    let deepest = |v: &Vec<usize>| v.iter().cloned().find(|&a| v.iter().all(|&b| a == b || t.is_anc(b, a)));
    for (i, d) in m.edges.iter().enumerate() {
        let two = !sides[i][0].is_empty() && !sides[i][1].is_empty();
        // supported on both sides all the way down
        let halves = d.child_ids().map_or(false, |k| k.iter().all(|x| !sides[*x][0].is_empty() && !sides[*x][1].is_empty()));
        check_b("an edge is active exactly when both sides reach it and no finer pair replaces it", d.active_elem_pair().is_some() == (two && !halves));
        if let Some([a, b]) = d.active_elem_pair() {
            reach("active edge");
            check_b("active pair names cells", a < m.elems.len() && b < m.elems.len() && a != b);
            check_b("lower cell of the pair is the finest on its side", deepest(&sides[i][0]).map(|k| ids[k]) == Some(a));
            check_b("upper cell of the pair is the finest on its side", deepest(&sides[i][1]).map(|k| ids[k]) == Some(b));
            check_b("pair partners name each other", d.other_active_elem_id(a) == Some(b) && d.other_active_elem_id(b) == Some(a));
            let (ra, rb) = (rect(m, a), rect(m, b));
            let (p, q) = (pt(m, d.nodes[0]), pt(m, d.nodes[1]));
            let touch = if d.dir == ParaDir::U {
                and(vec![eq(ra[1][1], p.y), eq(rb[1][0], p.y), eq(ra[0][0], p.x), eq(ra[0][1], q.x), eq(rb[0][0], p.x), eq(rb[0][1], q.x)])
            } else {
                and(vec![eq(ra[0][1], p.x), eq(rb[0][0], p.x), eq(ra[1][0], p.y), eq(ra[1][1], q.y), eq(rb[1][0], p.y), eq(rb[1][1], q.y)])
            };
            check("both cells of the pair span the whole edge from opposite sides", touch);
        }
    }
    // every interior root-level edge is covered exactly once by active edges
    for (i, d) in m.edges.iter().enumerate() {
        if d.parent_id().is_some() || d.boundary {
            continue;
        }
        let mut stack = vec![(i, UNIT)];
        let mut sum = 0;
        let mut len = c(0.0);
        while let Some((x, l)) = stack.pop() {
            if m.edges[x].active_elem_pair().is_some() {
                sum += l;
                len = len + m.edges[x].length;
            }
            if let Some(k) = m.edges[x].child_ids() {
                stack.push((k[0], l / 2));
                stack.push((k[1], l / 2));
            }
        }
        check_b("active edges cover each interior interface once", sum == UNIT);
        check_eq("active edges cover each interior interface once, by length", len, d.length);
    }
    let _ = g;
}

// quick / thorough plans: (shape, depth)
const PLAN_Q: &[(usize, usize)] = &[(0, 3), (1, 3), (2, 3), (3, 2), (4, 2), (5, 1), (6, 1), (7, 1), (8, 1)];
const PLAN_T: &[(usize, usize)] = &[(0, 4), (1, 4), (2, 3), (3, 3), (4, 3), (5, 2), (6, 2), (7, 2), (8, 2)];
fn plan(q: &[(usize, usize)], th: &[(usize, usize)]) -> (usize, usize) {
    pick("plan", if tier_thorough() { th } else { q })
}
pub fn m01() {
    let (s, d) = plan(PLAN_Q, PLAN_T);
    let (m, g, t) = history(s, d, &KINDS);
    geometry(&m, &g, &t);
}
/// one cell after the other, to a greater depth
pub fn chain(depth: usize) -> (Mesh, Grid, Tree) {
    // scattered: the newest and the oldest leaf in turn; nested: always inside the newest one
    let nested = pick("nested", &[false, true]);
    let (mut m, g) = if nested { root(1) } else { root_any(1) };
    let mut t = Tree::new(2);
    for i in 0..depth {
        let l = t.leaves();
        let n = if nested || i % 2 == 0 { *l.last().unwrap() } else { l[0] };
        let k = if i < 3 {
            pick("kind", &KINDS)
        } else if nested {
            KINDS3[1 + i % 2]
        } else {
            KINDS[(i * 3) % 7]
        };
        let ids = link(&m, &t);
        if ids.is_empty() {
            break;
        }
        let r = m.execute_h_refinements(vec![(ids[n], k)]);
        check_b("an eligible cell can be refined", r.is_ok());
        t.one(n, k);
    }
    (m, g, t)
}
pub fn m01_chain() {
    let (m, g, t) = chain(pick_tier(12, 16));
    geometry(&m, &g, &t);
}
pub fn m02() {
    let (s, d) = plan(PLAN_Q, PLAN_T);
    let (m, _, t) = history(s, d, &KINDS);
    link(&m, &t);
    connectivity(&m);
}
pub fn m02_chain() {
    let (m, _, _) = chain(pick_tier(12, 16));
    connectivity(&m);
}
pub fn m03() {
    let (s, d) = plan(PLAN_Q, PLAN_T);
    let (m, _, t) = history(s, d, &KINDS);
    navigation(&m, &t);
}
pub fn m03_chain() {
    let (m, _, t) = chain(pick_tier(12, 16));
    navigation(&m, &t);
}
/// where a child of each kind lies in any range of its parent
pub fn m03_loc() {
    use fem_2d::fem_domain::domain::mesh::h_refinement::HRefLoc as L;
    let (a, b) = (var("a", -1.0, 1.0), var("b", -1.0, 1.0));
    let r = [[a, a + var("p", 0.01, 2.0)], [b, b + var("q", 0.01, 2.0)]];
    let mid = [0, 1].map(|k| (r[k][0] + r[k][1]) / c(2.0));
    // index, half in u, half in v
    let all = [(L::SW, 0, Some(0), Some(0)), (L::SE, 1, Some(1), Some(0)), (L::NW, 2, Some(0), Some(1)), (L::NE, 3, Some(1), Some(1)), (L::W, 0, Some(0), None), (L::E, 1, Some(1), None), (L::S, 0, None, Some(0)), (L::N, 1, None, Some(1))];
    for (l, i, u, v) in all {
        check_b("place of a child among its siblings", l.index() == i);
        let got = l.sub_range(r);
        for (k, half) in [u, v].into_iter().enumerate() {
            let want = match half {
                Some(0) => [r[k][0], mid[k]],
                Some(_) => [mid[k], r[k][1]],
                None => r[k],
            };
            check("part of a range taken by a child", and(vec![eq(got[k][0], want[0]), eq(got[k][1], want[1])]));
            let one = if k == 0 { l.sub_u_range(r[0]) } else { l.sub_v_range(r[1]) };
            check("part of a range taken by a child, by direction", and(vec![eq(one[0], want[0]), eq(one[1], want[1])]));
        }
    }
    reach("places");
}
/// children inherit orders and materials
pub fn m03_inherit() {
    let (mut g, mut mats) = (grid(1), vec![]);
    for k in 0..2 {
        mats.push([var(&format!("er{}", k), 1.0, 9.0), var(&format!("ei{}", k), -2.0, 2.0), var(&format!("mr{}", k), 1.0, 9.0), var(&format!("mi{}", k), -2.0, 2.0)]);
    }
    let mut m = build(&mut g, &mats);
    let mut t = Tree::new(2);
    let o = [[2u8, 5u8], [4, 3]];
    put_orders(&mut m, 0, o[0]);
    put_orders(&mut m, 1, o[1]);
    grow(&mut m, &mut t, 2, &KINDS);
    let ids = link(&m, &t);
    for (k, cl) in t.cells.iter().enumerate() {
        if ids.is_empty() {
            break;
        }
        let e = &m.elems[ids[k]];
        check_b("children inherit the expansion orders", [e.poly_orders.ni, e.poly_orders.nj] == o[cl.root]);
        let mt = e.get_materials();
        let w = mats[cl.root];
        check("children keep the materials of their root", and(vec![eq(mt.eps_rel.re, w[0]), eq(mt.eps_rel.im, w[1]), eq(mt.mu_rel.re, w[2]), eq(mt.mu_rel.im, w[3])]));
    }
    reach("inheritance compared");
}
pub fn m04() {
    let (s, d) = plan(PLAN_Q, PLAN_T);
    let (m, g, t) = history(s, d, &KINDS);
    active(&m, &t, &g);
}
/// two neighbours refined against each other, three or more steps per side
/// requests that refine several cells at once, twice in a row; the second starts from the cells the first one made
pub fn batch() -> (Mesh, Grid, Tree) {
    let unit = pick("unit", &[false, true]);
    let s = if unit { 0 } else { pick("shape", pick_tier(&[1usize, 2, 4][..], &[1, 2, 3, 4][..])) };
    let (mut m, g) = if unit {
        let x = vec![c(-1.0), c(1.0)];
        let g = Grid { nx: 1, ny: 1, cells: vec![(0, 0)], xs: x.clone(), ys: x, node_of: [((0, 0), 0), ((1, 0), 1), ((0, 1), 2), ((1, 1), 3)].into_iter().collect() };
        (Mesh::unit(), g)
    } else {
        root(s)
    };
    let mut t = Tree::new(g.cells.len());
    if unit {
        grow(&mut m, &mut t, 1, &KINDS);
    }
    for r in 0..2 {
        let l = t.leaves();
        let a = choice("first", l.len());
        let b = (a + 1 + choice("second", l.len() - 1)) % l.len();
        let (ka, kb) = if r == 0 { (pick("ka", &KINDS), pick("kb", &KINDS)) } else { pick("kk", &[(HRef::T, HRef::T), (HRef::U(None), HRef::V(None)), (HRef::V(Some(1)), HRef::T), (HRef::U(Some(0)), HRef::U(Some(1)))]) };
        let ids = link(&m, &t);
        if ids.is_empty() {
            return (m, g, t);
        }
        let ok = m.execute_h_refinements(vec![(ids[l[a]], ka), (ids[l[b]], kb)]).is_ok();
        check_b("eligible cells can be refined together", ok);
        t.request(&[(l[a], ka), (l[b], kb)].into_iter().collect());
    }
    (m, g, t)
}
pub fn m01_batch() {
    let (m, g, t) = batch();
    geometry(&m, &g, &t);
}
pub fn m02_batch() {
    let (m, g, t) = batch();
    connectivity(&m);
    border(&m, &g, &t);
}
pub fn m03_batch() {
    let (m, _, t) = batch();
    navigation(&m, &t);
}
pub fn m04_batch() {
    let (m, g, t) = batch();
    active(&m, &t, &g);
}
/// a grid of 18 cells and several whole-mesh rounds of requests: over a hundred cells, deep and shallow side by side
pub fn large_grid() -> Grid {
    let all: Vec<(usize, usize)> = (0..4).flat_map(|j| (0..5).map(move |i| (i, j))).filter(|x| *x != (4, 3) && *x != (1, 1)).collect();
    let (x0, y0) = (var("x0", 1.0, 4.0), var("y0", 1001.0, 1004.0));
    let (w, h) = (var("w", 0.5, 16.0), var("h", 0.5, 16.0));
    let xs = [0.0, 1.0, 2.5, 3.0, 5.0, 5.5].iter().map(|k| x0 + c(*k) * w).collect();
    let ys = [0.0, 0.5, 2.0, 3.0, 4.5].iter().map(|k| y0 + c(*k) * h).collect();
    Grid { nx: 5, ny: 4, cells: all, xs, ys, node_of: Default::default() }
}
pub fn large(rounds: usize) -> (Mesh, Grid, Tree) {
    large_with(rounds, &[], pick_tier(12, 40), 3)
}
pub fn large_with(rounds: usize, mats: &[[R; 4]], patterns: usize, more: usize) -> (Mesh, Grid, Tree) {
    let rounds = rounds + choice("more", more);
    rounds_on(large_grid(), rounds, mats, choice("pattern", patterns))
}
/// 297 root cells: ids beyond one byte everywhere
pub fn wide_grid() -> Grid {
    let all: Vec<(usize, usize)> = (0..15).flat_map(|j| (0..20).map(move |i| (i, j))).filter(|x| ![(19, 14), (7, 6), (8, 6)].contains(x)).collect();
    let (x0, y0) = (var("x0", 1.0, 4.0), var("y0", 1001.0, 1004.0));
    let (w, h) = (var("w", 0.5, 16.0), var("h", 0.5, 16.0));
    let xs = (0..=20).map(|k| x0 + c(k as f64 + 0.25 * (k % 3) as f64) * w).collect();
    let ys = (0..=15).map(|k| y0 + c(0.5 * k as f64 + 0.125 * (k % 2) as f64) * h).collect();
    Grid { nx: 20, ny: 15, cells: all, xs, ys, node_of: Default::default() }
}
/// hundreds of cells
pub fn huge(mats: &[[R; 4]]) -> (Mesh, Grid, Tree) {
    huge_to(pick_tier(5, 6), mats)
}
pub fn huge_to(rounds: usize, mats: &[[R; 4]]) -> (Mesh, Grid, Tree) {
    let v = choice("pattern", pick_tier(2, 8));
    if choice("wide", 2) == 0 {
        rounds_on(large_grid(), rounds, mats, v)
    } else {
        rounds_on(wide_grid(), pick_tier(1, 2), mats, v)
    }
}
fn rounds_on(mut g: Grid, rounds: usize, mats: &[[R; 4]], v: usize) -> (Mesh, Grid, Tree) {
    let mut m = build(&mut g, mats);
    let mut t = Tree::new(g.cells.len());
    for r in 0..rounds {
        let ids = link(&m, &t);
        if ids.is_empty() {
            return (m, g, t);
        }
        let mut req: Vec<(usize, HRef)> = t.leaves().into_iter().filter(|e| (e + r + v) % (r + 2) != 0).map(|e| (e, KINDS[(e * 5 + r * 3 + v) % 7])).collect();
        // out of order
        req.reverse();
        let k = (v * 5 + r) % req.len();
        req.rotate_left(k);
        let ok = m.execute_h_refinements(req.iter().map(|x| (ids[x.0], x.1)).collect()).is_ok();
        check_b("eligible cells can be refined together", ok);
        t.request(&req.into_iter().collect());
    }
    (m, g, t)
}
pub fn m01_huge() {
    let (m, g, t) = huge(&[]);
    geometry(&m, &g, &t);
    reach("huge");
}
/// a hundred thousand cells: ids beyond two bytes everywhere
pub fn vast() -> (Mesh, Grid, Tree) {
    rounds_on(large_grid(), 9, &[], choice("pattern", pick_tier(1, 4)))
}
pub fn m01_vast() {
    let (m, g, t) = vast();
    geometry(&m, &g, &t);
    reach("vast");
}
pub fn m02_vast() {
    let (m, g, t) = vast();
    connectivity(&m);
    border(&m, &g, &t);
    reach("vast");
}
pub fn m03_vast() {
    let (m, _, t) = vast();
    navigation(&m, &t);
    reach("vast");
}
pub fn m04_vast() {
    let (m, g, t) = vast();
    active(&m, &t, &g);
    reach("vast");
}
pub fn m02_huge() {
    let (m, g, t) = huge(&[]);
    connectivity(&m);
    border(&m, &g, &t);
    reach("huge");
}
pub fn m03_huge() {
    let (m, _, t) = huge(&[]);
    navigation(&m, &t);
    reach("huge");
}
pub fn m04_huge() {
    let (m, g, t) = huge(&[]);
    active(&m, &t, &g);
    reach("huge");
}
pub fn m01_large() {
    let (m, g, t) = large(3);
    geometry(&m, &g, &t);
    reach("large");
}
pub fn m02_large() {
    let (m, g, t) = large(3);
    connectivity(&m);
    border(&m, &g, &t);
    reach("large");
}
pub fn m03_large() {
    let (m, _, t) = large(3);
    navigation(&m, &t);
    reach("large");
}
pub fn m04_large() {
    let (m, g, t) = large(3);
    active(&m, &t, &g);
    reach("large");
}
pub fn m04_pair() {
    let s = pick("shape", &[1usize, 2]);
    let (mut m, g) = root(s);
    let mut t = Tree::new(2);
    // first refine both sides, then two free steps with the plain kinds
    for r in 0..2 {
        let k = pick("kind0", &KINDS3);
        let ids = link(&m, &t);
        let ok = !ids.is_empty() && m.execute_h_refinements(vec![(ids[r], k)]).is_ok();
        check_b("an eligible cell can be refined", ok);
        t.one(r, k);
    }
    grow(&mut m, &mut t, 2, &KINDS3);
    active(&m, &t, &g);
    // setting it up again through the domain leaves the same pairs
    let before: Vec<_> = m.edges.iter().map(|e| e.active_elem_pair()).collect();
    let dom = Domain::from_mesh(m, ContinuityCondition::HCurl);
    let after: Vec<_> = dom.mesh.edges.iter().map(|e| e.active_elem_pair()).collect();
    check_b("active pairs do not depend on when they are computed", before == after);
}
pub fn m04_chain() {
    let (m, g, t) = chain(pick_tier(12, 16));
    active(&m, &t, &g);
}
pub fn m05() {
    let (s, d) = plan(&[(0, 3), (1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (6, 1), (7, 1), (8, 1)], &[(0, 3), (1, 3), (2, 3), (3, 2), (4, 2), (5, 2), (6, 2), (7, 2), (8, 2)]);
    let (m, g, t) = history(s, d, &KINDS);
    border(&m, &g, &t);
}

// ------------------------------------------------------------------ requests
/// the whole request is refused and nothing changes, or all of it is carried out
fn atomic(m: &mut Mesh, f: impl FnOnce(&mut Mesh) -> Result<(), HRefError>, want_err: bool, label: &str) {
    let before = snapshot(m);
    let n0: Vec<(R, R)> = m.nodes.iter().map(|n| (n.coords.x, n.coords.y)).collect();
    match catch(|| f(m)) {
        Err(p) => check_b(&format!("{}: no panic ({})", label, p.split('@').next().unwrap_or("")), false),
        Ok(Ok(())) => check_b(&format!("{}: accepted only when every part is valid", label), !want_err),
        Ok(Err(_)) => {
            reach("refused request");
            check_b(&format!("{}: refused only when some part is invalid", label), want_err);
            check_b(&format!("{}: a refused request changes nothing", label), snapshot(m) == before);
            for (n, (x, y)) in m.nodes.iter().zip(n0) {
                check(&format!("{}: nodes stay put", label), and(vec![eq(n.coords.x, x), eq(n.coords.y, y)]));
            }
        }
    }
}
pub fn m06() {
    let (mut m, g) = root(1);
    let mut t = Tree::new(g.cells.len());
    grow(&mut m, &mut t, 1, &KINDS);
    let n = m.elems.len();
    // a request of up to three entries over every cell, including refined and unknown ones
    let len = 1 + choice("len", 3);
    let mut req = vec![];
    for i in 0..len {
        let e = choice("target", n + 1);
        let e = if e == n { pick("unknown", &[n, n + 1, 1000]) } else { e };
        let k = if i == 0 { pick("k", &[HRef::T, HRef::U(Some(1)), HRef::V(None)]) } else { pick("k", &[HRef::V(Some(0)), HRef::T]) };
        req.push((e, k));
    }
    let bad = req.iter().any(|(e, _)| *e >= n || m.elems[*e].has_children());
    atomic(&mut m, |m| m.execute_h_refinements(req.clone()), bad, "request list");
}
/// impossible child positions are refused as well
pub fn m06_index() {
    let (mut m, _) = root(1);
    let i = pick("i", &[2usize, 3, 4, 9, usize::MAX]);
    let k = pick("dir", &[HRef::U(Some(i)), HRef::V(Some(i))]);
    let mut req = vec![(0, k)];
    if choice("with", 2) == 1 {
        req.insert(choice("at", 2), (1, HRef::T));
    }
    atomic(&mut m, |m| m.execute_h_refinements(req), true, "child position");
    for x in 0..=255u8 {
        let (a, b) = (HRef::u_extened(x), HRef::v_extened(x));
        check_b("extended constructors", if x < 2 { a.ok() == Some(HRef::U(Some(x as usize))) && b.ok() == Some(HRef::V(Some(x as usize))) } else { a.is_err() && b.is_err() });
    }
}
/// id lists: duplicates, unknown and refined cells
pub fn m06_list() {
    let (mut m, _) = root(1);
    let k0 = pick("k0", &KINDS);
    m.h_refine_elems(vec![1], k0).unwrap();
    let n = m.elems.len();
    let len = choice("len", 4);
    let ids: Vec<usize> = (0..len).map(|_| choice("target", n + 2)).collect();
    let k = pick("k", &[HRef::T, HRef::U(Some(0)), HRef::V(None)]);
    let set: BTreeSet<usize> = ids.iter().cloned().collect();
    let bad = set.len() != ids.len() || ids.iter().any(|e| *e >= n || m.elems[*e].has_children());
    atomic(&mut m, |m| m.h_refine_elems(ids.clone(), k), bad, "id list");
    let dup = len >= 2 && choice("dup", 2) == 1;
    if dup {
        let mut again = ids.clone();
        again.push(ids[0]);
        atomic(&mut m, |m| m.h_refine_elems(again, k), true, "id list with a repeat");
    }
}
/// near the smallest allowed edge length
pub fn m07() {
    let lim = MIN_EDGE_LENGTH;
    let mut g = grid(0);
    let w = var("wm", 1.2e-5, 3.0e-4);
    let h = var("hm", 1.2e-5, 3.0e-4);
    g.xs[1] = g.xs[0] + w;
    g.ys[1] = g.ys[0] + h;
    let mut m = build(&mut g, &[]);
    for s in 0..pick_tier(2, 3) {
        let l = leaves(&m);
        let e = if s == 0 { 0 } else { pick("leaf", &[l[0], *l.last().unwrap()]) };
        let k = pick("kind", &KINDS);
        let first = m.edges.len();
        let before = snapshot(&m);
        let d: Vec<R> = (0..4).map(|i| m.edges[m.elems[e].edges[i]].length).collect();
        // all sides longer than the limit, and every new edge at least as long as the limit
        let two = c(2.0);
        let long = d.iter().all(|x| sgn(*x - c(1.0) * lim_r(lim)) > 0);
        let (hu, hv) = match k {
            HRef::T => (true, true),
            HRef::U(x) => (true, x.is_some()),
            HRef::V(x) => (x.is_some(), true),
        };
        let ext = matches!(k, HRef::U(Some(_)) | HRef::V(Some(_)));
        let mut ok = long;
        if ok && hu {
            let q = d[0] / two;
            ok = sgn(q - lim_r(lim)) >= 0;
        }
        if ok && hv {
            ok = sgn(d[2] / two - lim_r(lim)) >= 0;
        }
        // the second split starts from a child cell, which must be eligible itself
        if ok && ext {
            let q = if matches!(k, HRef::U(_)) { d[0] / two } else { d[2] / two };
            ok = sgn(q - lim_r(lim)) > 0;
        }
        match catch(|| m.execute_h_refinements(vec![(e, k)])) {
            Err(p) => check_b(&format!("split near the limit does not panic ({})", p.split('@').next().unwrap_or("")), false),
            Ok(Ok(())) => {
                reach("split allowed");
                check_b("split allowed only above the limit", ok);
                for x in &m.edges[first..] {
                    check("no edge shorter than the limit is created", ge(x.length, lim_r(lim)));
                }
            }
            Ok(Err(_)) => {
                reach("split refused");
                check_b("split refused only at the limit", !ok);
                check_b("a refused split changes nothing", snapshot(&m) == before);
                return;
            }
        }
    }
}
/// two cells in one request, one of them near the limit in one direction
pub fn m07_two() {
    let ax = choice("axis", 2);
    let lim = lim_r(MIN_EDGE_LENGTH);
    let mut g = grid(1 + ax);
    let w = var("wm", 1.2e-5, 3.0e-4);
    // the thin cell is the first or the second one
    let thin = choice("thin", 2);
    let z = if ax == 0 { &mut g.xs } else { &mut g.ys };
    if thin == 1 {
        z[2] = z[1] + w;
    } else {
        let d = z[2] - z[1];
        z[1] = z[0] + w;
        z[2] = z[1] + d;
    }
    let mut m = build(&mut g, &[]);
    let pre = choice("pre", pick_tier(3, 5));
    let (mut a, b) = (1 - thin, thin);
    if pre > 0 {
        m.execute_h_refinements(vec![(a, [HRef::T, HRef::V(None), HRef::U(None), HRef::U(Some(1))][pre - 1])]).unwrap();
        a = *leaves(&m).last().unwrap();
    }
    // splits across the thin direction, with an extension or without
    let need = |k: HRef| match (k, ax) {
        (HRef::T, _) | (HRef::U(None), 0) | (HRef::V(None), 1) => 1,
        (HRef::U(None), _) | (HRef::V(None), _) => 0,
        (HRef::U(_), 0) | (HRef::V(_), 1) => 2,
        _ => 1,
    };
    let (ka, kb) = (pick("ka", &[HRef::T, HRef::U(Some(0)), HRef::V(None)]), pick("kb", &KINDS));
    let fits = |k: HRef| match need(k) {
        0 => sgn(w - lim) > 0,
        1 => sgn(w - lim) > 0 && sgn(w / c(2.0) - lim) >= 0,
        _ => sgn(w / c(2.0) - lim) > 0,
    };
    let mode = choice("mode", 4);
    if mode == 3 {
        // one kind for a list of cells
        let ok = fits(kb);
        let ids = if choice("rot", 2) == 0 { vec![a, b] } else { vec![b, a] };
        atomic(&mut m, |m| m.h_refine_elems(ids, kb), !ok, "list with a thin cell");
    } else {
        let req = match mode {
            0 => vec![(a, ka), (b, kb)],
            1 => vec![(b, kb), (a, ka)],
            _ => vec![(a, HRef::V(None)), (b, kb), (a, HRef::U(None))],
        };
        let ok = fits(kb);
        let first = m.edges.len();
        atomic(&mut m, |m| m.execute_h_refinements(req), !ok, "request with a thin cell");
        for x in &m.edges[first..] {
            check("no edge shorter than the limit is created", ge(x.length, lim));
        }
        if ok {
            reach("thin cell refined");
            connectivity(&m);
        }
    }
}
/// whole-mesh refinement of cells near the limit: every cell reported as eligible is refined
pub fn m07_whole() {
    let mut g = grid(0);
    let (w, h) = (var("wm", 1.2e-5, 3.0e-4), var("hm", 1.2e-5, 3.0e-4));
    g.xs[1] = g.xs[0] + w;
    g.ys[1] = g.ys[0] + h;
    let mut m = build(&mut g, &[]);
    let k = pick("kind", &KINDS);
    // the split, and the second one of an extended request, can be completed
    let lim = lim_r(MIN_EDGE_LENGTH);
    let two = c(2.0);
    let fits = match k {
        HRef::T => sgn(w / two - lim) >= 0 && sgn(h / two - lim) >= 0,
        HRef::U(None) => sgn(w / two - lim) >= 0,
        HRef::V(None) => sgn(h / two - lim) >= 0,
        HRef::U(_) => sgn(w / two - lim) > 0 && sgn(h / two - lim) >= 0,
        HRef::V(_) => sgn(h / two - lim) > 0 && sgn(w / two - lim) >= 0,
    };
    let can = m.elem_is_h_refineable(0).unwrap();
    let before = snapshot(&m);
    let r = if choice("filter", 2) == 0 { catch(|| m.global_h_refinement(k)) } else { catch(|| m.h_refine_with_filter(|_| Some(k))) };
    if can && !fits {
        check_b("whole-mesh refinement over a cell that is eligible but too short to split ends without a panic", r.is_ok());
        return;
    }
    check_b("whole-mesh refinement ends without a panic", r.is_ok());
    if r.is_ok() {
        reach(if can { "whole refined" } else { "whole skipped" });
        check_b("whole-mesh refinement refines exactly the eligible cells", if can { m.elems[0].has_children() } else { snapshot(&m) == before });
        for x in m.edges.iter().skip(4) {
            check("no edge shorter than the limit is created", ge(x.length, lim_r(MIN_EDGE_LENGTH)));
        }
    }
}
pub fn lim_r(x: impl Into<R>) -> R {
    x.into()
}

// ------------------------------------------------------------------ combination of requests
/// leaf boxes as a set: geometry only, whatever the ids
fn leaf_rects(m: &Mesh) -> Vec<[[R; 2]; 2]> {
    leaves(m).into_iter().map(|e| rect(m, e)).collect()
}
fn same_leaves(label: &str, a: &Mesh, b: &Mesh) {
    let (x, y) = (leaf_rects(a), leaf_rects(b));
    check_b(&format!("{}: same number of leaf cells", label), x.len() == y.len());
    for r in &x {
        check(&format!("{}: same leaf cells", label), or(y.iter().map(|q| eq_rect(*r, *q)).collect()));
    }
}
/// every pair of points separated by a split of `k` alone is separated in `m` too: each leaf of m lies inside one leaf of k's split
fn refines(label: &str, m: &Mesh, root: usize, cuts: &[[[R; 2]; 2]]) {
    for e in leaves(m) {
        if m.elems[e].element.id != root {
            continue;
        }
        let r = rect(m, e);
        check(label, or(cuts.iter().map(|q| and(vec![ge(r[0][0], q[0][0]), le(r[0][1], q[0][1]), ge(r[1][0], q[1][0]), le(r[1][1], q[1][1])])).collect()));
    }
}
fn cuts(r: [[R; 2]; 2], k: HRef) -> Vec<[[R; 2]; 2]> {
    let mut v = kids(r, k);
    match k {
        HRef::U(Some(i)) => {
            let q = v.remove(i);
            v.extend(kids(q, HRef::V(None)));
        }
        HRef::V(Some(i)) => {
            let q = v.remove(i);
            v.extend(kids(q, HRef::U(None)));
        }
        _ => (),
    }
    v
}
/// several kinds requested on one cell: any order gives one result, at least as fine as each and no finer than needed
pub fn m08() {
    let n = 2 + choice("n", 2);
    let ks: Vec<HRef> = (0..n).map(|_| pick("kind", &KINDS)).collect();
    let (m0, _) = root(1);
    let mut perm: Vec<HRef> = ks.clone();
    // rotate and swap: generates all orders of up to three entries
    perm.rotate_left(choice("rot", n));
    if n > 2 && choice("swap", 2) == 1 {
        perm.swap(0, 1);
    }
    let (mut a, mut b) = (m0.clone(), m0.clone());
    let ra = a.execute_h_refinements(ks.iter().map(|k| (0, *k)).collect());
    let rb = b.execute_h_refinements(perm.iter().map(|k| (0, *k)).collect());
    check_b("repeated requests on one cell are combined, not refused", ra.is_ok() && rb.is_ok());
    reach("combined");
    same_leaves("order of repeated requests", &a, &b);
    let r0 = rect(&m0, 0);
    for k in &ks {
        refines("the combination is at least as fine as each part", &a, 0, &cuts(r0, *k));
    }
    if ks.iter().all(|k| *k == ks[0]) {
        let mut s = m0.clone();
        s.execute_h_refinements(vec![(0, ks[0])]).unwrap();
        same_leaves("repeating one request", &a, &s);
    }
    if !ks.iter().any(|k| *k == HRef::T) && !(ks.iter().any(|k| matches!(k, HRef::U(_))) && ks.iter().any(|k| matches!(k, HRef::V(_)))) {
        // one direction only: no finer than four quarters, and not finer than the parts ask for
        let ext: BTreeSet<usize> = ks.iter().filter_map(|k| match k {
            HRef::U(x) | HRef::V(x) => *x,
            _ => None,
        }).collect();
        check_b("the combination adds nothing that was not asked for", leaves(&a).len() == 1 + 2 + ext.len());
    } else {
        check_b("crossing directions combine to the four-way split", leaves(&a).len() == 1 + 4);
    }
    // the operator itself: grouping does not matter either
    let mut l = ks[0];
    for k in &ks[1..] {
        l += *k;
    }
    let mut tail = ks[n - 1];
    for k in ks[..n - 1].iter().rev() {
        let mut h = *k;
        h += tail;
        tail = h;
    }
    check_b("combination is associative", l == tail);
    let mut p = perm[0];
    for k in &perm[1..] {
        p += *k;
    }
    check_b("combination is commutative", l == p);
}
/// requests on several cells: any order, or one at a time, gives the same cells
pub fn m08_cells() {
    let s = pick("shape", pick_tier(&[1usize, 2][..], &[1, 2, 3, 4][..]));
    let (mut m0, g) = root(s);
    let mut t = Tree::new(g.cells.len());
    if choice("pre", 2) == 1 {
        grow(&mut m0, &mut t, 1, &KINDS3);
    }
    let l = leaves(&m0);
    let a = choice("first", l.len());
    let b = (a + 1 + choice("second", l.len() - 1)) % l.len();
    let (ka, kb) = (pick("ka", &KINDS), pick("kb", &KINDS));
    let (mut x, mut y, mut z) = (m0.clone(), m0.clone(), m0.clone());
    let ok = x.execute_h_refinements(vec![(l[a], ka), (l[b], kb)]).is_ok()
        && y.execute_h_refinements(vec![(l[b], kb), (l[a], ka)]).is_ok()
        && z.execute_h_refinements(vec![(l[b], kb)]).is_ok()
        && z.execute_h_refinements(vec![(l[a], ka)]).is_ok();
    check_b("eligible cells can be refined together and apart", ok);
    check_b("order inside one request leaves no trace", snapshot(&x) == snapshot(&y));
    same_leaves("together or one at a time", &x, &z);
    // every cell of the pair got its own kind
    let mut w = t.clone();
    let ids = link(&m0, &t);
    if ids.is_empty() {
        return;
    }
    let back = |e: usize| ids.iter().position(|q| *q == e).unwrap();
    w.request(&[(back(l[a]), ka), (back(l[b]), kb)].into_iter().collect());
    geometry(&x, &g, &w);
}
/// long requests on a mesh of many cells: one bad entry anywhere refuses all of it
pub fn m05_large() {
    let (mut m, _, t) = large(0);
    let mut ids = link(&m, &t);
    if ids.is_empty() {
        return;
    }
    ids = t.leaves().into_iter().map(|e| ids[e]).collect();
    let n = m.elems.len();
    let mut req: Vec<(usize, HRef)> = ids.iter().map(|e| (*e, KINDS[(e * 3 + 1) % 7])).collect();
    let k = (n * 2) / 3 % req.len();
    req.rotate_left(k);
    let refined = m.elems.iter().find(|e| e.has_children()).map(|e| e.id);
    let flaw = choice("flaw", 5);
    let at = choice("position", req.len() + 1);
    let bad = match flaw {
        0 => Some((n + at, HRef::T)),
        1 => refined.map(|e| (e, HRef::V(None))),
        2 => Some((req[at % req.len()].0, HRef::U(Some(2)))),
        // asked for again: allowed in a request of several kinds, not in a list of ids
        3 => Some((req[(at * 7 + 3) % req.len()].0, HRef::U(None))),
        _ => None,
    };
    if let Some(b) = bad {
        req.insert(at, b);
    } else if at > 0 {
        return;
    }
    let list = choice("api", 2) == 1;
    if list {
        let v: Vec<usize> = req.iter().map(|x| x.0).collect();
        let want = bad.is_some();
        atomic(&mut m, |m| m.h_refine_elems(v, HRef::V(Some(0))), want && flaw != 2 || flaw == 2, "long id list");
    } else {
        let want = bad.is_some() && flaw != 3;
        atomic(&mut m, |m| m.execute_h_refinements(req.clone()), want, "long request");
    }
    reach("long");
}
/// long requests in any order, or one at a time, or by a filter, lead to the same cells
pub fn m06_large() {
    let (m0, g, t) = large(0);
    let ids = link(&m0, &t);
    if ids.is_empty() {
        return;
    }
    let lv = t.leaves();
    let kind = |e: usize| KINDS[(e * 3 + 1) % 7];
    let ask: Vec<usize> = lv.iter().cloned().filter(|e| e % 4 != 1).collect();
    let mut w = t.clone();
    w.request(&ask.iter().map(|e| (*e, kind(*e))).collect());
    let mut m = m0.clone();
    let mut req: Vec<(usize, HRef)> = ask.iter().map(|e| (ids[*e], kind(*e))).collect();
    let ok = match choice("mode", 6) {
        0 => m.execute_h_refinements(req).is_ok(),
        1 => {
            req.reverse();
            m.execute_h_refinements(req).is_ok()
        }
        2 => {
            // one at a time, from the end
            req.reverse();
            req.into_iter().all(|x| m.execute_h_refinements(vec![x]).is_ok())
        }
        3 => {
            // every entry twice, interleaved
            let k = req.len() / 2;
            let mut again = req.clone();
            again.rotate_left(k);
            req.extend(again);
            m.execute_h_refinements(req).is_ok()
        }
        4 => {
            // total splits given as their two parts, far apart
            let mut first = vec![];
            let mut last = vec![];
            for (e, k) in req {
                match k {
                    HRef::T => {
                        first.push((e, HRef::U(None)));
                        last.push((e, HRef::V(None)));
                    }
                    HRef::U(Some(_)) => {
                        first.push((e, HRef::U(None)));
                        last.push((e, k));
                    }
                    _ => last.push((e, k)),
                }
            }
            first.extend(last);
            m.execute_h_refinements(first).is_ok()
        }
        _ => {
            let by: BTreeMap<usize, HRef> = req.into_iter().collect();
            m.h_refine_with_filter(|e| by.get(&e.id).copied());
            true
        }
    };
    check_b("eligible cells can be refined together and apart", ok);
    geometry(&m, &g, &w);
    reach("large");
}
/// two very large cells split over and over at the corner they share, as far as the smallest edge allows
pub fn narrow(depth: usize, mats: &[[R; 4]]) -> (Mesh, Grid, Tree) {
    let big = if depth > 12 { 1048576.0 } else { 2.0 };
    let across = choice("across", 2);
    let a = c(big) * var("a", 1.0, 1.125);
    let (b, d) = (a * c(1.25), a * c(1.75));
    let (pair, one) = (vec![c(0.0) - a, c(0.0), b], vec![c(0.0), d]);
    let mut g = if across == 0 {
        Grid { nx: 2, ny: 1, cells: vec![(0, 0), (1, 0)], xs: pair, ys: one, node_of: Default::default() }
    } else {
        Grid { nx: 1, ny: 2, cells: vec![(0, 0), (0, 1)], xs: one, ys: pair, node_of: Default::default() }
    };
    let mut m = build(&mut g, mats);
    let mut t = Tree::new(2);
    let k = pick("kind", &KINDS);
    let sides = pick("sides", &[&[0usize][..], &[1], &[0, 1]]);
    for i in 0..depth {
        for r in sides {
            // the leaf at the common corner
            let mut e = *r;
            while let Some(n) = t.cells[e].kids.iter().find(|n| {
                let mut b = t.cells[**n].b;
                if *r == 0 {
                    b[across] = [UNIT - b[across][1], UNIT - b[across][0]];
                }
                b[0][0] == 0 && b[1][0] == 0
            }) {
                e = *n;
            }
            let ids = link(&m, &t);
            if ids.is_empty() {
                return (m, g, t);
            }
            // extensions split twice
            let k = if t.cells[e].lev.iter().any(|l| *l as usize + 1 > depth) || i % 5 == 4 { KINDS[1 + (t.cells[e].lev[0] > t.cells[e].lev[1]) as usize] } else { k };
            if t.cells[e].lev.iter().any(|l| *l as usize >= depth) {
                continue;
            }
            check_b("an eligible cell can be refined", m.execute_h_refinements(vec![(ids[e], k)]).is_ok());
            t.one(e, k);
        }
    }
    reach("narrow");
    (m, g, t)
}
pub const NARROW: usize = 33;
pub fn m01_narrow() {
    let (m, g, t) = narrow(NARROW, &[]);
    geometry(&m, &g, &t);
}
pub fn m02_narrow() {
    let (m, g, t) = narrow(NARROW, &[]);
    connectivity(&m);
    border(&m, &g, &t);
}
pub fn m03_narrow() {
    let (m, _, t) = narrow(NARROW, &[]);
    navigation(&m, &t);
}
pub fn m04_narrow() {
    let (m, g, t) = narrow(NARROW, &[]);
    active(&m, &t, &g);
}
/// one cell, or one of its first children, split over and over
pub fn deep(depth: usize, kinds: &[HRef]) -> Option<(Mesh, Grid, Tree)> {
    let (mut m, g) = root(1);
    let mut t = Tree::new(2);
    let k = pick("chain", kinds);
    let other = pick("other", &[None, Some(HRef::T), Some(HRef::U(Some(1))), Some(HRef::V(None))]);
    let last = choice("last", 2) == 1;
    for i in 0..depth {
        let l = t.leaves();
        let n = if last { *l.last().unwrap() } else { *l.iter().find(|e| t.cells[**e].parent == t.cells[*l.last().unwrap()].parent).unwrap() };
        let ids = link(&m, &t);
        if ids.is_empty() {
            return None;
        }
        let k = match other {
            Some(o) if i % 3 == 2 => o,
            _ => k,
        };
        check_b("an eligible cell can be refined", m.execute_h_refinements(vec![(ids[n], k)]).is_ok());
        t.one(n, k);
    }
    Some((m, g, t))
}
/// requests, whole-mesh and filtered refinement around one cell that was split many times
pub fn m06_deep() {
    let Some((mut m, g, mut t)) = deep(pick_tier(7, 9), &KINDS) else { return };
    let ids = link(&m, &t);
    if ids.is_empty() {
        return;
    }
    let lv = t.leaves();
    let by: BTreeMap<usize, HRef> = lv.iter().enumerate().filter(|x| (x.0 + x.0 / 3) % 2 == 1).map(|x| (ids[*x.1], KINDS[x.0 % 7])).collect();
    let mut ok = true;
    let mut req = BTreeMap::new();
    let mode = choice("mode", 3);
    if mode == 2 {
        m.global_h_refinement(HRef::V(Some(1)));
    }
    for e in &lv {
        if mode == 2 {
            req.insert(*e, HRef::V(Some(1)));
        } else if let Some(k) = by.get(&ids[*e]) {
            req.insert(*e, *k);
        }
    }
    if mode == 0 {
        let all = m.clone();
        m.h_refine_with_filter(|e| {
            let w = &all.elems[e.id];
            check_b("the filter is shown the cell itself", [e.h_levels.u, e.h_levels.v] == [w.h_levels.u, w.h_levels.v] && e.nodes == w.nodes && e.edges == w.edges && e.parent_id() == w.parent_id() && !e.has_children());
            by.get(&e.id).copied()
        });
    } else if mode == 1 {
        ok = m.execute_h_refinements(by.into_iter().collect()).is_ok();
    }
    check_b("eligible cells can be refined", ok);
    t.request(&req);
    geometry(&m, &g, &t);
    reach("deep");
}
/// whole-mesh and filtered refinement reach exactly the eligible / selected cells
pub fn m08_global() {
    let s = pick("shape", pick_tier(&[0usize, 1][..], &[0, 1, 2, 4][..]));
    let (mut m, g) = root(s);
    let mut t = Tree::new(g.cells.len());
    grow(&mut m, &mut t, 1, &KINDS);
    let ids = link(&m, &t);
    if ids.is_empty() {
        return;
    }
    let k = pick("k", &KINDS);
    let lv = t.leaves();
    let mut req = BTreeMap::new();
    match choice("mode", 2) {
        0 => {
            m.global_h_refinement(k);
            for e in lv {
                req.insert(e, k);
            }
        }
        _ => {
            // the filter picks one or two leaves, with different kinds, and also asks for refined cells
            let a = choice("sel", lv.len());
            let b = choice("sel2", lv.len());
            let (ea, eb) = (ids[lv[a]], ids[lv[b]]);
            let seen = std::sync::Mutex::new(vec![]);
            m.h_refine_with_filter(|e| {
                seen.lock().unwrap().push(e.id);
                if e.id == ea {
                    Some(k)
                } else if e.id == eb {
                    Some(HRef::T)
                } else {
                    None
                }
            });
            let mut seen = seen.into_inner().unwrap();
            seen.sort();
            let mut want: Vec<usize> = lv.iter().map(|x| ids[*x]).collect();
            want.sort();
            check_b("the filter is asked once for every eligible cell", seen == want);
            req.insert(lv[b], HRef::T);
            req.insert(lv[a], k);
        }
    }
    // children are created in ascending id order of their parents: model order only matters for links
    let mut byid: Vec<(usize, usize)> = req.keys().map(|c_| (ids[*c_], *c_)).collect();
    byid.sort();
    t.request(&req);
    reach("global");
    geometry(&m, &g, &t);
    connectivity(&m);
}

// ------------------------------------------------------------------ loading and saving
/// a mesh file becomes exactly the grid it describes, for any numbering of nodes and elements
pub fn m09() {
    let s = pick("shape", pick_tier(&[0usize, 1, 3, 4, 5, 7, 8, 99][..], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 99][..]));
    let mut g = if s == 99 { large_grid() } else { grid_at(s, choice("place", PLACES)) };
    let n = g.cells.len();
    let mats: Vec<[R; 4]> = (0..n.min(if n > 9 { 5 } else { 2 })).map(|k| [var(&format!("er{}", k), -9.0, 9.0), var(&format!("ei{}", k), -2.0, 2.0), var(&format!("mr{}", k), -9.0, 9.0), var(&format!("mi{}", k), -2.0, 2.0)]).collect();
    let mut j = mesh_json(&mut g, &mats);
    // renumber: rotate / reverse elements and nodes
    let nn = j["Nodes"].len();
    let er = choice("elem-numbering", if n > 1 { 3 } else { 1 });
    let nr = choice("node-numbering", 3);
    let pe = |k: usize| match er {
        0 => k,
        1 => n - 1 - k,
        _ => (k + 1) % n,
    };
    let pn = |k: usize| match nr {
        0 => k,
        1 => nn - 1 - k,
        _ => (k * 2 + 1) % if nn % 2 == 1 { nn } else { nn + 1 } % nn.max(1),
    };
    // the third numbering must be a permutation; fall back to a rotation otherwise
    let img: BTreeSet<usize> = (0..nn).map(pn).collect();
    let pn = |k: usize| if img.len() == nn { pn(k) } else { (k + 1) % nn };
    let mut nodes = vec![json::JsonValue::Null; nn];
    for k in 0..nn {
        nodes[pn(k)] = j["Nodes"][k].clone();
    }
    let mut els = vec![json::JsonValue::Null; n];
    for k in 0..n {
        let mut e = j["Elements"][k].clone();
        let ids: Vec<usize> = e["node_ids"].members().map(|v| pn(v.as_usize().unwrap())).collect();
        e["node_ids"] = ids.into();
        els[pe(k)] = e;
    }
    j["Nodes"] = json::JsonValue::from(nodes);
    j["Elements"] = json::JsonValue::from(els);
    let m = load(&json::stringify(j));
    let mut cells = vec![(0, 0); n];
    for k in 0..n {
        cells[pe(k)] = g.cells[k];
    }
    let old = std::mem::replace(&mut g.cells, cells);
    check_b("one cell per listed element", m.elems.len() == n && m.elements.len() == n);
    check_b("one node per listed point", m.nodes.len() == nn);
    let t = Tree::new(n);
    geometry(&m, &g, &t);
    connectivity(&m);
    border(&m, &g, &t);
    active(&m, &t, &g);
    for (k, oc) in old.iter().enumerate() {
        let e = &m.elems[pe(k)];
        let w = mats[k % mats.len()];
        let mt = e.get_materials();
        check("materials as listed", and(vec![eq(mt.eps_rel.re, w[0]), eq(mt.eps_rel.im, w[1]), eq(mt.mu_rel.re, w[2]), eq(mt.mu_rel.im, w[3])]));
        check_b("orders start at one", [e.poly_orders.ni, e.poly_orders.nj] == [1, 1]);
        let _ = oc;
    }
    for (i, nd) in m.nodes.iter().enumerate() {
        let _ = (i, nd);
    }
    reach("loaded");
}
/// inconsistent files are refused, never turned into a mesh
pub fn m09_bad() {
    let mut g = grid(1);
    let mut j = mesh_json(&mut g, &[]);
    let n = j["Nodes"].len();
    let k = choice("defect", 20);
    let cell = choice("cell", 2);
    let slot = choice("slot4", 4);
    match k {
        0 => {
            // two nodes at one place
            let p = j["Nodes"][0].clone();
            j["Nodes"].push(p).unwrap();
        }
        1 => j["Elements"][1]["node_ids"][pick("slot", &[0usize, 1, 2, 3])] = (n + choice("beyond", 2)).into(),
        2 => {
            // a repeated corner
            let a = choice("slot", 4);
            let b = (a + 1 + choice("other", 3)) % 4;
            let v = j["Elements"][0]["node_ids"][a].clone();
            j["Elements"][0]["node_ids"][b] = v;
        }
        3 => {
            j["Elements"][0]["node_ids"].pop();
        }
        4 => {
            j["Elements"][0]["materials"].pop();
        }
        5 => {
            j["Nodes"][3].pop();
        }
        6 => {
            // the same cell twice
            let e = j["Elements"][0].clone();
            j["Elements"].push(e).unwrap();
        }
        7 => j["Nodes"][2][choice("xy", 2)] = "zero".into(),
        8 => j["Elements"][cell]["node_ids"][slot] = json::JsonValue::from(-1),
        9 => {
            j.remove(if cell == 0 { "Elements" } else { "Nodes" });
        }
        10 => {
            j["Elements"][cell].remove(if slot < 2 { "node_ids" } else { "materials" });
        }
        11 => j["Elements"][cell]["node_ids"].push(slot).unwrap(),
        12 => j["Elements"][cell]["materials"].push(1.0).unwrap(),
        13 => j["Elements"][cell]["materials"][slot] = "one".into(),
        14 => j["Nodes"][slot].push(1.0).unwrap(),
        15 => j["Elements"][cell]["node_ids"][slot] = "0".into(),
        16 => j[if cell == 0 { "Elements" } else { "Nodes" }] = 4.into(),
        17 => j["Elements"][cell]["node_ids"][slot] = json::JsonValue::Null,
        18 => {
            // two cells on the same side of an edge: the second cell's far corners moved, its near ones kept
            let (a, b) = (j["Nodes"].len(), j["Nodes"].len() + 1);
            j["Nodes"].push(json::parse("[-77.0, -55.0]").unwrap()).unwrap();
            j["Nodes"].push(json::parse("[-77.0, -44.0]").unwrap()).unwrap();
            let mut e = j["Elements"][0].clone();
            let pick = if cell == 0 { [(1, a), (3, b)] } else { [(0, a), (2, b)] };
            for (s, v) in pick {
                e["node_ids"][s] = v.into();
            }
            // which side of the shared edge is free in a row of two cells
            let first = j["Elements"][if cell == 0 { 0 } else { 1 }].clone();
            for s in 0..4 {
                if !pick.iter().any(|p| p.0 == s) {
                    e["node_ids"][s] = first["node_ids"][s].clone();
                }
            }
            j["Elements"].push(e).unwrap();
        }
        _ => j["Nodes"][slot] = json::JsonValue::Null,
    }
    let mut txt = json::stringify(j);
    if k == 5 && cell == 1 {
        // cut short
        txt.truncate(txt.len() * (1 + slot) / 5);
    }
    let r = catch(|| {
        let f = format!("{}/bad.json", scratch());
        std::fs::write(&f, &txt).unwrap();
        Mesh::from_file(&f).is_ok()
    });
    reach("bad file");
    check_b(&format!("inconsistent mesh file {} is refused", k), r != Ok(true));
    check_b("missing file is an error", Mesh::from_file(format!("{}/none.json", scratch())).is_err());
}
/// the exported description names what the mesh contains
pub fn m09_export() {
    let (s, d) = plan(&[(0, 2), (1, 2), (4, 1), (3, 1), (99, 2), (98, 2)], &[(0, 3), (1, 3), (2, 2), (3, 2), (4, 2), (8, 1), (99, 3), (98, 3)]);
    let mut m = if s == 99 {
        // the built-in single cell
        let mut m = Mesh::unit();
        grow(&mut m, &mut Tree::new(1), choice("depth", d + 1), &KINDS);
        m
    } else if s == 98 {
        // many cells
        if choice("huge", 2) == 1 { huge(&[]).0 } else { large_with(0, &[], pick_tier(4, 20), d + 1).0 }
    } else {
        history(s, d, &KINDS).0
    };
    let last = m.elems.len() - 1;
    put_orders(&mut m, last, [3, 7]);
    let f = format!("{}/out.json", scratch());
    check_b("export succeeds", m.export_to_json(&f).is_ok());
    if full_device() {
        check_b("an export that cannot be written is an error", m.export_to_json("/dev/full").is_err());
    }
    check_b("an export to a missing directory is an error", m.export_to_json(format!("{}/no/x.json", scratch())).is_err());
    let j = json::parse(&std::fs::read_to_string(&f).unwrap()).unwrap();
    check_b("exported counts", j["Elems"].len() == m.elems.len() && j["Nodes"].len() == m.nodes.len() && j["Edges"].len() == m.edges.len() && j["Elements"].len() == m.elements.len());
    let us = |v: &json::JsonValue| v.members().map(|x| x.as_usize().unwrap_or(usize::MAX)).collect::<Vec<_>>();
    for (i, e) in m.elems.iter().enumerate() {
        let q = &j["Elems"][i];
        check_b("exported cell", q["id"].as_usize() == Some(e.id) && q["parent"].as_usize() == e.parent_id() && us(&q["nodes"]) == e.nodes && us(&q["edges"]) == e.edges && q["active"].as_bool() == Some(!e.has_children()) && us(&q["children"]) == e.child_ids().map(|v| v.to_vec()).unwrap_or_default());
        check_b("exported orders and levels", q["expansion"]["u"].as_u8() == Some(e.poly_orders.ni) && q["expansion"]["v"].as_u8() == Some(e.poly_orders.nj) && q["h_levels"]["u"].as_u8() == Some(e.h_levels.u) && q["h_levels"]["v"].as_u8() == Some(e.h_levels.v));
    }
    for (i, e) in m.elements.iter().enumerate() {
        let q = &j["Elements"][i];
        check_b("exported element id", q["id"].as_usize() == Some(i) && e.id == i);
        let w = [e.materials.eps_rel.re, e.materials.eps_rel.im, e.materials.mu_rel.re, e.materials.mu_rel.im];
        for (k, w) in ["eps_rel", "eps_rel_im", "mu_rel", "mu_rel_im"].into_iter().zip(w) {
            match as_r(&q[k]) {
                Some(x) => check("exported material", eq(x, w)),
                None => check_b("exported materials are numbers", false),
            }
        }
    }
    for (i, e) in m.elems.iter().enumerate() {
        check_b("exported element of a cell", j["Elems"][i]["element_id"].as_usize() == Some(e.element.id));
    }
    for (i, n) in m.nodes.iter().enumerate() {
        let q = &j["Nodes"][i];
        check_b("exported node", q["id"].as_usize() == Some(i) && q["boundary"].as_bool() == Some(n.boundary));
        for corner in 0..4 {
            let want: BTreeSet<usize> = m.elems.iter().filter(|e| e.nodes[corner] == i).map(|e| e.id).collect();
            let got = us(&q["elems"][corner]);
            check_b("exported cells around a node", got.len() == want.len() && got.into_iter().collect::<BTreeSet<_>>() == want);
        }
        match (as_r(&q["point"]["x"]), as_r(&q["point"]["y"])) {
            (Some(x), Some(y)) => check("exported coordinates", and(vec![eq(x, n.coords.x), eq(y, n.coords.y)])),
            _ => check_b("exported coordinates are numbers", false),
        }
    }
    for (i, d) in m.edges.iter().enumerate() {
        let q = &j["Edges"][i];
        check_b("exported edge", q["id"].as_usize() == Some(i) && us(&q["nodes"]) == d.nodes && q["boundary"].as_bool() == Some(d.boundary));
        check_b("exported edge direction", q["direction"].as_str() == Some(if d.dir == ParaDir::U { "U-Dir" } else { "V-Dir" }));
        check_b("exported edge parent and halves", q["parent"].as_usize() == d.parent_id() && us(&q["children"]) == d.child_ids().map(|k| k.to_vec()).unwrap_or_default());
        check_b("exported pair of cells", us(&q["active_elems"]) == d.active_elem_pair().map(|p| p.to_vec()).unwrap_or_default());
        for side in 0..2 {
            let want: BTreeSet<[usize; 3]> = m.elems.iter().filter(|e| e.edges[1 - side] == i || e.edges[3 - side] == i).map(|e| {
                let [a, b] = if d.dir == ParaDir::U { [e.h_levels.v, e.h_levels.u] } else { [e.h_levels.u, e.h_levels.v] };
                [e.id, a as usize, b as usize]
            }).collect();
            let l = &q["elems"][side];
            let got: BTreeSet<[usize; 3]> = l.members().map(|x| {
                let k = us(&x["level_key"]);
                [x["cell_id"].as_usize().unwrap_or(usize::MAX), k.first().cloned().unwrap_or(usize::MAX), k.get(1).cloned().unwrap_or(usize::MAX)]
            }).collect();
            check_b("exported cells along an edge with their levels", got == want && l.len() == want.len());
        }
    }
    reach("exported");
}
