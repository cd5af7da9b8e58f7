//! shared by all harness bodies
#![allow(dead_code)]
use fem_2d::fem_domain::domain::mesh::space::Point;
use fem_2d::prelude::*;
use crate::hx::*;
use json::{object, JsonValue};

/// a rectangular grid of root cells with some cells left out
pub struct Grid {
    pub nx: usize,
    pub ny: usize,
    pub cells: Vec<(usize, usize)>,
    pub xs: Vec<R>,
    pub ys: Vec<R>,
    pub node_of: std::collections::BTreeMap<(usize, usize), usize>,
}
/// 1x1, 2x1, 1x2, 2x2, L (2x2 without the last), L (2x2 without the first), 3x1, S (2x2 diagonal pair missing is not conforming, so 2x3 S), 3x3 ring
pub const SHAPES: usize = 9;
pub fn cells_of(shape: usize) -> (usize, usize, Vec<(usize, usize)>) {
    let all = |nx: usize, ny: usize, skip: &[(usize, usize)]| {
        let mut v = vec![];
        for j in 0..ny {
            for i in 0..nx {
                if !skip.contains(&(i, j)) {
                    v.push((i, j))
                }
            }
        }
        (nx, ny, v)
    };
    match shape {
        0 => all(1, 1, &[]),
        1 => all(2, 1, &[]),
        2 => all(1, 2, &[]),
        3 => all(2, 2, &[]),
        4 => all(2, 2, &[(1, 1)]),
        5 => all(2, 2, &[(0, 0)]),
        6 => all(3, 1, &[]),
        7 => all(3, 2, &[(0, 0), (2, 1)]),
        8 => all(3, 3, &[(1, 1)]),
        _ => unreachable!(),
    }
}
/// symbolic coordinates: widths are independent positive variables
pub fn grid(shape: usize) -> Grid {
    grid_at(shape, 0)
}
/// where the grid lies: 0 positive coordinates, 1 negative coordinates and large flat cells,
/// 2 very flat cells on both sides of the origin, with grid lines through it
pub const PLACES: usize = 3;
pub fn grid_at(shape: usize, place: usize) -> Grid {
    let (nx, ny, cells) = cells_of(shape);
    // (the ranges keep the magnitudes of x and y apart: FloatRep orders by magnitude, and every undecided order is a fork)
    let (wr, hr) = match place {
        0 => ([0.5, 16.0], [0.5, 16.0]),
        1 => ([40.0, 4000.0], [0.5, 16.0]),
        _ => ([2.0, 3.9], [0.02, 0.039]),
    };
    let w: Vec<R> = (0..nx).map(|i| if place == 2 && i == 0 { var("w0", 200.0, 390.0) } else { var(&format!("w{}", i), wr[0], wr[1]) }).collect();
    let h: Vec<R> = (0..ny).map(|j| var(&format!("h{}", j), hr[0], hr[1])).collect();
    let (x0, y0) = match place {
        0 => (var("x0", 1.0, 4.0), var("y0", 1001.0, 1004.0)),
        1 => (var("x0", -90000.0, -80000.0), var("y0", -204.0, -201.0)),
        _ => (c(0.0) - w[0], h.iter().fold(c(0.0), |s, x| s - *x)),
    };
    let (mut xs, mut ys) = (vec![x0], vec![y0]);
    for i in 0..nx {
        xs.push(xs[i] + w[i]);
    }
    for j in 0..ny {
        ys.push(ys[j] + h[j]);
    }
    Grid { nx, ny, cells, xs, ys, node_of: Default::default() }
}
/// concrete, uneven coordinates
pub fn grid_c(shape: usize) -> Grid {
    let (nx, ny, cells) = cells_of(shape);
    let xs = (0..=nx).map(|i| c(1.0 + 2.0 * i as f64 + 0.5 * (i * i) as f64)).collect();
    let ys = (0..=ny).map(|i| c(1001.0 + 1.0 * i as f64 + 0.75 * (i * i) as f64)).collect();
    Grid { nx, ny, cells, xs, ys, node_of: Default::default() }
}
/// mesh file text for the grid; nodes numbered row by row over the nodes in use
pub fn mesh_json(g: &mut Grid, mats: &[[R; 4]]) -> JsonValue {
    let mut used = std::collections::BTreeSet::new();
    for &(i, j) in &g.cells {
        for (a, b) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
            used.insert((j + b, i + a));
        }
    }
    let mut nodes: Vec<JsonValue> = vec![];
    for (k, &(j, i)) in used.iter().enumerate() {
        g.node_of.insert((i, j), k);
        nodes.push(JsonValue::from(vec![JsonValue::from(g.xs[i]), JsonValue::from(g.ys[j])]));
    }
    let mut els: Vec<JsonValue> = vec![];
    for (k, &(i, j)) in g.cells.iter().enumerate() {
        let m = if mats.is_empty() { [c(1.0), c(0.0), c(1.0), c(0.0)] } else { mats[k % mats.len()] };
        els.push(object! {
            "materials": JsonValue::from(m.iter().map(|x| JsonValue::from(*x)).collect::<Vec<_>>()),
            "node_ids": vec![g.node_of[&(i, j)], g.node_of[&(i + 1, j)], g.node_of[&(i, j + 1)], g.node_of[&(i + 1, j + 1)]],
        });
    }
    object! { "Elements": JsonValue::from(els), "Nodes": JsonValue::from(nodes) }
}
pub fn load(text: &str) -> Mesh {
    let f = format!("{}/mesh.json", scratch());
    std::fs::write(&f, text).unwrap();
    Mesh::from_file(&f).expect("mesh file could not be read")
}
pub fn build(g: &mut Grid, mats: &[[R; 4]]) -> Mesh {
    let j = mesh_json(g, mats);
    load(&json::stringify(j))
}
pub fn root(shape: usize) -> (Mesh, Grid) {
    let mut g = grid(shape);
    (build(&mut g, &[]), g)
}
/// the same, anywhere
pub fn root_any(shape: usize) -> (Mesh, Grid) {
    let mut g = grid_at(shape, choice("place", PLACES));
    (build(&mut g, &[]), g)
}
pub fn root_c(shape: usize) -> (Mesh, Grid) {
    let mut g = grid_c(shape);
    (build(&mut g, &[]), g)
}

pub const KINDS: [HRef; 7] = [HRef::T, HRef::U(None), HRef::V(None), HRef::U(Some(0)), HRef::U(Some(1)), HRef::V(Some(0)), HRef::V(Some(1))];
pub const KINDS3: [HRef; 3] = [HRef::T, HRef::U(None), HRef::V(None)];

pub fn leaves(m: &Mesh) -> Vec<usize> {
    m.elems.iter().filter(|e| !e.has_children()).map(|e| e.id).collect()
}
/// one refinement step on a chosen leaf; returns (leaf, kind)
pub fn step(m: &mut Mesh, kinds: &[HRef]) -> (usize, HRef) {
    let l = leaves(m);
    let e = pick("leaf", &l);
    let k = pick("kind", kinds);
    m.execute_h_refinements(vec![(e, k)]).expect("refinement of an eligible cell was refused");
    (e, k)
}
pub fn pt(m: &Mesh, n: usize) -> Point {
    m.nodes[n].coords
}
/// [[xmin,xmax],[ymin,ymax]] read from corner nodes 0 and 3
pub fn rect(m: &Mesh, e: usize) -> [[R; 2]; 2] {
    let n = m.elems[e].nodes;
    let (a, b) = (pt(m, n[0]), pt(m, n[3]));
    [[a.x, b.x], [a.y, b.y]]
}
pub fn mid(a: R, b: R) -> R {
    (a + b) / c(2.0)
}
pub fn half(r: [R; 2], k: usize) -> [R; 2] {
    let m = mid(r[0], r[1]);
    if k == 0 {
        [r[0], m]
    } else {
        [m, r[1]]
    }
}
pub fn eq_rect(a: [[R; 2]; 2], b: [[R; 2]; 2]) -> Prop {
    and(vec![eq(a[0][0], b[0][0]), eq(a[0][1], b[0][1]), eq(a[1][0], b[1][0]), eq(a[1][1], b[1][1])])
}
/// expected rectangles of the direct children, in child order
pub fn kids(r: [[R; 2]; 2], k: HRef) -> Vec<[[R; 2]; 2]> {
    match k {
        HRef::T => vec![
            [half(r[0], 0), half(r[1], 0)],
            [half(r[0], 1), half(r[1], 0)],
            [half(r[0], 0), half(r[1], 1)],
            [half(r[0], 1), half(r[1], 1)],
        ],
        HRef::U(_) => vec![[half(r[0], 0), r[1]], [half(r[0], 1), r[1]]],
        HRef::V(_) => vec![[r[0], half(r[1], 0)], [r[0], half(r[1], 1)]],
    }
}
/// dyadic sub-box of a root cell, in units of 2^-16, relative to [0, 1]^2
pub type Box2 = [[u64; 2]; 2];
pub const UNIT: u64 = 1 << 40;
pub fn dhalf(r: [u64; 2], k: usize) -> [u64; 2] {
    let m = (r[0] + r[1]) / 2;
    if k == 0 {
        [r[0], m]
    } else {
        [m, r[1]]
    }
}
/// independent model of the refinement tree: every cell with its root, box, parent, children
#[derive(Clone, Debug)]
pub struct Cell {
    pub root: usize,
    pub b: Box2,
    pub parent: Option<usize>,
    pub kids: Vec<usize>,
    pub lev: [u8; 2],
}
#[derive(Clone, Debug)]
pub struct Tree {
    pub cells: Vec<Cell>,
}
impl Tree {
    pub fn new(roots: usize) -> Tree {
        Tree { cells: (0..roots).map(|r| Cell { root: r, b: [[0, UNIT]; 2], parent: None, kids: vec![], lev: [0, 0] }).collect() }
    }
    fn split(&mut self, e: usize, k: HRef) {
        let b = self.cells[e].b;
        let (bs, d): (Vec<Box2>, [u8; 2]) = match k {
            HRef::T => (
                vec![[dhalf(b[0], 0), dhalf(b[1], 0)], [dhalf(b[0], 1), dhalf(b[1], 0)], [dhalf(b[0], 0), dhalf(b[1], 1)], [dhalf(b[0], 1), dhalf(b[1], 1)]],
                [1, 1],
            ),
            HRef::U(_) => (vec![[dhalf(b[0], 0), b[1]], [dhalf(b[0], 1), b[1]]], [1, 0]),
            HRef::V(_) => (vec![[b[0], dhalf(b[1], 0)], [b[0], dhalf(b[1], 1)]], [0, 1]),
        };
        for nb in bs {
            let id = self.cells.len();
            let lev = [self.cells[e].lev[0] + d[0], self.cells[e].lev[1] + d[1]];
            let root = self.cells[e].root;
            self.cells.push(Cell { root, b: nb, parent: Some(e), kids: vec![], lev });
            self.cells[e].kids.push(id);
        }
    }
    /// one accepted request: at most one kind per cell, cells in ascending order, extensions afterwards
    pub fn request(&mut self, req: &std::collections::BTreeMap<usize, HRef>) {
        let mut ext = std::collections::BTreeMap::new();
        for (&e, &k) in req {
            self.split(e, k);
            match k {
                HRef::U(Some(i)) => {
                    ext.insert(self.cells[e].kids[i], HRef::V(None));
                }
                HRef::V(Some(i)) => {
                    ext.insert(self.cells[e].kids[i], HRef::U(None));
                }
                _ => (),
            }
        }
        if !ext.is_empty() {
            self.request(&ext)
        }
    }
    pub fn one(&mut self, e: usize, k: HRef) {
        self.request(&[(e, k)].into_iter().collect());
    }
    pub fn leaves(&self) -> Vec<usize> {
        (0..self.cells.len()).filter(|&e| self.cells[e].kids.is_empty()).collect()
    }
    pub fn is_anc(&self, a: usize, d: usize) -> bool {
        let mut x = self.cells[d].parent;
        while let Some(p) = x {
            if p == a {
                return true;
            }
            x = self.cells[p].parent;
        }
        false
    }
}
pub fn fr(u: u64) -> R {
    c(u as f64 / UNIT as f64)
}
/// real rectangle of a model cell
pub fn model_rect(g: &Grid, t: &Tree, e: usize) -> [[R; 2]; 2] {
    let cl = &t.cells[e];
    let (i, j) = g.cells[cl.root];
    let f = |a: R, b: R, u: [u64; 2]| [a + (b - a) * fr(u[0]), a + (b - a) * fr(u[1])];
    [f(g.xs[i], g.xs[i + 1], cl.b[0]), f(g.ys[j], g.ys[j + 1], cl.b[1])]
}
/// grid-global dyadic box, one root cell = UNIT
pub fn gbox(g: &Grid, t: &Tree, e: usize) -> Box2 {
    let cl = &t.cells[e];
    let (i, j) = g.cells[cl.root];
    let (x, y) = (i as u64 * UNIT, j as u64 * UNIT);
    [[x + cl.b[0][0], x + cl.b[0][1]], [y + cl.b[1][0], y + cl.b[1][1]]]
}
/// observable structure of a mesh, without coordinates
pub fn snapshot(m: &Mesh) -> String {
    let mut s = String::new();
    for e in &m.elems {
        s += &format!("E{} n{:?} e{:?} k{:?} p{:?} h{:?} o{:?}\n", e.id, e.nodes, e.edges, e.child_ids().map(|v| v.to_vec()), e.loc_stack(), [e.h_levels.u, e.h_levels.v], e.poly_orders.as_array());
    }
    for e in &m.edges {
        s += &format!("D{} n{:?} b{} k{:?} p{:?} c{:?} a{:?} s{}\n", e.id, e.nodes, e.boundary, e.child_ids().map(|v| v.to_vec()), e.parent_id(), e.child_node_id(), e.active_elem_pair(), e.is_boundary());
    }
    for n in &m.nodes {
        s += &format!("N{} b{}\n", n.id, n.boundary);
    }
    s
}
pub fn orders(m: &Mesh) -> Vec<[u8; 2]> {
    m.elems.iter().map(|e| [e.poly_orders.ni, e.poly_orders.nj]).collect()
}
/// set orders through the public fields
pub fn put_orders(m: &mut Mesh, e: usize, o: [u8; 2]) {
    m.elems[e].poly_orders.ni = o[0];
    m.elems[e].poly_orders.nj = o[1];
}

/// the kernel's always-full device
pub fn full_device() -> bool {
    use std::os::unix::fs::FileTypeExt;
    std::fs::metadata("/dev/full").map(|m| m.file_type().is_char_device()).unwrap_or(false)
}
