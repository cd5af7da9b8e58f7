//! points, vectors and matrices of the parametric plane
use crate::hx::*;
use fem_2d::fem_domain::domain::mesh::space::{ParaDir, Point, M2D, V2D};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash(p: &Point) -> u64 {
    let mut h = DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}
fn ord(s: i32) -> Ordering {
    s.cmp(&0)
}
/// one coordinate: an input, a special value, or an earlier input moved by less than the resolution
fn coord(k: usize, prev: &[R]) -> (R, bool) {
    let fixed = [0.0, -0.0, 1.0, -1.0, 2.0e-13, -2.0e-13, 0.5, -3.0];
    let n = fixed.len();
    let x = choice("c", n + 1 + if prev.is_empty() { 0 } else { 2 });
    if x < n {
        let same = prev.first().map_or(false, |p| val(*p) == Some(fixed[x]));
        (c(fixed[x]), same)
    } else if x == n {
        (var(&format!("p{}", k), -3.0, 3.0), false)
    } else {
        (prev[0] + c([0.0, 1.0][x - n - 1]), x == n + 1)
    }
}
/// equality, hashing and ordering of points agree with each other and with the coordinates
pub fn s01() {
    let (a, _) = coord(0, &[]);
    let (b, same_input) = coord(1, &[a]);
    let d = choice("axis", 2);
    let mk = |u: R, w: R| if d == 0 { Point::new(u, w) } else { Point::from([w, u]) };
    let w = c(0.75);
    let (p, q) = (mk(a, w), mk(b, w));
    check("a point keeps its coordinates", if d == 0 { and(vec![eq(p.x, a), eq(p.y, w)]) } else { and(vec![eq(p.y, a), eq(p.x, w)]) });
    let (pq, qp) = if d == 0 { (p.x_order(&q), q.x_order(&p)) } else { (p.y_order(&q), q.y_order(&p)) };
    check_b("the order does not depend on who asks", pq == qp.reverse());
    check_b("points are equal exactly when no coordinate orders them", (p == q) == (pq == Ordering::Equal));
    check_b("equality is symmetric and reflexive", (p == q) == (q == p) && p == p);
    if p == q {
        reach("equal");
        check_b("equal points have the same hash", hash(&p) == hash(&q));
    }
    let other = if d == 0 { p.y_order(&q) } else { p.x_order(&q) };
    check_b("the other coordinate is compared on its own", other == Ordering::Equal);
    // against the coordinates themselves
    let far = c(1e-11);
    let s = sgn(a - b);
    // where exactly the rounding of an input falls is left open, so "same" is decided for inputs used twice and for numbers
    if same_input {
        check_b("points in the same place are equal", p == q);
    }
    if sgn(a - b - far) > 0 || sgn(b - a - far) > 0 {
        reach("apart");
        check_b("points that are further apart than the resolution follow their coordinates", pq == ord(s));
    }
}
/// a third point: equality and order are transitive, and both coordinates count
pub fn s01_three() {
    // each coordinate is a new input, well apart from the others, or an earlier one again
    let mut xs: Vec<R> = vec![];
    for k in 0..3 {
        let r = choice("again", k + 1);
        if r < k {
            xs.push(xs[r]);
            continue;
        }
        let x = var(&format!("x{}", k), -2.0, 2.0);
        for y in xs.clone() {
            assume(or(vec![gt(x - y, c(0.01)), lt(x - y, c(-0.01))]));
        }
        xs.push(x);
    }
    let p: Vec<Point> = (0..3).map(|k| Point::new(xs[k], xs[(k + 1) % 3])).collect();
    for i in 0..3 {
        for j in 0..3 {
            let (dx, dy) = (sgn(xs[i] - xs[j]), sgn(xs[(i + 1) % 3] - xs[(j + 1) % 3]));
            check_b("the order follows the coordinates", p[i].x_order(&p[j]) == ord(dx) && p[i].y_order(&p[j]) == ord(dy));
            check_b("equal means the same place", (p[i] == p[j]) == (dx == 0 && dy == 0));
            if p[i] == p[j] {
                check_b("equal points have the same hash", hash(&p[i]) == hash(&p[j]));
                if i != j {
                    reach("same");
                }
            }
        }
    }
    reach("three");
}
pub fn s01_measure() {
    // two points in every relative position, with every sign
    let flip = [choice("left", 2) == 1, choice("below", 2) == 1];
    let neg = [choice("negx", 2) == 1, choice("negy", 2) == 1];
    let mut v = vec![c(0.0); 4];
    for k in 0..2 {
        let (lo, hi) = (var(["x0", "y0"][k], 1.0 + 20.0 * k as f64, 1.5 + 20.0 * k as f64), var(["x1", "y1"][k], 2.0 + 20.0 * k as f64, 12.0 + 20.0 * k as f64));
        let (a, b) = if flip[k] { (hi, lo) } else { (lo, hi) };
        v[k] = if neg[k] { -a } else { a };
        v[2 + k] = if neg[k] { -b } else { b };
    }
    let (a, b) = (Point::new(v[0], v[1]), Point::new(v[2], v[3]));
    let (dx, dy) = (v[2] - v[0], v[3] - v[1]);
    match choice("what", 3) {
        0 => {
            let m = Point::between(&a, &b);
            check("the midpoint", and(vec![eq(m.x + m.x, v[0] + v[2]), eq(m.y + m.y, v[1] + v[3])]));
            let k = c(pick("k", &[2.0, 0.5, -4.0]));
            let s = (a + b) / k;
            check("sums and quotients act on each coordinate", and(vec![eq(s.x * k, v[0] + v[2]), eq(s.y * k, v[1] + v[3])]));
            let z = Point::default();
            check("the default point is the origin", and(vec![eq(z.x, c(0.0)), eq(z.y, c(0.0))]));
            check_b("a point made from both constructors is the same", Point::from([v[0], v[1]]) == a);
        }
        1 => {
            let d = a.dist(&b);
            check("the distance", and(vec![ge(d, c(0.0)), eq(d * d, dx * dx + dy * dy)]));
        }
        _ => {
            // the longer extent decides; equal extents and points in one place are left open
            let g = dx * dx - dy * dy;
            assume(or(vec![gt(g, c(0.01)), lt(g, c(-0.01))]));
            let wide = sgn(g) > 0;
            let r = catch(|| (a.orientation_with(&b), b.orientation_with(&a)));
            let want = if wide { ParaDir::U } else { ParaDir::V };
            check_b("orientation follows the longer extent, from either end", r == Ok((want, want)));
        }
    }
    reach("measured");
}
fn v2(n: &str, lo: f64, hi: f64) -> V2D {
    V2D::from([var(&format!("{}0", n), lo, hi), var(&format!("{}1", n), lo, hi)])
}
fn m2(n: &str, lo: f64, hi: f64) -> M2D {
    let (a, b) = (v2(&format!("{}u", n), lo, hi), v2(&format!("{}v", n), lo, hi));
    M2D::from([a[0], a[1]], [b[0], b[1]])
}
fn same(a: V2D, b: V2D) -> Prop {
    and(vec![eq(a[0], b[0]), eq(a[1], b[1]), eq(a.x(), b[0]), eq(a.y(), b[1])])
}
fn same_m(a: M2D, b: M2D) -> Prop {
    and(vec![same(a.u, b.u), same(a.v, b.v)])
}
/// vectors and matrices obey the algebra of the plane
pub fn s02() {
    let (v, w) = (v2("v", -4.0, 4.0), v2("w", -4.0, 4.0));
    let k = var("k", 0.5, 4.0);
    let (a, b) = (m2("a", -4.0, 4.0), m2("b", -4.0, 4.0));
    check_eq("scalar product", v.dot_with(&w), v[0] * w[0] + v[1] * w[1]);
    check_eq("scalar product", V2D::dot(v, w), w.dot_with(&v));
    check("sum", same(v + w, V2D::from([v[0] + w[0], v[1] + w[1]])));
    check("scaling", same(v * k, V2D::from([v[0] * k, v[1] * k])));
    check("division undoes scaling", same((v * k) / k, v));
    check("product by component", and(vec![same(v * w, V2D::from([v[0] * w[0], v[1] * w[1]])), same(v * &w, v * w)]));
    check("the default vector is zero", same(V2D::default(), V2D::from([c(0.0), c(0.0)])));
    check("a matrix acts row by row", same(a * v, V2D::from([a.u.dot_with(&v), a.v.dot_with(&v)])));
    check("a product acts as its factors in turn", same((a * b) * v, a * (b * v)));
    check("a matrix acts linearly", same(a * (v * k + w), (a * v) * k + a * w));
    check_eq("determinant", a.det(), a.u[0] * a.v[1] - a.u[1] * a.v[0]);
    check_eq("determinant of a product", (a * b).det(), a.det() * b.det());
    check_eq("transposition moves to the other factor", (a * v).dot_with(&w), v.dot_with(&(a.transpose() * w)));
    check("transposing twice changes nothing", same_m(a.transpose().transpose(), a));
    check("the product transposes in reverse", same_m((a * b).transpose(), b.transpose() * a.transpose()));
    check("a matrix divides entry by entry", same_m(a / k, M2D::from([a.u[0] / k, a.u[1] / k], [a.v[0] / k, a.v[1] / k])));
    reach("algebra");
}
pub fn s02_inverse() {
    let a = m2("a", -4.0, 4.0);
    let d = a.u[0] * a.v[1] - a.u[1] * a.v[0];
    assume(or(vec![gt(d, c(0.01)), lt(d, c(-0.01))]));
    let v = v2("v", -4.0, 4.0);
    let w = V2D::from([var("d0", 0.5, 4.0), var("d1", 0.5, 4.0)]);
    let id = M2D::from([c(1.0), c(0.0)], [c(0.0), c(1.0)]);
    let i = a.inverse();
    match choice("what", 4) {
        0 => check("a matrix and its inverse cancel", same_m(a * i, id)),
        1 => check("a matrix and its inverse cancel", same_m(i * a, id)),
        2 => check("the inverse undoes the matrix", same(i * (a * v), v)),
        _ => check("division undoes the product by component", same((v * w) / w, v)),
    }
    reach("inverse");
}
