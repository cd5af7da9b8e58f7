//! sparse matrices, their dense and binary forms, the two eigensolver front ends
use super::util::full_device;
use crate::hx::*;
use fem_2d::fem_problem::linalg::nalgebra_solve::NalgebraGEPError;
use fem_2d::fem_problem::linalg::slepc_solve::SlepcGEPError;
use fem_2d::fem_problem::linalg::sparse_matrix::{AIJMatrixBinary, SparseMatrix};
use fem_2d::fem_problem::linalg::{EigenPair, GEP};
use fem_2d::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

type Model = BTreeMap<[usize; 2], R>;
fn put(m: &mut Model, a: usize, b: usize, v: R) {
    let k = [a.min(b), a.max(b)];
    let o = m.get(&k).copied().unwrap_or(c(0.0));
    m.insert(k, o + v);
}
fn same(label: &str, sm: &SparseMatrix, m: &Model) {
    let mut seen = BTreeSet::new();
    for (rc, v) in sm.iter_upper_tri() {
        check_b("positions are listed once, in the upper triangle", seen.insert(rc) && rc[0] <= rc[1]);
        match m.get(&rc) {
            Some(w) => check_eq(label, v, *w),
            None => check_b("no entry appears at a position never written", false),
        }
    }
    check_b("every written position is listed", m.keys().all(|k| seen.contains(k)));
    let full: usize = m.keys().map(|k| if k[0] == k[1] { 1 } else { 2 }).sum();
    check_b("entry count covers both triangles", sm.num_entries() == full);
}
fn fill(sm: &mut SparseMatrix, m: &mut Model, n: usize, ops: usize, tag: &str) {
    for k in 0..ops {
        match choice("op", 2) {
            0 => {
                let (a, b) = (choice("row", n), choice("col", n));
                let v = var(&format!("{}{}", tag, k), -8.0, 8.0);
                sm.insert([a, b], v);
                put(m, a, b, v);
            }
            _ => {
                let l = choice("group", 3);
                let mut g = vec![];
                for i in 0..l {
                    let (a, b) = (choice("row", n), choice("col", n));
                    let v = var(&format!("{}{}g{}", tag, k, i), -8.0, 8.0);
                    g.push(([a, b], v));
                    put(m, a, b, v);
                }
                sm.insert_group(g);
            }
        }
    }
}
/// histories of insertions
pub fn l01() {
    let n = 1 + choice("n", 3);
    let mut sm = SparseMatrix::new(n);
    let mut m = Model::new();
    fill(&mut sm, &mut m, n, choice("ops", pick_tier(3, 4)), "v");
    same("values written to one position add up", &sm, &m);
    reach("accumulated");
}
/// one matrix consumed by another
pub fn l01_consume() {
    let n = 1 + choice("n", pick_tier(2, 3));
    let (mut a, mut b) = (SparseMatrix::new(n), SparseMatrix::new(n));
    let (mut ma, mut mb) = (Model::new(), Model::new());
    fill(&mut a, &mut ma, n, choice("opsa", 2), "a");
    fill(&mut b, &mut mb, n, choice("opsb", pick_tier(2, 3)), "b");
    a.consume_matrix(&mut b);
    for (k, v) in &mb {
        put(&mut ma, k[0], k[1], *v);
    }
    same("the sum of both matrices", &a, &ma);
    check_b("the consumed matrix is empty", b.num_entries() == 0 && b.iter_upper_tri().count() == 0);
    // and it is still usable
    let v = var("again", -8.0, 8.0);
    b.insert([0, 0], v);
    let mut m2 = Model::new();
    put(&mut m2, 0, 0, v);
    same("a consumed matrix starts from zero", &b, &m2);
    check_b("sizes stay", a.dimension == n && b.dimension == n);
    // copies are independent
    let copy = a.clone();
    a.insert([0, 0], v);
    same("a copy does not follow its source", &copy, &ma);
    reach("consumed");
}
/// a repeatable scatter of positions
struct Scatter(u64);
impl Scatter {
    fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % n as u64) as usize
    }
    fn at(&mut self, style: usize, n: usize, k: usize) -> [usize; 2] {
        match style {
            0 => [self.next(n), self.next(n)],
            // one crowded row and column
            1 => if k % 2 == 0 { [n / 2, k % n] } else { [k % n, n / 2] },
            // both ends and the diagonal
            2 => [[0, n - 1], [n - 1, 0], [n - 1, n - 1], [k % n, k % n], [0, 0]][k % 5],
            _ => [k % n, (k + k / n) % n],
        }
    }
}
fn fill_large(sm: &mut SparseMatrix, m: &mut Model, n: usize, style: usize, len: usize, tag: &str) {
    let mut s = Scatter(style as u64 * 77 + n as u64);
    let mut k = 0;
    while k < len {
        let g = [1usize, 0, 5, 1, 40, 2, 130][s.next(7)];
        let mut group = vec![];
        for _ in 0..g {
            let at = s.at(style, n, k);
            // mostly fixed values (signed, some cancelling); symbolic ones far apart
            let v = match k {
                3 | 150 | 299 => var(&format!("{}{}", tag, k), -8.0, 8.0),
                _ => c(((k * 29 + 7) % 33) as f64 / 4.0 - 4.0),
            };
            k += 1;
            put(m, at[0], at[1], v);
            group.push((at, v));
        }
        match group.len() {
            1 => sm.insert(group[0].0, group[0].1),
            _ => sm.insert_group(group),
        }
    }
}
/// large matrices: long histories over wide index ranges
pub fn l01_large() {
    let n = pick("n", &[6usize, 40, 300, 70_001, u32::MAX as usize]);
    let style = choice("style", 4);
    let (mut a, mut b) = (SparseMatrix::new(n), SparseMatrix::new(n));
    let (mut ma, mut mb) = (Model::new(), Model::new());
    fill_large(&mut a, &mut ma, n, style, pick_tier(400, 2000), "a");
    same("values written to one position add up (large)", &a, &ma);
    fill_large(&mut b, &mut mb, n, choice("other", 4), pick_tier(300, 1500), "b");
    a.consume_matrix(&mut b);
    for (k, v) in &mb {
        put(&mut ma, k[0], k[1], *v);
    }
    same("the sum of both matrices (large)", &a, &ma);
    check_b("the consumed matrix is empty", b.num_entries() == 0 && b.iter_upper_tri().count() == 0);
    reach("large");
}
/// positions outside the matrix, matrices of different size
pub fn l01_refuse() {
    let n = 1 + choice("n", 4);
    let (a, b) = (choice("row", 6), choice("col", 6));
    let ok = a < n && b < n;
    let v = var("value", -8.0, 8.0);
    let mut sm = SparseMatrix::new(n);
    check_b("insertion is refused exactly outside the matrix", catch(|| sm.insert([a, b], v)).is_ok() == ok);
    let mut sm = SparseMatrix::new(n);
    let mut group = vec![([0, 0], c(2.0)), ([n - 1, 0], c(0.0))];
    group.insert(choice("place", 3), ([a, b], v));
    check_b("group insertion is refused exactly outside the matrix", catch(|| sm.insert_group(group)).is_ok() == ok);
    let k = 1 + choice("other", 4);
    let (mut x, mut y) = (SparseMatrix::new(n), SparseMatrix::new(k));
    check_b("only equal sizes are consumed", catch(|| x.consume_matrix(&mut y)).is_ok() == (n == k));
    check_b("a size above 32 bits is refused", catch(|| SparseMatrix::new(u32::MAX as usize + 1 + k)).is_err());
    check_b("the largest size is accepted", catch(|| SparseMatrix::new(u32::MAX as usize).dimension) == Ok(u32::MAX as usize));
    reach("refusals");
}
/// decode the external format; None when malformed
pub fn decode(b: &[u8]) -> Option<(usize, Vec<(usize, usize, R)>)> {
    let w = |k: usize| -> Option<usize> { b.get(4 * k..4 * k + 4).map(|s| u32::from_be_bytes([s[0], s[1], s[2], s[3]]) as usize) };
    // class id of a matrix in the PETSc format
    if w(0)? != 1211216 {
        return None;
    }
    let (n, n2, nnz) = (w(1)?, w(2)?, w(3)?);
    if n != n2 || b.len() != 16 + 4 * n + 12 * nnz {
        return None;
    }
    let mut out = vec![];
    let mut at = 0;
    for r in 0..n {
        for _ in 0..w(4 + r)? {
            if at >= nnz {
                return None;
            }
            let col = w(4 + n + at)?;
            let o = 16 + 4 * n + 4 * nnz + 8 * at;
            let mut x = [0u8; 8];
            x.copy_from_slice(&b[o..o + 8]);
            out.push((r, col, bytes_r(x)));
            at += 1;
        }
    }
    if at == nnz {
        Some((n, out))
    } else {
        None
    }
}
fn full(label: &str, n: usize, got: &[(usize, usize, R)], m: &Model) {
    let mut pos = BTreeSet::new();
    for k in 0..got.len() {
        let (r, cl, v) = got[k];
        check_b("columns lie inside the matrix, each position once", r < n && cl < n && pos.insert((r, cl)));
        check_b("columns ascend within a row", k == 0 || got[k - 1].0 < r || got[k - 1].1 < cl);
        match m.get(&[r.min(cl), r.max(cl)]) {
            Some(w) => check_eq(label, v, *w),
            None => check_eq("positions never written hold zero", v, c(0.0)),
        }
    }
    check_b("both triangles are complete", m.keys().all(|k| pos.contains(&(k[0], k[1])) && pos.contains(&(k[1], k[0]))));
}
fn matrix(n: usize, tag: &str, ops: usize) -> (SparseMatrix, Model) {
    let mut sm = SparseMatrix::new(n);
    let mut m = Model::new();
    for k in 0..ops {
        let (a, b) = (choice("row", n), choice("col", n));
        let v = var(&format!("{}{}", tag, k), -8.0, 8.0);
        sm.insert([a, b], v);
        put(&mut m, a, b, v);
    }
    (sm, m)
}
pub fn l02() {
    let n = 1 + choice("n", 3);
    let (sm, m) = matrix(n, "v", choice("ops", pick_tier(4, 5)));
    forms(n, sm, m);
    reach("forms");
}
/// rows with many entries, empty rows
pub fn l02_large() {
    let n = pick("n", &[6usize, 40, 300, 70_001]);
    let (mut sm, mut m) = (SparseMatrix::new(n), Model::new());
    fill_large(&mut sm, &mut m, n, choice("style", 4), pick_tier(700, 3000), "v");
    forms(n, sm, m);
    reach("large");
}
fn forms(n: usize, sm: SparseMatrix, m: Model) {
    if n <= 1000 {
        let d: nalgebra::DMatrix<R> = sm.clone().into();
        check_b("dense size", d.nrows() == n && d.ncols() == n);
        for i in 0..n {
            for j in 0..n {
                check_eq("dense entry", d[(i, j)], m.get(&[i.min(j), i.max(j)]).copied().unwrap_or(c(0.0)));
            }
        }
    }
    let a: AIJMatrixBinary = sm.clone().into();
    let nnz: usize = a.i.iter().map(|x| *x as usize).sum();
    check_b("row form: sizes", a.dim == n && a.i.len() == n && a.j.len() == nnz && a.a.len() == nnz && nnz == sm.num_entries());
    if a.j.len() == nnz && a.a.len() == nnz {
        let mut got = vec![];
        let mut at = 0;
        for r in 0..a.i.len() {
            for _ in 0..a.i[r] {
                got.push((r, a.j[at] as usize, a.a[at]));
                at += 1;
            }
        }
        full("row form entry", n, &got, &m);
    }
    let f = format!("{}/m.dat", scratch());
    for k in 0..2 {
        let r = if k == 0 { AIJMatrixBinary::from(sm.clone()).print_to_petsc_binary_file(&f) } else { sm.write_to_petsc_binary_format(&f) };
        check_b("the file is written", r.is_ok());
        match decode(&std::fs::read(&f).unwrap_or_default()) {
            Some((dn, got)) => {
                check_b("size in the file", dn == n);
                full("entry in the file", n, &got, &m);
            }
            None => check_b("the file is well formed", false),
        }
        std::fs::remove_file(&f).ok();
    }
    check_b("an unwritable path is an error", sm.write_to_petsc_binary_format(format!("{}/no/m.dat", scratch())).is_err());
    if full_device() {
        check_b("a full device is an error", sm.write_to_petsc_binary_format("/dev/full").is_err());
        check_b("a full device is an error for the compressed form", AIJMatrixBinary::from(sm).print_to_petsc_binary_file("/dev/full").is_err());
    }
}
/// the pair of matrices
pub fn l02_pair() {
    let n = 1 + choice("n", 2);
    let (a, ma) = matrix(n, "a", choice("ops", 3));
    let (b, mb) = matrix(n, "b", choice("opsb", 3));
    let g = GEP { a, b };
    let d = format!("{}/pair", scratch());
    std::fs::create_dir_all(format!("{}/tmp", d)).unwrap();
    check_b("both files are written", g.clone().print_to_petsc_binary_files(&d, "q7").is_ok());
    for (k, m) in [("a", &ma), ("b", &mb)] {
        match decode(&std::fs::read(format!("{}/tmp/q7_{}.dat", d, k)).unwrap_or_default()) {
            Some((dn, got)) => {
                check_b("size in the file", dn == n);
                full("each matrix goes to its own file", n, &got, m);
            }
            None => check_b("the file is well formed", false),
        }
        std::fs::remove_file(format!("{}/tmp/q7_{}.dat", d, k)).ok();
    }
    let [x, y] = g.to_nalgebra_dense_mats();
    for i in 0..n {
        for j in 0..n {
            let k = [i.min(j), i.max(j)];
            check("dense pair in order", and(vec![eq(x[(i, j)], ma.get(&k).copied().unwrap_or(c(0.0))), eq(y[(i, j)], mb.get(&k).copied().unwrap_or(c(0.0)))]));
        }
    }
    check_b("a fresh problem is empty", GEP::new(n).a.num_entries() + GEP::new(n).b.num_entries() == 0 && GEP::new(n).b.dimension == n);
    reach("pair");
}

// ------------------------------------------------------------------ dense solver
fn problem(a: &[Vec<R>], b: &[Vec<R>]) -> GEP {
    let n = a.len();
    let mut g = GEP::new(n);
    for i in 0..n {
        for j in i..n {
            g.a.insert([i, j], a[i][j]);
            g.b.insert([i, j], b[i][j]);
        }
    }
    g
}
fn pair_holds(label: &str, a: &[Vec<R>], b: &[Vec<R>], r: &EigenPair) {
    let n = a.len();
    check_b("vector length", r.vector.len() == n);
    if r.vector.len() != n {
        return;
    }
    let mut norm = c(0.0);
    let mut ok = vec![];
    for i in 0..n {
        let mut av = c(0.0);
        let mut bv = c(0.0);
        for j in 0..n {
            av = av + a[i.min(j)][i.max(j)] * r.vector[j];
            bv = bv + b[i.min(j)][i.max(j)] * r.vector[j];
        }
        ok.push(eq(av, r.value * bv));
        norm = norm + r.vector[i] * r.vector[i];
    }
    check(label, and(ok));
    check("the eigenvector is not zero", gt(norm, c(0.0)));
}
fn abs(x: R) -> R {
    if sgn(x) < 0 {
        c(0.0) - x
    } else {
        x
    }
}
/// diagonal pairs of size 1 to 3
pub fn l03() {
    let n = 1 + choice("n", pick_tier(3, 4));
    let z = || vec![vec![c(0.0); n]; n];
    let (mut a, mut b) = (z(), z());
    for i in 0..n {
        a[i][i] = var(&format!("a{}", i), -8.0, 8.0);
        b[i][i] = var(&format!("b{}", i), 0.5, 4.0);
    }
    let t = var("target", -20.0, 20.0);
    // keep clear of the spurious-mode threshold
    assume(or(vec![ge(a[0][0], c(0.01)), le(a[0][0], c(-0.01))]));
    match nalgebra_solve_gep(problem(&a, &b), t) {
        Ok(r) => {
            pair_holds("the returned pair solves the problem", &a, &b, &r);
            for i in 0..n {
                check("no other eigenvalue is nearer to the target", le(abs(r.value - t), abs(a[i][i] / b[i][i] - t)));
            }
            reach("diagonal");
        }
        Err(_) => check_b("a well posed problem is solved", false),
    }
}
/// full 2x2 matrices against a multiple of the identity
pub fn l03_full() {
    let (p, q) = (var("p", -4.0, 4.0), var("q", 0.125, 4.0));
    let s = p + c(pick("diff", &[0.0, 1.5, -2.0]));
    let q = if choice("sign", 2) == 1 { c(0.0) - q } else { q };
    let k = c(pick("k", &[1.0, 4.0, 0.25]));
    let a = vec![vec![p, q], vec![q, s]];
    let b = vec![vec![k, c(0.0)], vec![c(0.0), k]];
    let t = pick("target", &[-3.0, 0.0, 2.5]);
    match nalgebra_solve_gep(problem(&a, &b), c(t)) {
        Ok(r) => {
            pair_holds("the returned pair solves the problem (full 2x2)", &a, &b, &r);
            let other = (p + s) / k - r.value;
            check("no other eigenvalue is nearer to the target (full 2x2)", le((r.value - c(t)) * (r.value - c(t)), (other - c(t)) * (other - c(t))));
            reach("full");
        }
        Err(_) => check_b("a well posed problem is solved", false),
    }
}
/// larger concrete problems whose eigenvalues are known
pub fn l03_path() {
    let n = 2 + choice("n", pick_tier(10, 30));
    let k = 1.0 + choice("k", 3) as f64;
    let mut a = vec![vec![c(0.0); n]; n];
    let mut b = a.clone();
    for i in 0..n {
        a[i][i] = c(2.0);
        b[i][i] = c(k);
        if i + 1 < n {
            a[i][i + 1] = c(-1.0);
        }
    }
    let ev: Vec<f64> = (1..=n).map(|m| (2.0 - 2.0 * (m as f64 * std::f64::consts::PI / (n as f64 + 1.0)).cos()) / k).collect();
    let m = choice("mode", n);
    let t = ev[m] + 0.2 * (if m + 1 < n { ev[m + 1] - ev[m] } else { 1.0 });
    match nalgebra_solve_gep(problem(&a, &b), c(t)) {
        Ok(r) => {
            check("the nearest eigenvalue of a known spectrum", and(vec![lt(r.value, c(ev[m] + 1e-8)), gt(r.value, c(ev[m] - 1e-8))]));
            pair_holds("the returned pair solves the problem (chain)", &a, &b, &r);
            reach("chain");
        }
        Err(_) => check_b("a well posed problem is solved", false),
    }
}
pub fn l03_refuse() {
    match choice("case", 5) {
        0 => {
            // indefinite right-hand matrix
            let (x, y, z) = (var("x", -4.0, 4.0), var("y", -4.0, 4.0), var("z", -4.0, 4.0));
            assume(or(vec![le(x, c(0.0)), le(x * z - y * y, c(0.0))]));
            let a = vec![vec![c(1.0), c(0.0)], vec![c(0.0), c(1.0)]];
            let b = vec![vec![x, y], vec![y, z]];
            let r = nalgebra_solve_gep(problem(&a, &b), c(1.0));
            check_b("a right-hand matrix that is not positive definite is refused", matches!(r, Err(NalgebraGEPError::FailedToInvertB)));
        }
        1 => {
            let n = 1 + choice("n", 4);
            let a = vec![vec![c(0.0); n]; n];
            let mut b = a.clone();
            for i in 0..n {
                b[i][i] = var(&format!("b{}", i), 0.5, 4.0);
            }
            let r = nalgebra_solve_gep(problem(&a, &b), var("t", -4.0, 4.0));
            check_b("a zero spectrum is reported as spurious", matches!(r, Err(NalgebraGEPError::SpuriouslyConverged)));
        }
        2 => {
            let n = 1001 + choice("n", 3);
            check_b("too large a problem is refused", matches!(nalgebra_solve_gep(GEP::new(n), c(1.0)), Err(NalgebraGEPError::ProblemTooLarge)));
        }
        3 => check_b("the largest allowed size is not refused for its size", matches!(nalgebra_solve_gep(GEP::new(1000), c(1.0)), Err(NalgebraGEPError::FailedToInvertB))),
        _ => {
            // one nonzero eigenvalue is enough
            let x = var("x", 0.5, 4.0);
            let a = vec![vec![c(0.0), c(0.0)], vec![c(0.0), x]];
            let b = vec![vec![c(1.0), c(0.0)], vec![c(0.0), c(1.0)]];
            check_b("a partly zero spectrum is not spurious", nalgebra_solve_gep(problem(&a, &b), c(1.0)).is_ok());
        }
    }
    reach("refused");
}
/// pairs that do not commute: the product of the inverse and the matrix is not symmetric
pub fn l03_general() {
    let a = vec![vec![c(2.0), c(1.0)], vec![c(1.0), c(3.0)]];
    let b = vec![vec![c(4.0), c(1.0)], vec![c(1.0), c(2.0)]];
    if let Ok(r) = nalgebra_solve_gep(problem(&a, &b), c(1.0)) {
        pair_holds("the returned pair solves the problem A=[2 1;1 3] B=[4 1;1 2]", &a, &b, &r);
    }
    reach("general");
}

pub fn l04() {
    let n = 1 + choice("n", pick_tier(4, 6));
    let v: Vec<R> = (0..n).map(|k| var(&format!("v{}", k), -8.0, 8.0)).collect();
    let lead = choice("lead", n);
    assume(or(vec![ge(v[lead], c(0.125)), le(v[lead], c(-0.125))]));
    let p = EigenPair { value: var("l", -9.0, 9.0), vector: v.clone() };
    let w = p.normalized_eigenvector();
    check_b("length is kept", w.len() == n);
    if w.len() != n {
        return;
    }
    let s = w.iter().fold(c(0.0), |a, x| a + *x * *x);
    check_eq("unit length", s, c(1.0));
    for i in 0..n {
        for j in 0..i {
            check_eq("direction is kept", w[i] * v[j], w[j] * v[i]);
        }
    }
    let dot = (0..n).fold(c(0.0), |a, k| a + w[k] * v[k]);
    check("orientation is kept", gt(dot, c(0.0)));
    check("the pair itself is unchanged", and((0..n).map(|k| eq(p.vector[k], v[k])).collect()));
    reach("normalised");
}

/// long vectors: a few symbolic entries among fixed ones
pub fn l04_large() {
    let n = pick("n", &[7usize, 33, 120]);
    let mut v: Vec<R> = (0..n).map(|k| c(((k * 37 + 11) % 23) as f64 / 8.0 - 1.375)).collect();
    let style = choice("style", 3);
    if style == 1 {
        v = vec![c(0.0); n];
    }
    let at = [choice("at", 3) * (n - 1) / 2, n / 3, n - 2];
    for (k, i) in at.into_iter().enumerate() {
        v[i] = var(&format!("v{}", k), -8.0, 8.0);
    }
    if style == 2 {
        for x in v.iter_mut() {
            *x = *x * c(1.0 / 1024.0);
        }
    }
    assume(or(vec![ge(v[at[0]], c(1e-4)), le(v[at[0]], c(-1e-4))]));
    let p = EigenPair { value: c(1.0), vector: v.clone() };
    let w = p.normalized_eigenvector();
    check_b("length is kept", w.len() == n);
    if w.len() != n {
        return;
    }
    let s = w.iter().fold(c(0.0), |a, x| a + *x * *x);
    check_eq("unit length (large)", s, c(1.0));
    for i in 0..n {
        check_eq("direction is kept (large)", w[i] * v[at[0]], w[at[0]] * v[i]);
    }
    check("orientation is kept (large)", gt(w[at[0]] * v[at[0]], c(0.0)));
    reach("large");
}

// ------------------------------------------------------------------ exchange with the external solver
fn be(x: i32) -> [u8; 4] {
    x.to_be_bytes()
}
fn size_needed(m: &Model, n: usize) -> usize {
    16 + 4 * n + m.keys().map(|k| if k[0] == k[1] { 12 } else { 24 }).sum::<usize>()
}
/// runs f while no file can grow beyond some size
fn with_room<T>(bytes: usize, f: impl FnOnce() -> T) -> T {
    extern "C" {
        fn getrlimit(what: i32, l: *mut [u64; 2]) -> i32;
        fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
        fn signal(n: i32, h: usize) -> usize;
    }
    if bytes == usize::MAX {
        return f();
    }
    // RLIMIT_FSIZE is 1, SIGXFSZ 25, SIG_IGN 1
    let mut old = [0u64; 2];
    unsafe {
        let was = signal(25, 1);
        getrlimit(1, &mut old);
        setrlimit(1, &[bytes as u64, old[1]]);
        let r = f();
        setrlimit(1, &old);
        signal(25, was);
        r
    }
}
/// a stand-in launcher that notes how it was called and hands out a prepared answer
pub fn l05() {
    let s = format!("{}/slepc", scratch());
    std::fs::remove_dir_all(&s).ok();
    for d in ["bin", "dir/tmp", "seen", "out"] {
        std::fs::create_dir_all(format!("{}/{}", s, d)).unwrap();
    }
    let s = std::fs::canonicalize(&s).unwrap().to_str().unwrap().to_string();
    let dir = format!("{}/dir", s);
    let case = choice("case", 19);
    let code = match case {
        0 | 1 | 2 | 3 | 4 | 15..=18 => 0,
        13 => 77,
        14 => 255,
        k => k - 4,
    };
    let n = match case {
        0 => pick("n", &[1usize, 2, 9, 70, 500]),
        _ => 1 + choice("n", 2),
    };
    let ((a, ma), (b, mb)) = if n > 2 {
        let mk = |style: usize, tag: &str| {
            let (mut x, mut m) = (SparseMatrix::new(n), Model::new());
            fill_large(&mut x, &mut m, n, style, 150, tag);
            (x, m)
        };
        (mk(0, "a"), mk(1 + choice("style", 3), "b"))
    } else if case != 0 {
        let mk = |tag: &str| {
            let (mut x, mut m) = (SparseMatrix::new(n), Model::new());
            for at in [[0, 0], [n - 1, 0]] {
                let v = var(&format!("{}{}", tag, at[0]), -8.0, 8.0);
                x.insert(at, v);
                put(&mut m, at[0], at[1], v);
            }
            (x, m)
        };
        let (x, (mut y, mut my)) = (mk("a"), mk("b"));
        if case == 17 {
            // the second one takes more room
            y.insert([n - 1, n - 1], c(3.0));
            put(&mut my, n - 1, n - 1, c(3.0));
        }
        (x, (y, my))
    } else {
        (matrix(n, "a", n), matrix(n, "b", 1))
    };
    // answer files
    let ev: Vec<R> = (0..n).map(|k| var(&format!("e{}", k), -4.0, 4.0)).collect();
    let lam = var("lambda", -4.0, 4.0);
    let mut vec = vec![];
    vec.extend(be(if case == 3 { 1211216 } else { 1211214 }));
    let len = n as i32;
    vec.extend(be(if case == 15 { pick("count", &[-1, i32::MIN, 0, len - 1, len + 1, 70_000]) } else { len }));
    for x in &ev {
        vec.extend(r_bytes(*x));
    }
    let mut val = r_bytes(lam).to_vec();
    if case == 4 {
        if choice("short", 2) == 0 {
            vec.truncate(choice("bytes", vec.len()));
        } else {
            val.truncate(choice("bytes", 8));
        }
    }
    std::fs::write(format!("{}/out/evec", s), &vec).unwrap();
    std::fs::write(format!("{}/out/eval", s), &val).unwrap();
    let give = match case {
        1 => "cp $S/out/evec tmp/${p}_evec.dat",
        2 => "cp $S/out/eval tmp/${p}_eval.dat",
        _ => "cp $S/out/evec tmp/${p}_evec.dat; cp $S/out/eval tmp/${p}_eval.dat",
    };
    let end = if case == 14 { "kill -9 $$".to_string() } else { format!("exit {}", code) };
    let script = format!(
        "#!/bin/sh\nS='{}'\npwd > $S/seen/cwd\nfor x in \"$@\"; do echo \"$x\" >> $S/seen/args; p=\"$x\"; done\ncp tmp/*_a.dat $S/seen/; cp tmp/*_b.dat $S/seen/\n{}\n{}\n",
        s, give, end
    );
    let no_launcher = case == 13 && choice("launcher", 2) == 0;
    if !no_launcher {
        let m = format!("{}/bin/mpiexec", s);
        std::fs::write(&m, script).unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&m, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    // bystanders must survive
    for f in ["other_a.dat", "p_evec.dat", "keep.txt"] {
        std::fs::write(format!("{}/tmp/{}", dir, f), "x").unwrap();
    }
    // one with a name that is not text
    let odd = choice("odd name", 2) == 1;
    let odd_path = {
        use std::os::unix::ffi::OsStringExt;
        let mut b = format!("{}/tmp/q", dir).into_bytes();
        b.extend([0xffu8, 0xfe]);
        std::path::PathBuf::from(std::ffi::OsString::from_vec(b))
    };
    if odd {
        std::fs::write(&odd_path, "x").unwrap();
    }
    if case == 16 {
        // nowhere to put the exchange files
        std::fs::remove_dir_all(format!("{}/tmp", dir)).unwrap();
    }
    let target = var("target", 0.5, 9.0);
    // no room for the first or the second matrix
    let room = if case == 17 {
        let size = |m: &Model| size_needed(m, n);
        let all = [0, 3, size(&ma) - 1, size(&ma), size(&mb) - 1];
        all[choice("room", if size(&ma) < size(&mb) { 5 } else { 3 })]
    } else {
        usize::MAX
    };
    if case == 17 && room >= size_needed(&ma, n).max(size_needed(&mb, n)) {
        return;
    }
    let path = std::env::var("PATH").unwrap_or_default();
    let unset = case == 0 && choice("unset", 2) == 1;
    if unset {
        std::env::remove_var("GEP_SOLVE_DIR");
    } else {
        std::env::set_var("GEP_SOLVE_DIR", &dir);
    }
    if case == 18 {
        use std::os::unix::ffi::OsStrExt;
        std::env::set_var("GEP_SOLVE_DIR", std::ffi::OsStr::from_bytes(&[dir.as_bytes(), b"\xff\xfe"].concat()));
    }
    std::env::set_var("PATH", if no_launcher { format!("{}/bin", s) } else { format!("{}/bin:{}", s, path) });
    let r = with_room(room, || catch(|| slepc_solve_gep(GEP { a, b }, target)));
    std::env::set_var("PATH", &path);
    std::env::remove_var("GEP_SOLVE_DIR");
    if case == 18 {
        check_b("a solver that cannot be found is an error", matches!(&r, Ok(Err(_))));
    }
    if case == 16 {
        check_b("without an exchange directory the run is an error", matches!(&r, Ok(Err(_))));
        reach("no directory");
        return;
    }
    check_b("files of others are left alone", !odd || odd_path.exists());
    std::fs::remove_file(&odd_path).ok();
    let left: BTreeSet<String> = std::fs::read_dir(format!("{}/tmp", dir)).unwrap().map(|f| f.unwrap().file_name().to_str().unwrap().to_string()).collect();
    let by: BTreeSet<String> = ["other_a.dat", "p_evec.dat", "keep.txt"].iter().map(|x| x.to_string()).collect();
    check_b("files of others are left alone", by.is_subset(&left));
    if case >= 17 {
        check_b("without room for the matrices the run is an error", matches!(&r, Ok(Err(_))));
        check_b("the exchange files are removed", left == by);
        check_b("nothing is run on half a problem", !std::path::Path::new(&format!("{}/seen/args", s)).exists());
        reach(if case == 17 { "no room" } else { "bad name" });
        return;
    }
    if unset {
        check_b("without a configured solver nothing is run", !std::path::Path::new(&format!("{}/seen/args", s)).exists());
        check_b("without a configured solver the error says so", matches!(&r, Ok(Err(e)) if matches!(e.downcast_ref::<SlepcGEPError>(), Some(SlepcGEPError::SolverNotFound))));
        reach("no solver");
        return;
    }
    if !no_launcher {
        // how the launcher was called
        let args: Vec<String> = std::fs::read_to_string(format!("{}/seen/args", s)).unwrap_or_default().lines().map(|x| x.to_string()).collect();
        let cwd = std::fs::read_to_string(format!("{}/seen/cwd", s)).unwrap_or_default();
        check_b("the solver runs in its own directory", cwd.trim() == dir);
        check_b("launcher arguments", args.len() == 8 && args[..5] == ["-np", "1", "-q", "./solve_gep", "-te"].map(String::from) && args[6] == "-fp");
        if args.len() != 8 || args[6] != "-fp" {
            return;
        }
    }
    reach("called");
    l05_rest(&s, &dir, case, no_launcher, n, &ma, &mb, &ev, lam, target, r, &left, &by);
}
#[allow(clippy::too_many_arguments)]
fn l05_rest(s: &str, _dir: &str, case: usize, no_launcher: bool, n: usize, ma: &Model, mb: &Model, ev: &[R], lam: R, target: R, r: Result<Result<EigenPair, Box<dyn std::error::Error>>, String>, left: &BTreeSet<String>, by: &BTreeSet<String>) {
    if !no_launcher {
        let args: Vec<String> = std::fs::read_to_string(format!("{}/seen/args", s)).unwrap_or_default().lines().map(|x| x.to_string()).collect();
        match parse_r(&args[5]) {
            Some(t) => check("the target is handed over", and(vec![le(t - target, c(1e-9)), ge(t - target, c(-1e-9))])),
            None => check_b("the target is handed over as a number", false),
        }
        let p = &args[7];
        for (k, m) in [("a", ma), ("b", mb)] {
            match decode(&std::fs::read(format!("{}/seen/{}_{}.dat", s, p, k)).unwrap_or_default()) {
                Some((dn, got)) => {
                    check_b("size handed to the solver", dn == n);
                    full("matrix handed to the solver", n, &got, m);
                }
                None => check_b("the solver finds well-formed matrices under its prefix", false),
            }
        }
    }
    let is = |f: &dyn Fn(&SlepcGEPError) -> bool| matches!(&r, Ok(Err(e)) if e.downcast_ref::<SlepcGEPError>().map_or(false, |e| f(e)));
    use SlepcGEPError as E;
    match case {
        0 => match &r {
            Ok(Ok(x)) => {
                check_eq("eigenvalue of the solver", x.value, lam);
                check_b("length of the eigenvector", x.vector.len() == n);
                check("eigenvector of the solver", and(x.vector.iter().zip(ev).map(|(a, b)| eq(*a, *b)).collect()));
                reach("solved");
            }
            _ => check_b("a successful run gives a solution", false),
        },
        1 | 2 | 3 | 4 | 15 => check_b("an answer that is missing, cut short or malformed is an error", matches!(&r, Ok(Err(_)))),
        5 => check_b("status 1", is(&|e| matches!(e, E::FailedToInitializeSlepc))),
        6 => check_b("status 2", is(&|e| matches!(e, E::BadArguments))),
        7 => check_b("status 3", is(&|e| matches!(e, E::FailedToInitializeMatrices))),
        8 | 9 | 10 => check_b("status 4 to 6", is(&|e| matches!(e, E::FailedToInitializeEPS))),
        11 => check_b("status 7", is(&|e| matches!(e, E::FailedToConverge))),
        12 => check_b("status 8", is(&|e| matches!(e, E::FailedToReturnSolution))),
        13 if no_launcher => check_b("no launcher", is(&|e| matches!(e, E::FailedToExecute))),
        _ => check_b("any other end of the solver", is(&|e| matches!(e, E::UnknownError))),
    }
    check_b("the exchange files are removed", left == by);
    reach("clean");
}
