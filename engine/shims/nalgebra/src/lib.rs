//! Stand-in for the slice of nalgebra the code under test uses, over the symbolic scalar. Concrete inputs get a
//! concrete Jacobi eigen-decomposition; symbolic 1x1/2x2/diagonal inputs get the closed form, with the order and
//! sign of the eigenpairs (which nalgebra leaves unspecified) explored.
use std::ops::{Add, Index, IndexMut, Mul, Sub};
use symrt::Sym;

#[derive(Clone, Debug, PartialEq)]
pub struct DMatrix<T> {
    r: usize,
    c: usize,
    d: Vec<T>, // column major
}
#[derive(Clone, Debug, PartialEq)]
pub struct DVector<T> {
    d: Vec<T>,
}

impl<T: Clone> DMatrix<T> {
    pub fn from_fn<F: FnMut(usize, usize) -> T>(r: usize, c: usize, mut f: F) -> Self {
        let mut d = Vec::with_capacity(r * c);
        for j in 0..c {
            for i in 0..r {
                d.push(f(i, j));
            }
        }
        DMatrix { r, c, d }
    }
    pub fn from_iterator<I: IntoIterator<Item = T>>(r: usize, c: usize, i: I) -> Self {
        let d: Vec<T> = i.into_iter().take(r * c).collect();
        assert!(d.len() == r * c, "Matrix init. from iterator: iterator not long enough.");
        DMatrix { r, c, d }
    }
    pub fn from_row_iterator<I: IntoIterator<Item = T>>(r: usize, c: usize, i: I) -> Self {
        let v: Vec<T> = i.into_iter().take(r * c).collect();
        assert!(v.len() == r * c);
        Self::from_fn(r, c, |i, j| v[i * c + j].clone())
    }
    pub fn from_vec(r: usize, c: usize, d: Vec<T>) -> Self {
        Self::from_iterator(r, c, d)
    }
    pub fn from_row_slice(r: usize, c: usize, s: &[T]) -> Self {
        assert!(s.len() == r * c);
        Self::from_fn(r, c, |i, j| s[i * c + j].clone())
    }
    pub fn from_column_slice(r: usize, c: usize, s: &[T]) -> Self {
        Self::from_iterator(r, c, s.iter().cloned())
    }
    pub fn from_element(r: usize, c: usize, x: T) -> Self {
        Self::from_fn(r, c, |_, _| x.clone())
    }
    pub fn nrows(&self) -> usize {
        self.r
    }
    pub fn ncols(&self) -> usize {
        self.c
    }
    pub fn shape(&self) -> (usize, usize) {
        (self.r, self.c)
    }
    pub fn len(&self) -> usize {
        self.d.len()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.d.iter()
    }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
        self.d.iter_mut()
    }
    pub fn as_slice(&self) -> &[T] {
        &self.d
    }
    pub fn row(&self, i: usize) -> DVector<T> {
        DVector { d: (0..self.c).map(|j| self[(i, j)].clone()).collect() }
    }
    pub fn column(&self, j: usize) -> DVector<T> {
        DVector { d: (0..self.r).map(|i| self[(i, j)].clone()).collect() }
    }
    pub fn column_iter(&self) -> impl Iterator<Item = DVector<T>> + '_ {
        (0..self.c).map(move |j| self.column(j))
    }
    pub fn row_iter(&self) -> impl Iterator<Item = DVector<T>> + '_ {
        (0..self.r).map(move |i| self.row(i))
    }
    pub fn transpose(&self) -> Self {
        Self::from_fn(self.c, self.r, |i, j| self[(j, i)].clone())
    }
    pub fn get(&self, ix: (usize, usize)) -> Option<&T> {
        if ix.0 < self.r && ix.1 < self.c {
            Some(&self.d[ix.1 * self.r + ix.0])
        } else {
            None
        }
    }
    pub fn map<U: Clone, F: FnMut(T) -> U>(&self, f: F) -> DMatrix<U> {
        DMatrix { r: self.r, c: self.c, d: self.d.iter().cloned().map(f).collect() }
    }
}
impl<T> Index<(usize, usize)> for DMatrix<T> {
    type Output = T;
    fn index(&self, (i, j): (usize, usize)) -> &T {
        assert!(i < self.r && j < self.c, "Matrix index out of bounds.");
        &self.d[j * self.r + i]
    }
}
impl<T> IndexMut<(usize, usize)> for DMatrix<T> {
    fn index_mut(&mut self, (i, j): (usize, usize)) -> &mut T {
        assert!(i < self.r && j < self.c, "Matrix index out of bounds.");
        &mut self.d[j * self.r + i]
    }
}
impl<T: Clone> DVector<T> {
    pub fn from_vec(d: Vec<T>) -> Self {
        DVector { d }
    }
    pub fn from_fn<F: FnMut(usize, usize) -> T>(n: usize, mut f: F) -> Self {
        DVector { d: (0..n).map(|i| f(i, 0)).collect() }
    }
    pub fn from_iterator<I: IntoIterator<Item = T>>(n: usize, i: I) -> Self {
        DVector { d: i.into_iter().take(n).collect() }
    }
    pub fn len(&self) -> usize {
        self.d.len()
    }
    pub fn iter(&self) -> std::slice::Iter<'static, T> {
        // rows and columns are returned by value here (nalgebra returns views), so the elements are leaked to let
        // iterators outlive the temporary
        let b: &'static [T] = unsafe { std::mem::transmute::<&[T], &'static [T]>(Box::leak(self.d.clone().into_boxed_slice())) };
        b.iter()
    }
    pub fn get(&self, i: usize) -> Option<&T> {
        self.d.get(i)
    }
    pub fn as_slice(&self) -> &[T] {
        &self.d
    }
}
impl<T> Index<usize> for DVector<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.d[i]
    }
}
impl<T> IndexMut<usize> for DVector<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.d[i]
    }
}
impl DVector<Sym> {
    pub fn norm_squared(&self) -> Sym {
        self.d.iter().map(|x| *x * *x).sum()
    }
    pub fn norm(&self) -> Sym {
        self.norm_squared().sqrt()
    }
    pub fn dot(&self, o: &Self) -> Sym {
        self.d.iter().zip(&o.d).map(|(a, b)| *a * *b).sum()
    }
}
impl DMatrix<Sym> {
    pub fn zeros(r: usize, c: usize) -> Self {
        Self::from_element(r, c, Sym::c(0.0))
    }
    pub fn identity(r: usize, c: usize) -> Self {
        Self::from_fn(r, c, |i, j| Sym::c(if i == j { 1.0 } else { 0.0 }))
    }
    fn mm(&self, o: &Self) -> Self {
        assert!(self.c == o.r, "Matrix multiplication dimensions mismatch.");
        Self::from_fn(self.r, o.c, |i, j| (0..self.c).map(|k| self[(i, k)] * o[(k, j)]).sum())
    }
    fn mv(&self, o: &DVector<Sym>) -> DVector<Sym> {
        assert!(self.c == o.d.len());
        DVector { d: (0..self.r).map(|i| (0..self.c).map(|k| self[(i, k)] * o.d[k]).sum()).collect() }
    }
    pub fn cholesky(self) -> Option<Cholesky> {
        Cholesky::new(self)
    }
    pub fn symmetric_eigen(self) -> SymmetricEigen {
        SymmetricEigen::new(self)
    }
    pub fn try_inverse(self) -> Option<Self> {
        let n = self.r;
        let mut a = self;
        let mut b = Self::identity(n, n);
        for k in 0..n {
            let p = (k..n).find(|i| a[(*i, k)] != Sym::c(0.0))?;
            for j in 0..n {
                let (x, y) = (a[(k, j)], a[(p, j)]);
                a[(k, j)] = y;
                a[(p, j)] = x;
                let (x, y) = (b[(k, j)], b[(p, j)]);
                b[(k, j)] = y;
                b[(p, j)] = x;
            }
            let d = a[(k, k)];
            for j in 0..n {
                a[(k, j)] /= d;
                b[(k, j)] /= d;
            }
            for i in 0..n {
                if i != k {
                    let f = a[(i, k)];
                    for j in 0..n {
                        let (x, y) = (a[(k, j)], b[(k, j)]);
                        a[(i, j)] -= f * x;
                        b[(i, j)] -= f * y;
                    }
                }
            }
        }
        Some(b)
    }
}
macro_rules! mops {
    ($($l:ty, $r:ty, $o:ty, $f:ident);*) => { $(
        impl<'a, 'b> Mul<$r> for $l { type Output = $o; fn mul(self, o: $r) -> $o { (&self).$f(&o) } }
    )* }
}
mops!(DMatrix<Sym>, DMatrix<Sym>, DMatrix<Sym>, mm; &'a DMatrix<Sym>, DMatrix<Sym>, DMatrix<Sym>, mm;
      DMatrix<Sym>, &'b DMatrix<Sym>, DMatrix<Sym>, mm; &'a DMatrix<Sym>, &'b DMatrix<Sym>, DMatrix<Sym>, mm;
      DMatrix<Sym>, DVector<Sym>, DVector<Sym>, mv; &'a DMatrix<Sym>, DVector<Sym>, DVector<Sym>, mv;
      DMatrix<Sym>, &'b DVector<Sym>, DVector<Sym>, mv; &'a DMatrix<Sym>, &'b DVector<Sym>, DVector<Sym>, mv);
impl Mul<Sym> for DMatrix<Sym> {
    type Output = DMatrix<Sym>;
    fn mul(self, o: Sym) -> DMatrix<Sym> {
        self.map(|x| x * o)
    }
}
impl Add for DMatrix<Sym> {
    type Output = DMatrix<Sym>;
    fn add(self, o: Self) -> Self {
        Self::from_fn(self.r, self.c, |i, j| self[(i, j)] + o[(i, j)])
    }
}
impl Sub for DMatrix<Sym> {
    type Output = DMatrix<Sym>;
    fn sub(self, o: Self) -> Self {
        Self::from_fn(self.r, self.c, |i, j| self[(i, j)] - o[(i, j)])
    }
}

/// L Lᵀ factorisation; reads the lower triangle, None at a non-positive pivot
pub struct Cholesky {
    l: DMatrix<Sym>,
}
impl Cholesky {
    pub fn new(m: DMatrix<Sym>) -> Option<Self> {
        assert!(m.r == m.c, "The input matrix must be square.");
        let n = m.r;
        let mut l = DMatrix::<Sym>::zeros(n, n);
        for j in 0..n {
            let mut d = m[(j, j)];
            for k in 0..j {
                d -= l[(j, k)] * l[(j, k)];
            }
            if !(d > Sym::c(0.0)) {
                return None;
            }
            let d = d.sqrt();
            l[(j, j)] = d;
            for i in j + 1..n {
                let mut s = m[(i, j)];
                for k in 0..j {
                    s -= l[(i, k)] * l[(j, k)];
                }
                l[(i, j)] = s / d;
            }
        }
        Some(Cholesky { l })
    }
    pub fn l(&self) -> DMatrix<Sym> {
        self.l.clone()
    }
    pub fn unpack(self) -> DMatrix<Sym> {
        self.l
    }
    pub fn solve(&self, b: &DMatrix<Sym>) -> DMatrix<Sym> {
        let n = self.l.r;
        let mut x = b.clone();
        for c in 0..x.c {
            for i in 0..n {
                let mut s = x[(i, c)];
                for k in 0..i {
                    s -= self.l[(i, k)] * x[(k, c)];
                }
                x[(i, c)] = s / self.l[(i, i)];
            }
            for i in (0..n).rev() {
                let mut s = x[(i, c)];
                for k in i + 1..n {
                    s -= self.l[(k, i)] * x[(k, c)];
                }
                x[(i, c)] = s / self.l[(i, i)];
            }
        }
        x
    }
    pub fn inverse(&self) -> DMatrix<Sym> {
        self.solve(&DMatrix::<Sym>::identity(self.l.r, self.l.r))
    }
    pub fn determinant(&self) -> Sym {
        let p: Sym = (0..self.l.r).map(|i| self.l[(i, i)]).product();
        p * p
    }
}

/// Eigen-decomposition of the symmetric matrix given by the lower triangle.
pub struct SymmetricEigen {
    pub eigenvectors: DMatrix<Sym>,
    pub eigenvalues: DVector<Sym>,
}
impl SymmetricEigen {
    pub fn new(m: DMatrix<Sym>) -> Self {
        assert!(m.r == m.c, "Unable to compute the eigendecomposition of a non-square matrix.");
        let n = m.r;
        // only the lower triangle is read
        let s = DMatrix::from_fn(n, n, |i, j| if i >= j { m[(i, j)] } else { m[(j, i)] });
        if s.d.iter().all(|x| x.is_const()) {
            let a: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| s[(i, j)].cval()).collect()).collect();
            let (w, v) = jacobi(a);
            return SymmetricEigen {
                eigenvectors: DMatrix::from_fn(n, n, |i, j| Sym::c(v[i][j])),
                eigenvalues: DVector { d: w.into_iter().map(Sym::c).collect() },
            };
        }
        let zero = |x: Sym| matches!(x, Sym::C(a) if a == 0.0);
        let diag = (0..n).all(|i| (0..n).all(|j| i == j || zero(s[(i, j)])));
        let (w, v): (Vec<Sym>, Vec<Vec<Sym>>) = if diag {
            ((0..n).map(|i| s[(i, i)]).collect(), (0..n).map(|k| (0..n).map(|i| Sym::c((i == k) as u8 as f64)).collect()).collect())
        } else if n == 2 {
            let (a, b, d) = (s[(0, 0)], s[(1, 0)], s[(1, 1)]);
            if b == Sym::c(0.0) {
                (vec![a, d], vec![vec![Sym::c(1.0), Sym::c(0.0)], vec![Sym::c(0.0), Sym::c(1.0)]])
            } else {
                let half = (a - d) * 0.5;
                let r = (half * half + b * b).sqrt();
                let mid = (a + d) * 0.5;
                let (l1, l2) = (mid + r, mid - r);
                // (b, l - a) is an eigenvector since b != 0
                let vec_for = |l: Sym| {
                    let (x, y) = (b, l - a);
                    let nn = (x * x + y * y).sqrt();
                    vec![x / nn, y / nn]
                };
                (vec![l1, l2], vec![vec_for(l1), vec_for(l2)])
            }
        } else {
            symrt::sym::unsupported("SymmetricEigen of a symbolic matrix larger than 2x2")
        };
        // unspecified order and sign of the pairs
        let mut left: Vec<usize> = (0..n).collect();
        let mut order = vec![];
        while left.len() > 1 {
            let k = symrt::engine::eng(|e| e.choice("eigen-order", left.len()));
            order.push(left.remove(k));
        }
        order.extend(left);
        SymmetricEigen {
            eigenvectors: DMatrix::from_fn(n, n, |i, j| v[order[j]][i]),
            eigenvalues: DVector { d: order.iter().map(|k| w[*k]).collect() },
        }
    }
    pub fn recompose(&self) -> DMatrix<Sym> {
        let n = self.eigenvalues.len();
        let d = DMatrix::from_fn(n, n, |i, j| if i == j { self.eigenvalues[i] } else { Sym::c(0.0) });
        &(&self.eigenvectors * &d) * &self.eigenvectors.transpose()
    }
}

/// cyclic Jacobi on hardware doubles; returns eigenvalues and the matrix of column eigenvectors
fn jacobi(mut a: Vec<Vec<f64>>) -> (Vec<f64>, Vec<Vec<f64>>) {
    let n = a.len();
    let mut v = vec![vec![0.0; n]; n];
    for i in 0..n {
        v[i][i] = 1.0;
    }
    for _ in 0..60 {
        let off: f64 = (0..n).map(|i| (0..i).map(|j| a[i][j] * a[i][j]).sum::<f64>()).sum();
        if off < 1e-34 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[k][p], v[k][q]);
                    v[k][p] = c * x - s * y;
                    v[k][q] = s * x + c * y;
                }
            }
        }
    }
    ((0..n).map(|i| a[i][i]).collect(), v)
}
