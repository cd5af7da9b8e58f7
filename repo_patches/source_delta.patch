From a54e0c267c065420179cc3de65b6861e27e46b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 01/23] fix: descendant_edges rejects the first out-of-range
 edge id

---
 src/fem_domain/domain/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 5430879..bb4dcc2 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -579,7 +579,7 @@ impl Mesh {
         edge_id: usize,
         include_starting_edge: bool,
     ) -> Result<Vec<usize>, MeshAccessError> {
-        if edge_id > self.edges.len() {
+        if edge_id >= self.edges.len() {
             Err(MeshAccessError::EdgeDoesNotExist(edge_id))
         } else {
             let mut descendants = Vec::new();
-- 
2.43.0


From b767dd4348132256cdc6f81b6482f2ee39f202b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 02/23] fix: keep the extension when a plain and an extended
 h-refinement are combined

---
 src/fem_domain/domain/mesh/h_refinement.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/h_refinement.rs b/src/fem_domain/domain/mesh/h_refinement.rs
index 867656b..7769de7 100644
--- a/src/fem_domain/domain/mesh/h_refinement.rs
+++ b/src/fem_domain/domain/mesh/h_refinement.rs
@@ -163,12 +163,12 @@ impl AddAssign for HRef {
             HRef::U(None) => match rhs {
                 HRef::V(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
+                HRef::U(_) => *self = rhs,
             },
             HRef::V(None) => match rhs {
                 HRef::U(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
+                HRef::V(_) => *self = rhs,
             },
             HRef::U(Some(idx)) => match rhs {
                 HRef::U(Some(r_idx)) => {
-- 
2.43.0


From 81d1cf984e1499f01b0bbf739e987dde3f99c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 03/23] fix: reject an h-refinement request that cannot be
 completed before modifying the Mesh

---
 src/fem_domain/domain/mesh.rs | 40 +++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index bb4dcc2..8e87fc7 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -859,6 +859,11 @@ impl Mesh {
             }
         }
 
+        // reject the whole request before anything is modified if any of the refinements cannot be completed
+        for (elem_id, refinement) in refinements_map.iter() {
+            self.validate_h_refinement(*elem_id, *refinement)?;
+        }
+
         let mut refinement_extensions: Vec<(usize, HRef)> = Vec::new();
         let mut elem_id_tracker = self.elems.len();
         let mut node_id_tracker = IdTracker::new(self.nodes.len());
@@ -913,6 +918,41 @@ impl Mesh {
         Ok(())
     }
 
+    // Check that an h-refineable Elem can be refined without generating Edges which are too short
+    fn validate_h_refinement(&self, elem_id: usize, refinement: HRef) -> Result<(), HRefError> {
+        let (refined_edge_indices, extension) = match refinement {
+            HRef::T => (0..4, None),
+            HRef::U(extension) => (0..2, extension.map(|child_idx| (child_idx, 2..4))),
+            HRef::V(extension) => (2..4, extension.map(|child_idx| (child_idx, 0..2))),
+        };
+        let edge_ids = self.elems[elem_id].edges;
+
+        for edge_id in &edge_ids[refined_edge_indices.clone()] {
+            if self.edges[*edge_id].length / 2.0 < MIN_EDGE_LENGTH {
+                return Err(HRefError::MinEdgeLength(*edge_id));
+            }
+        }
+
+        if let Some((child_idx, extended_edge_indices)) = extension {
+            if child_idx > 1 {
+                return Err(HRefError::BisectionIdxExceeded);
+            }
+            // the child Elem must be h-refineable (its halved Edges are longer than the minimum)
+            for edge_id in &edge_ids[refined_edge_indices] {
+                if self.edges[*edge_id].length / 2.0 <= MIN_EDGE_LENGTH {
+                    return Err(HRefError::MinEdgeLength(*edge_id));
+                }
+            }
+            for edge_id in &edge_ids[extended_edge_indices] {
+                if self.edges[*edge_id].length / 2.0 < MIN_EDGE_LENGTH {
+                    return Err(HRefError::MinEdgeLength(*edge_id));
+                }
+            }
+        }
+
+        Ok(())
+    }
+
     fn execute_t_refinement(
         &mut self,
         mut new_elems: Vec<ElemUninit>,
-- 
2.43.0


From 8b009a524d12161b89ce1acac692fa2cdc8bb1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 04/23] fix: combine and compare p-refinement deltas without
 8-bit overflow

---
 src/fem_domain/domain/mesh/p_refinement.rs | 43 ++++++++++++----------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index ed413b4..efd8398 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -93,11 +93,11 @@ impl From<PolyOrders> for JsonValue {
     }
 }
 
-// the internal p-refinement type
+// the internal p-refinement type (wide enough to hold combinations of several `i8` deltas)
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum PRefInt {
-    Increment(u8),
-    Decrement(u8),
+    Increment(u32),
+    Decrement(u32),
     None,
 }
 
@@ -105,17 +105,17 @@ impl PRefInt {
     fn refine(&self, n: u8) -> Result<u8, PRefError> {
         match self {
             Self::Increment(delta) => {
-                if n + *delta > MAX_POLYNOMIAL_ORDER {
+                if *delta > MAX_POLYNOMIAL_ORDER.saturating_sub(n) as u32 {
                     Err(PRefError::ExceededMaxExpansion)
                 } else {
-                    Ok(n + *delta)
+                    Ok(n + *delta as u8)
                 }
             }
             Self::Decrement(delta) => {
-                if *delta >= n {
+                if *delta >= n as u32 {
                     Err(PRefError::NegExpansion)
                 } else {
-                    Ok(n - *delta)
+                    Ok(n - *delta as u8)
                 }
             }
             Self::None => Ok(n),
@@ -125,33 +125,38 @@ impl PRefInt {
     pub const fn from_i8(delta: i8) -> Self {
         match delta {
             0 => PRefInt::None,
-            d if d > 0 => PRefInt::Increment(d as u8),
-            d if d < 0 => PRefInt::Decrement(-d as u8),
+            d if d > 0 => PRefInt::Increment(d as u32),
+            d if d < 0 => PRefInt::Decrement(d.unsigned_abs() as u32),
             _ => unreachable!(),
         }
     }
 
-    pub fn as_i8(&self) -> i8 {
+    fn as_i64(&self) -> i64 {
         match self {
             Self::None => 0,
-            Self::Increment(delta) => *delta as i8,
-            Self::Decrement(delta) => -1 * (*delta as i8),
+            Self::Increment(delta) => *delta as i64,
+            Self::Decrement(delta) => -(*delta as i64),
         }
     }
 
+    // combinations that exceed the range of an `i8` are saturated
+    pub fn as_i8(&self) -> i8 {
+        self.as_i64().clamp(i8::MIN as i64, i8::MAX as i64) as i8
+    }
+
     pub fn constrain(&mut self, bounds: [i8; 2]) {
-        let si = self.as_i8();
+        let si = self.as_i64();
 
-        if si < bounds[0] {
+        if si < bounds[0] as i64 {
             *self = Self::from_i8(bounds[0]);
-        } else if si > bounds[1] {
+        } else if si > bounds[1] as i64 {
             *self = Self::from_i8(bounds[1]);
         }
     }
 
     pub fn within(&self, bounds: [i8; 2]) -> bool {
-        let si = self.as_i8();
-        si >= bounds[0] && si <= bounds[1]
+        let si = self.as_i64();
+        si >= bounds[0] as i64 && si <= bounds[1] as i64
     }
 }
 
@@ -159,7 +164,7 @@ impl AddAssign for PRefInt {
     fn add_assign(&mut self, rhs: Self) {
         let sum = match *self {
             Self::Increment(s_delta) => match rhs {
-                Self::Increment(r_delta) => Self::Increment(s_delta + r_delta),
+                Self::Increment(r_delta) => Self::Increment(s_delta.saturating_add(r_delta)),
                 Self::Decrement(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Increment(s_delta - r_delta),
@@ -168,7 +173,7 @@ impl AddAssign for PRefInt {
                 Self::None => self.clone(),
             },
             Self::Decrement(s_delta) => match rhs {
-                Self::Decrement(r_delta) => Self::Decrement(s_delta + r_delta),
+                Self::Decrement(r_delta) => Self::Decrement(s_delta.saturating_add(r_delta)),
                 Self::Increment(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Decrement(s_delta - r_delta),
-- 
2.43.0


From c5c8f7233dbb548f12a99541891612abe3a1027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 05/23] fix: get_basis_spec reports a missing element instead
 of panicking

---
 src/fem_domain/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain.rs b/src/fem_domain/domain.rs
index e58196b..f7c1da6 100644
--- a/src/fem_domain/domain.rs
+++ b/src/fem_domain/domain.rs
@@ -181,7 +181,7 @@ impl Domain {
     /// * An `Err` if the `elem` does not have a [BasisSpec] at the given `address`
     ///
     pub fn get_basis_spec(&self, bs_address: BSAddress) -> Result<&BasisSpec, String> {
-        if bs_address.elem_id > self.mesh.elems.len() {
+        if bs_address.elem_id >= self.mesh.elems.len() {
             Err(format!(
                 "Elem {} does not exist; cannot retrieve BasisSpec!",
                 bs_address.elem_id
-- 
2.43.0


From 0d69c7a240cb6332489aba518541b404fcc29067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:42 +0000
Subject: [PATCH 06/23] fix: max_uv_ratio compares both aspect ratios

---
 src/fem_domain/basis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/basis.rs b/src/fem_domain/basis.rs
index 5bafc72..b0a50ed 100644
--- a/src/fem_domain/basis.rs
+++ b/src/fem_domain/basis.rs
@@ -333,8 +333,8 @@ impl<BSpace: HierCurlBasisFnSpace> HierCurlBasisFn<BSpace> {
 
     /// Maximum of `uv_ratio` and `vu_ratio`
     pub fn max_uv_ratio(&self, [m, n]: [usize; 2]) -> f64 {
-        let r0 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
-        let r1 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
+        let r0 = self.uv_ratio([m, n]);
+        let r1 = self.vu_ratio([m, n]);
         std::cmp::max_by(r0, r1, |a, b| a.partial_cmp(b).unwrap())
     }
     /// The ratio of the du/dx to dv/dy at some point (m, n)
-- 
2.43.0


From 93873d8e6cbabaf7f3cb732324c707a36b9546c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 07/23] fix: the product of two matrices does not transpose the
 second factor

---
 src/fem_domain/domain/mesh/space.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index b1cd26b..ddbe4c1 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -168,8 +168,8 @@ impl Mul<Self> for M2D {
     type Output = Self;
     fn mul(self, other: Self) -> Self {
         Self {
-            u: V2D::from([self.u.dot_with(&other.u), self.u.dot_with(&other.v)]),
-            v: V2D::from([self.v.dot_with(&other.u), self.v.dot_with(&other.v)]),
+            u: other.u * self.u[0] + other.v * self.u[1],
+            v: other.u * self.v[0] + other.v * self.v[1],
         }
     }
 }
-- 
2.43.0


From cd5feeede00ecbffc58d87148311347c1d809fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 08/23] fix: coordinates that round to zero compare equal
 whatever their sign

---
 src/fem_domain/domain/mesh/space.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index ddbe4c1..e6490fb 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -353,7 +353,8 @@ impl FloatRep {
         let total_rounded = integer_part + fractional_rounded;
 
         Self {
-            sign: value.is_sign_positive(),
+            // everything that rounds to zero has the same representation
+            sign: total_rounded == 0.0 || value.is_sign_positive(),
             bits: total_rounded.to_bits(),
         }
     }
-- 
2.43.0


From 6fee9e57cf989ac8d154dda7fc1e0458a0af933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 09/23] fix: size field value grids by the densities they are
 indexed with

---
 src/fem_domain/domain/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index ba34790..be69b5b 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -80,8 +80,8 @@ impl<'d> UniformFieldSpace<'d> {
             let [i_max, j_max] = self.domain.mesh.max_expansion_orders();
 
             for shell_elem in self.domain.mesh.elems.iter().filter(|e| !e.has_children()) {
-                let mut x_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
-                let mut y_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut x_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
+                let mut y_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
 
                 for anc_elem_id in self
                     .domain
@@ -323,7 +323,7 @@ impl<'d> UniformFieldSpace<'d> {
             for ((shell_elem_id, elem_values_a), elem_values_b) in
                 q_a.values.iter().zip(q_b.values.values())
             {
-                let mut result_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut result_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
                 for m in 0..self.densities[0] {
                     for n in 0..self.densities[1] {
                         result_values[m][n] = expression(elem_values_a[m][n], elem_values_b[m][n]);
-- 
2.43.0


From 92a21cd97335f635ca219b0b7f06d84782127972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 10/23] fix: VTK cells address the point grid in the order it
 is written

---
 src/fem_domain/domain/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index be69b5b..7bf7f13 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -201,15 +201,15 @@ impl<'d> UniformFieldSpace<'d> {
         for k in 0..num_shell_elems {
             for i in 0..(nx - 1) {
                 for j in 0..(ny - 1) {
-                    let initial_pt = nx * i + j + (nx * ny) * k;
+                    let initial_pt = ny * i + j + (nx * ny) * k;
 
                     writeln!(
                         writer,
                         "4\t{}\t{}\t{}\t{}",
                         initial_pt,
                         initial_pt + 1,
-                        initial_pt + nx + 1,
-                        initial_pt + nx,
+                        initial_pt + ny + 1,
+                        initial_pt + ny,
                     )?;
                 }
             }
-- 
2.43.0


From 8259e64048011bbcb34e885944a7efbec00fe762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 11/23] fix: write_to_petsc_binary_format writes the binary
 format with all entries

---
 src/fem_problem/linalg/sparse_matrix.rs | 36 +------------------------
 1 file changed, 1 insertion(+), 35 deletions(-)

diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index 7010745..b4e6bc0 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -127,41 +127,7 @@ impl SparseMatrix {
     }
 
     pub fn write_to_petsc_binary_format(&self, path: impl AsRef<str>) -> std::io::Result<()> {
-        let file = File::create(path.as_ref())?;
-        let mut writer = BufWriter::new(file);
-
-        let mut full_sparse: BTreeMap<[u32; 2], f64> = self
-            .entries
-            .iter()
-            .map(|([r, c], v)| ([*c, *r], *v))
-            .collect();
-        full_sparse.append(&mut self.entries.clone());
-
-        let nnz = full_sparse.len();
-        let mut i = Vec::with_capacity(nnz);
-        let mut j = Vec::with_capacity(nnz);
-        let mut v = Vec::with_capacity(nnz);
-
-        for ([r, c], value) in full_sparse {
-            i.push(r);
-            j.push(c);
-            v.push(value);
-        }
-        let nnz = v.len();
-
-        // Write the header
-        writer.write_all(
-            format!("1211216 {} {} {}\n", self.dimension, self.dimension, nnz).as_bytes(),
-        )?;
-        let mut row_nnz = vec![0; self.dimension];
-        for (coordinates, _) in self.iter_upper_tri() {
-            row_nnz[coordinates[0]] += 1;
-        }
-        for rnz in row_nnz.iter() {
-            writer.write_all(format!("{} ", rnz).as_bytes())?;
-        }
-
-        Ok(())
+        AIJMatrixBinary::from(self.clone()).print_to_petsc_binary_file(path)
     }
 }
 
-- 
2.43.0


From 074c6611e8b0d2a684038d0f85c198aca62d4d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:45 +0000
Subject: [PATCH 12/23] fix: a p-refinement that is refused leaves both
 expansion orders unchanged

---
 src/fem_domain/domain/mesh/p_refinement.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index efd8398..364f27c 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -18,8 +18,12 @@ impl PolyOrders {
     ///
     /// Return an `Err` if the refinement causes the expansion orders to fall outside of the valid range
     pub fn refine(&mut self, refinement: PRef) -> Result<(), PRefError> {
-        self.ni = refinement.refine_i(self.ni)?;
-        self.nj = refinement.refine_j(self.nj)?;
+        // neither order is updated unless both refinements are valid
+        let ni = refinement.refine_i(self.ni)?;
+        let nj = refinement.refine_j(self.nj)?;
+
+        self.ni = ni;
+        self.nj = nj;
 
         Ok(())
     }
-- 
2.43.0


From 6f827403530dc4e1399c0ea10507eec6a9d6b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 13/23] fix: Edge::is_boundary is false for halves of interior
 edges refined from one side

---
 src/fem_domain/domain/mesh/edge.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/edge.rs b/src/fem_domain/domain/mesh/edge.rs
index f21c577..69d9dc3 100644
--- a/src/fem_domain/domain/mesh/edge.rs
+++ b/src/fem_domain/domain/mesh/edge.rs
@@ -194,9 +194,11 @@ impl Edge {
         self.active_elems
     }
 
-    /// Is this edge on the border of the Mesh (does it have elements only on one side)
+    /// Is this edge on the border of the Mesh
+    ///
+    /// Halves of an interior edge, which only have elements on one side until the other side is refined too, are not
     pub fn is_boundary(&self) -> bool {
-        self.elems[0].is_empty() || self.elems[1].is_empty()
+        self.boundary
     }
 
     /// Attempts to establish an active pair of Elems. Returns false if none can be established
-- 
2.43.0


From 6d6e396c12af46cfd8ea28d204de2aea65b03cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 14/23] fix: malformed eigenvector files are errors instead of
 panics or wrong solutions

A wrong class id in the header panicked (assert_eq), a negative count
panicked on allocation, and a count other than the problem's dimension was
returned as if it were a solution.
---
 src/fem_problem/linalg/slepc_solve.rs | 28 +++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 24e8c8b..6eab83b 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -20,6 +20,7 @@ pub fn slepc_solve_gep(
         let prefix = unique_prefix();
 
         // Write the matrices to files
+        let dimension = gep.a.dimension;
         gep.print_to_petsc_binary_files(&dir, &prefix)?;
 
         // Run the solver
@@ -38,7 +39,7 @@ pub fn slepc_solve_gep(
         match esolve_exit_status {
             Ok(status) => {
                 if status.success() {
-                    let solution = retrieve_solution(&dir, &prefix)?;
+                    let solution = retrieve_solution(&dir, &prefix, dimension)?;
                     clean_directory(&dir, &prefix)?;
                     Ok(solution)
                 } else {
@@ -99,8 +100,15 @@ impl std::fmt::Display for SlepcGEPError {
 
 impl std::error::Error for SlepcGEPError {}
 
-fn retrieve_solution(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Result<EigenPair> {
-    let evec = retrieve_eigenvector(format!("{}/tmp/{}_evec.dat", dir.as_ref(), prefix.as_ref()))?;
+fn retrieve_solution(
+    dir: impl AsRef<str>,
+    prefix: impl AsRef<str>,
+    dimension: usize,
+) -> std::io::Result<EigenPair> {
+    let evec = retrieve_eigenvector(
+        format!("{}/tmp/{}_evec.dat", dir.as_ref(), prefix.as_ref()),
+        dimension,
+    )?;
     let eval = retrieve_eigenvalue(format!("{}/tmp/{}_eval.dat", dir.as_ref(), prefix.as_ref()))?;
 
     Ok(EigenPair {
@@ -109,15 +117,23 @@ fn retrieve_solution(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::
     })
 }
 
-fn retrieve_eigenvector(path: String) -> std::io::Result<Vec<f64>> {
+fn retrieve_eigenvector(path: String, dimension: usize) -> std::io::Result<Vec<f64>> {
     let mut vec_file = File::open(path)?;
 
     let mut header_bytes = BytesMut::new();
     header_bytes.resize(8, 0);
     vec_file.read_exact(&mut header_bytes)?;
 
-    assert_eq!(header_bytes.get_i32(), 1211214_i32); // ensure this is a PETSC vector file
-    let m = header_bytes.get_i32() as usize;
+    // ensure this is a PETSC vector file with one value per row of the problem
+    let class_id = header_bytes.get_i32();
+    let num_values = header_bytes.get_i32();
+    if class_id != 1211214_i32 || usize::try_from(num_values) != Ok(dimension) {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "Eigenvector file does not hold a solution of this problem!",
+        ));
+    }
+    let m = dimension;
 
     let mut value_bytes = BytesMut::new();
     value_bytes.resize(m * 8, 0);
-- 
2.43.0


From cdf65c5d50d9ba6cc505bc977a0375bdb90393b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 15/23] fix: exchange files are removed when the external
 solver's answer cannot be read

---
 src/fem_problem/linalg/slepc_solve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 6eab83b..34b2b20 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -39,9 +39,9 @@ pub fn slepc_solve_gep(
         match esolve_exit_status {
             Ok(status) => {
                 if status.success() {
-                    let solution = retrieve_solution(&dir, &prefix, dimension)?;
+                    let solution = retrieve_solution(&dir, &prefix, dimension);
                     clean_directory(&dir, &prefix)?;
-                    Ok(solution)
+                    Ok(solution?)
                 } else {
                     clean_directory(&dir, &prefix)?;
 
-- 
2.43.0


From c568205049d0f329c0e808e094e9daa101747a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 16/23] fix: cleaning the exchange directory does not panic on
 other files' names

---
 src/fem_problem/linalg/slepc_solve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 34b2b20..df24f61 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -172,7 +172,7 @@ fn clean_directory(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Re
     for file in std::fs::read_dir(&format!("{}/tmp/", dir.as_ref()))? {
         let file = file?;
         let file_name_os = file.file_name();
-        let file_name = String::from(file_name_os.to_str().unwrap());
+        let file_name = file_name_os.to_string_lossy();
 
         if file_name.contains(prefix.as_ref()) {
             std::fs::remove_file(file.path())?;
-- 
2.43.0


From 0eea6c6195209d3e5ad803e5c50fd01b4d21e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:52 +0000
Subject: [PATCH 17/23] fix: the edges and nodes of Mesh::unit are connected to
 its cell

Meshes read from files connect each root cell to its edges and nodes; the
built-in mesh did not, so its cell was missing from both in exports.
---
 src/fem_domain/domain/mesh.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 8e87fc7..d7346dd 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -67,18 +67,25 @@ impl Mesh {
         let unit_element = Arc::new(Element::new(0, points.clone(), Materials::default()));
         let unit_elem = Elem::new(0, [0, 1, 2, 3], [0, 1, 2, 3], unit_element.clone());
 
-        let nodes: Vec<Node> = points
+        let mut nodes: Vec<Node> = points
             .iter()
             .enumerate()
             .map(|(n_id, p)| Node::new(n_id, *p, true))
             .collect();
-        let edges: Vec<Edge> = vec![
+        let mut edges: Vec<Edge> = vec![
             Edge::new(0, [&nodes[0], &nodes[1]], true),
             Edge::new(1, [&nodes[2], &nodes[3]], true),
             Edge::new(2, [&nodes[0], &nodes[2]], true),
             Edge::new(3, [&nodes[1], &nodes[3]], true),
         ];
 
+        for edge in edges.iter_mut() {
+            edge.connect_elem(&unit_elem);
+        }
+        for node in nodes.iter_mut() {
+            node.connect_elem(&unit_elem);
+        }
+
         Self {
             elements: vec![unit_element],
             elems: vec![unit_elem],
-- 
2.43.0


From 5784e7e8d81173d0ea660978f70f3630e125b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 18/23] fix: writing a matrix file reports errors of its last
 block

---
 src/fem_problem/linalg/sparse_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index b4e6bc0..b9f5e6a 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -226,7 +226,7 @@ impl AIJMatrixBinary {
         }
         writer.write_all(a_buf.as_ref())?;
 
-        Ok(())
+        writer.flush()
     }
 }
 
-- 
2.43.0


From f892b60aa4281394e811645c484418c383e1a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 19/23] fix: the VTK export reports errors of its last block

---
 src/fem_domain/domain/fields.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index 7bf7f13..a2e3fe5 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -229,6 +229,7 @@ impl<'d> UniformFieldSpace<'d> {
             field_quant.write_vtk_quantity(&mut writer)?;
         }
         writeln!(writer)?;
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From a7ec75c6c600cd7b3470b5ae0b615b2c80a0a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 20/23] fix: the mesh export reports errors of its last block

---
 src/fem_domain/domain/mesh.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index d7346dd..36f7f1f 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -29,7 +29,7 @@ use std::cmp::Ordering;
 use std::collections::BTreeMap;
 use std::fmt;
 use std::fs::{read_to_string, File};
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::sync::Arc;
 
 /// Minimum Edge length in parametric space. h-Refinements will fail after edges are smaller than this value.
@@ -353,8 +353,7 @@ impl Mesh {
         };
 
         mesh_object.write_pretty(&mut w, 4)?;
-
-        Ok(())
+        w.flush()
     }
 
     // ----------------------------------------------------------------------------------------------------
-- 
2.43.0


From f9701d50db54f6b57f7f08164d57322cb6eb63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 21/23] fix: an h-refinement with an impossible child index is
 refused even when combined with others

---
 src/fem_domain/domain/mesh.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 36f7f1f..124ae5d 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -855,6 +855,12 @@ impl Mesh {
         for (elem_id, h_ref) in refinements {
             match self.elem_is_h_refineable(elem_id) {
                 Ok(true) => {
+                    // checked per entry, because combining refinements can absorb an extension
+                    if let HRef::U(Some(child_idx)) | HRef::V(Some(child_idx)) = h_ref {
+                        if child_idx > 1 {
+                            return Err(HRefError::BisectionIdxExceeded);
+                        }
+                    }
                     refinements_map
                         .entry(elem_id)
                         .and_modify(|elem_ref| *elem_ref += h_ref)
-- 
2.43.0


From 8b5ce692a1e57a62b2e5a5b4f3f0205e6cdf41a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 22/23] fix: exchange files are removed when the problem cannot
 be written completely

---
 src/fem_problem/linalg/slepc_solve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index df24f61..9dc45dd 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -21,7 +21,11 @@ pub fn slepc_solve_gep(
 
         // Write the matrices to files
         let dimension = gep.a.dimension;
-        gep.print_to_petsc_binary_files(&dir, &prefix)?;
+        if let Err(err) = gep.print_to_petsc_binary_files(&dir, &prefix) {
+            // don't leave a partially written problem behind
+            clean_directory(&dir, &prefix).ok();
+            return Err(Box::new(err));
+        }
 
         // Run the solver
         let esolve_exit_status = Command::new("mpiexec")
-- 
2.43.0


From 0b951e1a75e02f558e6f3865ba3332aef3115218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 23/23] fix: a GEP_SOLVE_DIR that is not valid text is an error
 instead of a panic

---
 src/fem_problem/linalg/slepc_solve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 9dc45dd..41dcc83 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -16,7 +16,7 @@ pub fn slepc_solve_gep(
     target_eigenvalue: f64,
 ) -> Result<EigenPair, Box<dyn std::error::Error>> {
     if let Some(esolve_dir) = var_os("GEP_SOLVE_DIR") {
-        let dir = esolve_dir.to_str().unwrap();
+        let dir = esolve_dir.to_str().ok_or(SlepcGEPError::SolverNotFound)?;
         let prefix = unique_prefix();
 
         // Write the matrices to files
-- 
2.43.0

