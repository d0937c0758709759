From 7d767bc0ad0ad55a4a540cde05c3d9b005225518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:40 +0000
Subject: [PATCH 01/28] fix: mat_times_transposed_mat computes A * B^T instead
 of A^T * B^T

---
 include/HyperHDG/dense_la.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 862a8a8..1fd453f 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -741,11 +741,11 @@ SmallMat<n_rowsA, n_rowsB, mat_entry_t> mat_times_transposed_mat(
   const SmallMat<n_rowsA, n_colsA, mat_entry_t>& A,
   const SmallMat<n_rowsB, n_colsA, mat_entry_t>& B)
 {
-  SmallMat<n_colsA, n_rowsB, mat_entry_t> result;
+  SmallMat<n_rowsA, n_rowsB, mat_entry_t> result;
   for (unsigned int rowB = 0; rowB < n_rowsB; ++rowB)
     for (unsigned int colA = 0; colA < n_colsA; ++colA)
       for (unsigned int rowA = 0; rowA < n_rowsA; ++rowA)
-        result(colA, rowB) += A(rowA, colA) * B(rowB, rowA);
+        result(rowA, rowB) += A(rowA, colA) * B(rowB, colA);
   return result;
 }
 
-- 
2.43.0


From b5bfc582727eca61ee8aaa9b75b4bacc0e3777bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:34 +0000
Subject: [PATCH 02/28] fix: index reduced matrix R with its own number of rows
 when zeroing its lower triangle

---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 2703052..8102435 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -547,7 +547,7 @@ inline void get_r_from_lapack_qr_result(
   for (unsigned int i = 0; i < n_cols; ++i)    // i is column index, here!
     for (unsigned int j = 0; j < n_cols; ++j)  // j is row index, here!
       if (j > i)
-        mat_r[i * n_rows + j] = 0.;
+        mat_r[i * n_cols + j] = 0.;
       else
         mat_r[i * n_cols + j] = lapack_mat[i * n_rows + j];
 }
-- 
2.43.0


From 500bfb56311fd99ea53fb8b3c508efec160c7d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:34 +0000
Subject: [PATCH 03/28] fix: lapack_qr_decomp_r passed a superfluous template
 argument and could not be instantiated

---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 8102435..9848d70 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -586,7 +586,7 @@ std::array<lapack_float_t, n_rows * n_cols>& lapack_qr_decomp_r(
   constexpr unsigned int rank = std::min(n_rows, n_cols);
   std::array<lapack_float_t, rank> tau;
   lapack_qr(n_rows, n_cols, dense_mat.data(), tau.data());
-  return get_r_from_lapack_qr_result<n_rows, n_cols, rank, lapack_float_t>(dense_mat);
+  return get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat);
 }
 
 // -------------------------------------------------------------------------------------------------
-- 
2.43.0


From 9afd13a9b1b785486c011b5f8b0825f1d7f345d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:34 +0000
Subject: [PATCH 04/28] fix: lapack_det flips the sign only for actual
 Householder reflections (tau != 0)

---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 9848d70..3b3ee93 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -399,7 +399,7 @@ lapack_float_t lapack_det(std::array<lapack_float_t, n_rows * n_cols>& dense_mat
 
   lapack_float_t determinant = 1.;
   for (unsigned int i = 0; i < rank; ++i)
-    determinant *= -dense_mat[i * (n_rows + 1)];
+    determinant *= tau[i] == 0. ? dense_mat[i * (n_rows + 1)] : -dense_mat[i * (n_rows + 1)];
   return determinant;
 }
 
-- 
2.43.0


From e5b3c7ca5f919ea54e94d53a9d99ea55a09cdc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:34 +0000
Subject: [PATCH 05/28] fix: qr_decomp decides from det(Q) itself whether Q
 needs to be flipped to have det(Q) = +1

---
 include/HyperHDG/dense_la.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 1fd453f..a2b42c0 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -1071,8 +1071,8 @@ void qr_decomp(SmallMat<n_rows, n_cols, mat_entry_t>& mat,
   SmallVec<n_rows, mat_entry_t> factors(1.);
   bool switch_necessary = false;
 
-  // Q should have determinant = +1 and not -1 (as it has for odd dimensions)!
-  if (n_rows % 2 == 1)
+  // Q should have determinant = +1 and not -1 (as it has for an odd number of reflections)!
+  if (determinant(static_cast<const SmallSquareMat<n_rows, mat_entry_t>&>(mat_q)) < 0.)
   {
     if (n_cols == n_rows)
       factors[0] *= -1.;
-- 
2.43.0


From 1642e4d85cc61c0083162e36c2bfb9a0c17140ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:34 +0000
Subject: [PATCH 06/28] fix: qr_decomp normalizes the matrix R that it returns
 in place like its reduced copy

---
 include/HyperHDG/dense_la.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index a2b42c0..0320e37 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -1104,7 +1104,10 @@ void qr_decomp(SmallMat<n_rows, n_cols, mat_entry_t>& mat,
   for (unsigned int i = 0; i < n_cols; ++i)
     if (factors[i] < 0.)
       for (unsigned int j = 0; j < n_cols; ++j)
+      {
         mat_r(i, j) *= factors[i];
+        mat(i, j) *= factors[i];
+      }
 }
 /*!*************************************************************************************************
  * \brief   Normalized QR decomposition.
-- 
2.43.0


From 5bcbb2b7b813b5feef793e8b2cc665eee35cde3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:20 +0000
Subject: [PATCH 07/28] fix: inner_normal of the linear mapping is the outward
 unit normal it is documented to be

It returned a column of Q, whose sign and direction are unrelated to the face unless the
matrix is orthogonal. The Timoshenko solver, which needs the frame's first axis instead,
now asks for it explicitly.
---
 .../local_solver/timoshenko_network.hxx       |  6 ++--
 include/HyperHDG/mapping/linear.hxx           | 29 +++++--------------
 2 files changed, 10 insertions(+), 25 deletions(-)

diff --git a/include/HyperHDG/local_solver/timoshenko_network.hxx b/include/HyperHDG/local_solver/timoshenko_network.hxx
index 0695b75..e75af3f 100644
--- a/include/HyperHDG/local_solver/timoshenko_network.hxx
+++ b/include/HyperHDG/local_solver/timoshenko_network.hxx
@@ -392,7 +392,7 @@ class TimoshenkoBeam
     }
 
     Point<space_dim, lSol_float_t> normal_vec =
-      (Point<space_dim, lSol_float_t>)hyper_edge.geometry.inner_normal(0);
+      (Point<space_dim, lSol_float_t>)hyper_edge.geometry.mat_q().get_column(0);
 
     for (unsigned int i = 0; i < 2 * hyEdge_dimT; ++i)
       for (unsigned int dim = 0; dim < space_dim; ++dim)
@@ -422,7 +422,7 @@ class TimoshenkoBeam
                                             hyEdgeT& hyper_edge) const
   {
     Point<space_dim, lSol_float_t> normal_vec =
-      (Point<space_dim, lSol_float_t>)hyper_edge.geometry.inner_normal(0);
+      (Point<space_dim, lSol_float_t>)hyper_edge.geometry.mat_q().get_column(0);
 
     for (unsigned int i = 0; i < 2 * hyEdge_dimT; ++i)
       for (unsigned int dim = 0; dim < space_dim; ++dim)
@@ -686,7 +686,7 @@ class TimoshenkoBeam
     }
 
     Point<space_dim, lSol_float_t> normal_vector =
-      (Point<space_dim, lSol_float_t>)hyper_edge.geometry.inner_normal(0);
+      (Point<space_dim, lSol_float_t>)hyper_edge.geometry.mat_q().get_column(0);
     for (unsigned int dim = 0; dim < result.size(); ++dim)
       for (unsigned int q = 0; q < result[dim].size(); ++q)
         result[dim][q] = point_vals[0][q] * normal_vector[dim];
diff --git a/include/HyperHDG/mapping/linear.hxx b/include/HyperHDG/mapping/linear.hxx
index 00b4667..fff009f 100644
--- a/include/HyperHDG/mapping/linear.hxx
+++ b/include/HyperHDG/mapping/linear.hxx
@@ -208,30 +208,15 @@ class Linear
    ************************************************************************************************/
   SmallVec<space_dimT, map_float_t> inner_normal(const unsigned int index) const
   {
-    // hy_assert(index < hyEdge_dimT,
-    //           "The index of the inner normal must not be bigger than their amount.");
-    // if constexpr (space_dimT == 1)
-    //   return SmallVec<space_dimT, map_float_t>(1.);
-
-    // SmallMat<space_dimT, space_dimT - 1, map_float_t> other_vectors;
-    // for (unsigned int i = 0; i < space_dimT - hyEdge_dimT; ++i)
-    //   other_vectors.set_column(i, outer_normal(i));
-    // for (unsigned int i = 0; i < hyEdge_dimT; ++i)
-    //   if (i != index)
-    //     other_vectors.set_column(i + space_dimT - hyEdge_dimT - (i > index),
-    //     matrix_.get_column(i));
-
-    // SmallVec<space_dimT, map_float_t> normal =
-    //   qr_decomp_q(other_vectors).get_column(space_dimT - 1);
-    // map_float_t scalar_pdct = scalar_product(normal, matrix_.get_column(index));
-    // hy_assert(scalar_pdct != 0., "Scalar product must not be zero.");
-    // if (scalar_pdct > 0)
-    //   normal *= -1.;
-    // return normal;
     hy_assert(index < hyEdge_dimT,
-              "The index of the outer normal must not be bigger than their amount.");
+              "The index of the inner normal must not be bigger than their amount.");
 
-    return matrix_q_.get_column(index);
+    // The local normal is expressed with respect to the first hyEdge_dimT columns of matrix Q.
+    const SmallVec<hyEdge_dimT, map_float_t> loc_normal = local_normal(index);
+    SmallVec<space_dimT, map_float_t> normal;
+    for (unsigned int i = 0; i < hyEdge_dimT; ++i)
+      normal += loc_normal[i] * matrix_q_.get_column(i);
+    return normal;
   }
   /*!***********************************************************************************************
    * \brief   Return outer normal of given index.
-- 
2.43.0


From 19df7a0cb6b13f4a176126b917948233377bd881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:36 +0000
Subject: [PATCH 08/28] fix: write the points of an epsilon neighborhood graph
 with full precision

They were truncated to six significant digits, which moved points and could make distinct
points coincide.
---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index be6b2f0..07fc10f 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <deque>
 #include <fstream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -128,6 +129,7 @@ void make_epsilon_neighborhood_graph(std::string& filename)
   infile.close();
   filename = filename + ".geo";
   std::ofstream outfile(filename);
+  outfile.precision(std::numeric_limits<float_t>::max_digits10);
 
   outfile << "Space_Dim     = " << dim << ";" << std::endl;
   outfile << "HyperEdge_Dim = 1;" << std::endl << std::endl;
-- 
2.43.0


From 6e06be0c24b01f1f1e9d42b687a1cfdc437062c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:36 +0000
Subject: [PATCH 09/28] fix: refuse domain files whose dimensions or epsilon
 have no value instead of using uninitialized ones

---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 4 ++--
 include/HyperHDG/read_domain.hxx                | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index 07fc10f..4346b92 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -39,8 +39,8 @@ void make_epsilon_neighborhood_graph(std::string& filename)
   std::istringstream linestream;
   std::string line, keyword, equal_sign;
 
-  unsigned int space_dim;
-  float_t epsilon;
+  unsigned int space_dim = 0;
+  float_t epsilon = 0.;
   index_t index;
 
   vectorT<pointT> points;
diff --git a/include/HyperHDG/read_domain.hxx b/include/HyperHDG/read_domain.hxx
index 341f317..c87ce8a 100644
--- a/include/HyperHDG/read_domain.hxx
+++ b/include/HyperHDG/read_domain.hxx
@@ -190,7 +190,7 @@ read_domain_geo(const std::string& filename)
   std::istringstream linestream;
   std::string line, keyword, equal_sign;
 
-  unsigned int Space_Dim, HyperEdge_Dim;
+  unsigned int Space_Dim = 0, HyperEdge_Dim = 0;
   pt_index_t N_Points = 0, pt_iter;
   hyEdge_index_t N_HyperEdges = 0, hyEdge_iter;
   hyNode_index_t N_HyperNodes = 0;
-- 
2.43.0


From cf3ac05f86dd5bc8dcdfab2b18265d872218d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:36 +0000
Subject: [PATCH 10/28] fix: check_consistency reports invalid or duplicate
 indices of any hyperedge, not only the last ones

---
 include/HyperHDG/read_domain.hxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/read_domain.hxx b/include/HyperHDG/read_domain.hxx
index c87ce8a..aa44602 100644
--- a/include/HyperHDG/read_domain.hxx
+++ b/include/HyperHDG/read_domain.hxx
@@ -115,10 +115,11 @@ struct DomainInfo
     std::for_each(hyNodes_hyEdge.begin(), hyNodes_hyEdge.end(),
                   [&](std::array<hyNode_index_t, 2 * hyEdge_dim> hyEdge)
                   {
-                    hy_assert(is_unique(hyEdge), "Duplicate points in hyperedge.");
+                    consistent = consistent && is_unique(hyEdge);
+                    hy_assert(consistent, "Duplicate points in hyperedge.");
                     for (unsigned int i = 0; i < hyEdge.size(); ++i)
                     {
-                      consistent = (hyEdge[i] < n_hyNodes && hyEdge[i] >= 0);
+                      consistent = consistent && (hyEdge[i] < n_hyNodes && hyEdge[i] >= 0);
                       hy_assert(consistent, "At least one hypernode index is invalid!");
                     }
                   });
@@ -126,14 +127,18 @@ struct DomainInfo
     std::for_each(points_hyEdge.begin(), points_hyEdge.end(),
                   [&](std::array<pt_index_t, 1 << hyEdge_dim> hyEdge)
                   {
-                    hy_assert(is_unique(hyEdge), "Duplicate points in hyperedge.");
+                    consistent = consistent && is_unique(hyEdge);
+                    hy_assert(consistent, "Duplicate points in hyperedge.");
                     for (unsigned int i = 0; i < hyEdge.size(); ++i)
                     {
-                      consistent = (hyEdge[i] < n_points && hyEdge[i] >= 0);
+                      consistent = consistent && (hyEdge[i] < n_points && hyEdge[i] >= 0);
                       hy_assert(consistent, "At least one point index is invalid!");
                     }
                   });
 
+    if (!consistent)
+      return false;
+
     consistent = is_unique(points);
     hy_assert(consistent, "DomainInfo.points contains duplicate points!");
     if (!consistent)
-- 
2.43.0


From 5758334fe797a2fbef9f91d02dc516e83e9d4d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:44 +0000
Subject: [PATCH 11/28] fix: Parabolic::make_initial passes the time on as a
 value instead of truncating it to an index

---
 include/HyperHDG/global_loop/parabolic.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/global_loop/parabolic.hxx b/include/HyperHDG/global_loop/parabolic.hxx
index 0c714c9..87405ea 100644
--- a/include/HyperHDG/global_loop/parabolic.hxx
+++ b/include/HyperHDG/global_loop/parabolic.hxx
@@ -345,7 +345,7 @@ class Parabolic
    * \retval  y_vec         A vector containing the initial fluxes.
    ************************************************************************************************/
   template <typename hyNode_index_t = dof_index_t>
-  LargeVecT make_initial(const LargeVecT& x_vec, const dof_index_t time = 0.)
+  LargeVecT make_initial(const LargeVecT& x_vec, const dof_value_t time = 0.)
   {
     constexpr unsigned int hyEdge_dim = TopologyT::hyEdge_dim();
     constexpr unsigned int n_dofs_per_node = LocalSolverT::n_glob_dofs_per_node();
-- 
2.43.0


From 871adb22e828348ade3bda09f982cb74c64ac856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:44 +0000
Subject: [PATCH 12/28] fix: dirichlet_indices() forgets the indices of a
 previous call, e.g., those before a refinement

---
 include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx     | 2 ++
 include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
index 84ed712..f18d97e 100644
--- a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
@@ -145,6 +145,8 @@ class MassApproxEigenvalue
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
 
+    dirichlet_indices_.clear();
+
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
                   {
diff --git a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
index d88558f..bee8065 100644
--- a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
@@ -141,6 +141,8 @@ class ShiftedInverseEigenvalue
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
 
+    dirichlet_indices_.clear();
+
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
                   {
-- 
2.43.0


From 3bddacef3b167c2a59bbb04a15004a1c95b6f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:39 +0000
Subject: [PATCH 13/28] fix: plot one padded tuple of values per boundary point
 instead of one padding per boundary

The number of values of the point data did not match the number of points if the local solver
has more components than the trace and hyperedges are at least two dimensional.
---
 include/HyperHDG/plot.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 60ef102..9c970d7 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -665,7 +665,7 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
     {
       myfile << "      ";
 
-      for (unsigned int lval = 0; lval < local_values.size(); ++lval)
+      for (unsigned int lval = 0; lval < Hypercube<hyEdge_dim - 1>::pow(n_subdivisions + 1); ++lval)
         fancy_recursion<0, LocalSolverT, dof_value_t>(
           local_values, hyEdge_dofs,
           Hypercube<hyEdge_dim - 1>::template tensorial_pt<Point<hyEdge_dim - 1> >(lval, abscissas),
@@ -675,10 +675,10 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
         myfile << "  ";
         for (unsigned int d = 0; d < LocalSolverT::node_system_dimension(); ++d)
           myfile << "  " << local_values[d][corner];  // AR: I switched d and corner!?
+        for (unsigned int d = LocalSolverT::node_system_dimension();
+             d < LocalSolverT::system_dimension(); ++d)
+          myfile << "  " << 0;  // AR: I switched d and corner!?
       }
-      for (unsigned int d = LocalSolverT::node_system_dimension();
-           d < LocalSolverT::system_dimension(); ++d)
-        myfile << "  " << 0;  // AR: I switched d and corner!?
       myfile << std::endl;
     }
   }
-- 
2.43.0


From 2c3488ddcd85f90cda87b79f24204b1861788265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:50 +0000
Subject: [PATCH 14/28] fix: plot values and cells of all points if hyperedges
 are subdivided for plotting

---
 include/HyperHDG/plot.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 9c970d7..e51bd0c 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -292,8 +292,7 @@ template <unsigned int dim, typename pt_index_t>
 void vtu_sub_cube_connectivity(std::ostream& output, unsigned int n, pt_index_t offset)
 {
   if constexpr (dim == 0)
-    for (unsigned int i = 0; i < n - 1; ++i)
-      output << offset + i << "\n";
+    output << offset << "\n";
   else if constexpr (dim == 1)
     for (unsigned int i = 0; i < n - 1; ++i)
       output << offset + i << ' ' << offset + i + 1 << "\n";
@@ -569,7 +568,7 @@ void plot_edge_values(HyperGraphT& hyper_graph,
       hy_assert(false, "Function seems not to be implemented!");
 
     myfile << "      ";
-    for (unsigned int corner = 0; corner < Hypercube<edge_dim>::n_vertices(); ++corner)
+    for (unsigned int corner = 0; corner < Hypercube<edge_dim>::pow(n_subdivisions + 1); ++corner)
     {
       myfile << "  ";
       for (unsigned int d = 0; d < LocalSolverT::system_dimension(); ++d)
@@ -670,7 +669,8 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
           local_values, hyEdge_dofs,
           Hypercube<hyEdge_dim - 1>::template tensorial_pt<Point<hyEdge_dim - 1> >(lval, abscissas),
           lval, bdr_index);
-      for (unsigned int corner = 0; corner < Hypercube<hyEdge_dim - 1>::n_vertices(); ++corner)
+      for (unsigned int corner = 0; corner < Hypercube<hyEdge_dim - 1>::pow(n_subdivisions + 1);
+           ++corner)
       {
         myfile << "  ";
         for (unsigned int d = 0; d < LocalSolverT::node_system_dimension(); ++d)
@@ -739,7 +739,7 @@ void plot_vtu(HyperGraphT& hyper_graph,
     if (plot_options.plot_edge_boundaries)
     {
       for (hyEdge_index_t bdr_number = 1; bdr_number <= n_edge_boundaries; ++bdr_number)
-        for (unsigned int i = 0; i < Hypercube<edge_dim>::pow(n_subdivisions); ++i)
+        for (unsigned int i = 0; i < Hypercube<edge_dim - 1>::pow(n_subdivisions); ++i)
           myfile << "  " << bdr_number;
     }
 
-- 
2.43.0


From 685afb69702e11fd24ab4115a43f9581914035d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:18 +0000
Subject: [PATCH 15/28] fix: the plot option fileEnding is returned by its name
 instead of an unprintable character

---
 include/HyperHDG/plot.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index e51bd0c..a25021f 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -116,6 +116,11 @@ struct PlotOptions
   bool numbers = false;
 };  // end of class PlotOptions
 
+namespace PlotFunctions
+{
+std::string fileType_to_string(const PlotOptions::fileType& type);
+}  // end of namespace PlotFunctions
+
 /*!*************************************************************************************************
  * \brief Set a plot option and return the new value of this option as std::string.
  **************************************************************************************************/
@@ -161,7 +166,7 @@ std::string set_plot_option(PlotOptions& plot_options,
   else if (option == "fileName")
     return_value = plot_options.fileName;
   else if (option == "fileEnding")
-    return_value = plot_options.fileEnding;
+    return_value = PlotFunctions::fileType_to_string(plot_options.fileEnding);
   else if (option == "fileNumber")
     return_value = std::to_string(plot_options.fileNumber);
   else if (option == "printFileNumber")
-- 
2.43.0


From 658300377fd50daf52167c5074eefe9f3b8f0262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:10 +0000
Subject: [PATCH 16/28] fix: the node descriptor of a file can be copied,
 including its refinement

---
 include/HyperHDG/node_descriptor/file.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/node_descriptor/file.hxx b/include/HyperHDG/node_descriptor/file.hxx
index 2a30af3..3f6dd9c 100644
--- a/include/HyperHDG/node_descriptor/file.hxx
+++ b/include/HyperHDG/node_descriptor/file.hxx
@@ -152,12 +152,10 @@ class File
                   hyEdge_index_t,
                   hyNode_index_t,
                   pt_index_t>& other)
-  : domain_info_(other.domain_info),
-    n_subintervals_(1),
-    tpcc_ref_elem_(
-      Wrapper::create_tpcc<hyEdge_dimT, hyEdge_dimT, TPCC::boundaries::both, hyEdge_index_t>(
-        SmallVec<hyEdge_dimT, unsigned int>(n_subintervals_))),
-    n_hyEdges_(domain_info_.n_hyEdges)
+  : domain_info_(other.domain_info_),
+    n_subintervals_(other.n_subintervals_),
+    tpcc_ref_elem_(other.tpcc_ref_elem_),
+    n_hyEdges_(other.n_hyEdges_)
   {
   }
 
-- 
2.43.0


From 2602c3e98e95000fe9371085f79d2b5ab5a9d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 17/28] fix: evaluate the advective velocity at the current
 time in DiffusionAdvectionReaction

---
 .../HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
index e57447d..574319d 100644
--- a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
+++ b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
@@ -998,7 +998,7 @@ DiffusionAdvectionReaction<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_fl
           integrator::template integrate_vol_phiphivecfunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::advective_velocity,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry);
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry, time);
       }
     }
   }
-- 
2.43.0


From 0be3aa0e01a8746e01bc64ca35a973bb8b42a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:04 +0000
Subject: [PATCH 18/28] fix: evaluate the diffusion coefficient on faces at the
 current time in DiffusionIP

---
 include/HyperHDG/local_solver/diffusion_ip.hxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/local_solver/diffusion_ip.hxx b/include/HyperHDG/local_solver/diffusion_ip.hxx
index da65b80..95eaa18 100644
--- a/include/HyperHDG/local_solver/diffusion_ip.hxx
+++ b/include/HyperHDG/local_solver/diffusion_ip.hxx
@@ -395,7 +395,8 @@ class DiffusionIP
   template <typename hyEdgeT>
   inline SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> dual_at_boundary(
     const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-    hyEdgeT& hyper_edge) const;
+    hyEdgeT& hyper_edge,
+    const lSol_float_t time) const;
 
  public:
   // -----------------------------------------------------------------------------------------------
@@ -450,7 +451,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
@@ -514,7 +515,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
@@ -633,7 +634,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::assembl
         local_mat(i, j) -= integrator::template integrate_bdr_nablaphiphinufunc<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry);
+          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry, time);
       }
     }
   }
@@ -795,7 +796,8 @@ inline SmallMat<
   lSol_float_t>
 DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at_boundary(
   const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-  hyEdgeT& hyper_edge) const
+  hyEdgeT& hyper_edge,
+  const lSol_float_t time) const
 {
   using parameters = parametersT<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>;
   SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> bdr_values;
@@ -807,7 +809,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at
           integrator::template integrate_bdr_nablaphipsinufunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry) *
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry, time) *
           coeffs[i];
 
   return bdr_values;
-- 
2.43.0


From 4774c5d25738eee2d37bb96ef8991db7456b80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:16 +0000
Subject: [PATCH 19/28] fix: compare the solution of eigenvalue solvers to the
 analytic result at the given parameter

---
 include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx | 2 +-
 include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
index ab8b42a..618c673 100644
--- a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
@@ -614,7 +614,7 @@ class BilaplacianEigs
     lSol_float_t result = integrator::template integrate_vol_diffsquare_discana<
       Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
       parameters::analytic_result, Point<hyEdge_dimT, lSol_float_t> >(coeffs, hy_edge.geometry,
-                                                                      time);
+                                                                      eig);
     hy_assert(result >= 0., "The squared error must be non-negative, but was " << result);
     return std::array<lSol_float_t, 1U>({result});
   }
diff --git a/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx b/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
index 630c3ab..3d77a00 100644
--- a/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
@@ -546,7 +546,7 @@ class DiffusionEigs
     return std::array<lSol_float_t, 1U>({integrator::template integrate_vol_diffsquare_discana<
       Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
       parameters::analytic_result, Point<hyEdge_dimT, lSol_float_t> >(coeffs, hy_edge.geometry,
-                                                                      time)});
+                                                                      eig)});
   }
   /*!***********************************************************************************************
    * \brief   Evaluate local local reconstruction at tensorial products of abscissas.
-- 
2.43.0


From f2bf868bf8833550dce34a8eb5b34656bfa2bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:44 +0000
Subject: [PATCH 20/28] fix: subtract the stabilization of matching traces in
 the residual flux of the bilaplacian

---
 include/HyperHDG/local_solver/bilaplacian_ldgh.hxx       | 6 ++++--
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
index 92f174e..14898cf 100644
--- a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
@@ -600,8 +600,10 @@ class Bilaplacian
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c02638..9c0179f 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -541,8 +541,10 @@ class BilaplacianParab
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
-- 
2.43.0


From 777a4ec7c266d947006513fff75b726c4ed0b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:01 +0000
Subject: [PATCH 21/28] fix: initial traces of the bilaplacian solvers project
 onto the right function of the right face

---
 .../local_solver/bilaplacian_eigs_ldgh.hxx      |  3 ++-
 .../HyperHDG/local_solver/bilaplacian_ldgh.hxx  | 17 +++++++++--------
 .../local_solver/bilaplacian_parab_ldgh.hxx     |  5 +++--
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
index 618c673..9dae670 100644
--- a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
@@ -484,7 +484,8 @@ class BilaplacianEigs
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
-            Point<hyEdge_dimT, lSol_float_t> >(j, i, hyper_edge.geometry, time);
+            Point<hyEdge_dimT, lSol_float_t> >(j - lambda_values[i].size() / 2, i,
+                                               hyper_edge.geometry, time);
       }
     }
 
diff --git a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
index 14898cf..1a24ef9 100644
--- a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
@@ -641,15 +641,16 @@ class Bilaplacian
       else
       {
         for (unsigned int j = 0; j < lambda_values[i].size() / 2; ++j)
-          lambda_values[i][j] =
-            integrator ::template integrate_bdrUni_psifunc<decltype(hyEdgeT::geometry),
-                                                           parameters::initial>(
-              i, j, hyper_edge.geometry, time);
+          lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
+            Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
+            decltype(hyEdgeT::geometry), parameters::initial, Point<hyEdge_dimT, lSol_float_t>>(
+            j, i, hyper_edge.geometry, time);
         for (unsigned int j = lambda_values[i].size() / 2; j < lambda_values[i].size(); ++j)
-          lambda_values[i][j] =
-            integrator::template integrate_bdrUni_psifunc<decltype(hyEdgeT::geometry),
-                                                          parameters::initial_laplace>(
-              i, j, hyper_edge.geometry, time);
+          lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
+            Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
+            decltype(hyEdgeT::geometry), parameters::initial_laplace,
+            Point<hyEdge_dimT, lSol_float_t>>(j - lambda_values[i].size() / 2, i,
+                                              hyper_edge.geometry, time);
       }
     }
 
diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c0179f..9ad4462 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -602,12 +602,13 @@ class BilaplacianParab
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial, Point<hyEdge_dimT, lSol_float_t>>(
-            i, j, hyper_edge.geometry, time);
+            j, i, hyper_edge.geometry, time);
         for (unsigned int j = lambda_values[i].size() / 2; j < lambda_values[i].size(); ++j)
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
-            Point<hyEdge_dimT, lSol_float_t>>(i, j, hyper_edge.geometry, time);
+            Point<hyEdge_dimT, lSol_float_t>>(j - lambda_values[i].size() / 2, i,
+                                              hyper_edge.geometry, time);
       }
     }
 
-- 
2.43.0


From 0f0b7137102a6a713b46b84f79516d17f4a2fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:16 +0000
Subject: [PATCH 22/28] fix: TimoshenkoBeam evaluates loads and Dirichlet
 values at the given time

---
 .../local_solver/timoshenko_network.hxx       | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/HyperHDG/local_solver/timoshenko_network.hxx b/include/HyperHDG/local_solver/timoshenko_network.hxx
index e75af3f..0a164cb 100644
--- a/include/HyperHDG/local_solver/timoshenko_network.hxx
+++ b/include/HyperHDG/local_solver/timoshenko_network.hxx
@@ -376,7 +376,7 @@ class TimoshenkoBeam
   template <typename hyEdgeT>
   inline SmallVec<n_loc_dofs_, lSol_float_t> assemble_rhs_from_global_rhs(
     hyEdgeT& hyper_edge,
-    const unsigned int dim) const;
+    const lSol_float_t time) const;
 
   template <class hyEdgeT, typename SmallMatT>
   inline std::array<std::array<double, 2 * space_dim>, 2 * hyEdge_dimT> node_dof_to_edge_dof(
@@ -884,7 +884,7 @@ inline SmallVec<
     n_loc_dofs_,
   lSol_float_t>
 TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_float_t>::
-  assemble_rhs_from_global_rhs(hyEdgeT& hyper_edge, const unsigned int dim) const
+  assemble_rhs_from_global_rhs(hyEdgeT& hyper_edge, const lSol_float_t time) const
 {
   using parameters = parametersT<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>;
   // constexpr unsigned int n_dofs_lap = n_loc_dofs_ / 2;
@@ -897,33 +897,33 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, 1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(2 * space_dim + 1) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, -1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(2 * space_dim + 2) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, -2, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
 
     right_hand_side[3 * space_dim * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, 1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(3 * space_dim + 1) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, -1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(3 * space_dim + 2) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, -2, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     for (unsigned int face = 0; face < 2 * hyEdge_dimT; ++face)
     {
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[face]))
@@ -931,7 +931,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 0) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 0) * n_shape_fct_ + i] += tau_ * integral;
@@ -939,7 +939,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 1) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 1) * n_shape_fct_ + i] += tau_ * integral;
@@ -947,7 +947,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 2) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 2) * n_shape_fct_ + i] += tau_ * integral;
@@ -955,7 +955,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 0) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 0) * n_shape_fct_ + i] += tau_ * integral;
@@ -963,7 +963,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 1) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 1) * n_shape_fct_ + i] += tau_ * integral;
@@ -971,7 +971,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 2) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 2) * n_shape_fct_ + i] += tau_ * integral;
-- 
2.43.0


From 6f1befba5ed373c78d4dca8e52ef99332764acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 23/28] fix: the Python import finds the definitions of structs
 as well

---
 import/HyperHDG/import_cxx/cpp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/cpp.py b/import/HyperHDG/import_cxx/cpp.py
index d9ad0dc..8df43e8 100644
--- a/import/HyperHDG/import_cxx/cpp.py
+++ b/import/HyperHDG/import_cxx/cpp.py
@@ -10,6 +10,7 @@ def extract_classname(fullname):
 def find_definition(folder, classname):
   for file in glob.glob(main_dir() + "/include/HyperHDG/" + folder + "/*.hxx"):
     with open(file, "r") as hxxfile:
-      if ("\nclass " + classname + "\n{" or "\nstruct " + classname + "\n{") in hxxfile.read():
+      content = hxxfile.read()
+      if "\nclass " + classname + "\n{" in content or "\nstruct " + classname + "\n{" in content:
         return re.sub(main_dir() + "/include/", '', file)
   assert False, "File containing defintion of " + classname + " has not been found!"
-- 
2.43.0


From 734769ff1f09a7aa7131e6a19d817073bbc03a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:48 +0000
Subject: [PATCH 24/28] fix: include files of one Python config do not leak
 into the next one

---
 import/HyperHDG/import_cxx/config.py  | 7 +++++--
 import/HyperHDG/import_cxx/include.py | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/import/HyperHDG/import_cxx/config.py b/import/HyperHDG/import_cxx/config.py
index 801147c..74c4bf4 100644
--- a/import/HyperHDG/import_cxx/config.py
+++ b/import/HyperHDG/import_cxx/config.py
@@ -10,11 +10,14 @@ class config:
   topology            = ""
   geometry            = ""
   node_descriptor     = ""
-  cython_replacements = []
   cpp_code            = ""
-  include_files       = []
   debug_mode          = False
 
+  ## \brief   Lists belong to a single config (and are not shared by all of them).
+  def __init__(self):
+    self.cython_replacements = []
+    self.include_files       = []
+
 ## \brief   Check that config is consistent.
 def consistent(conf):
   assert isinstance(conf, config)
diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index 8bdbe5f..8e5c8df 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -1,4 +1,4 @@
-import os, sys, importlib, re, datetime
+import copy, os, sys, importlib, re, datetime
 from .cmake import get_options
 from .compile_prep import compile_commands, need_compile
 from .config import *
@@ -12,6 +12,7 @@ def include(conf):
   start_time = datetime.datetime.now()
   # Check that conf is appropriatelly filled.
   assert isinstance(conf, config) and consistent(conf)
+  conf = copy.deepcopy(conf)  # The list of included files is extended for this problem only.
 
   # Start program.
   options = get_options()
-- 
2.43.0


From 2fe12fd69aba7a527e27200d70aa274c8add8b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 25/28] fix: Python configs which differ in includes,
 replacements or own code are different modules

---
 import/HyperHDG/import_cxx/names.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/import/HyperHDG/import_cxx/names.py b/import/HyperHDG/import_cxx/names.py
index fd2e6d4..97c83be 100644
--- a/import/HyperHDG/import_cxx/names.py
+++ b/import/HyperHDG/import_cxx/names.py
@@ -12,6 +12,7 @@ def files(conf):
                  + conf.node_descriptor + ",LocalSolver::" + conf.local_solver + " >"
   cython_file  = cpp_class + "_deb" if conf.debug_mode else cpp_class + "_rel"
   cython_file  = re.sub(' ', '', cython_file)
+  cython_file += str([conf.cython_replacements, conf.include_files, conf.cpp_code])
   cython_file  = "mod" + str(hashlib.sha256(cython_file.encode('utf-8')).hexdigest())
   cython_file  = re.sub('\+|\-|\*|\/|<|>|\,|\:', '_', cython_file)
   cython_class = cython_file + "CP"
-- 
2.43.0


From 66e5345ebe7622a7b4fd0f40e9bbfa653aeebb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:48 +0000
Subject: [PATCH 26/28] fix: the Python import works in folders whose name is
 special in regular expressions

---
 import/HyperHDG/import_cxx/cpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/cpp.py b/import/HyperHDG/import_cxx/cpp.py
index 8df43e8..9ad4230 100644
--- a/import/HyperHDG/import_cxx/cpp.py
+++ b/import/HyperHDG/import_cxx/cpp.py
@@ -12,5 +12,5 @@ def find_definition(folder, classname):
     with open(file, "r") as hxxfile:
       content = hxxfile.read()
       if "\nclass " + classname + "\n{" in content or "\nstruct " + classname + "\n{" in content:
-        return re.sub(main_dir() + "/include/", '', file)
+        return file[len(main_dir() + "/include/"):]
   assert False, "File containing defintion of " + classname + " has not been found!"
-- 
2.43.0


From 09d35377877219ac1d8d8d9ee628233609754538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:13 +0000
Subject: [PATCH 27/28] fix: the Python import notices changes of headers that
 only own code includes

---
 import/HyperHDG/import_cxx/compile_prep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index 81490b2..e4fd9b9 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -40,6 +40,8 @@ def need_compile(conf, python_class, opt):
     if time_so < os.stat(file).st_mtime:
       return True
   dependent_files = [ x for x in conf.include_files if ".hxx" in x ]
+  if conf.cpp_code != "":
+    dependent_files.append("build/cython_files/" + python_class + ".hxx")
   return need_compile_check_hy_files(dependent_files, time_so)
 
 ## \brief   Check whether any dependent files have been changed.
-- 
2.43.0


From b383038def3da1e3bc66ef16a02fdbf6855371b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:07 +0000
Subject: [PATCH 28/28] fix: the Python import notices changes of included
 headers outside of HyperHDG

---
 import/HyperHDG/import_cxx/compile_prep.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index e4fd9b9..27cf45d 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -55,12 +55,10 @@ def need_compile_check_hy_files(dependent_files, time_so):
       return True
     with open(filename, 'r') as file:
       content = file.read()
-    matches = re.finditer("\#include \<HyperHDG\/", content)
-    for match in matches:
-      start = match.start() + 10
-      end   = start + re.search('>', content[start:len(content)]).end() - 1
-      name  = content[start:end]
-      if name not in dependent_files:
+    for match in re.finditer("#include <([^>]*)>", content):
+      name = match.group(1)
+      if name not in dependent_files and (os.path.isfile(main_dir() + "/include/" + name) \
+        or os.path.isfile(main_dir() + "/" + name)):
         dependent_files.append(name)
   return False
 
-- 
2.43.0

