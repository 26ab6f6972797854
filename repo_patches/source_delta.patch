From ad9b8bc5fe59b404b5a97cd8ac4cc7208fd61a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 01/17] fix: compile with OpenMP enabled (no early return out
 of a parallel region in Element::isDiagonal)

---
 include/GooseFEM/Element.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index ce37145..12b5103 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -128,7 +128,6 @@ bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 
     double eps = std::numeric_limits<double>::epsilon();
 
-#pragma omp parallel for
     for (size_t e = 0; e < nelem; ++e) {
         for (size_t i = 0; i < N; ++i) {
             for (size_t j = 0; j < N; ++j) {
-- 
2.43.0


From 925d194025b4a6e9950867211b31ae80c0397dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 02/17] fix: isoparametric gradients of a distorted element
 (generic compute_dN used the wrong column)

---
 include/GooseFEM/Element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index 12b5103..ebe5bf2 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -1216,7 +1216,7 @@ private:
                     for (size_t m = 0; m < D::s_nne; ++m) {
                         for (size_t i = 0; i < D::s_ndim; ++i) {
                             for (size_t j = 0; j < D::s_ndim; ++j) {
-                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, i);
+                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, j);
                             }
                         }
                     }
-- 
2.43.0


From 0f497cefebe163c03afa420e7703b4bed403af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 03/17] fix: quadrature update keeps its state when memory is
 exhausted (no allocation after the gradients are cleared)

---
 include/GooseFEM/Element.h                  | 4 ++--
 include/GooseFEM/ElementQuad4.h             | 4 ++--
 include/GooseFEM/ElementQuad4Axisymmetric.h | 4 ++--
 include/GooseFEM/ElementQuad4Planar.h       | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index ebe5bf2..06c72b9 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -1188,8 +1188,8 @@ private:
 
 #pragma omp parallel
         {
-            auto J = array_type::tensor<double, 2>::from_shape({D::s_ndim, D::s_ndim});
-            auto Jinv = array_type::tensor<double, 2>::from_shape({D::s_ndim, D::s_ndim});
+            xt::xtensor_fixed<double, xt::xshape<D::s_ndim, D::s_ndim>> J;
+            xt::xtensor_fixed<double, xt::xshape<D::s_ndim, D::s_ndim>> Jinv;
 
 #pragma omp for
             for (size_t e = 0; e < nelem; ++e) {
diff --git a/include/GooseFEM/ElementQuad4.h b/include/GooseFEM/ElementQuad4.h
index bbb146e..ce9634a 100644
--- a/include/GooseFEM/ElementQuad4.h
+++ b/include/GooseFEM/ElementQuad4.h
@@ -494,8 +494,8 @@ private:
     {
 #pragma omp parallel
         {
-            array_type::tensor<double, 2> J = xt::empty<double>({2, 2});
-            array_type::tensor<double, 2> Jinv = xt::empty<double>({2, 2});
+            xt::xtensor_fixed<double, xt::xshape<2, 2>> J;
+            xt::xtensor_fixed<double, xt::xshape<2, 2>> Jinv;
 
 #pragma omp for
             for (size_t e = 0; e < m_nelem; ++e) {
diff --git a/include/GooseFEM/ElementQuad4Axisymmetric.h b/include/GooseFEM/ElementQuad4Axisymmetric.h
index 33c27bf..b3ed6b5 100644
--- a/include/GooseFEM/ElementQuad4Axisymmetric.h
+++ b/include/GooseFEM/ElementQuad4Axisymmetric.h
@@ -394,8 +394,8 @@ private:
 
 #pragma omp parallel
         {
-            array_type::tensor<double, 2> J = xt::empty<double>({2, 2});
-            array_type::tensor<double, 2> Jinv = xt::empty<double>({2, 2});
+            xt::xtensor_fixed<double, xt::xshape<2, 2>> J;
+            xt::xtensor_fixed<double, xt::xshape<2, 2>> Jinv;
 
 #pragma omp for
             for (size_t e = 0; e < m_nelem; ++e) {
diff --git a/include/GooseFEM/ElementQuad4Planar.h b/include/GooseFEM/ElementQuad4Planar.h
index cf278ee..2c8a83a 100644
--- a/include/GooseFEM/ElementQuad4Planar.h
+++ b/include/GooseFEM/ElementQuad4Planar.h
@@ -281,8 +281,8 @@ private:
     {
 #pragma omp parallel
         {
-            array_type::tensor<double, 2> J = xt::empty<double>({2, 2});
-            array_type::tensor<double, 2> Jinv = xt::empty<double>({2, 2});
+            xt::xtensor_fixed<double, xt::xshape<2, 2>> J;
+            xt::xtensor_fixed<double, xt::xshape<2, 2>> Jinv;
 
 #pragma omp for
             for (size_t e = 0; e < m_nelem; ++e) {
-- 
2.43.0


From e887a269ba3caaaca95983350dd4cd69f5794033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 04/17] fix: tied solves use the forces on dependent DOFs in
 every form

---
 include/GooseFEM/MatrixPartitionedTyings.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 7ffa962..3671780 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -483,7 +483,7 @@ private:
 
 #pragma omp parallel for
         for (size_t d = 0; d < m_nnd; ++d) {
-            dofval_d(d) = dofval(m_iip(d));
+            dofval_d(d) = dofval(m_iid(d));
         }
 
         return dofval_d;
@@ -572,6 +572,8 @@ private:
         Eigen::VectorXd B_d = A.AsDofs_d(b);
         Eigen::VectorXd X_p = A.AsDofs_p(x);
 
+        B_u += A.m_Cud * B_d;
+
         Eigen::VectorXd X_u = m_solver.solve(Eigen::VectorXd(B_u - A.m_ACup * X_p));
         Eigen::VectorXd X_d = A.m_Cdu * X_u + A.m_Cdp * X_p;
 
@@ -630,7 +632,6 @@ public:
         array_type::tensor<double, 1>& x_u
     )
     {
-        UNUSED(b_d);
         GOOSEFEM_ASSERT(b_u.size() == A.m_nnu);
         GOOSEFEM_ASSERT(b_d.size() == A.m_nnd);
         GOOSEFEM_ASSERT(x_p.size() == A.m_nnp);
@@ -640,7 +641,8 @@ public:
 
         Eigen::Map<Eigen::VectorXd>(x_u.data(), x_u.size()).noalias() =
             m_solver.solve(Eigen::VectorXd(
-                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) -
+                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) +
+                A.m_Cud * Eigen::Map<const Eigen::VectorXd>(b_d.data(), b_d.size()) -
                 A.m_ACup * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size())
             ));
     }
-- 
2.43.0


From 644e3a1011025a5b6d2cafe22d1289fe3064c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 05/17] fix: solvers recognise the content they factorised
 (several solvers, several matrices, failed changes)

---
 include/GooseFEM/Matrix.h                  | 31 ++++++++++++++------
 include/GooseFEM/MatrixPartitioned.h       | 14 ++++-----
 include/GooseFEM/MatrixPartitionedTyings.h | 33 +++++++++++-----------
 3 files changed, 45 insertions(+), 33 deletions(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index 4a25c46..75401f9 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -12,9 +12,23 @@
 #include <Eigen/Eigen>
 #include <Eigen/Sparse>
 #include <Eigen/SparseCholesky>
+#include <atomic>
 
 namespace GooseFEM {
 
+namespace detail {
+
+/**
+ * Unique number (counts from one). Used to identify the content of a matrix.
+ */
+inline size_t unique_id()
+{
+    static std::atomic<size_t> id{0};
+    return ++id;
+}
+
+} // namespace detail
+
 // forward declaration
 template <class>
 class MatrixSolver;
@@ -207,6 +221,7 @@ protected:
     size_t m_ndof; ///< See ndof().
 
     bool m_changed = true; ///< Signal changes to data.
+    size_t m_id = detail::unique_id(); ///< Identifies the content: renewed by every change.
 
 public:
     /**
@@ -655,8 +670,6 @@ private:
     friend MatrixBase<Matrix>;
 
 private:
-    bool m_changed = true; ///< Signal changes to data.
-
     Eigen::SparseMatrix<double> m_A; ///< The matrix.
 
     std::vector<Eigen::Triplet<double>> m_T; ///< Matrix entries.
@@ -704,6 +717,7 @@ private:
     template <class T>
     void assemble_impl(const T& elemmat)
     {
+        m_id = detail::unique_id();
         m_T.clear();
 
         for (size_t e = 0; e < m_nelem; ++e) {
@@ -723,7 +737,6 @@ private:
         }
 
         m_A.setFromTriplets(m_T.begin(), m_T.end());
-        m_changed = true;
     }
 
 public:
@@ -752,8 +765,8 @@ public:
             }
         }
 
+        m_id = detail::unique_id();
         m_A.setFromTriplets(T.begin(), T.end());
-        m_changed = true;
     }
 
     /**
@@ -784,8 +797,8 @@ public:
         }
 
         A.setFromTriplets(T.begin(), T.end());
+        m_id = detail::unique_id();
         m_A += A;
-        m_changed = true;
     }
 
 private:
@@ -892,19 +905,19 @@ private:
 
 private:
     Solver m_solver; ///< Solver.
-    bool m_factor = true; ///< Signal to force factorization.
+    size_t m_id = 0; ///< Content that is factorized (zero: none).
 
     /**
      * Compute inverse (evaluated by "solve").
      */
     void factorize(Matrix& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_id == m_id) {
             return;
         }
+        m_id = 0;
         m_solver.compute(A.m_A);
-        m_factor = false;
-        A.m_changed = false;
+        m_id = A.m_id;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitioned.h b/include/GooseFEM/MatrixPartitioned.h
index 1567d61..a06ff21 100644
--- a/include/GooseFEM/MatrixPartitioned.h
+++ b/include/GooseFEM/MatrixPartitioned.h
@@ -158,6 +158,7 @@ private:
     {
         GOOSEFEM_ASSERT(xt::has_shape(elemmat, {m_nelem, m_nne * m_ndim, m_nne * m_ndim}));
 
+        m_id = detail::unique_id();
         m_Tuu.clear();
         m_Tup.clear();
         m_Tpu.clear();
@@ -206,7 +207,6 @@ private:
         m_Aup.setFromTriplets(m_Tup.begin(), m_Tup.end());
         m_Apu.setFromTriplets(m_Tpu.begin(), m_Tpu.end());
         m_App.setFromTriplets(m_Tpp.begin(), m_Tpp.end());
-        m_changed = true;
     }
 
 public:
@@ -253,11 +253,11 @@ public:
             }
         }
 
+        m_id = detail::unique_id();
         m_Auu.setFromTriplets(Tuu.begin(), Tuu.end());
         m_Aup.setFromTriplets(Tup.begin(), Tup.end());
         m_Apu.setFromTriplets(Tpu.begin(), Tpu.end());
         m_App.setFromTriplets(Tpp.begin(), Tpp.end());
-        m_changed = true;
     }
 
     /**
@@ -312,11 +312,11 @@ public:
         Aup.setFromTriplets(Tup.begin(), Tup.end());
         Apu.setFromTriplets(Tpu.begin(), Tpu.end());
         App.setFromTriplets(Tpp.begin(), Tpp.end());
+        m_id = detail::unique_id();
         m_Auu += Auu;
         m_Aup += Aup;
         m_Apu += Apu;
         m_App += App;
-        m_changed = true;
     }
 
 private:
@@ -625,19 +625,19 @@ private:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_id = 0; ///< content that is factorized (zero: none)
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitioned& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_id == m_id) {
             return;
         }
+        m_id = 0;
         m_solver.compute(A.m_Auu);
-        m_factor = false;
-        A.m_changed = false;
+        m_id = A.m_id;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 3671780..26c318b 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -50,10 +50,6 @@ protected:
     Eigen::SparseMatrix<double> m_Adu; ///< The matrix.
     Eigen::SparseMatrix<double> m_Adp; ///< The matrix.
     Eigen::SparseMatrix<double> m_Add; ///< The matrix.
-    Eigen::SparseMatrix<double> m_ACuu; ///< // The matrix for which the tyings have been applied.
-    Eigen::SparseMatrix<double> m_ACup; ///< // The matrix for which the tyings have been applied.
-    Eigen::SparseMatrix<double> m_ACpu; ///< // The matrix for which the tyings have been applied.
-    Eigen::SparseMatrix<double> m_ACpp; ///< // The matrix for which the tyings have been applied.
     std::vector<Eigen::Triplet<double>> m_Tuu; ///< Matrix entries.
     std::vector<Eigen::Triplet<double>> m_Tup; ///< Matrix entries.
     std::vector<Eigen::Triplet<double>> m_Tpu; ///< Matrix entries.
@@ -212,6 +208,7 @@ private:
     {
         GOOSEFEM_ASSERT(xt::has_shape(elemmat, {m_nelem, m_nne * m_ndim, m_nne * m_ndim}));
 
+        m_id = detail::unique_id();
         m_Tuu.clear();
         m_Tup.clear();
         m_Tpu.clear();
@@ -301,7 +298,6 @@ private:
         m_Adu.setFromTriplets(m_Tdu.begin(), m_Tdu.end());
         m_Adp.setFromTriplets(m_Tdp.begin(), m_Tdp.end());
         m_Add.setFromTriplets(m_Tdd.begin(), m_Tdd.end());
-        m_changed = true;
     }
 
     // todo: test
@@ -547,7 +543,7 @@ private:
 
         B_u += A.m_Cud * B_d;
 
-        Eigen::VectorXd X_u = m_solver.solve(Eigen::VectorXd(B_u - A.m_ACup * X_p));
+        Eigen::VectorXd X_u = m_solver.solve(Eigen::VectorXd(B_u - m_ACup * X_p));
         Eigen::VectorXd X_d = A.m_Cdu * X_u + A.m_Cdp * X_p;
 
 #pragma omp parallel for
@@ -574,7 +570,7 @@ private:
 
         B_u += A.m_Cud * B_d;
 
-        Eigen::VectorXd X_u = m_solver.solve(Eigen::VectorXd(B_u - A.m_ACup * X_p));
+        Eigen::VectorXd X_u = m_solver.solve(Eigen::VectorXd(B_u - m_ACup * X_p));
         Eigen::VectorXd X_d = A.m_Cdu * X_u + A.m_Cdp * X_p;
 
 #pragma omp parallel for
@@ -643,36 +639,39 @@ public:
             m_solver.solve(Eigen::VectorXd(
                 Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) +
                 A.m_Cud * Eigen::Map<const Eigen::VectorXd>(b_d.data(), b_d.size()) -
-                A.m_ACup * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size())
+                m_ACup * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size())
             ));
     }
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    Eigen::SparseMatrix<double> m_ACuu; ///< The matrix for which the tyings have been applied.
+    Eigen::SparseMatrix<double> m_ACup; ///< The matrix for which the tyings have been applied.
+    size_t m_id = 0; ///< content that is factorized (zero: none)
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitionedTyings& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_id == m_id) {
             return;
         }
 
-        A.m_ACuu = A.m_Auu + A.m_Aud * A.m_Cdu + A.m_Cud * A.m_Adu + A.m_Cud * A.m_Add * A.m_Cdu;
+        m_id = 0;
 
-        A.m_ACup = A.m_Aup + A.m_Aud * A.m_Cdp + A.m_Cud * A.m_Adp + A.m_Cud * A.m_Add * A.m_Cdp;
+        m_ACuu = A.m_Auu + A.m_Aud * A.m_Cdu + A.m_Cud * A.m_Adu + A.m_Cud * A.m_Add * A.m_Cdu;
 
-        // A.m_ACpu = A.m_Apu + A.m_Apd * A.m_Cdu + A.m_Cpd * A.m_Adu
+        m_ACup = A.m_Aup + A.m_Aud * A.m_Cdp + A.m_Cud * A.m_Adp + A.m_Cud * A.m_Add * A.m_Cdp;
+
+        // m_ACpu = A.m_Apu + A.m_Apd * A.m_Cdu + A.m_Cpd * A.m_Adu
         //     + A.m_Cpd * A.m_Add * A.m_Cdu;
 
-        // A.m_ACpp = A.m_App + A.m_Apd * A.m_Cdp + A.m_Cpd * A.m_Adp
+        // m_ACpp = A.m_App + A.m_Apd * A.m_Cdp + A.m_Cpd * A.m_Adp
         //     + A.m_Cpd * A.m_Add * A.m_Cdp;
 
-        m_solver.compute(A.m_ACuu);
-        m_factor = false;
-        A.m_changed = false;
+        m_solver.compute(m_ACuu);
+        m_id = A.m_id;
     }
 };
 
-- 
2.43.0


From 3c42087f0314e126af335bcb7309604d6a79d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 06/17] fix: partial reactions of a diagonal matrix (shadowed
 members left the base's sizes unset)

---
 include/GooseFEM/MatrixDiagonalPartitioned.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/GooseFEM/MatrixDiagonalPartitioned.h b/include/GooseFEM/MatrixDiagonalPartitioned.h
index 19e7b75..dd8017e 100644
--- a/include/GooseFEM/MatrixDiagonalPartitioned.h
+++ b/include/GooseFEM/MatrixDiagonalPartitioned.h
@@ -428,12 +428,6 @@ private:
 
     // Bookkeeping
     array_type::tensor<size_t, 2> m_part; // DOF-numbers per node, renumbered  [nnode, ndim]
-    array_type::tensor<size_t, 1> m_iiu; // DOF-numbers that are unknown      [nnu]
-    array_type::tensor<size_t, 1> m_iip; // DOF-numbers that are prescribed   [nnp]
-
-    // Dimensions
-    size_t m_nnu; // number of unknown DOFs
-    size_t m_nnp; // number of prescribed DOFs
 
     // Compute inverse (automatically evaluated by "solve")
     void factorize()
-- 
2.43.0


From 4067d6528678aa8bd17b18efb5f15b244c24af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 07/17] fix: diagonal solve returns defined prescribed entries
 (zero instead of uninitialised memory)

---
 include/GooseFEM/MatrixDiagonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MatrixDiagonal.h b/include/GooseFEM/MatrixDiagonal.h
index 6c72b15..a0e2a0c 100644
--- a/include/GooseFEM/MatrixDiagonal.h
+++ b/include/GooseFEM/MatrixDiagonal.h
@@ -52,7 +52,7 @@ public:
      */
     array_type::tensor<double, 2> Solve(const array_type::tensor<double, 2>& b)
     {
-        array_type::tensor<double, 2> x = xt::empty_like(b);
+        array_type::tensor<double, 2> x = xt::zeros_like(b);
         derived_cast().solve_nodevec_impl(b, x);
         return x;
     }
@@ -69,7 +69,7 @@ public:
      */
     array_type::tensor<double, 1> Solve(const array_type::tensor<double, 1>& b)
     {
-        array_type::tensor<double, 1> x = xt::empty_like(b);
+        array_type::tensor<double, 1> x = xt::zeros_like(b);
         derived_cast().solve_dofval_impl(b, x);
         return x;
     }
-- 
2.43.0


From c0ef0fc4ee0185757ab57927d73b49fe72669d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 08/17] fix: Mesh::Vstack: place a layer on top of the stack
 wherever its own bottom is

---
 include/GooseFEM/Mesh.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index d7d5b84..fc774fb 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2347,7 +2347,8 @@ public:
 
         size_t index = m_map.size();
 
-        double shift = xt::amax(xt::view(m_coor, xt::all(), 1))();
+        double shift = xt::amax(xt::view(m_coor, xt::all(), 1))() -
+                       xt::amin(xt::view(coor, xt::all(), 1))();
         auto x = coor;
         xt::view(x, xt::all(), 1) += shift;
 
-- 
2.43.0


From 61f588bd4b32157abdeb9ad621d3b347aacad59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 09/17] fix: Mesh::Stitch, Mesh::Vstack: a failed push_back
 leaves the stitched mesh as it was

---
 include/GooseFEM/Mesh.h | 70 +++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index fc774fb..8308b16 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2035,16 +2035,11 @@ public:
         GOOSEFEM_ASSERT(conn.dimension() == 2);
 
         if (m_map.size() == 0) {
-            m_coor = coor;
-            m_conn = conn;
-            m_map.push_back(xt::eval(xt::arange<size_t>(coor.shape(0))));
-            m_nel.push_back(conn.shape(0));
-            m_el_offset.push_back(0);
+            this->append(coor, conn, xt::eval(xt::arange<size_t>(coor.shape(0))), conn.shape(0));
             return;
         }
 
         auto overlap = overlapping(m_coor, coor, m_rtol, m_atol);
-        size_t index = m_map.size();
 
         ManualStitch stitch(
             m_coor,
@@ -2056,11 +2051,7 @@ public:
             false
         );
 
-        m_coor = stitch.coor();
-        m_conn = stitch.conn();
-        m_map.push_back(stitch.nodemap(1));
-        m_nel.push_back(conn.shape(0));
-        m_el_offset.push_back(m_el_offset[index - 1] + m_nel[index - 1]);
+        this->append(stitch.coor(), stitch.conn(), stitch.nodemap(1), conn.shape(0));
     }
 
     /**
@@ -2294,6 +2285,34 @@ public:
     }
 
 protected:
+    /**
+     * Register a sub-mesh: everything that can fail is done before the first change.
+     *
+     * @param coor Nodal coordinates of the stitched mesh, including the sub-mesh.
+     * @param conn Connectivity of the stitched mesh, including the sub-mesh.
+     * @param map Node-map of the sub-mesh.
+     * @param nel Number of elements of the sub-mesh.
+     */
+    void append(
+        array_type::tensor<double, 2> coor,
+        array_type::tensor<size_t, 2> conn,
+        array_type::tensor<size_t, 1> map,
+        size_t nel
+    )
+    {
+        size_t offset = m_map.size() == 0 ? 0 : m_el_offset.back() + m_nel.back();
+
+        m_map.reserve(m_map.size() + 1);
+        m_nel.reserve(m_nel.size() + 1);
+        m_el_offset.reserve(m_el_offset.size() + 1);
+
+        std::swap(m_coor, coor);
+        std::swap(m_conn, conn);
+        m_map.push_back(std::move(map));
+        m_nel.push_back(nel);
+        m_el_offset.push_back(offset);
+    }
+
     array_type::tensor<double, 2> m_coor; ///< Nodal coordinates [#nnode, #ndim]
     array_type::tensor<size_t, 2> m_conn; ///< Connectivity [#nelem, #nne]
     std::vector<array_type::tensor<size_t, 1>> m_map; ///< See nodemap(size_t)
@@ -2332,21 +2351,20 @@ public:
     template <class C, class E, class N>
     void push_back(const C& coor, const E& conn, const N& nodes_bot, const N& nodes_top)
     {
+        m_nodes_bot.reserve(m_nodes_bot.size() + 1);
+        m_nodes_top.reserve(m_nodes_top.size() + 1);
+
         if (m_map.size() == 0) {
-            m_coor = coor;
-            m_conn = conn;
-            m_map.push_back(xt::eval(xt::arange<size_t>(coor.shape(0))));
-            m_nel.push_back(conn.shape(0));
-            m_el_offset.push_back(0);
-            m_nodes_bot.push_back(nodes_bot);
-            m_nodes_top.push_back(nodes_top);
+            array_type::tensor<size_t, 1> bot = nodes_bot;
+            array_type::tensor<size_t, 1> top = nodes_top;
+            this->append(coor, conn, xt::eval(xt::arange<size_t>(coor.shape(0))), conn.shape(0));
+            m_nodes_bot.push_back(std::move(bot));
+            m_nodes_top.push_back(std::move(top));
             return;
         }
 
         GOOSEFEM_ASSERT(nodes_bot.size() == m_nodes_top.back().size());
 
-        size_t index = m_map.size();
-
         double shift = xt::amax(xt::view(m_coor, xt::all(), 1))() -
                        xt::amin(xt::view(coor, xt::all(), 1))();
         auto x = coor;
@@ -2356,14 +2374,12 @@ public:
             m_coor, m_conn, m_nodes_top.back(), x, conn, nodes_bot, m_check_overlap, m_rtol, m_atol
         );
 
-        m_nodes_bot.push_back(stitch.nodeset(nodes_bot, 1));
-        m_nodes_top.push_back(stitch.nodeset(nodes_top, 1));
+        array_type::tensor<size_t, 1> bot = stitch.nodeset(nodes_bot, 1);
+        array_type::tensor<size_t, 1> top = stitch.nodeset(nodes_top, 1);
 
-        m_coor = stitch.coor();
-        m_conn = stitch.conn();
-        m_map.push_back(stitch.nodemap(1));
-        m_nel.push_back(conn.shape(0));
-        m_el_offset.push_back(m_el_offset[index - 1] + m_nel[index - 1]);
+        this->append(stitch.coor(), stitch.conn(), stitch.nodemap(1), conn.shape(0));
+        m_nodes_bot.push_back(std::move(bot));
+        m_nodes_top.push_back(std::move(top));
     }
 
 private:
-- 
2.43.0


From 1066cb4374dba67002b153e81b0ee8158cce78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 10/17] fix: Iterate::StopList::all_less: an undefined residual
 is not below the tolerance

---
 include/GooseFEM/Iterate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Iterate.h b/include/GooseFEM/Iterate.h
index 8ec4c3b..54f2497 100644
--- a/include/GooseFEM/Iterate.h
+++ b/include/GooseFEM/Iterate.h
@@ -90,7 +90,7 @@ public:
      */
     bool all_less(double tol) const
     {
-        return !std::any_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i >= tol; });
+        return std::all_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i < tol; });
     }
 
     /**
-- 
2.43.0


From a4b2d63e891171e7d852026db83b933ccab1dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 11/17] fix: Iterate::StopList::roll_insert: a list of zero
 residuals stays empty

---
 include/GooseFEM/Iterate.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/GooseFEM/Iterate.h b/include/GooseFEM/Iterate.h
index 54f2497..b722a4c 100644
--- a/include/GooseFEM/Iterate.h
+++ b/include/GooseFEM/Iterate.h
@@ -68,6 +68,10 @@ public:
      */
     void roll_insert(double res)
     {
+        if (m_res.empty()) {
+            return;
+        }
+
         std::rotate(m_res.begin(), m_res.begin() + 1, m_res.end());
         m_res.back() = res;
     }
-- 
2.43.0


From 00804ec6e1ccfa64e83113d3b74ffb2ac86cc12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 12/17] fix: Element::isSequential looks for holes over all
 DOFs, not only over the DOFs that are present

---
 include/GooseFEM/Element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index 06c72b9..8231b35 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -103,7 +103,7 @@ inline bool isSequential(const E& dofs)
         exists[i]++;
     }
 
-    for (auto& i : dofs) {
+    for (size_t i = 0; i < ndof; ++i) {
         if (exists[i] == 0) {
             return false;
         }
-- 
2.43.0


From 6fa3bfbb3adade3336d07f8eb7fc8c45394d326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 13/17] fix: Mesh::elem2node with DOFs: a list for every node,
 also for nodes at the end that are not part of any element

---
 include/GooseFEM/Mesh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 8308b16..413e3ac 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2535,6 +2535,9 @@ inline std::vector<std::vector<size_t>> elem2node(const E& conn, const D& dofs,
 {
     size_t nnode = dofs.shape(0);
     auto ret = elem2node(conn, sorted);
+    if (ret.size() < nnode) {
+        ret.resize(nnode);
+    }
     auto nties = nodaltyings(dofs);
 
     for (size_t m = 0; m < nnode; ++m) {
-- 
2.43.0


From 90b576f8a59878c4df84d5fc3b7cf524edb78e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 14/17] fix: Quad4::FineLayer(coor, conn): do not read past the
 connectivity, and round the number of rows

---
 include/GooseFEM/MeshQuad4.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 28b8e74..7fa8fd7 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1097,11 +1097,11 @@ private:
         size_t eleft = emid;
         size_t eright = emid;
 
-        while (conn(eleft, 0) == conn(eleft - 1, 1) && eleft > 0) {
+        while (eleft > 0 && conn(eleft, 0) == conn(eleft - 1, 1)) {
             eleft--;
         }
 
-        while (conn(eright, 1) == conn(eright + 1, 0) && eright < conn.shape(0) - 1) {
+        while (eright < conn.shape(0) - 1 && conn(eright, 1) == conn(eright + 1, 0)) {
             eright++;
         }
 
@@ -1124,7 +1124,8 @@ private:
         // Extract shape and initialise
 
         size_t nelx = eright - eleft + 1;
-        size_t nely = static_cast<size_t>((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx);
+        size_t nely =
+            static_cast<size_t>(std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx));
         this->init(nelx, nely, hx);
         GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
         GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
-- 
2.43.0


From f820cb899ecd42edbec9cb804847de9461e7afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 15/17] fix: Quad4::FineLayer: find the row of an element of
 the last row of the mesh too

---
 include/GooseFEM/MeshQuad4.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 7fa8fd7..ad6c6c1 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -411,7 +411,7 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
+        size_t iy = this->layer_of_element(e);
         size_t nel = m_layer_nelx(iy);
 
         GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
@@ -484,7 +484,7 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
+        size_t iy = this->layer_of_element(e);
         size_t nel = m_layer_nelx(iy);
 
         GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
@@ -568,6 +568,22 @@ private:
     friend class RegularBase2d<FineLayer>;
     friend class GooseFEM::Mesh::Quad4::Map::FineLayer2Regular;
 
+    /**
+     * Row of blocks to which an element belongs.
+     *
+     * @param e Element number.
+     * @return Row.
+     */
+    size_t layer_of_element(size_t e) const
+    {
+        GOOSEFEM_ASSERT(e < m_nelem);
+        size_t iy = m_nhy.size() - 1;
+        while (m_startElem(iy) > e) {
+            --iy;
+        }
+        return iy;
+    }
+
     size_t nelx_impl() const
     {
         return xt::amax(m_layer_nelx)();
-- 
2.43.0


From b9c2a3d602a084298935c12d4ed4a94102184a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 16/17] fix: Mesh::Renumber: index() has no uninitialised
 entries for numbers that are not used

---
 include/GooseFEM/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 413e3ac..9f4f413 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -126,7 +126,7 @@ public:
 
         array_type::tensor<size_t, 1> unique = xt::unique(dofs);
 
-        m_renum = xt::empty<size_t>({n});
+        m_renum = xt::zeros<size_t>({n});
 
         for (auto& j : unique) {
             m_renum(j) = i;
-- 
2.43.0


From 9effc245eab139cccad3c0bdb99a67e4066dbdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 17/17] fix: Hex8::FineLayer: the side faces include the nodes
 of a refinement layer at the bottom or top

---
 include/GooseFEM/MeshHex8.h | 64 +++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/include/GooseFEM/MeshHex8.h b/include/GooseFEM/MeshHex8.h
index c43367e..85af536 100644
--- a/include/GooseFEM/MeshHex8.h
+++ b/include/GooseFEM/MeshHex8.h
@@ -1599,6 +1599,14 @@ private:
             }
         }
 
+        // - outermost layers: middle node layer
+        if (m_refine(0) == 0) {
+            n += m_layer_nelx(0) * 2;
+        }
+        if (m_refine(nely - 1) == 0) {
+            n += m_layer_nelx(nely - 1) * 2;
+        }
+
         // allocate node-list
         array_type::tensor<size_t, 1> ret = xt::empty<size_t>({n});
 
@@ -1606,9 +1614,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy > 0 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy) + ix;
                 ++j;
             }
@@ -1622,7 +1630,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1631,7 +1639,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy < nely - 1 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy + 1) + ix;
                 ++j;
             }
@@ -1667,6 +1675,14 @@ private:
             }
         }
 
+        // - outermost layers: middle node layer
+        if (m_refine(0) == 0) {
+            n += m_layer_nelx(0) * 2;
+        }
+        if (m_refine(nely - 1) == 0) {
+            n += m_layer_nelx(nely - 1) * 2;
+        }
+
         // allocate node-list
         array_type::tensor<size_t, 1> ret = xt::empty<size_t>({n});
 
@@ -1674,9 +1690,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy > 0 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
                 ++j;
             }
@@ -1691,7 +1707,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1701,7 +1717,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy < nely - 1 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy + 1) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
                 ++j;
             }
@@ -1737,6 +1753,14 @@ private:
             }
         }
 
+        // - outermost layers: middle node layer
+        if (m_refine(0) == 2) {
+            n += m_layer_nelz(0) * 2;
+        }
+        if (m_refine(nely - 1) == 2) {
+            n += m_layer_nelz(nely - 1) * 2;
+        }
+
         // allocate node-list
         array_type::tensor<size_t, 1> ret = xt::empty<size_t>({n});
 
@@ -1744,9 +1768,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy > 0 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1);
                 ++j;
             }
@@ -1760,7 +1784,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1769,7 +1793,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy < nely - 1 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1);
                 ++j;
             }
@@ -1805,6 +1829,14 @@ private:
             }
         }
 
+        // - outermost layers: middle node layer
+        if (m_refine(0) == 2) {
+            n += m_layer_nelz(0) * 2;
+        }
+        if (m_refine(nely - 1) == 2) {
+            n += m_layer_nelz(nely - 1) * 2;
+        }
+
         // allocate node-list
         array_type::tensor<size_t, 1> ret = xt::empty<size_t>({n});
 
@@ -1812,9 +1844,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy > 0 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
                 ++j;
             }
@@ -1829,7 +1861,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1839,7 +1871,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy < nely - 1 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
                 ++j;
             }
-- 
2.43.0

