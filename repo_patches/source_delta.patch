From 3a1aa8781ce9105069dbe57ec3d573506ed46daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:02 +0000
Subject: [PATCH 01/74] fix: use the contravariant metric for planar (2D)
 geometries

The 2D metric evaluation copied the covariant metric into the contravariant one, so
gsMaterialMatrixLinear<2> returned wrong stresses and stiffnesses on any
parametrisation whose metric is not the identity.
---
 src/gsMaterialMatrixBaseDim.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 8ca1bfc..9e9e82c 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1154,7 +1154,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricDeformed_impl(const index_t k, const T
 
     // Get metric information
     Acov_def = m_data.mine().m_Acov_def_mat.reshapeCol(k,2,2);
-    Acon_def = m_data.mine().m_Acov_def_mat.reshapeCol(k,2,2);
+    Acon_def = m_data.mine().m_Acon_def_mat.reshapeCol(k,2,2);
 
     // Compute full metric
     Gcov_def.setZero();
@@ -1283,7 +1283,7 @@ gsMaterialMatrixBaseDim<dim,T>::_getMetricUndeformed_impl(const index_t k, const
 
     // Get metric information
     Acov_ori = m_data.mine().m_Acov_ori_mat.reshapeCol(k,2,2);
-    Acon_ori = m_data.mine().m_Acov_ori_mat.reshapeCol(k,2,2);
+    Acon_ori = m_data.mine().m_Acon_ori_mat.reshapeCol(k,2,2);
 
     // Compute full metric
     Gcov_ori.setZero();
-- 
2.43.0


From 73da168b1625c6796f7780fd8269df88845dfafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:02 +0000
Subject: [PATCH 02/74] fix: evaluate the derivative of the material tensor at
 the actual deformation

The finite-difference derivative was taken at C12/2 instead of C12, and the
evaluation on more than one point used data of the first point only (out-of-range
access), since it re-computes the point data on every single point.
---
 src/gsMaterialMatrixNonlinear.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 488a24c..e00a0df 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -345,21 +345,22 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_dmatrix(
 {
     // return gsMatrix<T>::Zero(27,u.cols()*z.rows());
 
-    this->_computePoints(patch,u);
-
     gsMatrix<T> result(27,u.cols()*z.rows());
     result.setZero();
     index_t colIdx;
     for (index_t k=0; k!=u.cols(); k++)
     {
-        // Evaluate material properties on the quadrature point
-        for (index_t v=0; v!=m_data.mine().m_parmat.rows(); v++)
-            m_data.mine().m_parvals.at(v) = m_data.mine().m_parmat(v,k);
-
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j*u.cols()+k;
-            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
+            // dCijkl re-computes the data on the single point u.col(k)
+            this->_computePoints(patch,u.col(k));
+
+            // Evaluate material properties on the quadrature point
+            for (index_t v=0; v!=m_data.mine().m_parmat.rows(); v++)
+                m_data.mine().m_parvals.at(v) = m_data.mine().m_parmat(v,0);
+
+            this->_getMetric(0, z(j, k) * m_data.mine().m_Tmat(0, 0)); // on point i, on height z(0,j)
             result.col(colIdx) = dCijkl(patch,u.col(k),z(j,k));
             // gsAsMatrix<T,Dynamic,Dynamic> dCdC = result.reshapeCol(k,3,9);
             // dCdC.row(2) *= 2;
@@ -385,7 +386,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::dCijkl_impl(const index_t p
 
     Cvoight(0,0) = m_data.mine().m_Gcov_def(0,0);
     Cvoight(1,0) = m_data.mine().m_Gcov_def(1,1);
-    Cvoight(2,0) = m_data.mine().m_Gcov_def(0,1);
+    Cvoight(2,0) = 2*m_data.mine().m_Gcov_def(0,1); // Cfun takes (C11,C22,2*C12)
 
     Cfunc.deriv_into(Cvoight,result);
     return result;
-- 
2.43.0


From 12a611ddb7c50391d9c02113426707dd8a206ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:04 +0000
Subject: [PATCH 03/74] fix: take the rest-state shortcut of the stretches only
 in the rest state

---
 src/gsMaterialMatrixBaseDim.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 9e9e82c..55db3a7 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1347,7 +1347,9 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalStretch(
 
     gsMatrix<T> eigVectors(3,3);
     gsMatrix<T> eigValues(3,1);
-    if (math::abs(((B.block(0,0,2,2).diagonal()).array()-1).sum()) < 10*std::numeric_limits<T>::epsilon())
+    gsMatrix<T> rest = gsMatrix<T>::Identity(3,3);
+    rest(2,2) = 0;
+    if ((B - rest).array().abs().sum() < 10*std::numeric_limits<T>::epsilon())
     {
         eigValues<<0,1,1; // eigenvalues when B = [1 0 0; 0 1 0; 0 0 0]
         eigVectors<<0,0,1,
-- 
2.43.0


From ab97ef80e2a4eb55aba19a07012f3a2b1c5f41b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:04 +0000
Subject: [PATCH 04/74] fix: keep the Newton iterations for C33 in the
 admissible range

---
 src/gsMaterialMatrixNonlinear.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index e00a0df..7b3a402 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -1912,6 +1912,9 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
             dc33 = -2. * S33 / C3333;
             for (index_t it = 0; it < itmax; it++)
             {
+                // Safeguard the Newton step: descend along S33 and keep c33 positive
+                if (C3333 <= 0.0 || c(2,2) + dc33 <= 0.0)
+                    dc33 = (S33 > 0.0 ? -0.5 : 1.0) * c(2,2);
                 c(2,2) += dc33;
 
                 //GISMO_ENSURE(c(2,2)>= 0,"ERROR in iteration "<<it<<"; c(2,2) = " << c(2,2) << " C3333=" << C3333 <<" S33=" << S33<<" dc33 = "<<dc33);
@@ -1986,6 +1989,9 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
             dc33 = -2. * S33 / C3333;
             for (index_t it = 0; it < itmax; it++)
             {
+                // Safeguard the Newton step: descend along S33 and keep c33 positive
+                if (C3333 <= 0.0 || c(2,2) + dc33 <= 0.0)
+                    dc33 = (S33 > 0.0 ? -0.5 : 1.0) * c(2,2);
                 c(2,2) += dc33;
 
                 //GISMO_ENSURE(c(2,2)>= 0,"ERROR in iteration "<<it<<"; c(2,2) = " << c(2,2) << " C3333=" << C3333 <<" S33=" << S33<<" dc33 = "<<dc33);
-- 
2.43.0


From 57cad3e2dbe79601c46cb615b7569ca571a3ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 05/74] fix: allocate the system so that vectors can be
 assembled before a matrix

---
 src/gsThinShellAssembler.h   | 5 +++++
 src/gsThinShellAssembler.hpp | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index c48014a..dc84fa1 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -178,10 +178,15 @@ public:
     {
         m_bcs = bconditions;
         space m_space = m_assembler.trialSpace(0);
+        const index_t numDofsOld = this->numDofs();
         this->_assembleDirichlet();
 
         m_ddofs = m_space.fixedPart();
         m_mapper = m_space.mapper();
+
+        // Re-allocate the system if its size changed
+        if (this->numDofs()!=numDofsOld)
+            m_assembler.initSystem();
     }
 
     /// See \ref gsThinShellAssemblerBase for details
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 937fc81..b8d4972 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -263,6 +263,9 @@ void gsThinShellAssembler<d, T, bending>::_initialize()
     m_ddofs = m_space.fixedPart();
     m_mapper = m_space.mapper();
 
+    // Allocate the system, such that vectors can be assembled before any matrix is assembled
+    m_assembler.initSystem();
+
     // foundation is off by default
     m_foundInd = false;
     // pressure is off by default
-- 
2.43.0


From a8ba6a324456a6f50c2149e5d68bd0e05b00db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 06/74] fix: sign of the elastic foundation force in the
 residual

---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index b8d4972..8413fe2 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -552,7 +552,7 @@ gsThinShellAssembler<d, T, bending>::_assembleFoundation_impl(const gsFunction<T
 
     // Assemble vector
     m_assembler.assemble(
-                  m_space * m_foundation.asDiag() * (m_def - m_ori) * meas(m_ori) // [v_x,v_y,v_z] diag([k_x,k_y,k_z]) [u_x; u_y; u_z]
+                  -m_space * m_foundation.asDiag() * (m_def - m_ori) * meas(m_ori) // [v_x,v_y,v_z] diag([k_x,k_y,k_z]) [u_x; u_y; u_z]
                 );
 }
 
-- 
2.43.0


From 41970721483d0aa7c124e95b44c7ba281f503f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 07/74] fix: scale the weak Dirichlet right-hand side of planar
 problems like its matrix

---
 src/gsThinShellAssembler.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 8413fe2..83993de 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -688,17 +688,29 @@ template <short_t _d, bool _matrix>
 typename std::enable_if<!(_d==3) && !_matrix, void>::type
 gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
 {
+    gsMultiPatch<T> & defpatches = m_patches;
     geometryMap m_ori   = m_assembler.getMap(m_patches);
 
     space m_space = m_assembler.trialSpace(0); // last argument is the space ID
     auto g_N = m_assembler.getBdrFunction(m_ori);
 
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
+    auto mmA = m_assembler.getCoeff(m_mmA);
+
+    auto cart2cov = cartcov(m_ori);
+    auto con2cartI = cartcon(m_ori).inv();
+
+    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+
+    element el = m_assembler.getElement();
+    auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
+
     // Weak BCs
     m_assembler.assembleBdr
     (
         m_bcs.get("Weak Dirichlet")
         ,
-        (m_alpha_d_bc * (m_space * (m_ori - m_ori) - m_space * (g_N) )) * meas(m_ori)
+        -(alpha_d * m_space * g_N         ) * meas(m_ori)
     );
 }
 
-- 
2.43.0


From 46a9158eb7a890823bd7ffe10f1435d5c3698ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 08/74] fix: nonlinear weak clamped residual and tangent derive
 from the same penalty

---
 src/gsThinShellAssembler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 83993de..987c1e2 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -766,7 +766,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
         m_bcs.get("Weak Clamped")
         ,
         (
-            alpha_r * dnN * ( var2deriv2(m_space,m_space,m_def,unv(m_ori).tr()) )
+            alpha_r * dnN * ( var2(m_space,m_space,m_def,unv(m_ori).tr()) )
             +
             alpha_r * ( ( var1(m_space,m_def) * unv(m_ori) ) * ( var1(m_space,m_def) * unv(m_ori) ).tr() )
         ) * meas(m_ori)
@@ -800,7 +800,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     auto alpha_r = m_alpha_r_bc * reshape(mmDcart,9,1).max().val() / el.area(m_ori);
 
     auto du  = m_def - m_ori;
-    auto dnN = ( usn(m_def).tr()*nv(m_ori) - usn(m_ori).tr()*nv(m_ori) ).val();
+    auto dnN = ( usn(m_def).tr()*unv(m_ori) - usn(m_ori).tr()*unv(m_ori) ).val();
 
     // Weak BCs
     m_assembler.assembleBdr
@@ -816,7 +816,7 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
         m_bcs.get("Weak Clamped")
         ,
         (
-            - alpha_r * dnN * ( var1(m_space,m_def) * usn(m_ori) )
+            - alpha_r * dnN * ( var1(m_space,m_def) * unv(m_ori) )
         ) * meas(m_ori)
     );
 }
-- 
2.43.0


From fbbfdb540ecee81c207f74087483be42a1007a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 09/74] fix: weak C0 coupling of planar patches: measure and
 sign of the residual

---
 src/gsThinShellAssembler.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 987c1e2..03a7cac 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1006,13 +1006,13 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl()
 
     // C^0 coupling
     m_assembler.assembleIfc(m_weakC0,
-                     alpha_d * m_space.left() * m_space.left().tr() * meas(m_ori) * meas(m_ori)
+                     alpha_d * m_space.left() * m_space.left().tr() * meas(m_ori)
                     ,
-                    -alpha_d * m_space.right()* m_space.left() .tr() * meas(m_ori) * meas(m_ori)
+                    -alpha_d * m_space.right()* m_space.left() .tr() * meas(m_ori)
                     ,
-                    -alpha_d * m_space.left() * m_space.right().tr() * meas(m_ori) * meas(m_ori)
+                    -alpha_d * m_space.left() * m_space.right().tr() * meas(m_ori)
                     ,
-                     alpha_d * m_space.right()* m_space.right().tr() * meas(m_ori) * meas(m_ori)
+                     alpha_d * m_space.right()* m_space.right().tr() * meas(m_ori)
                      );
 
     // C^1 coupling DOES NOT CONTRIBUTE IN 2D PROBLEMS
@@ -1307,9 +1307,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
 
     // C^0 coupling
      m_assembler.assembleIfc(m_weakC0,
-                      alpha_d * m_space.left() * du * meas(m_ori)
+                     -alpha_d * m_space.left() * du * meas(m_ori)
                      ,
-                     -alpha_d * m_space.right()* du * meas(m_ori)
+                      alpha_d * m_space.right()* du * meas(m_ori)
                       );
 
     // C^1 coupling DOES NOT CONTRIBUTE IN 2D PROBLEMS
-- 
2.43.0


From 87a89a05561fcf9475b5f69ad37d6ec78292adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 10/74] fix: tangent of the in-plane weak C1 coupling

---
 src/gsThinShellAssembler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 03a7cac..9449789 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1134,17 +1134,17 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     m_assembler.assembleIfc(m_weakC1,
                      alpha_r * dnN_lr * ovar2(m_space.left(),m_space.left(),m_def.left(),usn(m_def.right()).tr()) * meas(m_ori) // left left
                     + // Symmetry
-                     alpha_r * dnN_rl * ovar2(m_space.left(),m_space.left(),m_def.left(),usn(m_def.right()).tr()) * meas(m_ori) // left left
+                     alpha_r * dnN_rl * var2(m_space.left(),m_space.left(),m_def.left(),unv(m_def.right()).tr()) * meas(m_ori) // left left
                     ,
                      alpha_r * dnN_lr * ( ovar1(m_space.left() ,m_def.left() ) * var1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // left right
                     + // Symmetry
-                     alpha_r * dnN_rl * ( ovar1(m_space.left() ,m_def.left() ) * var1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // right left
+                     alpha_r * dnN_rl * ( var1(m_space.left() ,m_def.left() ) * ovar1(m_space.right(),m_def.right()).tr() ) * meas(m_ori) // left right
                     ,
-                     alpha_r * dnN_lr * ( ovar1(m_space.right(),m_def.right()) * var1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
+                     alpha_r * dnN_lr * ( var1(m_space.right(),m_def.right()) * ovar1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
                     + // Symmetry
                      alpha_r * dnN_rl * ( ovar1(m_space.right(),m_def.right()) * var1(m_space.left() ,m_def.left() ).tr() ) * meas(m_ori) // right left
                     ,
-                     alpha_r * dnN_lr * ovar2(m_space.right(),m_space.right(),m_def.right(),usn(m_def.left()).tr()) * meas(m_ori) // right right
+                     alpha_r * dnN_lr * var2(m_space.right(),m_space.right(),m_def.right(),unv(m_def.left()).tr()) * meas(m_ori) // right right
                     + // Symmetry
                      alpha_r * dnN_rl * ovar2(m_space.right(),m_space.right(),m_def.right(),usn(m_def.left()).tr()) * meas(m_ori) // right right
                      );
-- 
2.43.0


From 7a847c69e59607491abcc9f7c8584784739b2cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 11/74] fix: right-hand side of an earlier assembly returned
 after changing point loads

---
 src/gsThinShellAssembler.h   |  1 +
 src/gsThinShellAssembler.hpp | 41 ++++++++++++++++++------------------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index dc84fa1..8afee0e 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -532,6 +532,7 @@ protected:
     void _assembleDirichlet();
 
     void _applyLoads();
+    void _updateLoads();
     void _applyMass();
 
     void _ifcTest(const T tol = 1e-2);
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 9449789..3886979 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1335,6 +1335,18 @@ void gsThinShellAssembler<d, T, bending>::homogenizeDirichlet()
     // const_cast<expr::gsFeSpace<T> & >(m_space).fixedPart().setZero();
 }
 
+template<short_t d, class T, bool bending>
+void gsThinShellAssembler<d, T, bending>::_updateLoads()
+{
+    // Without point loads, rhs() refers to the right-hand side of the assembler
+    m_rhs.resize(0,0);
+    if ( m_pLoads.numLoads() != 0 )
+    {
+        m_rhs = m_assembler.rhs();
+        _applyLoads();
+    }
+}
+
 template<short_t d, class T, bool bending>
 void gsThinShellAssembler<d, T, bending>::_applyLoads()
 {
@@ -1625,11 +1637,7 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
         this->_assembleNeumann();
 
         // Assemble the loads
-        if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
-            _applyLoads();
-        }
+        _updateLoads();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -1701,11 +1709,7 @@ gsThinShellAssembler<d, T, bending>::assemble_impl()
         this->_assembleNeumann();
 
         // Assemble the loads
-        if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
-            _applyLoads();
-        }
+        _updateLoads();
 
         m_status = ThinShellAssemblerStatus::Success;
     }
@@ -2061,11 +2065,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         this->_assembleNeumann();
 
         // Assemble the loads
-        if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
-            _applyLoads();
-        }
+        _updateLoads();
 
         m_status = ThinShellAssemblerStatus::Success;
     }
@@ -2129,11 +2129,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         this->_assembleNeumann();
 
         // Assemble the loads
-        if ( m_pLoads.numLoads() != 0 )
-        {
-            m_rhs = m_assembler.rhs();
-            _applyLoads();
-        }
+        _updateLoads();
 
         m_status = ThinShellAssemblerStatus::Success;
     }
@@ -2213,6 +2209,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun);
+        if (m_rhs.size()!=0) _updateLoads();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2229,6 +2226,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun);
+        if (m_rhs.size()!=0) _updateLoads();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2244,6 +2242,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun,deformed);
+        if (m_rhs.size()!=0) _updateLoads();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2260,6 +2259,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
     try
     {
         this->_assemblePressure<false>(pressFun, deformed);
+        if (m_rhs.size()!=0) _updateLoads();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
@@ -2305,6 +2305,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleFoundation
     try
     {
         this->_assembleFoundation<false>(foundFun,deformed);
+        if (m_rhs.size()!=0) _updateLoads();
         m_status = ThinShellAssemblerStatus::Success;
     }
     catch (...)
-- 
2.43.0


From 98c7a244f65efafe7fc15e7ce51137c8b5fe00d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:49 +0000
Subject: [PATCH 12/74] fix: assembleMass reports its own status

---
 src/gsThinShellAssembler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 3886979..609abc0 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1491,6 +1491,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
             m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
 
         m_mass = m_assembler.matrix();
+        m_status = ThinShellAssemblerStatus::Success;
 
 /*        // assemble system
         if (!lumped)
-- 
2.43.0


From 42527c2a24c1ee316d89a388907afb139edfe91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:03 +0000
Subject: [PATCH 13/74] fix: keep pressure and foundation when the space is
 re-initialized

---
 src/gsThinShellAssembler.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 609abc0..75818ea 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -207,6 +207,11 @@ void gsThinShellAssembler<d, T, bending>::_defaultOptions()
     m_options.update(assemblerOptions,gsOptionList::addIfUnknown);
 
     m_continuity = -1;
+
+    // foundation is off by default
+    m_foundInd = false;
+    // pressure is off by default
+    m_pressInd = false;
 }
 
 
@@ -266,11 +271,6 @@ void gsThinShellAssembler<d, T, bending>::_initialize()
     // Allocate the system, such that vectors can be assembled before any matrix is assembled
     m_assembler.initSystem();
 
-    // foundation is off by default
-    m_foundInd = false;
-    // pressure is off by default
-    m_pressInd = false;
-
     GISMO_ASSERT(m_forceFun->targetDim()==d,"Force must have " << d<<" dimensions but has "<<m_forceFun->targetDim());
 
     // test interfaces on in-plane and out-of-plane connection and put them in respective containers
-- 
2.43.0


From f40558a69e43ab3f3117fad0afbb0e16065b0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:46 +0000
Subject: [PATCH 14/74] fix: second variation of the outer normal with unscaled
 base vectors

---
 src/gsThinShellUtils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index eec8b42..87558f8 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -1049,6 +1049,9 @@ public:
         tmp = cJac.transpose() * onormal;
         tmp.colwise().normalize(); //normalize the inner product for fair comparison
 
+        // The variations of the surface normal below need the base vectors with their actual length
+        cJac = _G.data().values[1].reshapeCol(k, _G.data().dim.first, _G.data().dim.second).transpose();
+
         Scalar tol = 1e-8;
 
         /*
-- 
2.43.0


From b8b64f3f6283f3dea68a8492437a033ba1c4ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:14 +0000
Subject: [PATCH 15/74] fix: keep the prescribed displacements after mass,
 matrix and residual assembly

---
 src/gsThinShellAssembler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 75818ea..4c70fde 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1516,6 +1516,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    const_cast<expr::gsFeSpace<T> &>(m_space).fixedPart() = m_ddofs; // restore the prescribed values
     return m_status;
 }
 
@@ -1805,6 +1806,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    const_cast<expr::gsFeSpace<T> &>(m_space).fixedPart() = m_ddofs; // restore the prescribed values
     return m_status;
 }
 
@@ -1863,6 +1865,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    const_cast<expr::gsFeSpace<T> &>(m_space).fixedPart() = m_ddofs; // restore the prescribed values
     return m_status;
 }
 
@@ -1974,6 +1977,7 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    const_cast<expr::gsFeSpace<T> &>(m_space).fixedPart() = m_ddofs; // restore the prescribed values
     return m_status;
 }
 
@@ -2075,6 +2079,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    const_cast<expr::gsFeSpace<T> &>(m_space).fixedPart() = m_ddofs; // restore the prescribed values
     return m_status;
 }
 
@@ -2139,6 +2144,7 @@ gsThinShellAssembler<d, T, bending>::assembleVector_impl(const gsFunctionSet<T>
         m_assembler.cleanUp();
         m_status = ThinShellAssemblerStatus::AssemblyError;
     }
+    const_cast<expr::gsFeSpace<T> &>(m_space).fixedPart() = m_ddofs; // restore the prescribed values
     return m_status;
 }
 
-- 
2.43.0


From ab813cc1d1599491a50c30acac67920fbc8334ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:33 +0000
Subject: [PATCH 16/74] fix: a copied shell assembler owns its space and system

---
 src/gsThinShellAssembler.h   |  2 +-
 src/gsThinShellAssembler.hpp | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 8afee0e..8dd6e95 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -706,7 +706,7 @@ protected:
 
     mutable ifContainer m_inPlane, m_outPlane, m_uncoupled, m_strongC0, m_weakC0, m_strongC1, m_weakC1, m_unassigned;
 
-    mutable ThinShellAssemblerStatus m_status;
+    mutable ThinShellAssemblerStatus m_status = ThinShellAssemblerStatus::Success;
 };
 
 #ifdef GISMO_WITH_PYBIND11
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 4c70fde..e574dcb 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -101,8 +101,6 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     if (this!=&other)
     {
         m_mapper=other.m_mapper;
-        m_assembler=other.m_assembler;
-        m_evaluator=other.m_evaluator;
         m_patches=other.m_patches;
         m_itpatches=other.m_itpatches;
         m_basis=other.m_basis;
@@ -118,7 +116,6 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_pLoads=other.m_pLoads;
         m_pMass=other.m_pMass;
         m_solvector=other.m_solvector;
-        m_rhs=other.m_rhs;
         m_options=other.m_options;
         m_foundInd=other.m_foundInd;
         m_pressInd=other.m_pressInd;
@@ -137,10 +134,14 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_weakC1=other.m_weakC1;
         m_unassigned=other.m_unassigned;
 
-        // To do: make copy constructor for the gsExprAssembler
-        m_assembler.setIntegrationElements(m_basis);
-        GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-        m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+        m_status=other.m_status;
+
+        // A copied gsExprAssembler would refer to the spaces and the expression data of the other one.
+        // Therefore the copy starts with its own space and an empty system.
+        m_rhs.resize(0,0);
+        m_assembler=gsExprAssembler<>();
+        m_evaluator=gsExprEvaluator<>();
+        this->_initialize();
     }
     return *this;
 }
@@ -184,6 +185,7 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_strongC1=give(other.m_strongC1);
     m_weakC1=give(other.m_weakC1);
     m_unassigned=give(other.m_unassigned);
+    m_status=other.m_status;
     // To do: make copy constructor for the gsExprAssembler
     m_assembler.setIntegrationElements(m_basis);
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
-- 
2.43.0


From 569982e8434f7f46e64f7e5dd9bf2868919a51bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:01 +0000
Subject: [PATCH 17/74] fix: assemble the lumped mass matrix

---
 src/gsThinShellAssembler.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index e574dcb..e072980 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1488,11 +1488,20 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
     {
         // assemble system
         if (!lumped)
+        {
             m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
+            m_mass = m_assembler.matrix();
+        }
         else
+        {
+            // The row sums of the mass matrix are assembled in a vector; they form the diagonal of the lumped mass matrix
             m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
-
-        m_mass = m_assembler.matrix();
+            m_mass = gsSparseMatrix<T>(m_assembler.numDofs(),m_assembler.numDofs());
+            m_mass.reserve(gsVector<index_t>::Constant(m_mass.cols(),1));
+            for (index_t k=0; k!=m_mass.cols(); ++k)
+                m_mass.insert(k,k) = m_assembler.rhs()(k,0);
+            m_mass.makeCompressed();
+        }
         m_status = ThinShellAssemblerStatus::Success;
 
 /*        // assemble system
-- 
2.43.0


From e91a5d7a5bcbfe135b4d0b638cee75d2e7aed5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:12 +0000
Subject: [PATCH 18/74] fix: add the point masses to the mass matrix

---
 src/gsThinShellAssembler.h   |  2 +-
 src/gsThinShellAssembler.hpp | 39 ++++++++++++++----------------------
 2 files changed, 16 insertions(+), 25 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 8dd6e95..cb3167b 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -533,7 +533,7 @@ protected:
 
     void _applyLoads();
     void _updateLoads();
-    void _applyMass();
+    void _applyMass(const bool lumped = false);
 
     void _ifcTest(const T tol = 1e-2);
     bool _isInPlane(const boundaryInterface & ifc, const T tol = 1e-2);
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index e072980..a9e5419 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1414,7 +1414,7 @@ void gsThinShellAssembler<d, T, bending>::_applyLoads()
 }
 
 template<short_t d, class T, bool bending>
-void gsThinShellAssembler<d, T, bending>::_applyMass()
+void gsThinShellAssembler<d, T, bending>::_applyMass(const bool lumped)
 {
     gsMatrix<T>        bVals;
     gsMatrix<index_t> acts,globalActs;
@@ -1431,15 +1431,15 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
         // Compute actives and values of basis functions on point load location.
         if ( m_pMass[i].parametric )   // in parametric space
         {
-            m_basis.front().basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
-            m_basis.front().basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
+            m_basis.basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
+            m_basis.basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
         }
         else                            // in physical space
         {
             gsMatrix<T> forcePoint;
             m_patches.patch(m_pMass[i].patch).invertPoints(m_pMass[i].point,forcePoint);
-            m_basis.front().basis(m_pMass[i].patch).active_into( forcePoint, acts );
-            m_basis.front().basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
+            m_basis.basis(m_pMass[i].patch).active_into( forcePoint, acts );
+            m_basis.basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
         }
 
         // Add the point load values in the right entries in the global RHS
@@ -1450,9 +1450,16 @@ void gsThinShellAssembler<d, T, bending>::_applyMass()
                 m_mapper.localToGlobal(acts, m_pMass[i].patch, globalActs,j);
                 for (index_t k=0; k < globalActs.rows(); ++k)
                 {
+                    if (!m_mapper.is_free_index(globalActs(k,0)))
+                        continue;
+                    if (lumped) // row sum
+                    {
+                        m_mass(globalActs(k,0), globalActs(k,0)) += bVals(k,0) * m_pMass[i].value[0];
+                        continue;
+                    }
                     for (index_t l=0; l < globalActs.rows(); ++l)
                     {
-                        if (m_mapper.is_free_index(globalActs(k,0)) && m_mapper.is_free_index(globalActs(l,0)))
+                        if (m_mapper.is_free_index(globalActs(l,0)))
                             m_mass(globalActs(k,0), globalActs(l,0)) += bVals(k,0) * bVals(l,0) * m_pMass[i].value[0];
                     }
                 }
@@ -1502,25 +1509,9 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
                 m_mass.insert(k,k) = m_assembler.rhs()(k,0);
             m_mass.makeCompressed();
         }
+        if (m_pMass.numLoads()!=0)
+            this->_applyMass(lumped);
         m_status = ThinShellAssemblerStatus::Success;
-
-/*        // assemble system
-        if (!lumped)
-        {
-            m_assembler.assemble(mm0.val()*m_space*m_space.tr()*meas(m_ori));
-            m_mass = m_assembler.matrix();
-            this->_applyMass();
-        }
-        else
-        {
-            // To do: add point masses in lumped case
-            m_assembler.assemble(mm0.val()*(m_space.rowSum())*meas(m_ori));
-            m_rhs = m_assembler.rhs();
-        }
-        m_mass = m_assembler.matrix();
-
-        this->_applyMass();
-        m_status = ThinShellAssemblerStatus::Success;*/
     }
     catch (...)
     {
-- 
2.43.0


From 96df4474281dd7bb05df4c3378b1c32020ca19c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:00 +0000
Subject: [PATCH 19/74] fix: setBasis also replaces the discretization basis

---
 src/gsThinShellAssembler.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index cb3167b..f81e782 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -371,6 +371,9 @@ public:
     void setBasis(const gsMultiBasis<T> & basis)
     {
         m_basis = basis;
+        // The basis is also used for discretization, unless another type of basis was set by setSpaceBasis
+        if (dynamic_cast<const gsMultiBasis<T> *>(m_spaceBasis)!=nullptr)
+            m_spaceBasis = &basis;
         this->_getOptions();
         this->_initialize();
     }
-- 
2.43.0


From b59ad36162fe0b9c1d07cda510c07c71e20cea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:24 +0000
Subject: [PATCH 20/74] fix: Cartesian components of the stiffness in the
 penalty factors of skewed patches

---
 src/gsThinShellAssembler.hpp | 82 +++++++++++++++---------------------
 1 file changed, 34 insertions(+), 48 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index a9e5419..bf2beaf 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -590,11 +590,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -633,10 +632,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -668,10 +666,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -699,10 +696,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl()
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -740,11 +736,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -791,11 +786,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -835,10 +829,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&deformed);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -866,10 +859,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakBCs_impl(const gsFunctionSet<T
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&deformed);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el = m_assembler.getElement();
     auto alpha_d = m_alpha_d_bc * reshape(mmAcart,9,1).max().val() / el.area(m_ori);
@@ -909,11 +901,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl()
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
@@ -997,10 +988,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl()
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&defpatches);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
@@ -1053,11 +1043,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
@@ -1187,11 +1176,10 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     auto mmA = m_assembler.getCoeff(m_mmA);
     auto mmD = m_assembler.getCoeff(m_mmD);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
-    auto mmDcart = (con2cartI * reshape(mmD,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
+    auto mmDcart = (con2cart * reshape(mmD,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
@@ -1258,10 +1246,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&deformed);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
@@ -1296,10 +1283,9 @@ gsThinShellAssembler<d, T, bending>::_assembleWeakIfc_impl(const gsFunctionSet<T
     gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmA(m_materialMatrices,&m_patches,&deformed);
     auto mmA = m_assembler.getCoeff(m_mmA);
 
-    auto cart2cov = cartcov(m_ori);
-    auto con2cartI = cartcon(m_ori).inv();
+    auto con2cart = cartcov(m_ori); // contravariant to Cartesian components
 
-    auto mmAcart = (con2cartI * reshape(mmA,3,3) * cart2cov);
+    auto mmAcart = (con2cart * reshape(mmA,3,3) * con2cart.tr());
 
     element el   = m_assembler.getElement();
     auto h       = (el.area(m_ori.left()) + el.area(m_ori.right())) / 2;
-- 
2.43.0


From b14eb037f9c22dea440451c18d83bb124a1704c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:43 +0000
Subject: [PATCH 21/74] fix: copied and moved assemblers discretize on their
 own basis

---
 src/gsThinShellAssembler.h   | 2 +-
 src/gsThinShellAssembler.hpp | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index f81e782..2758fd7 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -373,7 +373,7 @@ public:
         m_basis = basis;
         // The basis is also used for discretization, unless another type of basis was set by setSpaceBasis
         if (dynamic_cast<const gsMultiBasis<T> *>(m_spaceBasis)!=nullptr)
-            m_spaceBasis = &basis;
+            m_spaceBasis = &m_basis;
         this->_getOptions();
         this->_initialize();
     }
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index bf2beaf..59ecebe 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -77,7 +77,7 @@ gsThinShellAssembler<d, T, bending>::gsThinShellAssembler(const gsMultiPatch<T>
                                         :
                                         m_patches(patches),
                                         m_basis(basis),
-                                        m_spaceBasis(&basis),
+                                        m_spaceBasis(&m_basis),
                                         m_bcs(bconditions),
                                         m_forceFun(&surface_force)
 {
@@ -104,7 +104,8 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
         m_patches=other.m_patches;
         m_itpatches=other.m_itpatches;
         m_basis=other.m_basis;
-        m_spaceBasis=other.m_spaceBasis;
+        // The basis of another assembler is not kept alive
+        m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : other.m_spaceBasis;
         m_bcs=other.m_bcs;
         m_ddofs=other.m_ddofs;
         m_mass=other.m_mass;
@@ -155,7 +156,7 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_patches=give(other.m_patches);
     m_itpatches=give(other.m_itpatches);
     m_basis=give(other.m_basis);
-    m_spaceBasis=give(other.m_spaceBasis);
+    m_spaceBasis=(other.m_spaceBasis==&other.m_basis) ? &m_basis : other.m_spaceBasis;
     m_bcs=give(other.m_bcs);
     m_ddofs=give(other.m_ddofs);
     m_mass=give(other.m_mass);
@@ -190,6 +191,8 @@ gsThinShellAssembler<d, T, bending>& gsThinShellAssembler<d, T, bending>::operat
     m_assembler.setIntegrationElements(m_basis);
     GISMO_ENSURE(m_options.hasGroup("ExprAssembler"),"The option list does not contain options with the label 'ExprAssembler'!");
     m_assembler.setOptions(m_options.getGroup("ExprAssembler"));
+    // The space refers to the basis of this assembler, not to the one that is moved from
+    m_assembler.getSpace(*m_spaceBasis, d, 0);
     return *this;
 }
 
-- 
2.43.0


From c224e854020ebcbd35593555feae863bdf7cedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:43 +0000
Subject: [PATCH 22/74] fix: evaluators keep the undeformed geometry they are
 given

---
 src/gsMaterialMatrixBase.h   | 2 +-
 src/gsMaterialMatrixEval.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsMaterialMatrixBase.h b/src/gsMaterialMatrixBase.h
index cef3f66..78bce9b 100644
--- a/src/gsMaterialMatrixBase.h
+++ b/src/gsMaterialMatrixBase.h
@@ -795,7 +795,7 @@ public:
     const function_ptr getDeformed()  const { return m_defpatches; }
 
     virtual bool hasUndeformed() const
-    { return m_defpatches!=nullptr; }
+    { return m_patches!=nullptr; }
     virtual bool hasDeformed() const { return m_defpatches!=nullptr; }
 
     virtual bool initialized() const
diff --git a/src/gsMaterialMatrixEval.hpp b/src/gsMaterialMatrixEval.hpp
index 5976767..cf61c64 100644
--- a/src/gsMaterialMatrixEval.hpp
+++ b/src/gsMaterialMatrixEval.hpp
@@ -149,7 +149,7 @@ m_z(z)
 template <class T, enum MaterialOutput out>
 gsMaterialMatrixEvalSingle<T,out>::gsMaterialMatrixEvalSingle(    index_t patch,
                                                         gsMaterialMatrixBase<T> * materialMatrix,
-                                                        const gsFunctionSet<T> * /*undeformed*/,
+                                                        const gsFunctionSet<T> * undeformed,
                                                         const gsFunctionSet<T> * deformed,
                                                         const gsMatrix<T> z
                                                    )
@@ -158,7 +158,7 @@ m_pIndex(patch),
 m_materialMat(materialMatrix),
 m_z(z)
 {
-    m_materialMat->setUndeformed(deformed);
+    m_materialMat->setUndeformed(undeformed);
     m_materialMat->setDeformed(deformed);
 
     if (m_z.cols()==0 || m_z.rows()==0)
-- 
2.43.0


From fe41545191e07715f036e2fc4fdec8a0a8913e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:45 +0000
Subject: [PATCH 23/74] fix: evaluate stresses, stretches and goals with
 respect to the geometry of the assembler

---
 src/gsThinShellAssembler.hpp    |   8 +-
 src/gsThinShellAssemblerDWR.hpp | 204 ++++++++++++++++----------------
 src/gsThinShellFunctions.hpp    |  34 +++---
 3 files changed, 123 insertions(+), 123 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 59ecebe..e445790 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2562,8 +2562,8 @@ T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> &
     geometryMap m_ori   = m_assembler.getMap(m_patches);
     geometryMap m_def   = m_assembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&m_patches,&deformed);
     auto S0  = m_assembler.getCoeff(m_S0);
     auto S1  = m_assembler.getCoeff(m_S1);
     auto u   = m_def - m_ori;
@@ -2766,7 +2766,7 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::computePrincipalStretches(const
     // geometryMap m_def   = m_assembler.getMap(*m_defpatches);
     // m_assembler.initSystem();
 
-    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_mm(m_materialMatrices,&deformed,zmat);
+    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_mm(m_materialMatrices,&m_patches,&deformed,zmat);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     gsExprEvaluator<T> evaluator(m_assembler);
@@ -2796,7 +2796,7 @@ gsMatrix<T> gsThinShellAssembler<d, T, bending>::computePrincipalStresses(const
     // geometryMap m_def   = m_assembler.getMap(*m_defpatches);
     // m_assembler.initSystem();
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_mm(m_materialMatrices,&deformed,zmat);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_mm(m_materialMatrices,&m_patches,&deformed,zmat);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     gsExprEvaluator<T> evaluator(m_assembler);
diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 0ad5d93..9b0938a 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -224,40 +224,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(g
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -681,40 +681,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -1146,40 +1146,40 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     auto usol   = exprAssembler.getCoeff(primal);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressTransform>  Tpstressf(assembler->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     auto Tpstress = exprAssembler.getCoeff(Tpstressf);
 
     // Material tensors at Z
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixA> mmAf(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::MatrixD> mmDf(assembler->materials(),&m_patches,&deformed,Z);
     auto mmA = exprAssembler.getCoeff(mmAf);
     auto mmD = exprAssembler.getCoeff(mmDf);
 
     // Material tensors integrated
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCfi(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(assembler->materials(),&m_patches,&deformed);
     auto mmAi = exprAssembler.getCoeff(mmAfi);
     auto mmBi = exprAssembler.getCoeff(mmBfi);
     auto mmCi = exprAssembler.getCoeff(mmCfi);
     auto mmDi = exprAssembler.getCoeff(mmDfi);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(assembler->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(assembler->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(assembler->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Force and moment tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(assembler->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(assembler->materials(),&m_patches,&deformed);
     auto N = exprAssembler.getCoeff(Nf);
     auto M = exprAssembler.getCoeff(Mf);
 
@@ -1833,8 +1833,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(const gsMultiPatch<T>
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
@@ -1942,7 +1942,7 @@ gsThinShellAssemblerDWR<d, T, bending>::computeError_impl(  const gsMultiPatch<T
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
     auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
@@ -2146,8 +2146,8 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(const gsMultiPa
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
@@ -2254,7 +2254,7 @@ gsThinShellAssemblerDWR<d, T, bending>::computeSquaredError_impl(  const gsMulti
     geometryMap Gori = exprAssembler.getMap(m_patches);           // this map is used for integrals
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
 
     auto F      = exprAssembler.getCoeff(*m_forceFun, Gori);
@@ -2416,26 +2416,26 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA_L    = exprAssembler.getCoeff(mmAf_L);
     auto mmB_L    = exprAssembler.getCoeff(mmBf_L);
     auto mmC_L    = exprAssembler.getCoeff(mmCf_L);
     auto mmD_L    = exprAssembler.getCoeff(mmDf_L);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&m_patches,&deformed);
     auto mmA_NL    = exprAssembler.getCoeff(mmAf_NL);
     auto mmB_NL    = exprAssembler.getCoeff(mmBf_NL);
     auto mmC_NL    = exprAssembler.getCoeff(mmCf_NL);
     auto mmD_NL    = exprAssembler.getCoeff(mmDf_NL);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed);
     // gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),deformed);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
@@ -2671,18 +2671,18 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA    = exprAssembler.getCoeff(mmAf);
     auto mmB    = exprAssembler.getCoeff(mmBf);
     auto mmC    = exprAssembler.getCoeff(mmCf);
     auto mmD    = exprAssembler.getCoeff(mmDf);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches,&m_patches);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
     auto rho  = exprAssembler.getCoeff(rhof);
@@ -2763,34 +2763,34 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMultiPatch<T> & de
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
     ///////// TEMPORARY
-    // gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0if(m_assemblerH->materials(),&deformed);
-    // gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1if(m_assemblerH->materials(),&deformed);
+    // gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0if(m_assemblerH->materials(),&m_patches,&deformed);
+    // gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1if(m_assemblerH->materials(),&m_patches,&deformed);
     // auto S0i = exprAssembler.getCoeff(S0if);
     // auto S1i = exprAssembler.getCoeff(S1if);
-    // gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmAfi(m_assemblerH->materials(),&deformed);
+    // gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmAfi(m_assemblerH->materials(),&m_patches,&deformed);
     // auto mmAi = exprAssembler.getCoeff(mmAfi);
-    // gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(m_assemblerH->materials(),&deformed);
+    // gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(m_assemblerH->materials(),&m_patches,&deformed);
     // auto mmDi = exprAssembler.getCoeff(mmDfi);
     ///////// TEMPORARY
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Helper matrix for flexural components
@@ -2842,7 +2842,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMultiPatch<T> & de
          */
         if (m_component==9)
         {
-            // gsMaterialMatrixEval<T,MaterialOutput::Stretch>  lambdaf(m_assemblerH->materials(),&deformed,Z);
+            // gsMaterialMatrixEval<T,MaterialOutput::Stretch>  lambdaf(m_assemblerH->materials(),&m_patches,&deformed,Z);
             // auto lambda = exprAssembler.getCoeff(lambdaf);
             // auto expr1 = gismo::expr::pow(lambda.tr() * lambda,2) * meas(Gori);
             auto expr = lambda.tr() * lambda * meas(Gori);
@@ -2987,34 +2987,34 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const bContainer & bnds, c
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
     ///////// TEMPORARY
-    // gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0if(m_assemblerH->materials(),&deformed);
-    // gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1if(m_assemblerH->materials(),&deformed);
+    // gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0if(m_assemblerH->materials(),&m_patches,&deformed);
+    // gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1if(m_assemblerH->materials(),&m_patches,&deformed);
     // auto S0i = exprAssembler.getCoeff(S0if);
     // auto S1i = exprAssembler.getCoeff(S1if);
-    // gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmAfi(m_assemblerH->materials(),&deformed);
+    // gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmAfi(m_assemblerH->materials(),&m_patches,&deformed);
     // auto mmAi = exprAssembler.getCoeff(mmAfi);
-    // gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(m_assemblerH->materials(),&deformed);
+    // gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDfi(m_assemblerH->materials(),&m_patches,&deformed);
     // auto mmDi = exprAssembler.getCoeff(mmDfi);
     ///////// TEMPORARY
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0  = exprAssembler.getCoeff(P0f);
 
     // Helper matrix for flexural components
@@ -3066,7 +3066,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const bContainer & bnds, c
          */
         if (m_component==9)
         {
-            // gsMaterialMatrixEval<T,MaterialOutput::Stretch>  lambdaf(m_assemblerH->materials(),&deformed,Z);
+            // gsMaterialMatrixEval<T,MaterialOutput::Stretch>  lambdaf(m_assemblerH->materials(),&m_patches,&deformed,Z);
             // auto lambda = exprAssembler.getCoeff(lambdaf);
             // auto expr1 = gismo::expr::pow(lambda.tr() * lambda,2) * meas(Gori);
             auto expr = lambda.tr() * lambda * meas(Gori);
@@ -3211,24 +3211,24 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
     geometryMap Gdef = exprAssembler.getMap(deformed);
 
     // Transformation for stretches
-    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchTransform>  Tstretchf(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto Tstretch = exprAssembler.getCoeff(Tstretchf);
     // Material tensors
 
     // Stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&deformed,Z);
-    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto S0 = exprAssembler.getCoeff(S0f);
     auto S1 = exprAssembler.getCoeff(S1f);
 
     // Force tensors
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> Nf(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> Mf(m_assemblerH->materials(),&m_patches,&deformed);
     auto N  = exprAssembler.getCoeff(Nf);
     auto M  = exprAssembler.getCoeff(Mf);
 
     // Principal stress tensors
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&deformed,Z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> P0f(m_assemblerH->materials(),&m_patches,&deformed,Z);
     auto P0 = exprAssembler.getCoeff(P0f);
 
     // // Helper matrix for flexural components
@@ -3293,7 +3293,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
          */
         if (m_component==9)
         {
-            // gsMaterialMatrixEval<T,MaterialOutput::Stretch>  lambdaf(m_assemblerH->materials(),&deformed,Z);
+            // gsMaterialMatrixEval<T,MaterialOutput::Stretch>  lambdaf(m_assemblerH->materials(),&m_patches,&deformed,Z);
             // auto lambda = exprAssembler.getCoeff(lambdaf);
             // auto expr1 = gismo::expr::pow(lambda.tr() * lambda,2) * meas(Gori);
             auto expr = lambda.tr() * lambda * meas(Gori);
@@ -3540,7 +3540,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches); // note: is this right?
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> rhof(m_assemblerH->materials(),&m_patches,&m_patches); // note: is this right?
     auto rho = exprAssembler.getCoeff(rhof);
 
     auto usol = exprAssembler.getCoeff(primal);
@@ -3569,26 +3569,26 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     exprAssembler.initSystem();
     exprAssembler.initVector(1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_L(m_assemblerH->materials(),&m_patches,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_L(m_assemblerH->materials(),&m_patches,&m_patches);
     auto mmA_L    = exprAssembler.getCoeff(mmAf_L);
     auto mmB_L    = exprAssembler.getCoeff(mmBf_L);
     auto mmC_L    = exprAssembler.getCoeff(mmCf_L);
     auto mmD_L    = exprAssembler.getCoeff(mmDf_L);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> mmAf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> mmBf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> mmCf_NL(m_assemblerH->materials(),&m_patches,&deformed);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> mmDf_NL(m_assemblerH->materials(),&m_patches,&deformed);
     auto mmA_NL    = exprAssembler.getCoeff(mmAf_NL);
     auto mmB_NL    = exprAssembler.getCoeff(mmBf_NL);
     auto mmC_NL    = exprAssembler.getCoeff(mmCf_NL);
     auto mmD_NL    = exprAssembler.getCoeff(mmDf_NL);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&defpatches);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> S0f(m_assemblerH->materials(),&m_patches,&defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> S1f(m_assemblerH->materials(),&m_patches,&defpatches);
     auto S0  = exprAssembler.getCoeff(S0f);
     auto S1  = exprAssembler.getCoeff(S1f);
 
diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index bcaae2f..c0381a0 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -37,47 +37,47 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     // Initialize stystem
     // m_assembler.initSystem(false);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_N0(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_N0(m_materialMatrices,m_patches,m_defpatches);
     variable N0 = ev.getVariable(m_N0);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_N1(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_N1(m_materialMatrices,m_patches,m_defpatches);
     variable N1 = ev.getVariable(m_N1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorN> m_Nc0(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorN> m_Nc0(m_materialMatrices,m_patches,m_defpatches);
     variable Nc0 = ev.getVariable(m_Nc0);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorM> m_Nc1(m_materialMatrices,m_defpatches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::CauchyVectorM> m_Nc1(m_materialMatrices,m_patches,m_defpatches);
     variable Nc1 = ev.getVariable(m_Nc1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::StressN> m_S0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StressN> m_S0(m_materialMatrices,m_patches,m_defpatches,z);
     variable S0 = ev.getVariable(m_S0);
-    gsMaterialMatrixEval<T,MaterialOutput::StressM> m_S1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StressM> m_S1(m_materialMatrices,m_patches,m_defpatches,z);
     variable S1 = ev.getVariable(m_S1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressN> m_Sc0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressN> m_Sc0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sc0 = ev.getVariable(m_Sc0);
-    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressM> m_Sc1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::CauchyStressM> m_Sc1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sc1 = ev.getVariable(m_Sc1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_Sp(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStress> m_Sp(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp = ev.getVariable(m_Sp);
-    gsMaterialMatrixEval<T,MaterialOutput::PStressDir> m_pstressdir(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStressDir> m_pstressdir(m_materialMatrices,m_patches,m_defpatches,z);
     variable pstressdir = ev.getVariable(m_pstressdir);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressN> m_Sp0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressN> m_Sp0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp0 = ev.getVariable(m_Sp0);
-    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressM> m_Sp1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PCauchyStressM> m_Sp1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Sp1 = ev.getVariable(m_Sp1);
 
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStrainN> m_Ep0(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep0 = ev.getVariable(m_Ep0);
-    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::PStrainM> m_Ep1(m_materialMatrices,m_patches,m_defpatches,z);
     variable Ep1 = ev.getVariable(m_Ep1);
 
-    gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<real_t,MaterialOutput::TensionField> m_TF(m_materialMatrices,m_patches,m_defpatches,z);
     variable TF  = ev.getVariable(m_TF);
 
-    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_lambda(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::Stretch> m_lambda(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambda = ev.getVariable(m_lambda);
-    gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_defpatches,z);
+    gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambdadir = ev.getVariable(m_lambdadir);
 
     gsFunctionExpr<> mult2t("1","0","0","0","1","0","0","0","2",2);
-- 
2.43.0


From 0bfbe2820da264f5647053b07535c992a90cd034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:45 +0000
Subject: [PATCH 24/74] fix: a single material on several patches (undeformed
 and deformed geometry given)

---
 src/gsMaterialMatrixIntegrate.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsMaterialMatrixIntegrate.hpp b/src/gsMaterialMatrixIntegrate.hpp
index 7cc5797..d85252d 100644
--- a/src/gsMaterialMatrixIntegrate.hpp
+++ b/src/gsMaterialMatrixIntegrate.hpp
@@ -87,10 +87,8 @@ m_materialMatrices(deformed->nPieces()),
 m_deformed(deformed)
 {
     for (index_t p = 0; p!=deformed->nPieces(); ++p)
-    {
         m_materialMatrices.set(p,materialMatrix);
-        this->_makePieces(undeformed,deformed);
-    }
+    this->_makePieces(undeformed,deformed);
 }
 
 template <class T, enum MaterialOutput out>
-- 
2.43.0


From 167fdd7a465d7e76d3510c0283ebc8a2a3951708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:45 +0000
Subject: [PATCH 25/74] fix: principal stresses of the requested patch

---
 src/gsThinShellFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index c0381a0..2c6e4bf 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -206,7 +206,7 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
             break;
         case stress_type::principal_stress :
             for (index_t k = 0; k != u.cols(); ++k)
-                result.col(k) = ev.eval(Sp,u.col(k));
+                result.col(k) = ev.eval(Sp,u.col(k),m_patchID);
             break;
         case stress_type::principal_stress_membrane :
             for (index_t k = 0; k != u.cols(); ++k)
@@ -240,21 +240,21 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
         case stress_type::principal_stress_dir1 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(0);
             }
             break;
         case stress_type::principal_stress_dir2 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(1);
             }
             break;
         case stress_type::principal_stress_dir3 :
             for (index_t k = 0; k != u.cols(); ++k)
             {
-                tmp = ev.eval(pstressdir,u.col(k));
+                tmp = ev.eval(pstressdir,u.col(k),m_patchID);
                 result.col(k) = tmp.reshape(3,3).col(2);
             }
             break;
-- 
2.43.0


From e10c2515aa219a95a29aaef88c11f0dfd2759af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:49 +0000
Subject: [PATCH 26/74] fix: forget the prescribed values when all Dirichlet
 conditions are removed

---
 src/gsThinShellAssembler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index e445790..d60970c 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1311,6 +1311,8 @@ void gsThinShellAssembler<d, T, bending>::_assembleDirichlet()
 {
     this->_getOptions();
     space m_space = m_assembler.trialSpace(0); // last argument is the space ID
+    // The setup does not touch the fixed part if there are no Dirichlet conditions
+    const_cast<expr::gsFeSpace<T> &>(m_space).fixedPart().resize(0,0);
     // if statement
     m_space.setup(m_bcs, dirichlet::l2Projection, m_continuity);
     // m_assembler.initSystem();
-- 
2.43.0


From 24e6d9dd901b09e0564f2b8e7f57fede16d87fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:44 +0000
Subject: [PATCH 27/74] fix: evaluate the density on the geometry of the
 assembler

---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index d60970c..db20c4f 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1471,7 +1471,7 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleMass(const
     // Initialize stystem
     m_assembler.initSystem();
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> m_mm(m_materialMatrices,&m_patches);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::Density> m_mm(m_materialMatrices,&m_patches,&m_patches);
     auto mm0 = m_assembler.getCoeff(m_mm);
 
     space       m_space = m_assembler.trialSpace(0);
-- 
2.43.0


From e805b9a907792401762acdc8160913f28d6598af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:30 +0000
Subject: [PATCH 28/74] fix: principal stresses and strains use the basis of
 their own point

---
 src/gsMaterialMatrixBaseDim.hpp   | 1 +
 src/gsMaterialMatrixLinear.hpp    | 3 +++
 src/gsMaterialMatrixNonlinear.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 55db3a7..dff181b 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -254,6 +254,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_pstrain(const index_t patch,
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             E.setZero();
             E(0,0) = Emat(0,colIdx);
             E(1,1) = Emat(1,colIdx);
diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index 6908828..de105b2 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -377,6 +377,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstress(const index_t patch, c
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -410,6 +411,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_pstressDir(const index_t patch
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -443,6 +445,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_CauchyPStress(const index_t pa
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 7b3a402..a827ede 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -632,6 +632,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstress(
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -662,6 +663,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressD
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
@@ -692,6 +694,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_CauchyPS
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
         {
             colIdx = j * u.cols() + k;
+            this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             S.setZero();
             S(0,0) = Smat(0,colIdx);
             S(1,1) = Smat(1,colIdx);
-- 
2.43.0


From 2cd223333d2550dcf0848e2d8e92cbc0867a7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:30 +0000
Subject: [PATCH 29/74] fix: principal stretches of compressible materials use
 the thickness stretch of their own height

---
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index a827ede..ebfd007 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -592,7 +592,7 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstretch_impl(const
             colIdx = j*u.cols()+k;
             this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
 
-            C33 = C33s(0,k);
+            C33 = C33s(0,colIdx);
 
             // Compute c
             c.setZero();
-- 
2.43.0


From b1a28771eba0f2b2d7b88a5d5a21b5799aa138f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:30 +0000
Subject: [PATCH 30/74] fix: principal stress directions are a full 3x3 basis

---
 src/gsMaterialMatrixBaseDim.hpp   | 3 ++-
 src/gsMaterialMatrixNonlinear.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index dff181b..cc21d97 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1389,7 +1389,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     gsMatrix<T> pstressvec;
     std::pair<gsVector<T>,gsMatrix<T>> result;
     pstresses.resize(2,1);    pstresses.setZero();
-    pstressvec.resize(3,2);   pstressvec.setZero();
+    pstressvec.resize(3,3);   pstressvec.setZero();
 
     typename gsEigen::SelfAdjointEigenSolver< typename gsMatrix<T>::Base >  eigSolver;
 
@@ -1411,6 +1411,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     GISMO_ASSERT(zeroIdx!=-1,"No zero found?");
 
     index_t count = 0;
+    pstressvec.col(2) = m_data.mine().m_gcon_ori.col(2);
 
     for (index_t k=0; k!=3; k++)
     {
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index ebfd007..6b485f1 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -649,7 +649,7 @@ template <short_t dim, class T, index_t matId, bool comp, enum Material mat, enu
 gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressDir(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z, enum MaterialOutput out) const
 {
     gsMatrix<T> Smat = eval3D_stress(patch,u,z,out);
-    gsMatrix<T> result(2, u.cols() * z.rows());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     result.setZero();
     gsMatrix<T,3,3> S;
     index_t colIdx;
-- 
2.43.0


From 9c3a36a203c0ffd8f7dff55e63597a12eefc1a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:30 +0000
Subject: [PATCH 31/74] fix: return the Cauchy stress of compressible materials

---
 src/gsMaterialMatrixNonlinear.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 6b485f1..7eb9914 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -1055,8 +1055,6 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
 
     gsMatrix<T> Smat = _eval3D_Compressible_stress(patch,u,z);
 
-    gsMatrix<T> result(3, u.cols() * z.rows());
-    result.setZero();
     gsMatrix<T> C33s = _eval3D_Compressible_C33(patch,u,z);
     T C33;
     index_t colIdx;
@@ -1072,7 +1070,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_eval3D_Compres
             Smat.col(colIdx) /= detF;
         }
     }
-    return result;
+    return Smat;
 }
 
 template <short_t dim, class T, short_t matId, bool comp, enum Material mat, enum Implementation imp >
-- 
2.43.0


From d5d496435b54a186a5782651270e5693bf7f6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:30 +0000
Subject: [PATCH 32/74] fix: size of the basis transformations for several
 heights

---
 src/gsMaterialMatrixBaseDim.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index cc21d97..38419ce 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -67,7 +67,7 @@ void gsMaterialMatrixBaseDim<dim,T>::thickness_into(const index_t patch, const g
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2cov(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
 {
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> covbasis,sbasis;
     gsMatrix<T> tmp = eval3D_pstretchDir(patch,u,z);
     index_t colIdx;
@@ -89,7 +89,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2cov(const index_t patch,
 template <short_t dim, class T>
 gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2con(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
 {
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> conbasis,sbasis;
     gsMatrix<T> tmp = eval3D_pstretchDir(patch,u,z);
     index_t colIdx;
@@ -113,7 +113,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_cov2cart(const index_t patch,
 {
     this->_computePoints(patch,u);
 
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> tmp, covbasis,cartbasis(3,3);
     cartbasis.setIdentity();
     index_t colIdx;
@@ -136,7 +136,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_con2cart(const index_t patch,
 {
     this->_computePoints(patch,u);
 
-    gsMatrix<T> result(9, u.cols());
+    gsMatrix<T> result(9, u.cols() * z.rows());
     gsMatrix<T> tmp, conbasis,cartbasis(3,3);
     cartbasis.setIdentity();
     index_t colIdx;
-- 
2.43.0


From 8c39f3420e255b2d4d44f9f67d3aa33ba7b5a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:30 +0000
Subject: [PATCH 33/74] fix: the spectral to contravariant transformation uses
 the contravariant basis

---
 src/gsMaterialMatrixBaseDim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 38419ce..974f3fc 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -100,7 +100,7 @@ gsMatrix<T> gsMaterialMatrixBaseDim<dim,T>::eval3D_spec2con(const index_t patch,
             colIdx = j*u.cols()+k;
             _getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
             sbasis = tmp.reshapeCol(colIdx,3,3);
-            conbasis = m_data.mine().m_gcov_ori;
+            conbasis = m_data.mine().m_gcon_ori;
             result.col(colIdx) = this->_transformation(conbasis,sbasis).reshape(9,1);
         }
     }
-- 
2.43.0


From deda8512858685b6196ba0d6badfba899300f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:19 +0000
Subject: [PATCH 34/74] fix: principal Cauchy stresses on the deformed basis

---
 src/gsMaterialMatrixBaseDim.h     |  5 ++++-
 src/gsMaterialMatrixBaseDim.hpp   | 10 ++++++++--
 src/gsMaterialMatrixLinear.hpp    |  2 +-
 src/gsMaterialMatrixNonlinear.hpp |  2 +-
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/gsMaterialMatrixBaseDim.h b/src/gsMaterialMatrixBaseDim.h
index 7bedc88..a387fb1 100644
--- a/src/gsMaterialMatrixBaseDim.h
+++ b/src/gsMaterialMatrixBaseDim.h
@@ -241,9 +241,12 @@ public:
     /// Computes the principal strain given deformation tensor C, into a pair
     std::pair<gsVector<T>,gsMatrix<T>> _evalPStrain(const gsMatrix<T> & C ) const;
 
-    /// Computes the principal stress given stress tensor S, into a pair
+    /// Computes the principal stress given stress tensor S (in the undeformed covariant basis), into a pair
     std::pair<gsVector<T>,gsMatrix<T>> _evalPStress(const gsMatrix<T> & S ) const;
 
+    /// Computes the principal stress given stress tensor S in the basis \a gcov, into a pair
+    std::pair<gsVector<T>,gsMatrix<T>> _evalPStress(const gsMatrix<T> & S, const gsMatrix<T> & gcov ) const;
+
     /// Computes the stretch given deformation tensor C, into class members m_stretches and m_stretchDirs
     void _computeStretch(const gsMatrix<T> & C, const gsMatrix<T> & gcon_ori ) const;
 
diff --git a/src/gsMaterialMatrixBaseDim.hpp b/src/gsMaterialMatrixBaseDim.hpp
index 974f3fc..c9af476 100644
--- a/src/gsMaterialMatrixBaseDim.hpp
+++ b/src/gsMaterialMatrixBaseDim.hpp
@@ -1384,6 +1384,12 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalStretch(
 
 template <short_t dim, class T>
 std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(const gsMatrix<T> & S) const
+{
+    return _evalPStress(S,m_data.mine().m_gcov_ori);
+}
+
+template <short_t dim, class T>
+std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(const gsMatrix<T> & S, const gsMatrix<T> & gcov) const
 {
     gsVector<T> pstresses;
     gsMatrix<T> pstressvec;
@@ -1397,7 +1403,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     B.setZero();
     for (index_t k = 0; k != 2; k++)
         for (index_t l = 0; l != 2; l++)
-            B += S(k,l) * m_data.mine().m_gcov_ori.col(k) * m_data.mine().m_gcov_ori.col(l).transpose();
+            B += S(k,l) * gcov.col(k) * gcov.col(l).transpose();
 
     eigSolver.compute(B);
 
@@ -1411,7 +1417,7 @@ std::pair<gsVector<T>,gsMatrix<T>> gsMaterialMatrixBaseDim<dim,T>::_evalPStress(
     GISMO_ASSERT(zeroIdx!=-1,"No zero found?");
 
     index_t count = 0;
-    pstressvec.col(2) = m_data.mine().m_gcon_ori.col(2);
+    pstressvec.col(2) = gcov.col(2);
 
     for (index_t k=0; k!=3; k++)
     {
diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index de105b2..46b937f 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -451,7 +451,7 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::eval3D_CauchyPStress(const index_t pa
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_def); // the Cauchy stress lives on the deformed basis
             result.col(j * u.cols() + k) = res.first;
         }
     }
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 7eb9914..9316dc2 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -700,7 +700,7 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_CauchyPS
             S(1,1) = Smat(1,colIdx);
             S(0,1) = S(1,0) = Smat(2,colIdx);
             S(2,2) = 0;
-            res = this->_evalPStress(S);
+            res = this->_evalPStress(S,m_data.mine().m_gcov_def); // the Cauchy stress lives on the deformed basis
             result.col(j * u.cols() + k) = res.first;
         }
     }
-- 
2.43.0


From 69fda4785619bf2f9c420e67467563cc84b0998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 35/74] fix: principal strain fields have three components

---
 src/gsMaterialMatrixEval.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gsMaterialMatrixEval.h b/src/gsMaterialMatrixEval.h
index ec31301..2a82725 100644
--- a/src/gsMaterialMatrixEval.h
+++ b/src/gsMaterialMatrixEval.h
@@ -165,9 +165,12 @@ private:
                             _out==MaterialOutput::PStressN ||
                             _out==MaterialOutput::PCauchyStressN ||
                             _out==MaterialOutput::PStressM ||
-                            _out==MaterialOutput::PCauchyStressM ||
-                            _out==MaterialOutput::PStrainN ||
-                            _out==MaterialOutput::PStrainM   , short_t>::type targetDim_impl() const { return 2; };
+                            _out==MaterialOutput::PCauchyStressM   , short_t>::type targetDim_impl() const { return 2; };
+
+    /// Implementation of \ref targetDim for principal strain fields
+    template<enum MaterialOutput _out>
+    typename std::enable_if<_out==MaterialOutput::PStrainN ||
+                            _out==MaterialOutput::PStrainM   , short_t>::type targetDim_impl() const { return 3; };
 
     /// Implementation of \ref targetDim for principal stretch directions
     template<enum MaterialOutput _out>
-- 
2.43.0


From 933855dd6e1479459cfe1fccc2b668cb1920d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 36/74] fix: principal stress directions of linear materials

---
 src/gsMaterialMatrixLinear.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixLinear.hpp b/src/gsMaterialMatrixLinear.hpp
index 46b937f..fca7ec6 100644
--- a/src/gsMaterialMatrixLinear.hpp
+++ b/src/gsMaterialMatrixLinear.hpp
@@ -620,7 +620,8 @@ gsMatrix<T> gsMaterialMatrixLinear<dim,T>::_E(const T /*z*/, enum MaterialOutput
     else if (   out == MaterialOutput::Generic          ||
                 out == MaterialOutput::Strain           ||
                 out == MaterialOutput::Stress           ||
-                out == MaterialOutput::PStress             ) // To be used with multiplyLinZ_into or integrateZ_into
+                out == MaterialOutput::PStress          ||
+                out == MaterialOutput::PStressDir          ) // To be used with multiplyLinZ_into or integrateZ_into
         strain = 0.5*(m_data.mine().m_Gcov_def.block(0,0,2,2) - m_data.mine().m_Gcov_ori.block(0,0,2,2));
     else
         GISMO_ERROR("Output type MaterialOutput::" + std::to_string((short_t)(out)) + " not understood. See gsMaterialMatrixUtils.h");
-- 
2.43.0


From e7e50962d533cf7259b728e9f61fbca45897397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:05 +0000
Subject: [PATCH 37/74] fix: size of the wrinkling angle and strain for several
 heights

---
 src/gsMaterialMatrixTFT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index a87fe4f..a0c2a19 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -303,7 +303,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_tensionfield(const index_t
 template <short_t dim, class T, bool linear >
 gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_theta(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput /*out*/) const
 {
-    gsMatrix<T> result(1,u.cols());
+    gsMatrix<T> result(1,u.cols()*z.rows());
     result.setZero();
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
@@ -335,7 +335,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_theta(const index_t patch,
 template <short_t dim, class T, bool linear >
 gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_gamma(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput /*out*/) const
 {
-    gsMatrix<T> result(1,u.cols());
+    gsMatrix<T> result(1,u.cols()*z.rows());
     result.setZero();
     gsMatrix<T> TF = this->_compute_TF(patch,u,z);
     index_t colIdx;
-- 
2.43.0


From ed6881d4308946d6babff9a104b625f1e0af8e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:31 +0000
Subject: [PATCH 38/74] fix: Cauchy stress of the wrinkled state uses the
 volume ratio of the material

---
 src/gsMaterialMatrixTFT.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index a0c2a19..cb34b38 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -208,7 +208,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_CauchyStress(const index_t
     index_t colIdx;
     T theta;
 
-    this->_computePoints(patch,u);
+    gsMatrix<T> detF = m_materialMat->eval3D_detF(patch,u,z,MaterialOutput::Generic);
     for (index_t k=0; k!=u.cols(); k++)
     {
         for( index_t j=0; j < z.rows(); ++j ) // through-thickness points
@@ -226,15 +226,13 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::eval3D_CauchyStress(const index_t
             }
             else if (TF(0,colIdx) == 0) // wrinkled
             {
-                this->_getMetric(k, z(j, k) * m_data.mine().m_Tmat(0, k)); // on point i, on height z(0,j)
                 gsMatrix<T> C = m_materialMat->eval3D_matrix(patch,u.col(k),z(j,k),MaterialOutput::MatrixA);
                 gsMatrix<T> N = m_materialMat->eval3D_stress(patch,u.col(k),z(j,k),MaterialOutput::VectorN);;
                 gsMatrix<T> E = m_materialMat->eval3D_strain(patch,u.col(k),z(j,k));
                 gsMatrix<T> thetas = eval_theta(C,N,E);
                 theta = thetas(0,0);
                 gsMatrix<T> S = this->_compute_S(theta,C.reshape(3,3),N);
-                T detF = math::sqrt(m_data.mine().m_J0_sq)*1.0;
-                result.col(colIdx) = S / math::sqrt(detF);
+                result.col(colIdx) = S / detF(0,colIdx);
             }
             else
                 GISMO_ERROR("Tension field data not understood: "<<TF(0,colIdx));
-- 
2.43.0


From b116fbf0f0b99b6ab4286e25716902b90ce84313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:31 +0000
Subject: [PATCH 39/74] fix: tangent of wrinkled hyperelastic membranes

---
 src/gsMaterialMatrixTFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index cb34b38..79bb127 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -937,7 +937,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::_compute_C(const T theta, const g
 
     // d(gamma*n1)dE
     gsMatrix<T> dgamman1dE = ( n1_vec * dgammadE + dgammadT * n1_vec * dTdE + 2*gamma * n2_vec * dTdE );
-    result += dgamman1dE.transpose() * C;
+    result += C * dgamman1dE;
     result += gamma * dCN1;
     return result;
 }
-- 
2.43.0


From ae7685b67ed957aba77fae75de06a056a7370836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:18 +0000
Subject: [PATCH 40/74] fix: tangent of wrinkled linear membranes

---
 src/gsMaterialMatrixTFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 79bb127..86f79a5 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -863,7 +863,7 @@ gsMatrix<T> gsMaterialMatrixTFT<dim,T,linear>::_compute_C(const T theta, const g
 
     // dF/dE
     // gsMatrix<T> dfdE = ( n2_vec.transpose() - tmp * n1_vec.transpose() ) * C;
-    gsMatrix<T> dfdE = n2_vec.transpose() * C - dgammadE.transpose() * (n2_vec.transpose() * C * n1_vec).value();
+    gsMatrix<T> dfdE = n2_vec.transpose() * C + dgammadE.transpose() * (n2_vec.transpose() * C * n1_vec).value();
     dfdE.transposeInPlace();
 
     // dF/dT
-- 
2.43.0


From 56969c1caed25a6387b6343ede30c7fee30202b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:14 +0000
Subject: [PATCH 41/74] fix: bracket of the root search for the wrinkling angle

---
 src/gsMaterialMatrixTFT.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gsMaterialMatrixTFT.hpp b/src/gsMaterialMatrixTFT.hpp
index 86f79a5..670fe79 100644
--- a/src/gsMaterialMatrixTFT.hpp
+++ b/src/gsMaterialMatrixTFT.hpp
@@ -1134,8 +1134,6 @@ public:
 
         if (fa*fb >=0)
             return false;
-        else if (fa > fb)
-            std::swap(fa,fb);
 
         c = sa;
         fc = fa;
-- 
2.43.0


From e63383041e23e0ebca437aaefe6b845b035c14be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:38 +0000
Subject: [PATCH 42/74] fix: thickness of a laminate

The result was never sized (out of bounds write), and the fields of the
requested patch were not used.
---
 src/gsMaterialMatrixComposite.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index fb5c0cf..01be447 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -176,15 +176,17 @@ void gsMaterialMatrixComposite<dim,T>::thickness_into(const index_t patch, const
     static_cast<const gsFunction<T>&>(m_patches->piece(patch)   ).computeMap(map); // the piece(0) here implies that if you call class.eval_into, it will be evaluated on piece(0). Hence, call class.piece(k).eval_into()
 
     std::vector<gsMatrix<T>> Tcontainer(m_nLayers);
-    for (size_t k=0; k!= m_Rs.size(); k++)
+    for (size_t k=0; k!= m_Ts.size(); k++)
     {
-        Tcontainer[k] = m_Ts[k]->eval(map.values[0]);
+        Tcontainer[k] = m_Ts[k]->piece(patch).eval(map.values[0]);
         GISMO_ASSERT(Tcontainer[k].rows()==1,"Thickness has the wrong size, must be scalar");
     }
 
+    // The thickness of the laminate is the sum of the thicknesses of its layers
+    result.resize(1, u.cols());
+    result.setZero();
     for (index_t i = 0; i != m_nLayers; ++i) // layers
-        for (index_t k = 0; k != u.cols(); ++k) // points
-            result.row(i) = Tcontainer[i].row(0);
+        result.row(0) += Tcontainer[i].row(0);
 }
 
 template <short_t dim, class T >
-- 
2.43.0


From 0b7f65b0759d56e5304864c70fb8b04a72e50cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:38 +0000
Subject: [PATCH 43/74] fix: laminates without a deformed geometry

Null pointer dereference when the stiffness is evaluated before a deformed
geometry is set.
---
 src/gsMaterialMatrixComposite.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index 01be447..de11033 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -133,7 +133,7 @@ void gsMaterialMatrixComposite<dim,T>::_computePoints(const index_t patch, const
 {
     this->_computeMetricUndeformed(patch,u);
 
-    if (Base::m_defpatches->nPieces()!=0)
+    if (Base::m_defpatches!=nullptr && Base::m_defpatches->nPieces()!=0)
         this->_computeMetricDeformed(patch,u);
 }
 
@@ -231,7 +231,7 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::eval3D_matrix(const index_t patch,
     for (index_t k = 0; k != u.cols(); ++k)
     {
         Cmat.setZero();
-        this->_getMetric(k,0.0); // on point i, with height 0.0
+        this->_getMetricUndeformed(k,0.0); // on point i, with height 0.0
 
         // Compute total thickness (sum of entries)
         t_tot = 0;
-- 
2.43.0


From 3c6f2ebf871f8e576400ace1bd58bf169983eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:38 +0000
Subject: [PATCH 44/74] fix: stiffness of laminates on skewed parametric axes

The transformations between the local Cartesian and the curvilinear basis
mixed tensorial and engineering shear strains, which is only harmless when
the parametric axes are orthogonal.
---
 src/gsMaterialMatrixComposite.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index de11033..f2f0a3c 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -359,7 +359,7 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::_cart2cov(const gsVector<T> & a1,
     Tmat.setZero();
     // Covariant to local cartesian
     Tmat(0,0) = (e1.dot(a1))*(a1.dot(e1));
-    Tmat(0,1) = (e1.dot(a2))*(a2.dot(e2));
+    Tmat(0,1) = (e1.dot(a2))*(a2.dot(e1));
     Tmat(0,2) = 2*(e1.dot(a1))*(a2.dot(e1));
     // Row 1
     Tmat(1,0) = (e2.dot(a1))*(a1.dot(e2));
@@ -379,17 +379,17 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::_con2cart(const gsVector<T> & ac1,
 {
     gsMatrix<T,3,3> Tmat;
     Tmat.setZero();
-    // Contravariant to local cartesian
+    // Covariant strains (E11,E22,2*E12) to local cartesian strains (e11,e22,2*e12)
     Tmat(0,0) = (e1.dot(ac1))*(ac1.dot(e1));
-    Tmat(0,1) = (e1.dot(ac2))*(ac2.dot(e2));
-    Tmat(0,2) = 2*(e1.dot(ac1))*(ac2.dot(e1));
+    Tmat(0,1) = (e1.dot(ac2))*(ac2.dot(e1));
+    Tmat(0,2) = (e1.dot(ac1))*(ac2.dot(e1));
     // Row 1
     Tmat(1,0) = (e2.dot(ac1))*(ac1.dot(e2));
     Tmat(1,1) = (e2.dot(ac2))*(ac2.dot(e2));
-    Tmat(1,2) = 2*(e2.dot(ac1))*(ac2.dot(e2));
+    Tmat(1,2) = (e2.dot(ac1))*(ac2.dot(e2));
     // Row 2
-    Tmat(2,0) = (e1.dot(ac1))*(ac1.dot(e2));
-    Tmat(2,1) = (e1.dot(ac2))*(ac2.dot(e2));
+    Tmat(2,0) = 2*(e1.dot(ac1))*(ac1.dot(e2));
+    Tmat(2,1) = 2*(e1.dot(ac2))*(ac2.dot(e2));
     Tmat(2,2) = (e1.dot(ac1))*(ac2.dot(e2)) + (e1.dot(ac2))*(ac1.dot(e2));
     return Tmat;
 }
-- 
2.43.0


From 09aec39cd764c4db9188dd7425ca5122925aba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:38 +0000
Subject: [PATCH 45/74] fix: membrane-bending coupling of unsymmetric laminates

The coupling stiffnesses B and C entered the tangent but not the stress
resultants.
---
 src/gsMaterialMatrixComposite.hpp | 43 +++++++++++++++++--------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/gsMaterialMatrixComposite.hpp b/src/gsMaterialMatrixComposite.hpp
index f2f0a3c..6c6f943 100644
--- a/src/gsMaterialMatrixComposite.hpp
+++ b/src/gsMaterialMatrixComposite.hpp
@@ -295,35 +295,38 @@ gsMatrix<T> gsMaterialMatrixComposite<dim,T>::eval3D_vector(const index_t patch,
 
     this->_computePoints(patch,u);
     gsMatrix<T> result(3, u.cols());
-    enum MaterialOutput _out;
+    // N = A*E + B*K and M = C*E + D*K, with membrane strain E and bending strain K
+    gsMatrix<T> Emat, Kmat;
     if      (out==MaterialOutput::VectorN)
-        _out=MaterialOutput::MatrixA;
+    {
+        Emat = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixA);
+        Kmat = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixB);
+    }
     else if (out==MaterialOutput::VectorM)
-        _out=MaterialOutput::MatrixD;
+    {
+        Emat = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixC);
+        Kmat = this->eval3D_matrix(patch,u,z,MaterialOutput::MatrixD);
+    }
     else
-        GISMO_ERROR("Output unknown");
+        GISMO_ERROR("Output type is not VectorN or VectorM!");
 
-    gsMatrix<T> Cmat = this->eval3D_matrix(patch,u,z,_out);
-    gsMatrix<T> Eij(2,2);
+    gsMatrix<T> strain;
+    gsVector<T,3> Eij;
 
     for (index_t k = 0; k != u.cols(); ++k)
     {
         this->_getMetric(k,0.0); // on point i, with height 0.0
 
-        if      (out == MaterialOutput::VectorN) // To be used with multiplyZ_into
-            Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori);
-        else if (out == MaterialOutput::VectorM) // To be used with multiplyZ_into
-            Eij = (m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
-        else if (out == MaterialOutput::Generic) // To be used with multiplyLinZ_into or integrateZ_into
-            Eij = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori) + z*(m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def);
-        else
-            GISMO_ERROR("Output type is not VectorN, VectorM or Generic!");
-
-        Eij(0,1) += Eij(1,0);
-        std::swap(Eij(1,0), Eij(1,1));
-        Eij.resize(4,1);
-        Eij.conservativeResize(3,1);
-        result.col(k) = Cmat.reshapeCol(k,3,3) * Eij;
+        strain = 0.5*(m_data.mine().m_Acov_def - m_data.mine().m_Acov_ori);
+        Eij << strain(0,0), strain(1,1), strain(0,1)+strain(1,0);
+        result.col(k) = Emat.reshapeCol(k,3,3) * Eij;
+
+        if (dim==3) // bending strains
+        {
+            strain = m_data.mine().m_Bcov_ori - m_data.mine().m_Bcov_def;
+            Eij << strain(0,0), strain(1,1), strain(0,1)+strain(1,0);
+            result.col(k) += Kmat.reshapeCol(k,3,3) * Eij;
+        }
     }
     return result;
 }
-- 
2.43.0


From 39c78f53c5687e42baa0f54a598e4cca87bd2bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:11 +0000
Subject: [PATCH 46/74] fix: stress and strain fields of planar geometries

The normals needed for the flexural strain only were requested for every
field, which is not possible for planar geometries.
---
 src/gsThinShellFunctions.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index 2c6e4bf..7a4c9db 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -90,7 +90,6 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     auto Ttilde_def = cartcov(m_def);
     // auto Tmat   = cartcov(m_def);
     auto E_m    = 0.5 * ( flat(jac(m_def).tr()*jac(m_def)) - flat(jac(m_ori).tr()* jac(m_ori)) ) * reshape(m_m12,3,3) * That.tr();
-    auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3) * That.tr();
 
     auto N_m    = N0.tr() * Ttilde.tr();
     auto N_f    = N1.tr() * Ttilde.tr();
@@ -189,9 +188,13 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
                 result.col(k) = ev.eval(E_m.tr(),u.col(k),m_patchID);
             break;
         case stress_type::flexural_strain :
+        {
+            // Uses the surface normals, hence only available for surfaces
+            auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3) * That.tr();
             for (index_t k = 0; k != u.cols(); ++k)
                 result.col(k) = ev.eval(E_f.tr(),u.col(k),m_patchID);
             break;
+        }
         case stress_type::principal_membrane_strain:
             for (index_t k = 0; k != u.cols(); ++k)
                 result.col(k) = ev.eval(Ep0,u.col(k),m_patchID);
-- 
2.43.0


From 40ac82b0b51391f97aff5497eb3df66d16ad5fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:11 +0000
Subject: [PATCH 47/74] fix: Cartesian components of the flexural strain

The transformation to Cartesian components (as used for the membrane strain)
applies to the tensor components; the shear was doubled before it.
---
 src/gsThinShellFunctions.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsThinShellFunctions.hpp b/src/gsThinShellFunctions.hpp
index 7a4c9db..967ae3f 100644
--- a/src/gsThinShellFunctions.hpp
+++ b/src/gsThinShellFunctions.hpp
@@ -80,8 +80,6 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
     gsMaterialMatrixEval<T,MaterialOutput::StretchDir> m_lambdadir(m_materialMatrices,m_patches,m_defpatches,z);
     variable lambdadir = ev.getVariable(m_lambdadir);
 
-    gsFunctionExpr<> mult2t("1","0","0","0","1","0","0","0","2",2);
-    variable m_m2 = ev.getVariable(mult2t);
     gsFunctionExpr<> mult12t("1","0","0","0","1","0","0","0","0.5",2);
     variable m_m12 = ev.getVariable(mult12t);
 
@@ -190,7 +188,7 @@ void gsShellStressFunction<T>::eval_into(const gsMatrix<T> & u, gsMatrix<T> & re
         case stress_type::flexural_strain :
         {
             // Uses the surface normals, hence only available for surfaces
-            auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3) * That.tr();
+            auto E_f    = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * That.tr();
             for (index_t k = 0; k != u.cols(); ++k)
                 result.col(k) = ev.eval(E_f.tr(),u.col(k),m_patchID);
             break;
-- 
2.43.0


From d0fef2f3d3d4b52313082a4e943b81ab7e421e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:11 +0000
Subject: [PATCH 48/74] fix: displacement norm is the root mean square over the
 undeformed area

The square was integrated over the deformed but averaged over the undeformed
area, so that the norm could exceed the largest displacement.
---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index db20c4f..8ee914d 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2548,7 +2548,7 @@ T gsThinShellAssembler<d, T, bending>::getDisplacementNorm(const gsFunctionSet<T
     auto u   = m_def - m_ori;
 
     gsExprEvaluator<T> evaluator(m_assembler);
-    T result = evaluator.integral( u.tr() * u * meas(m_def));
+    T result = evaluator.integral( u.tr() * u * meas(m_ori));
     T area = evaluator.integral(meas(m_ori));
 
     return std::pow(result/area,0.5);
-- 
2.43.0


From cdecd75b877215c2e3aaccaa6f781f600dfc8901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:11 +0000
Subject: [PATCH 49/74] fix: compare unit normals over interfaces

The normals were not normalized, so the error of a smooth interface depended
on the parametric speed of the patches.
---
 src/gsThinShellAssembler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 8ee914d..a922f85 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2616,7 +2616,7 @@ T gsThinShellAssembler<d, T, bending>::interfaceErrorNormal(const gsFunctionSet<
 {
     geometryMap G = m_assembler.getMap(deformed);
     gsExprEvaluator<T> ev(m_assembler);
-    ev.maxInterface( (sn(G.left())-sn(G.right())).norm() , iFaces);
+    ev.maxInterface( (sn(G.left()).normalized()-sn(G.right()).normalized()).norm() , iFaces);
     return ev.value();
 }
 
-- 
2.43.0


From dc6a9bb1694800fb3ec361a7a6575eb6722bffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:33 +0000
Subject: [PATCH 50/74] fix: elastic energy from the work-conjugate strains

The force resultants were multiplied by the displacement vector (which does not
even have the same number of components for planar geometries).
---
 src/gsThinShellAssembler.h   |  2 +-
 src/gsThinShellAssembler.hpp | 20 +++++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellAssembler.h b/src/gsThinShellAssembler.h
index 2758fd7..5f06868 100644
--- a/src/gsThinShellAssembler.h
+++ b/src/gsThinShellAssembler.h
@@ -1006,7 +1006,7 @@ public:
     /// Returns the displacement norm, i.e. norm = sqrt(u'*u/area)
     virtual T getDisplacementNorm(const gsFunctionSet<T> & deformed) = 0;
 
-    /// Returns the elastic energy norm, i.e. norm = 0.5 * u'*F_int
+    /// Returns the elastic energy, i.e. 0.5 * (N:E + M:K) integrated over the undeformed geometry (0.5 * u'*F_int for small displacements)
     virtual T getElasticEnergy(const gsFunctionSet<T> & deformed) = 0;
 
     /// Returns a reference to the system matrix that is assembled
diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index a922f85..2acc9e2 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2565,16 +2565,26 @@ T gsThinShellAssembler<d, T, bending>::getElasticEnergy(const gsFunctionSet<T> &
     geometryMap m_def   = m_assembler.getMap(deformed);
 
     gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0(m_materialMatrices,&m_patches,&deformed);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&m_patches,&deformed);
     auto S0  = m_assembler.getCoeff(m_S0);
-    auto S1  = m_assembler.getCoeff(m_S1);
-    auto u   = m_def - m_ori;
 
     auto m_N        = S0.tr();
-    auto m_M        = S1.tr(); // output is a column
+    auto m_Em       = 0.5 * ( flat(jac(m_def).tr()*jac(m_def)) - flat(jac(m_ori).tr()*jac(m_ori)) );
 
     gsExprEvaluator<T> evaluator(m_assembler);
-    T result = evaluator.integral(0.5 * ( u.tr() * ( m_N + m_M ).tr() ) * meas(m_def));
+    T result = evaluator.integral(0.5 * ( m_N * m_Em.tr() ) * meas(m_ori));
+
+    if (d==3 && bending)
+    {
+        gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1(m_materialMatrices,&m_patches,&deformed);
+        auto S1  = m_assembler.getCoeff(m_S1);
+        gsFunctionExpr<> mult2t("1","0","0","0","1","0","0","0","2",2);
+        auto m_m2 = m_assembler.getCoeff(mult2t);
+
+        auto m_M        = S1.tr(); // output is a column
+        auto m_Ef       = ( expr::deriv2(m_ori,sn(m_ori).normalized().tr()) - expr::deriv2(m_def,sn(m_def).normalized().tr()) ) * reshape(m_m2,3,3);
+
+        result += evaluator.integral(0.5 * ( m_M * m_Ef.tr() ) * meas(m_ori));
+    }
     return result;
 }
 
-- 
2.43.0


From 31b8aae87d66c56caf487d4c9dfd0088fbe6ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:41 +0000
Subject: [PATCH 51/74] fix: dimension of the displacement field of planar
 geometries

---
 src/gsThinShellFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellFunctions.h b/src/gsThinShellFunctions.h
index 5589852..69ad7be 100644
--- a/src/gsThinShellFunctions.h
+++ b/src/gsThinShellFunctions.h
@@ -121,7 +121,7 @@ public:
                 return 0;
                 break;
             case stress_type::displacement :
-                return 3;
+                return m_patches->targetDim();
                 break;
 
             case stress_type::membrane :
-- 
2.43.0


From 6979ad82eafb2f4bef30c471bcb85ca41aa6d17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:29 +0000
Subject: [PATCH 52/74] fix: dual problem uses the continuity of the primal
 problem

The space of the dual right-hand side was always set up with strong C0
coupling, so that the dual problem of patches coupled otherwise (the default)
failed to assemble.
---
 src/gsThinShellAssemblerDWR.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 9b0938a..4a990d5 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -218,7 +218,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(g
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
@@ -675,7 +675,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
@@ -1140,7 +1140,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     // Space
     space   space   = exprAssembler.trialSpace(0);
     // Homogenize Dirichlet
-    space.setup(m_bcs, dirichlet::homogeneous, 0);
+    space.setup(m_bcs, dirichlet::homogeneous, assembler->options().getInt("Continuity"));
 
     // Solution
     auto usol   = exprAssembler.getCoeff(primal);
-- 
2.43.0


From 414e6ac4901ef6398b4b6454004a1ae3b1fcbcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:29 +0000
Subject: [PATCH 53/74] fix: derivative of the membrane force goal on
 boundaries and points

The dual right-hand side used the force instead of its variation.
---
 src/gsThinShellAssemblerDWR.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 4a990d5..f2a9c14 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -983,7 +983,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            auto expr = N.tr() * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = N_der * gismo::expr::uv(m_component,3) * meas(Gori);
             try
             {
                 exprAssembler.assembleBdr(bnds,expr);
@@ -1458,8 +1458,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            // remove N_der from this scipe
-            auto expr = N.tr() * gismo::expr::uv(m_component,3) * meas(Gori);
+            auto expr = N_der * gismo::expr::uv(m_component,3) * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
@@ -1564,7 +1563,6 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
         }
         else
         {
-            // remove N_der from this scipe
             auto expr = M_der * gismo::expr::uv(m_component,3) * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
-- 
2.43.0


From 0d22b347916581b5de890c92dfe85f8143d9af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:29 +0000
Subject: [PATCH 54/74] fix: derivative of the flexural strain goal on
 boundaries

The shear part had twice the weight it has in the goal.
---
 src/gsThinShellAssemblerDWR.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index f2a9c14..efc7835 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1001,9 +1001,7 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     {
         if (m_component==9)
         {
-            gsFunctionExpr<T> mult110t("1","0","0","0","1","0","0","0","0",2);
-            auto m110 = exprAssembler.getCoeff(mult2t);
-            auto expr = 2*Ef_der * reshape(m110,3,3) *  Ef.tr() * meas(Gori);
+            auto expr = 2 * Ef_der * Ef.tr() * meas(Gori);
             try
             {
                 exprAssembler.assembleBdr(bnds,expr);
-- 
2.43.0


From a748725e59f4efc4db1f453b63d3ec2c674e0e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:59 +0000
Subject: [PATCH 55/74] fix: derivative of the principal stress goal at points

The two principal stresses were multiplied with the three-component variation.
---
 src/gsThinShellAssemblerDWR.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index efc7835..483e21c 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -1333,9 +1333,15 @@ ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleDual(c
     }
     else if (m_goalFunction == GoalFunction::PStress)
     {
+        // to convert P0 from a vector of length 2 to 3, this matrix is [[1,0],[0,1],[0,0]]
+        gsMatrix<T> convMat(3,2);
+        convMat.setZero();
+        convMat(0,0) = convMat(1,1) = 1;
+        gsConstantFunction<T> convFun(convMat.reshape(6,1),2);
+        auto conv = exprAssembler.getCoeff(convFun);
         if (m_component==9)
         {
-            auto expr = 2 * Smp_der * P0 * meas(Gori);
+            auto expr = 2 * Smp_der * reshape(conv,3,2) * P0 * meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval(expr,points.col(k));
-- 
2.43.0


From ae63695bb888af9242b267f2063f6cd4267c55f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:59 +0000
Subject: [PATCH 56/74] fix: principal stretch goal at points

A component of the stretch goal evaluated the displacement.
---
 src/gsThinShellAssemblerDWR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index 483e21c..be4bdba 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3309,7 +3309,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
         }
         else
         {
-            auto expr = (Gdef - Gori).tr() * gismo::expr::uv(m_component,3)*meas(Gori);
+            auto expr = lambda.tr() * gismo::expr::uv(m_component,3)*meas(Gori);
             for (index_t k = 0; k!=points.cols(); k++)
             {
                 tmp = ev.eval( expr, points.col(k));
-- 
2.43.0


From 1da46346f5564e28e99c4bd2e154ac630fa5fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:59 +0000
Subject: [PATCH 57/74] fix: updated boundary conditions apply to the dual
 problem too

updateBCs() left the conditions used for the dual space and the boundary
contribution of the error estimate unchanged.
---
 src/gsThinShellAssemblerDWR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.h b/src/gsThinShellAssemblerDWR.h
index 6e7b4a2..b9eed77 100644
--- a/src/gsThinShellAssemblerDWR.h
+++ b/src/gsThinShellAssemblerDWR.h
@@ -109,7 +109,7 @@ public:
     void setPressure(const gsFunction<T> & pressure) { m_assemblerL->setPressure(pressure);  m_assemblerH->setPressure(pressure); }
 
     /// See \ref gsThinShellAssemblerBase for details
-    void updateBCs(const gsBoundaryConditions<T> & bconditions) { m_assemblerL->updateBCs(bconditions);  m_assemblerH->updateBCs(bconditions); }
+    void updateBCs(const gsBoundaryConditions<T> & bconditions) { m_bcs = bconditions; m_assemblerL->updateBCs(bconditions);  m_assemblerH->updateBCs(bconditions); }
 
     /// See \ref gsThinShellAssemblerBase for details
     void setBasisL(const gsMultiBasis<T> & basis) { m_assemblerL->setBasis(basis); }
-- 
2.43.0


From 2622138d30b894f2263b668377e015f9e85ac9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:09 +0000
Subject: [PATCH 58/74] fix: orientation of the stretch transformation of goals
 at points

---
 src/gsThinShellAssemblerDWR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index be4bdba..faf6755 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3245,7 +3245,7 @@ T gsThinShellAssemblerDWR<d, T, bending>::computeGoal(const gsMatrix<T> & points
     auto Cm      = flat( jac(Gdef).tr() * jac(Gdef) ) * reshape(m12,3,3);
 
     // Principal stretch
-    auto lambda  = reshape(Tstretch,3,3).tr() * Cm.tr();
+    auto lambda  = reshape(Tstretch,3,3) * Cm.tr();
 
     // Membrane strain
     auto Em     = 0.5 * ( flat(jac(Gdef).tr()*jac(Gdef)) - flat(jac(Gori).tr()* jac(Gori)) ) ;
-- 
2.43.0


From e58944ebb1584aee9c6d8b0942929dc18fd76bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:00 +0000
Subject: [PATCH 59/74] fix: first variation of the curvature in the buckling
 error estimate

---
 src/gsThinShellAssemblerDWR.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index faf6755..b7d5b24 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -2482,9 +2482,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     auto Em_derd_L  = flat(  jac(Gori).tr() * ( jac(zsolH) - jac(zsolL) ) ) ;
 
     auto M_L        = S1.tr(); // output is a column
-    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
     auto Ef_derd_L  = -(
-                         deriv2(zsolH, sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsolH, Gori) )
+                         deriv2(zsolH, sn(Gori).normalized().tr() ) + deriv2(Gori, var1(zsolH, Gori) )
                         -deriv2(zsolL, sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsolL, Gori) )
                        ) * reshape(m2, 3, 3);
 
@@ -2504,9 +2504,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::computeErrorEig_impl(    const T ev
     auto Emd_der2   = flat( jac(usol).tr() * ( jac(zsolH) - jac(zsolL) ) ) * N_NL.tr();
 
     auto M_NL       = S1.tr(); // output is a column
-    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
     auto Ef_derd_NL = -(
-                         deriv2(zsolH, sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsolH, Gdef) )
+                         deriv2(zsolH, sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(zsolH, Gdef) )
                         -deriv2(zsolL, sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsolL, Gdef) )
                        ) * reshape(m2, 3, 3);
 
@@ -3601,10 +3601,10 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
     auto zsol = exprAssembler.getCoeff(other);
 
     auto Em_der_L   = flat(  jac(Gori).tr() * ( jac(usol )               ) ) ;
-    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_L   = -( deriv2(usol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(usol , Gori) ) ) * reshape(m2, 3, 3);
 
     auto Em_derd_L  = flat(  jac(Gori).tr() * ( jac(zsol )               ) ) ;
-    auto Ef_derd_L  = -( deriv2(zsol , sn(Gori).normalized().tr() ) - deriv2(Gori, var1(zsol , Gori) ) ) * reshape(m2, 3, 3);
+    auto Ef_derd_L  = -( deriv2(zsol , sn(Gori).normalized().tr() ) + deriv2(Gori, var1(zsol , Gori) ) ) * reshape(m2, 3, 3);
 
 
     auto N_der_L     = Em_derd_L * reshape(mmA_L,3,3) + Ef_derd_L * reshape(mmB_L,3,3);
@@ -3612,10 +3612,10 @@ T gsThinShellAssemblerDWR<d, T, bending>::matrixNorm(const gsMultiPatch<T> &prim
 
     auto N_NL       = S0.tr();
     auto Em_der_NL  = flat(  jac(Gdef).tr() * ( jac(usol )               ) ) ;
-    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_der_NL  = -( deriv2(usol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(usol , Gdef) ) ) * reshape(m2, 3, 3);
 
     auto Em_derd_NL = flat(  jac(Gdef).tr() * ( jac(zsol )               ) ) ;
-    auto Ef_derd_NL = -( deriv2(zsol , sn(Gdef).normalized().tr() ) - deriv2(Gdef, var1(zsol , Gdef) ) ) * reshape(m2, 3, 3);
+    auto Ef_derd_NL = -( deriv2(zsol , sn(Gdef).normalized().tr() ) + deriv2(Gdef, var1(zsol , Gdef) ) ) * reshape(m2, 3, 3);
 
     auto Em_der2    = flat( jac(usol).tr() * ( jac(zsol )               ) ) * N_NL.tr();
 
-- 
2.43.0


From 5939bde94bd879c0904a127548ac0c25ad29ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:00 +0000
Subject: [PATCH 60/74] fix: second derivatives of a variable at every
 evaluation point

---
 src/gsThinShellUtils.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index 87558f8..6c1eaf6 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -1503,7 +1503,6 @@ public:
         typename util::enable_if< util::is_same<U,gsFeVariable<Scalar> >::value, const gsMatrix<Scalar> & >::type
         eval_impl(const U & u, const index_t k)  const
         {
-            GISMO_UNUSED(k); //should this use k??
             /*
                 Here, we compute the hessian of the geometry map.
                 The hessian of the geometry map c has the form: hess(c)
@@ -1517,7 +1516,7 @@ public:
             tmp = u.data().values[2];
             res.resize(rows(),cols());
             for (index_t comp = 0; comp != u.source().targetDim(); comp++)
-                res.col(comp) = tmp.block(comp*rows(),0,rows(),1); //star,length
+                res.col(comp) = tmp.block(comp*rows(),k,rows(),1); //star,length
             return res;
         }
 
-- 
2.43.0


From 361de24288188fd1e45f675b449b6bf74a5c9168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:00 +0000
Subject: [PATCH 61/74] fix: second variation of the normal along two fields

---
 src/gsThinShellUtils.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/gsThinShellUtils.h b/src/gsThinShellUtils.h
index 6c1eaf6..4e42bb0 100644
--- a/src/gsThinShellUtils.h
+++ b/src/gsThinShellUtils.h
@@ -590,8 +590,6 @@ private:
         normal.normalize();
 
         cJac = _G.data().values[1].reshapeCol(k, _G.data().dim.first, _G.data().dim.second).transpose();
-        cDer2 = _G.data().values[2].reshapeCol(k, _G.data().dim.second, _G.data().dim.second);
-
         const Scalar measure = (cJac.col3d(0).cross( cJac.col3d(1) )).norm();
 
         m_u.noalias() = ( ( uGrads.col(0).template head<3>() ).cross( cJac.col(1).template head<3>() )
@@ -606,7 +604,7 @@ private:
         n_der.noalias() = (m_v - ( normal*m_v.transpose() ) * normal); // outer-product version
 
         m_uv.noalias() = ( ( uGrads.col(0).template head<3>() ).cross( vGrads.col(1).template head<3>() )
-                         - ( vGrads.col(1).template head<3>() ).cross( uGrads.col(0).template head<3>() ) )
+                         + ( vGrads.col(0).template head<3>() ).cross( uGrads.col(1).template head<3>() ) )
                         / measure;
 
         m_u_der.noalias() = (m_uv - ( normal.dot(m_v) ) * m_u);
@@ -616,9 +614,6 @@ private:
         tmp = m_u_der - (m_u.dot(n_der) + normal.dot(m_u_der) ) * normal - (normal.dot(m_u) ) * n_der;
         // tmp = m_u_der - (m_u.dot(n_der) + normal.dot(m_u_der) ) * normal - (normal.dot(m_u) ) * n_der;
 
-        // Evaluate the product
-        tmp = cDer2 * tmp; // E_f_der2, last component
-        tmp.row(2) *= 2.0;
         res = tmp;
         return res;
     }
-- 
2.43.0


From 4371dc9fb54d8a1e1f602933eb3dcb046ea92807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:00 +0000
Subject: [PATCH 62/74] fix: ambiguous overload of
 gsThinShellDWRHelper::computeError

---
 src/gsThinShellDWRHelper.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/gsThinShellDWRHelper.h b/src/gsThinShellDWRHelper.h
index 13a3408..3d14830 100644
--- a/src/gsThinShellDWRHelper.h
+++ b/src/gsThinShellDWRHelper.h
@@ -49,13 +49,6 @@ public:
         this->computeError(deformed,primalL);
     }
 
-    void computeError(const gsMultiPatch<T> & deformed, const gsMultiPatch<T> primalL, bool withLoads = false)
-    {
-        gsMatrix<T> points;
-        bContainer bnds;
-        this->computeError(deformed,primalL,bnds,points,true,withLoads);
-    }
-
     void computeError(const gsMultiPatch<T> & deformed, const gsMultiPatch<T> primalL, bool withLoads = false,
                         std::string filename = std::string(), unsigned np=1000, bool parametric=false, bool mesh=false)
     {
-- 
2.43.0


From c0d172b95d4b946fe129f0469412993cb8374cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:00 +0000
Subject: [PATCH 63/74] fix: element-wise point load contributions stay on the
 loaded patch

---
 src/gsThinShellAssemblerDWR.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index b7d5b24..f972091 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -3699,7 +3699,7 @@ void gsThinShellAssemblerDWR<d, T, bending>::_applyLoadsToElWiseError(const gsMu
                 for (; domIt<domItEnd; ++domIt )
 #               endif
                 {
-                    bool test = !(((((forcePoint - domIt.lowerCorner()).array() >= 0) &&
+                    bool test = (index_t)patchInd == m_pLoads[i].patch && !(((((forcePoint - domIt.lowerCorner()).array() >= 0) &&
                                     (domIt.upperCorner() - forcePoint).array() >= 0)   ).array() == 0).any();
                     if (test)
                         elements_private.push_back(c);
@@ -3709,9 +3709,9 @@ void gsThinShellAssemblerDWR<d, T, bending>::_applyLoadsToElWiseError(const gsMu
                                     c++;
                     #endif
                 }
-#pragma omp critical
-                elements.insert(elements.end(), elements_private.begin(), elements_private.end());
             }
+#pragma omp critical
+            elements.insert(elements.end(), elements_private.begin(), elements_private.end());
         }
 
         // Compute load value on the point
-- 
2.43.0


From 78436a31895ff52fa028ed28e3f8b05229e761b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:53 +0000
Subject: [PATCH 64/74] fix: lumped and point masses in the mass matrices of
 the DWR assembler

---
 src/gsThinShellAssemblerDWR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsThinShellAssemblerDWR.hpp b/src/gsThinShellAssemblerDWR.hpp
index f972091..0747117 100644
--- a/src/gsThinShellAssemblerDWR.hpp
+++ b/src/gsThinShellAssemblerDWR.hpp
@@ -67,7 +67,7 @@ template <short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssemblerDWR<d, T, bending>::_assembleMass(gsThinShellAssemblerBase<T> * assembler, gsSparseMatrix<T> & result, bool lumped)
 {
     ThinShellAssemblerStatus status =  assembler->assembleMass(lumped);
-    result = assembler->matrix();
+    result = assembler->massMatrix();
     GISMO_ENSURE(status==ThinShellAssemblerStatus::Success,"Assembly failed");
     return status;
 }
-- 
2.43.0


From 082afa571726116627752817816826c41ca02d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:21 +0000
Subject: [PATCH 65/74] fix: material constructors without geometry

---
 src/gsMaterialMatrixBaseDim.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsMaterialMatrixBaseDim.h b/src/gsMaterialMatrixBaseDim.h
index a387fb1..03f1954 100644
--- a/src/gsMaterialMatrixBaseDim.h
+++ b/src/gsMaterialMatrixBaseDim.h
@@ -80,7 +80,7 @@ public:
     :
     Base(mp,nullptr,thickness,Density)
     {
-        GISMO_ASSERT(mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
+        GISMO_ASSERT(mp==nullptr || mp->targetDim()==dim,"Geometric dimension and the template dimension are not the same!");
         this->defaultOptions();
         membersSetZero();
     }
-- 
2.43.0


From 13699502698fb619ff6d95925a9d454d17e0c5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:21 +0000
Subject: [PATCH 66/74] fix: read the constant functions written for materials

---
 src/gsMaterialMatrixXml.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/gsMaterialMatrixXml.hpp b/src/gsMaterialMatrixXml.hpp
index 42c2b04..58cd754 100644
--- a/src/gsMaterialMatrixXml.hpp
+++ b/src/gsMaterialMatrixXml.hpp
@@ -284,28 +284,28 @@ Object getMaterialMatrixFromXml ( gsXmlNode * node)
 
     tmp = node->first_node("Thickness");
     GISMO_ASSERT(tmp,"Thickness must be assigned!");
-    gsFunctionExpr<T> thickness;
-    gsXml<gsFunctionExpr<T> >::get_into(tmp->first_node("Function"), thickness);
-    result.setThickness(thickness);
+    typename gsFunction<T>::Ptr fun = memory::make_shared(gsXml<gsFunction<T> >::get(tmp->first_node("Function")));
+    GISMO_ENSURE(fun,"Thickness function is not recognised");
+    result.setThickness(*fun);
 
     tmp = node->first_node("Density");
-    gsFunctionExpr<T> density;
     bool hasDensity = tmp;
     if ( hasDensity )
     {
-        gsXml<gsFunctionExpr<T> >::get_into(tmp->first_node("Function"), density);
-        result.setDensity(density);
+        fun = memory::make_shared(gsXml<gsFunction<T> >::get(tmp->first_node("Function")));
+        GISMO_ENSURE(fun,"Density function is not recognised");
+        result.setDensity(*fun);
     }
 
     gsXmlNode * parNode = node->first_node("Parameters");
     // Read function inventory
-    gsFunctionExpr<T> fun;
     for (gsXmlNode * child = parNode->first_node("Function"); child; child =
             child->next_sibling("Function"))
     {
         const int i = atoi(child->first_attribute("index")->value());
-        gsXml<gsFunctionExpr<T> >::get_into(child, fun);
-        result.setParameter(i,fun);
+        fun = memory::make_shared(gsXml<gsFunction<T> >::get(child));
+        GISMO_ENSURE(fun,"Parameter function "<<i<<" is not recognised");
+        result.setParameter(i,*fun);
     }
     return result;
 }
-- 
2.43.0


From 5438fd2458426304f3d66a8333666a56dfe12468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:21 +0000
Subject: [PATCH 67/74] fix: tension field material read from XML owns its
 material

---
 src/gsMaterialMatrixXml.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixXml.hpp b/src/gsMaterialMatrixXml.hpp
index 58cd754..01b1cbe 100644
--- a/src/gsMaterialMatrixXml.hpp
+++ b/src/gsMaterialMatrixXml.hpp
@@ -76,9 +76,9 @@ public:
         if (TFT)
         {
             if      (   ( s == "Linear2"            ) )
-                return new gsMaterialMatrixTFT<2,T,true>(tmp);
+                return new gsMaterialMatrixTFT<2,T,true>(memory::make_shared(tmp));
             else if (   ( s == "Linear3"            ) )
-                return new gsMaterialMatrixTFT<3,T,true>(tmp);
+                return new gsMaterialMatrixTFT<3,T,true>(memory::make_shared(tmp));
             else if (   ( s == "CompressibleNH2"    ) ||
                         ( s == "IncompressibleNH2"  ) ||
                         ( s == "CompressibleNHe2"   ) ||
@@ -87,7 +87,7 @@ public:
                         ( s == "IncompressibleMR2"  ) ||
                         ( s == "CompressibleOG2"    ) ||
                         ( s == "IncompressibleOG2"  ) )
-                return new gsMaterialMatrixTFT<2,T,false>(tmp);
+                return new gsMaterialMatrixTFT<2,T,false>(memory::make_shared(tmp));
             else if (   ( s == "CompressibleNH3"    ) ||
                         ( s == "IncompressibleNH3"  ) ||
                         ( s == "CompressibleNHe3"   ) ||
@@ -96,7 +96,7 @@ public:
                         ( s == "IncompressibleMR3"  ) ||
                         ( s == "CompressibleOG3"    ) ||
                         ( s == "IncompressibleOG3"  ) )
-                return new gsMaterialMatrixTFT<3,T,false>(tmp);
+                return new gsMaterialMatrixTFT<3,T,false>(memory::make_shared(tmp));
             else
             {
                 gsWarn<<"Material matrix for TFT model not recognised\n";
-- 
2.43.0


From df484292c883ba90cd6dff0eadcd9727af2550f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:21 +0000
Subject: [PATCH 68/74] fix: material indices of a container file

---
 src/gsMaterialMatrixContainer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gsMaterialMatrixContainer.hpp b/src/gsMaterialMatrixContainer.hpp
index 17bd47a..499a236 100644
--- a/src/gsMaterialMatrixContainer.hpp
+++ b/src/gsMaterialMatrixContainer.hpp
@@ -116,8 +116,7 @@ public:
         const int size = atoi(node->first_attribute("size")->value());
 
         // Read material inventory
-        int count = countByTag("MaterialMatrix", node);
-        std::vector<typename gsMaterialMatrixBase<T>::Ptr> mat(count);
+        std::map<int,typename gsMaterialMatrixBase<T>::Ptr> mat;
         for (gsXmlNode * child = node->first_node("MaterialMatrix"); child; child =
                 child->next_sibling("MaterialMatrix"))
         {
@@ -133,8 +132,12 @@ public:
             std::istringstream group_str;
             group_str.str( child->value() );
 
+            GISMO_ENSURE(mat.count(mIndex),"Material "<<mIndex<<" is not in the container");
             for(int patch; ( gsGetInt(group_str,patch)); )
+            {
+                GISMO_ENSURE(patch>=0 && patch<size,"Patch "<<patch<<" is outside the container of size "<<size);
                 obj.set(patch,mat[mIndex]);
+            }
         }
 
     }
-- 
2.43.0


From cb69a0bac82cf03bac324a0004e024d9c3e2465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:21 +0000
Subject: [PATCH 69/74] fix: setting a parameter from a shared pointer extends
 the parameters

---
 src/gsMaterialMatrixBase.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsMaterialMatrixBase.h b/src/gsMaterialMatrixBase.h
index 78bce9b..7558e7e 100644
--- a/src/gsMaterialMatrixBase.h
+++ b/src/gsMaterialMatrixBase.h
@@ -699,6 +699,8 @@ public:
      */
     virtual void setParameter(const index_t i, const function_ptr &par)
     {
+        if ((index_t)m_pars.size() < i+1)
+            m_pars.resize(i+1);
         m_pars[i] = par;
     }
 
-- 
2.43.0


From 9eee712c0f3b69d5cb6067755234e86a03dd170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:02 +0000
Subject: [PATCH 70/74] fix: order of the principal stress transformation

The transformation used the stretch directions ordered by stretch, while the
principal stresses are ordered by value; the two orders differ at some large
strains, where the derivative of principal stress goals mixed up the components.
---
 src/gsMaterialMatrixNonlinear.h   |  3 +++
 src/gsMaterialMatrixNonlinear.hpp | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/gsMaterialMatrixNonlinear.h b/src/gsMaterialMatrixNonlinear.h
index 41d3238..3a4b422 100644
--- a/src/gsMaterialMatrixNonlinear.h
+++ b/src/gsMaterialMatrixNonlinear.h
@@ -168,6 +168,9 @@ public:
     /// See \ref gsMaterialMatrixBase for details
     gsMatrix<T> eval3D_pstressDir(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput out = MaterialOutput::Generic) const override;
 
+    /// The stretch directions, ordered as the principal stresses
+    gsMatrix<T> eval3D_pstressTransform(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z) const override;
+
     /// See \ref gsMaterialMatrixBase for details
     gsMatrix<T> eval3D_CauchyPStress(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T>& z, enum MaterialOutput out = MaterialOutput::Generic) const override;
 
diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 9316dc2..0bcacc5 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -676,6 +676,26 @@ gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressD
     return result;
 }
 
+template <short_t dim, class T, index_t matId, bool comp, enum Material mat, enum Implementation imp >
+gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_pstressTransform(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z) const
+{
+    gsMatrix<T> S = eval3D_stress(patch,u,z,MaterialOutput::Generic);
+    gsMatrix<T> result = this->eval3D_spec2cov(patch,u,z);
+    gsMatrix<T> Tmat, Sp;
+    // The larger stretch does not always come with the larger (2nd Piola-Kirchhoff) stress
+    for (index_t k=0; k!=result.cols(); k++)
+    {
+        Tmat = result.reshapeCol(k,3,3);
+        Sp = Tmat * S.col(k);
+        if (Sp(0,0) > Sp(1,0))
+        {
+            Tmat.row(0).swap(Tmat.row(1));
+            result.col(k) = Tmat.reshape(9,1);
+        }
+    }
+    return result;
+}
+
 template <short_t dim, class T, index_t matId, bool comp, enum Material mat, enum Implementation imp >
 gsMatrix<T> gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::eval3D_CauchyPStress(const index_t patch, const gsMatrix<T> & u, const gsMatrix<T> & z, enum MaterialOutput out) const
 {
-- 
2.43.0


From bb47e99ce7e9d16bf27164a5b5fc1fda50106795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:55 +0000
Subject: [PATCH 71/74] fix: status of the pressure and foundation vector
 assembly

The overloads that use the stored load reported success even if the
assembly failed.
---
 src/gsThinShellAssembler.hpp | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 2acc9e2..4b956bf 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -2272,31 +2272,13 @@ ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVe
 template<short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assemblePressureVector(const gsFunctionSet<T> & deformed)
 {
-    try
-    {
-        this->assemblePressureVector(*m_pressFun,deformed);
-        m_status = ThinShellAssemblerStatus::Success;
-    }
-    catch (...)
-    {
-        m_status = ThinShellAssemblerStatus::AssemblyError;
-    }
-    return m_status;
+    return this->assemblePressureVector(*m_pressFun,deformed);
 }
 
 template<short_t d, class T, bool bending>
 ThinShellAssemblerStatus gsThinShellAssembler<d, T, bending>::assembleFoundationVector(const gsFunctionSet<T> & deformed)
 {
-    try
-    {
-        this->assembleFoundationVector(*m_foundFun,deformed);
-        m_status = ThinShellAssemblerStatus::Success;
-    }
-    catch (...)
-    {
-        m_status = ThinShellAssemblerStatus::AssemblyError;
-    }
-    return m_status;
+    return this->assembleFoundationVector(*m_foundFun,deformed);
 }
 
 template<short_t d, class T, bool bending>
-- 
2.43.0


From 7cef42b6a7bbfa5a06e8ce51630131a8e48da0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:28 +0000
Subject: [PATCH 72/74] fix: point masses on spaces of mapped functions

---
 src/gsThinShellAssembler.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 4b956bf..524bb67 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1420,18 +1420,24 @@ void gsThinShellAssembler<d, T, bending>::_applyMass(const bool lumped)
         GISMO_ASSERT(m_pMass[i].value.size()==1,"Mass should be one-dimensional");
 
         // Compute actives and values of basis functions on point load location.
+        gsMatrix<T> massPoint;
         if ( m_pMass[i].parametric )   // in parametric space
+            massPoint = m_pMass[i].point;
+        else                            // in physical space
+            m_patches.patch(m_pMass[i].patch).invertPoints(m_pMass[i].point,massPoint);
+
+        if (const gsMappedBasis<2,T> * mbasis = dynamic_cast<const gsMappedBasis<2,T> * >(m_spaceBasis))
         {
-            m_basis.basis(m_pMass[i].patch).active_into( m_pMass[i].point, acts );
-            m_basis.basis(m_pMass[i].patch).eval_into  ( m_pMass[i].point, bVals);
+            mbasis->active_into(m_pMass[i].patch,massPoint, acts );
+            mbasis->eval_into  (m_pMass[i].patch,massPoint, bVals );
         }
-        else                            // in physical space
+        else if (const gsMultiBasis<T> * mbasis = dynamic_cast<const gsMultiBasis<T> * >(m_spaceBasis))
         {
-            gsMatrix<T> forcePoint;
-            m_patches.patch(m_pMass[i].patch).invertPoints(m_pMass[i].point,forcePoint);
-            m_basis.basis(m_pMass[i].patch).active_into( forcePoint, acts );
-            m_basis.basis(m_pMass[i].patch).eval_into  ( forcePoint, bVals);
+            mbasis->basis(m_pMass[i].patch).active_into( massPoint, acts);
+            mbasis->basis(m_pMass[i].patch).eval_into  ( massPoint, bVals);
         }
+        else
+            GISMO_ERROR("Basis type not understood");
 
         // Add the point load values in the right entries in the global RHS
         for (size_t j = 0; j< d; ++j)
-- 
2.43.0


From 88273b6c3b337e85d05cdd83b1c63e298e8c58fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:34 +0000
Subject: [PATCH 73/74] fix: mid-surface stretches of compressible materials at
 several points

---
 src/gsMaterialMatrixNonlinear.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gsMaterialMatrixNonlinear.hpp b/src/gsMaterialMatrixNonlinear.hpp
index 0bcacc5..cdb9ae8 100644
--- a/src/gsMaterialMatrixNonlinear.hpp
+++ b/src/gsMaterialMatrixNonlinear.hpp
@@ -228,8 +228,8 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_pstretch_into_impl(const i
     result.resize(3, u.cols());
     std::pair<gsVector<T>,gsMatrix<T>> res;
 
-    gsMatrix<T> zmat(1,1);
-    zmat<<0.0;
+    gsMatrix<T> zmat(1,u.cols());
+    zmat.setZero();
     gsMatrix<T> C33s = _eval3D_Compressible_C33(patch,u,zmat);
     T C33;
     gsMatrix<T,3,3> c;
@@ -276,8 +276,8 @@ gsMaterialMatrixNonlinear<dim,T,matId,comp,mat,imp>::_pstretchDir_into_impl(cons
     result.resize(9, u.cols());
     std::pair<gsVector<T>,gsMatrix<T>> res;
 
-    gsMatrix<T> zmat(1,1);
-    zmat<<0.0;
+    gsMatrix<T> zmat(1,u.cols());
+    zmat.setZero();
     gsMatrix<T> C33s = _eval3D_Compressible_C33(patch,u,zmat);
     T C33;
     gsMatrix<T,3,3> c;
-- 
2.43.0


From 192c7aa9ea11dc02a218e19b29dda023087ec354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:34 +0000
Subject: [PATCH 74/74] fix: material tangent of the mixed integration point
 method

---
 src/gsThinShellAssembler.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/gsThinShellAssembler.hpp b/src/gsThinShellAssembler.hpp
index 524bb67..845d30f 100644
--- a/src/gsThinShellAssembler.hpp
+++ b/src/gsThinShellAssembler.hpp
@@ -1911,12 +1911,17 @@ gsThinShellAssembler<d, T, bending>::assembleMatrix_impl(const gsFunctionSet<T>
     // auto S0  = m_assembler.getCoeff(m_S0);
     // auto S1  = m_assembler.getCoeff(m_S1);
 
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmAd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> m_mmBd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> m_mmCd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> m_mmDd(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0d(m_materialMatrices,&m_patches,&previous);
-    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1d(m_materialMatrices,&m_patches,&previous);
+    // Evaluating a material on the previous geometry requires a copy of it; the original one evaluates on the deformed geometry
+    gsMaterialMatrixContainer<T> prevMaterials(m_materialMatrices.size());
+    for (index_t p = 0; p!=m_materialMatrices.size(); p++)
+        prevMaterials.set(p,*m_materialMatrices.piece(p));
+
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixA> m_mmAd(prevMaterials,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixB> m_mmBd(prevMaterials,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixC> m_mmCd(prevMaterials,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::MatrixD> m_mmDd(prevMaterials,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorN> m_S0d(prevMaterials,&m_patches,&previous);
+    gsMaterialMatrixIntegrate<T,MaterialOutput::VectorM> m_S1d(prevMaterials,&m_patches,&previous);
     auto mmAp = m_assembler.getCoeff(m_mmAd);
     auto mmBp = m_assembler.getCoeff(m_mmBd);
     auto mmCp = m_assembler.getCoeff(m_mmCd);
-- 
2.43.0

