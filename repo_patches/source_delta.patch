From 2c989329041122afdbc9e0295183255140c15bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 01/33] fix: arange samples start + i*step with the requested
 step

---
 src/MathUtils/VectorGeneration.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/VectorGeneration.h b/src/MathUtils/VectorGeneration.h
index 82a220a..5999bc3 100644
--- a/src/MathUtils/VectorGeneration.h
+++ b/src/MathUtils/VectorGeneration.h
@@ -5,6 +5,8 @@
 #ifndef MATHUTILS_VECTORGENERATION_H
 #define MATHUTILS_VECTORGENERATION_H
 
+#include <cassert>
+#include <cmath>
 #include <cassert>
 #include <cmath>
 #include <vector>
@@ -46,10 +48,14 @@ namespace mathutils {
         assert (start < stop);
         assert (step > 0.);
 
-        auto num = floor((stop-start)/step);
-        auto final_stop = num * step;
+        // Number of samples start + i*step lying strictly below stop
+        auto num = (unsigned long)std::ceil((stop-start)/step);
 
-        return linspace(start, final_stop, (unsigned int)num);
+        std::vector<Real> out(num);
+        for (unsigned long i=0; i<num; ++i) {
+            out[i] = start + i*step;
+        }
+        return out;
     }
 
 
-- 
2.43.0


From 95f8db07b4141bc3426e4cd9c0b9388e588fa87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 02/33] fix: rad2deg by copy converts the output vector

---
 src/MathUtils/Unit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/Unit.h b/src/MathUtils/Unit.h
index 50f2dd9..88a6614 100644
--- a/src/MathUtils/Unit.h
+++ b/src/MathUtils/Unit.h
@@ -50,9 +50,9 @@ namespace mathutils {
   /// CONVERSION RAD->DEG by copy
   template<class T>
   // TODO : faire la meme inplace...
-  inline std::vector<T> rad2deg(const std::vector<T> &vector, std::vector<T> &out) {
+  inline void rad2deg(const std::vector<T> &vector, std::vector<T> &out) {
     out = vector;
-    rad2deg(vector);
+    return rad2deg(out);
   }
 
 
-- 
2.43.0


From e4efa28594af04528517c207603c961908973f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 03/33] fix: moving a LookupTable1D moves its interpolation
 method

---
 src/MathUtils/LookupTable1D.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable1D.h b/src/MathUtils/LookupTable1D.h
index 1837128..ba10efc 100644
--- a/src/MathUtils/LookupTable1D.h
+++ b/src/MathUtils/LookupTable1D.h
@@ -42,6 +42,7 @@ namespace mathutils {
     /// Move constructor allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D &operator=(LookupTable1D &&table) {
       if (this != &table) {
+        interp_method = table.interp_method;
         Xcoords = std::move(table.Xcoords);
         assoc = std::move(table.assoc);
         Ydata = std::move(table.Ydata);
@@ -52,7 +53,8 @@ namespace mathutils {
 
     /// Move operator allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D(LookupTable1D &&table)
-        : Xcoords(std::move(table.Xcoords)),
+        : interp_method(table.interp_method),
+          Xcoords(std::move(table.Xcoords)),
           assoc(std::move(table.assoc)),
           Ydata(std::move(table.Ydata)),
           interpolators(std::move(table.interpolators)) {};
-- 
2.43.0


From f56f9b398e60bf4a57ab8a5b48816377d48b04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 04/33] fix: a failed LookupTable2d::AddData leaves the table
 unchanged

---
 src/MathUtils/LookupTable2D.h | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index 2bc6d3a..72d5391 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -108,25 +108,23 @@ namespace mathutils {
 
         auto i = GetNbSeries();
 
-        auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name, i));
-
-        if (!res_pair.second) {
+        if (HasSerie(name)) {
             std::cout << "Data have not been added to the LUT" << std::endl;
-        } else {
-
-            auto Data_shared = std::make_shared<std::vector<Real>>(Data);
-            MData.push_back(Data_shared);
+            return false;
+        }
 
-            auto interp_ptr = Interp2d<Real>::MakeInterp2d(interp_method);
+        auto Data_shared = std::make_shared<std::vector<Real>>(Data);
 
-            interp_ptr->Initialize(Xcoords, Ycoords, Data_shared);
+        auto interp_unique = std::unique_ptr<Interp2d< Real>>(Interp2d<Real>::MakeInterp2d(interp_method));
 
-            auto interp_unique = std::unique_ptr<Interp2d< Real>>(interp_ptr);
+        // May throw: the table must not be modified before
+        interp_unique->Initialize(Xcoords, Ycoords, Data_shared);
 
-            interpolators.push_back(std::move(interp_unique));
-        }
+        MData.push_back(Data_shared);
+        interpolators.push_back(std::move(interp_unique));
+        assoc.insert(std::pair<std::string, unsigned long>(name, i));
 
-        return res_pair.second;
+        return true;
     }
 
     template <class Real>
-- 
2.43.0


From 07343946b3245ab1816bc8b287f192eeee98d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 05/33] fix: LookupTable2d evaluation at a point given as a
 vector

---
 src/MathUtils/LookupTable2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index 72d5391..6015286 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -134,7 +134,7 @@ namespace mathutils {
 
     template <class Real>
     Real LookupTable2d<Real>::Eval(const std::string name, const std::vector<Real> coord) const {
-        return interpolators.at(GetIndex(name))->Eval(coord);
+        return interpolators.at(GetIndex(name))->Eval(coord.at(0), coord.at(1));
     }
 
     template <class Real>
-- 
2.43.0


From f24c66f9cc4d2e376a0a96bb3ba1eb3063609f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 06/33] fix: re-initializing a 1D linear interpolator discards
 the previous coefficients

---
 src/MathUtils/Interp1d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index ef607cb..570f481 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -148,6 +148,8 @@ namespace mathutils {
 
     Interp1d<XReal, YScalar>::Initialize(x, y);
 
+    a.clear();
+    b.clear();
     a.reserve(this->ndata);
     b.reserve(this->ndata);
 
-- 
2.43.0


From 1e837094bb84494196da2529ff373d9b9302503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 07/33] fix: re-initializing a 2D linear interpolator discards
 the previous coefficients

---
 src/MathUtils/Interp2d.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 74fc19c..3b75c48 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -114,6 +114,10 @@ namespace mathutils {
 
         Interp2d<Real>::Initialize(x, y, data);
 
+        a1.clear();
+        a2.clear();
+        a3.clear();
+        a4.clear();
         a1.reserve(this->ndata);
         a2.reserve(this->ndata);
         a3.reserve(this->ndata);
-- 
2.43.0


From e63cff541def0b5d3ed74b155ff8a01079f9bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 08/33] fix: 1D linear extrapolation above the last abscissa

---
 src/MathUtils/Interp1d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index 570f481..a7fbf51 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -180,6 +180,7 @@ namespace mathutils {
     auto index = std::distance(this->xcoord->begin(), upper);
 
     if (index == 0) index = 1;  // Bug fix for x == xmin
+    if (index == this->ndata) index = this->ndata - 1;  // Extrapolation for x > xmax
 
     YScalar a_ = a.at(index - 1);
     YScalar b_ = b.at(index - 1);
-- 
2.43.0


From d4066eec1a8d5db26f36f1d0580162a20bffdad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 09/33] fix: changing the integration method invalidates the
 cached integral

---
 src/MathUtils/Integration1d.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index d1e8c83..dc46fa4 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -60,7 +60,10 @@ namespace mathutils {
             c_DataSource = VECTOR;
         }
 
-        void SetIntegrationMethod(INTEGRATION_METHOD method) { m_IntegrationMethod = method; }
+        void SetIntegrationMethod(INTEGRATION_METHOD method) {
+            m_IntegrationMethod = method;
+            c_Computed = false;
+        }
 
         INTEGRATION_METHOD GetIntegrationMethod() const { return m_IntegrationMethod; }
 
-- 
2.43.0


From f14ac8bde27ecf2479ebda2ca8186daae2912b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:47 +0000
Subject: [PATCH 10/33] fix: Trapz default step

---
 src/MathUtils/Integration1d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index dc46fa4..6562be2 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -152,7 +152,7 @@ namespace mathutils {
     // =================================================================================================================
 
     template <class Scalar>
-    Scalar Trapz(const std::vector<Scalar>& y, Scalar& dx=1.) { // TODO: voir a utiliser cette fonction dans la classe ci-dessus
+    Scalar Trapz(const std::vector<Scalar>& y, const Scalar& dx=1.) { // TODO: voir a utiliser cette fonction dans la classe ci-dessus
         // This is the particular case where we have a constant step size between samples
         // Simplification is worth a new implementation
 
-- 
2.43.0


From bbdaa2957d7d9591da0e3fc9e33ac62c3334e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:19 +0000
Subject: [PATCH 11/33] fix: normalized angles stay below the excluded upper
 bound

---
 src/MathUtils/Angles.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MathUtils/Angles.h b/src/MathUtils/Angles.h
index cc2af7e..c07d54e 100644
--- a/src/MathUtils/Angles.h
+++ b/src/MathUtils/Angles.h
@@ -43,6 +43,7 @@ namespace mathutils {
     Real angle = modulo360(a);
     if (angle < 0) {
       angle += 360;
+      if (angle >= 360) angle = 0;  // Rounding of a tiny negative angle
     }
     return angle;
   }
@@ -63,6 +64,7 @@ namespace mathutils {
     Real angle = modulo2pi(a);
     if (angle < 0) {
       angle += MU_2PI;
+      if (angle >= (Real) MU_2PI) angle = 0;  // Rounding of a tiny negative angle
     }
     return angle;
   }
-- 
2.43.0


From d3c9accf44611b80fd5a5915b571f89bfc23920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:19 +0000
Subject: [PATCH 12/33] fix: IsSymmetric reports whether the matrix is self
 adjoint

---
 src/MathUtils/Matrix.h   | 9 +--------
 src/MathUtils/Matrix33.h | 9 +--------
 src/MathUtils/Matrix66.h | 9 +--------
 3 files changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index eb7821f..fe37d1a 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -286,14 +286,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return IsSquare() && this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index e0a5002..d636313 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -279,14 +279,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 23f2b91..cee0ea8 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -272,14 +272,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
-- 
2.43.0


From 067c35c4c3acb76c19b516b9ce3fe4461b3adf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:19 +0000
Subject: [PATCH 13/33] fix: IsOrthogonal can be used on matrices

---
 src/MathUtils/Matrix.h   | 2 +-
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index fe37d1a..e6ae19b 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -306,7 +306,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return IsSquare() && this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index d636313..9c2e50a 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -294,7 +294,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index cee0ea8..a2257df 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -287,7 +287,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return this->isUnitary();
     }
 
     template <class Scalar>
-- 
2.43.0


From 6d3491a34fbae3114f2bae5166d05138620c4494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:19 +0000
Subject: [PATCH 14/33] fix: define the const element accessor of Matrix66

---
 src/MathUtils/Matrix66.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index a2257df..d3ede21 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -197,6 +197,11 @@ namespace mathutils {
     // =================================================================================================================
     // =================================================================================================================
 
+    template <class Scalar>
+    inline Scalar Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) const {
+        return this->operator()(irow, icol);
+    }
+
     template <class Scalar>
     inline Scalar& Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) {
         return this->operator()(irow, icol);
-- 
2.43.0


From 77f409eed3700181776502103cddf44554f4a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:19 +0000
Subject: [PATCH 15/33] fix: SVD and pseudo-inverse of fixed size matrices

---
 src/MathUtils/Matrix33.h | 14 +++++++-------
 src/MathUtils/Matrix66.h | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 9c2e50a..3f9d8bc 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -94,7 +94,7 @@ namespace mathutils {
 
         void GetCholeskyDecomposition(Matrix33<Scalar>& L) const;
 
-        void GetSVDDecomposition(Matrix33<Scalar>& U, Matrix33<Scalar>& S, Matrix33<Scalar>& V) const;
+        void GetSVDDecomposition(Matrix33<Scalar>& U, Eigen::Matrix<Scalar, 3, 1>& S, Matrix33<Scalar>& V) const;
 
         // =====================================================================
         // Various matrix inverse methods
@@ -372,19 +372,18 @@ namespace mathutils {
     }
 
     template <class Scalar>
-    void Matrix33<Scalar>::GetSVDDecomposition(Matrix33<Scalar>& U, Matrix33<Scalar>& S, Matrix33<Scalar>& V) const {
+    void Matrix33<Scalar>::GetSVDDecomposition(Matrix33<Scalar>& U, Eigen::Matrix<Scalar, 3, 1>& S, Matrix33<Scalar>& V) const {
 
-        auto SVD = this->jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
+        auto SVD = this->jacobiSvd(Eigen::ComputeFullU | Eigen::ComputeFullV);
 
-        Eigen::Matrix<Scalar, 3, 3> Utmp, Stmp, Vtmp;
+        Eigen::Matrix<Scalar, 3, 3> Utmp, Vtmp;
 
         // U
         Utmp = SVD.matrixU();
         U = (Matrix33<Scalar>)(Utmp);
 
         // S
-        Stmp = SVD.singularValues();
-        S = (Matrix33<Scalar>)(Stmp);
+        S = SVD.singularValues();
 
         // V
         Vtmp = SVD.matrixV();
@@ -395,7 +394,8 @@ namespace mathutils {
     Matrix33<Scalar> Matrix33<Scalar>::GetPseudoInverse(const Scalar tol) const {
 
         // SVD decomposition
-        Matrix33<Scalar> U, S, V;
+        Matrix33<Scalar> U, V;
+        Eigen::Matrix<Scalar, 3, 1> S;
         GetSVDDecomposition(U, S, V);
 
         for (unsigned int i=0; i < S.rows(); ++i) {
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index d3ede21..4460704 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -92,7 +92,7 @@ namespace mathutils {
 
         void GetCholeskyDecomposition(Matrix66<Scalar>& L) const;
 
-        void GetSVDDecomposition(Matrix66<Scalar>& U, Matrix66<Scalar>& S, Matrix66<Scalar>& V) const;
+        void GetSVDDecomposition(Matrix66<Scalar>& U, Eigen::Matrix<Scalar, 6, 1>& S, Matrix66<Scalar>& V) const;
 
         // =====================================================================
         // Various matrix inverse methods
@@ -370,19 +370,18 @@ namespace mathutils {
     }
 
     template <class Scalar>
-    void Matrix66<Scalar>::GetSVDDecomposition(Matrix66<Scalar>& U, Matrix66<Scalar>& S, Matrix66<Scalar>& V) const {
+    void Matrix66<Scalar>::GetSVDDecomposition(Matrix66<Scalar>& U, Eigen::Matrix<Scalar, 6, 1>& S, Matrix66<Scalar>& V) const {
 
-        auto SVD = this->jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
+        auto SVD = this->jacobiSvd(Eigen::ComputeFullU | Eigen::ComputeFullV);
 
-        Eigen::Matrix<Scalar, 6, 6> Utmp, Stmp, Vtmp;
+        Eigen::Matrix<Scalar, 6, 6> Utmp, Vtmp;
 
         // U
         Utmp = SVD.matrixU();
         U = (Matrix66<Scalar>)(Utmp);
 
         // S
-        Stmp = SVD.singularValues();
-        S = (Matrix66<Scalar>)(Stmp);
+        S = SVD.singularValues();
 
         // V
         Vtmp = SVD.matrixV();
@@ -393,7 +392,8 @@ namespace mathutils {
     Matrix66<Scalar> Matrix66<Scalar>::GetPseudoInverse(const Scalar tol) const {
 
         // SVD decomposition
-        Matrix66<Scalar> U, S, V;
+        Matrix66<Scalar> U, V;
+        Eigen::Matrix<Scalar, 6, 1> S;
         GetSVDDecomposition(U, S, V);
 
         for (unsigned int i=0; i < S.rows(); ++i) {
-- 
2.43.0


From 64f047b4e33483ee3d83ff1ac7dcb16493775292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:19 +0000
Subject: [PATCH 16/33] fix: least square solver of fixed size matrices

---
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 3f9d8bc..8ac9139 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -145,7 +145,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 4460704..66dce7e 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -143,7 +143,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
-- 
2.43.0


From 472fd0d41e7e9e70f92a4603d506d735fae91165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:19 +0000
Subject: [PATCH 17/33] fix: eigenvalues of fixed size matrices

---
 src/MathUtils/Matrix33.h | 6 +++---
 src/MathUtils/Matrix66.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 8ac9139..cd89c8c 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -156,7 +156,7 @@ namespace mathutils {
       // =====================================================================
 
       // This method computes the eigenvalues only.
-      Matrix33<std::complex<double>> Eigenvalues() const;
+      Eigen::Matrix<std::complex<double>, 3, 1> Eigenvalues() const;
 
     };
 
@@ -411,7 +411,7 @@ namespace mathutils {
 
 
     template <class Scalar>
-    Matrix33<std::complex<double>> Matrix33<Scalar>::Eigenvalues() const{
+    Eigen::Matrix<std::complex<double>, 3, 1> Matrix33<Scalar>::Eigenvalues() const{
 
       // This method computes the eigenvalues only.
 
@@ -421,7 +421,7 @@ namespace mathutils {
       // Object to computing eigenvalues and eigenvectors.
       Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
 
-      return Matrix33<std::complex<double>>(es.eigenvalues());
+      return es.eigenvalues();
 
     }
 
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 66dce7e..172398f 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -154,7 +154,7 @@ namespace mathutils {
       // =====================================================================
 
       // This method computes the eigenvalues only.
-      Matrix66<std::complex<double>> Eigenvalues() const;
+      Eigen::Matrix<std::complex<double>, 6, 1> Eigenvalues() const;
 
     };
 
@@ -409,7 +409,7 @@ namespace mathutils {
 
 
   template <class Scalar>
-  Matrix66<std::complex<double>> Matrix66<Scalar>::Eigenvalues() const{
+  Eigen::Matrix<std::complex<double>, 6, 1> Matrix66<Scalar>::Eigenvalues() const{
 
     // This method computes the eigenvalues only.
 
@@ -419,7 +419,7 @@ namespace mathutils {
     // Object to computing eigenvalues and eigenvectors.
     Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
 
-    return Matrix66<std::complex<double>>(es.eigenvalues());
+    return es.eigenvalues();
 
   }
 
-- 
2.43.0


From 4250b157ee7072f11b630a01e8ad1eead10180aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:15 +0000
Subject: [PATCH 18/33] fix: Vector2d::infNorm is the maximum absolute
 component

---
 src/MathUtils/Vector2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Vector2d.h b/src/MathUtils/Vector2d.h
index 0cfec94..21903f8 100644
--- a/src/MathUtils/Vector2d.h
+++ b/src/MathUtils/Vector2d.h
@@ -220,7 +220,7 @@ namespace mathutils {
 
     template <class Scalar>
     Scalar Vector2d<Scalar>::infNorm() const {
-        return this->Eigen::Matrix<Scalar, 2, 1>::maxCoeff();
+        return this->Eigen::Matrix<Scalar, 2, 1>::template lpNorm<Eigen::Infinity>();
     }
 
     template <class Scalar>
-- 
2.43.0


From a552b691a984fe5ac4d9372edd88e69f0c0550ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:15 +0000
Subject: [PATCH 19/33] fix: y-derivative of the triple power series for a
 predefined z

---
 src/MathUtils/PowerSeries3d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/PowerSeries3d.h b/src/MathUtils/PowerSeries3d.h
index d085734..c7ac335 100644
--- a/src/MathUtils/PowerSeries3d.h
+++ b/src/MathUtils/PowerSeries3d.h
@@ -436,7 +436,7 @@ namespace mathutils {
       double xunit = AffineTransformationSegmentToUnit_x(x);
       double yunit = AffineTransformationSegmentToUnit_y(y);
 
-      return Evaluate_derivative_y_unit_zunit_predefined(x, xunit, yunit, cij);
+      return Evaluate_derivative_y_unit_zunit_predefined(y, xunit, yunit, cij);
 
     }
 
-- 
2.43.0


From 0958e7b97d0266ae6d9f277ab4e8a0e87388318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:15 +0000
Subject: [PATCH 20/33] fix: recomputing Chebyshev coefficients does not
 accumulate onto the previous ones

---
 src/MathUtils/ChebyshevSeries1d.h | 1 +
 src/MathUtils/ChebyshevSeries2d.h | 1 +
 src/MathUtils/ChebyshevSeries3d.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 845bac6..a750306 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -57,6 +57,7 @@ namespace mathutils {
       // aij.
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
       for (int i = 0; i <= m_order_x; ++i) {
+        m_ai(i) = T(0.);
         for (int r = 0; r <= m_order_x; ++r) {
           double Ti = Chebyshev_polynomial(i, x_tilde.at(r));
           m_ai(i) += this->m_function->Evaluate(x.at(r)) * Ti;
diff --git a/src/MathUtils/ChebyshevSeries2d.h b/src/MathUtils/ChebyshevSeries2d.h
index eb3b21a..51e1fe2 100644
--- a/src/MathUtils/ChebyshevSeries2d.h
+++ b/src/MathUtils/ChebyshevSeries2d.h
@@ -70,6 +70,7 @@ namespace mathutils {
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
+          m_aij(i, j) = T(0.);
           for (int r = 0; r <= m_order_x; ++r) {
             double Ti = Chebyshev_polynomial(i, x_tilde.at(r));
             for (int s = 0; s <= m_order_y; ++s) {
diff --git a/src/MathUtils/ChebyshevSeries3d.h b/src/MathUtils/ChebyshevSeries3d.h
index 3369ba8..7d71c8e 100644
--- a/src/MathUtils/ChebyshevSeries3d.h
+++ b/src/MathUtils/ChebyshevSeries3d.h
@@ -83,6 +83,7 @@ namespace mathutils {
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
           for (int k = 0; k <= m_order_z; ++k) {
+            m_aijk.at(k)(i, j) = T(0.);
             for (int r = 0; r <= m_order_x; ++r) {
               double xtilde = x_tilde.at(r);
               double Ti = Chebyshev_polynomial(i, xtilde);
-- 
2.43.0


From 8d06df802517c3a057e06f48f5f64a82073bcb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:15 +0000
Subject: [PATCH 21/33] fix: Euler angles of a quaternion stay finite at +/- 90
 deg pitch

---
 src/MathUtils/Geometry.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Geometry.h b/src/MathUtils/Geometry.h
index 1ad4906..fe3141e 100644
--- a/src/MathUtils/Geometry.h
+++ b/src/MathUtils/Geometry.h
@@ -15,7 +15,11 @@ namespace mathutils {
     euler_angles(0) = atan2(
         2.0 * q.w() * q.x() + 2.0 * q.y() * q.z(),
         q.w() * q.w() - q.x() * q.x() - q.y() * q.y() + q.z() * q.z());
-    euler_angles(1) = -asin(2.0 * q.x() * q.z() - 2.0 * q.w() * q.y());
+    double sin_pitch = 2.0 * q.w() * q.y() - 2.0 * q.x() * q.z();
+    // Rounding may lead slightly outside [-1, 1] when the pitch is +/- 90 deg
+    if (sin_pitch > 1.0) sin_pitch = 1.0;
+    if (sin_pitch < -1.0) sin_pitch = -1.0;
+    euler_angles(1) = asin(sin_pitch);
     euler_angles(2) = atan2(
         2.0 * q.w() * q.z() + 2.0 * q.x() * q.y(),
         q.w() * q.w() + q.x() * q.x() - q.y() * q.y() - q.z() * q.z());
-- 
2.43.0


From 01dee8b9ef5a2411da1c577a93e24de028cc36bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:15 +0000
Subject: [PATCH 22/33] fix: RegularGridNearest::GetData returns the value of
 the nearest node

---
 src/MathUtils/RegularGridNearest.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 2bab210..eeb3098 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -179,7 +179,7 @@ namespace mathutils {
   template<typename Data_t, size_t _dim, typename Coord_t>
   Data_t
   RegularGridNearest<Data_t, _dim, Coord_t>::GetData(const std::array<Coord_t, _dim> &point) const {
-
+    return Nearest(point).val();
   }
 
 
-- 
2.43.0


From d885461ed1a378e95ba59e3ef2e93b1cf3800a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:15 +0000
Subject: [PATCH 23/33] fix: surrounding nodes of a point below the grid are on
 its lower side

---
 src/MathUtils/RegularGridNearest.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index eeb3098..e21cd5f 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -81,9 +81,9 @@ namespace mathutils {
     bool IsValid() const;
 
    private:
-    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<size_t, _dim> &cell_index, unsigned int v) const;
+    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<int, _dim> &cell_index, unsigned int v) const;
 
-    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<size_t, _dim> &cell_index,
+    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<int, _dim> &cell_index,
                                             const std::array<size_t, _dim> &v_index) const;
 
    private:
@@ -234,12 +234,12 @@ namespace mathutils {
     nodes.reserve(1 << _dim);
 
     // Get the cell origin lower indices
-    std::array<size_t, _dim> indices;
+    std::array<int, _dim> indices;
 
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       auto xi = point[dim];
 
-      unsigned int icell;
+      int icell;
 
       // Looking for the cell in which the xi point lies
       const auto &coord = m_grid_list[dim];
@@ -271,7 +271,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   GridNode<Data_t, _dim, Coord_t>
-  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<size_t, _dim> &cell_index, unsigned int v) const {
+  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<int, _dim> &cell_index, unsigned int v) const {
     std::array<size_t, _dim> v_index;
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       v_index[dim] = (v >> (_dim - dim - 1)) & 1;  // test if the i-th bit is set
@@ -281,7 +281,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   GridNode<Data_t, _dim, Coord_t>
-  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<size_t, _dim> &cell_index,
+  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<int, _dim> &cell_index,
                                                      const std::array<size_t, _dim> &v_index) const {
 
     std::array<size_t, _dim> indices;
@@ -292,7 +292,7 @@ namespace mathutils {
 
       if (cell_index[i] < 0) {
         indices[i] = 0;
-      } else if (cell_index[i] >= coord.size() - 1) {
+      } else if (cell_index[i] >= (int) coord.size() - 1) {
         indices[i] = m_grid_list[i].size() - 1;
       } else {
         indices[i] = cell_index[i] + v_index[i];
-- 
2.43.0


From 4e781979b2c2e6c4c0defa05892fc8cf6e216dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:15 +0000
Subject: [PATCH 24/33] fix: copying a RegularGridInterpolator which is not
 populated yet

---
 src/MathUtils/RegularGridInterpolator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 9635b18..270cb81 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -118,7 +118,11 @@ RegularGridInterpolator<Real, _dim>::operator=(const RegularGridInterpolator &ot
   m_data.resize(ex);
   m_data = other.m_data;
 
-  _BuildInterpolator();
+  if (other.IsValid()) {
+    _BuildInterpolator();
+  } else {
+    c_interpolator.reset();
+  }
   return *this;
 }
 
-- 
2.43.0


From 962b4cde442b2703cdbd684a5af3ab90559873b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:15 +0000
Subject: [PATCH 25/33] fix: RegularGridInterpolator rejects a variable whose
 shape does not match the grid, without altering the current one

---
 src/MathUtils/RegularGridInterpolator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 270cb81..a37ce21 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -156,6 +156,11 @@ void RegularGridInterpolator<Real, _dim>::AddVar(const NDArray &ndarray) {
   std::vector<size_t> ex;
   const size_t *shape = ndarray.shape();
   ex.assign(shape, shape + ndarray.num_dimensions());
+  for (size_t dim = 0; dim < _dim; ++dim) {
+    if (ex[dim] != m_grid_list[dim].size()) {
+      throw std::invalid_argument("RegularGridInterpolator: the shape of the variable does not match the grid");
+    }
+  }
   m_data.resize(ex);
   m_data = ndarray;
 
-- 
2.43.0


From 1504adaa3020597f30af690911a0d46e6f3f70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:06 +0000
Subject: [PATCH 26/33] fix: interpolators are destroyed through a virtual
 destructor

---
 src/MathUtils/Interp1d.h | 2 ++
 src/MathUtils/Interp2d.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index a7fbf51..e80bc24 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -28,6 +28,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Interp1d() = default;
+
     YScalar Eval(XReal x) const {return PrivEval(x);};
 
     std::vector<YScalar> Eval(const std::vector<XReal> &xvector) const {
diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 3b75c48..8478e5a 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -28,7 +28,7 @@ namespace mathutils {
 
     public:
 //        Interp2d() {};
-//        ~Interp2d() {};
+        virtual ~Interp2d() = default;
 
         virtual void Initialize(std::shared_ptr<const std::vector<Real>> x,
                                 std::shared_ptr<const std::vector<Real>> y,
-- 
2.43.0


From d660aee4eb83f0f7bdd06758e2d840e829e12b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:28 +0000
Subject: [PATCH 27/33] fix: Euler angles at gimbal lock describe the
 orientation they are computed from

---
 src/MathUtils/Geometry.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/MathUtils/Geometry.h b/src/MathUtils/Geometry.h
index fe3141e..f3cbb91 100644
--- a/src/MathUtils/Geometry.h
+++ b/src/MathUtils/Geometry.h
@@ -23,6 +23,14 @@ namespace mathutils {
     euler_angles(2) = atan2(
         2.0 * q.w() * q.z() + 2.0 * q.x() * q.y(),
         q.w() * q.w() + q.x() * q.x() - q.y() * q.y() - q.z() * q.z());
+    // Gimbal lock: only the combination of roll and yaw is defined, yaw is set to 0
+    double cos_pitch = hypot(2.0 * q.w() * q.x() + 2.0 * q.y() * q.z(),
+                             q.w() * q.w() - q.x() * q.x() - q.y() * q.y() + q.z() * q.z());
+    if (cos_pitch < 1e-8) {
+      double half_roll = atan2(q.x(), q.w());
+      euler_angles(0) = atan2(sin(2.0 * half_roll), cos(2.0 * half_roll));
+      euler_angles(2) = 0.;
+    }
     return euler_angles;
   }
 
@@ -47,6 +55,11 @@ namespace mathutils {
     euler_angles(1) = -atan2(R(2, 0),
                              sqrt(pow(R(2, 1), 2.0) + pow(R(2, 2), 2.0)));
     euler_angles(2) = atan2(R(1, 0), R(0, 0));
+    // Gimbal lock: only the combination of roll and yaw is defined, yaw is set to 0
+    if (hypot(R(2, 1), R(2, 2)) < 1e-8) {
+      euler_angles(0) = R(2, 0) < 0. ? atan2(R(0, 1), R(1, 1)) : atan2(-R(0, 1), R(1, 1));
+      euler_angles(2) = 0.;
+    }
     return euler_angles;
   }
 
-- 
2.43.0


From a68d776e010538eb70bf7e4bd9f2bafa3ede5677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:09 +0000
Subject: [PATCH 28/33] fix: Saturate does not round integers through double

---
 src/MathUtils/Maths.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Maths.h b/src/MathUtils/Maths.h
index d14ae07..0747899 100644
--- a/src/MathUtils/Maths.h
+++ b/src/MathUtils/Maths.h
@@ -14,7 +14,7 @@ namespace mathutils {
 
     template <class Scalar>
     inline Scalar Saturate(Scalar val, Scalar valMin, Scalar valMax) {
-        double valout = (val > valMax) ?  valMax : val;
+        Scalar valout = (val > valMax) ?  valMax : val;
         valout  = (valout<valMin) ? valMin : valout;
         return valout;
     }
-- 
2.43.0


From 3a2086d51c9e8a8afca2c8958b5fcd4881393a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:09 +0000
Subject: [PATCH 29/33] fix: derivatives of the first-kind Bessel functions are
 finite at zero

---
 src/MathUtils/BoostFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 98406a8..dd9ffee 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -31,7 +31,7 @@ namespace mathutils {
     if(order == 0) {
       return -boost::math::cyl_bessel_j(1, x); // J0' = -J1.
     } else {
-      return boost::math::cyl_bessel_j(order - 1, x) - (order / x) * boost::math::cyl_bessel_j(order, x);
+      return 0.5 * (boost::math::cyl_bessel_j(order - 1, x) - boost::math::cyl_bessel_j(order + 1, x)); // Also holds at x = 0.
     }
   }
 
@@ -63,7 +63,7 @@ namespace mathutils {
     if(order == 0) {
       return boost::math::cyl_bessel_i(1, x); // I0' = I1.
     } else {
-      return boost::math::cyl_bessel_i(order - 1, x) - (order / x) * boost::math::cyl_bessel_i(order, x);
+      return 0.5 * (boost::math::cyl_bessel_i(order - 1, x) + boost::math::cyl_bessel_i(order + 1, x)); // Also holds at x = 0.
     }
   }
 
-- 
2.43.0


From 2a90c0b5299ae2df364b1f0004b4001f7a1ac0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:36 +0000
Subject: [PATCH 30/33] fix: Ei_approximation uses the published coefficient on
 [6, 12)

---
 src/MathUtils/BoostFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index dd9ffee..f3b3ba1 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -289,7 +289,7 @@ namespace mathutils {
                                     1.052976392459015155422e1,
                                     -2.421106956980653511550e1,
                                     -2.378372882815725244124e0,
-                                    -2.645977793077147237806e0};
+                                    -2.645677793077147237806e0};
       std::vector<double> betaj = {1.249884822712447891440e0,
                                    -2.369210235636181001661e2,
                                    4.731097187816050252967e2,
-- 
2.43.0


From a1e0fd609a4b6a2e95af7e2584fb1bb3de4d5cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:36 +0000
Subject: [PATCH 31/33] fix: E1_approximation uses the published coefficients
 on [1, 4) and [4, inf)

---
 src/MathUtils/BoostFunctions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index f3b3ba1..7247653 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -484,11 +484,11 @@ namespace mathutils {
       std::vector<double> pj = {1.737331760720576030932e-8,
                                 9.999989642347613068437e-1,
                                 1.487967702840464066613e1,
-                                7.633628873405946890896e1,
+                                7.633628843705946890896e1,
                                 1.698106763764238382705e2,
                                 1.700632978311516129328e2,
                                 7.246689782858597021199e1,
-                                1.10732662778631743809e1,
+                                1.107326627786831743809e1,
                                 3.828573121022477169108e-1};
       std::vector<double> qj = {1.000000000000000000000e0,
                                 1.587964570758947927903e1,
@@ -530,11 +530,11 @@ namespace mathutils {
                                 5.4199632588522559414924e1,
                                 1.1635769915320848035459e3,
                                 1.2842808586627297365998e4,
-                                7.9231787645279043698718e4,
+                                7.9231787945279043698718e4,
                                 2.7858134710520842139357e5,
                                 5.4616842050691155735758e5,
                                 5.5903756210022864003380e5,
-                                5.5989762083608489777411e5,
+                                2.5989762083608489777411e5,
                                 3.9147856245556345627078e4};
       assert (pj.size() == qj.size());
 
-- 
2.43.0


From 16847714e9a90ca1abb5087b3c57684671308067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:16 +0000
Subject: [PATCH 32/33] fix: transporting a vector at a point stored in the
 same object

---
 src/MathUtils/Vector2d.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/MathUtils/Vector2d.h b/src/MathUtils/Vector2d.h
index 21903f8..4ff9590 100644
--- a/src/MathUtils/Vector2d.h
+++ b/src/MathUtils/Vector2d.h
@@ -226,8 +226,9 @@ namespace mathutils {
     template <class Scalar>
     inline void Vector2d<Scalar>::TransportAtPoint(Vector2d<Scalar>& out, const Vector2d<Scalar>& point,
                                                    Scalar pw, FREQUENCY_UNIT funit) const {
-        out = *this;
-        out.TransportAtPoint(point, pw, funit);
+        Vector2d<Scalar> transported(*this);
+        transported.TransportAtPoint(point, pw, funit);
+        out = transported;  // out may be point
     }
 
     template <class Scalar>
@@ -238,8 +239,10 @@ namespace mathutils {
             w = convert_frequency(w, funit, RADS);
         }
 
-        at(0) = at(0) - point[1] * w;
-        at(1) = at(1) + point[0] * w;
+        const Scalar vx = point[1] * w;  // point may be this vector
+        const Scalar vy = point[0] * w;
+        at(0) = at(0) - vx;
+        at(1) = at(1) + vy;
     }
 
     template <class Scalar>
-- 
2.43.0


From 277a3d044dec4b32480b6e0cf1b5a28632af9748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:30 +0000
Subject: [PATCH 33/33] fix: number of values of discontinuous interpolators in
 several dimensions

---
 src/MathUtils/thirdparty/linterp.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/MathUtils/thirdparty/linterp.h b/src/MathUtils/thirdparty/linterp.h
index 2145eec..cf737ab 100644
--- a/src/MathUtils/thirdparty/linterp.h
+++ b/src/MathUtils/thirdparty/linterp.h
@@ -152,16 +152,14 @@ class NDInterpolator {
     array<int, N> sizes;
     for (unsigned int i = 0; i < m_grid_list.size(); i++) {
       sizes[i] = m_grid_list[i].size();
+      if (!m_bContinuous) { sizes[i] *= 2; }    // left and right limits in each dimension
       nGridPoints *= sizes[i];
     }
 
     int f_len = f_end - f_begin;
-    if ((m_bContinuous && f_len != nGridPoints) || (!m_bContinuous && f_len != 2 * nGridPoints)) {
+    if (f_len != nGridPoints) {
       throw std::invalid_argument("f has wrong size");
     }
-    for (unsigned int i = 0; i < m_grid_list.size(); i++) {
-      if (!m_bContinuous) { sizes[i] *= 2; }
-    }
 
     m_F_copy.clear();
     if (bCopy == false) {
-- 
2.43.0

