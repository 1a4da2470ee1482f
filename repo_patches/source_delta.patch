From b8c6a1bc379591c22af2dfc849290493338f5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 01/28] fix: parallel transport in 3d cells must use the unit
 vector of the cell centre

---
 src/Cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index 90f9aad..e09afe0 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -294,7 +294,7 @@ std::complex<double> ParallelTransportSum(
         // the initial bit where we calculate A,B.  (We don't call that function directly,
         // because there is a slight efficiency gain that sinA = sinB, which we use here.)
         Position<Sphere> pi(vdata_g->getPos());
-        double z1 = center.getZ();
+        double z1 = cen.getZ();
         double z2 = pi.getZ();
         double dsq = (cen - pi).normSq();
         if (dsq < 1.e-12) {
-- 
2.43.0


From 3a8af718a7653df74f30878b70ccd29be078ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 02/28] fix: project all three values in ProjectX with 3d
 coordinates

---
 include/ProjectHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ProjectHelper.h b/include/ProjectHelper.h
index 338e635..e8bba5c 100644
--- a/include/ProjectHelper.h
+++ b/include/ProjectHelper.h
@@ -422,7 +422,7 @@ struct ProjectHelper<ThreeD>
         Position<Sphere> p2(c2.getPos());
         Position<Sphere> p3(c3.getPos());
         // Use the Sphere implementation with these positions.
-        ProjectHelper<Sphere>::ProjectX<D>(p1,p2,p3,z1,z3,z3);
+        ProjectHelper<Sphere>::ProjectX<D>(p1,p2,p3,z1,z2,z3);
     }
 
     static std::complex<double> ExpIPhi(
-- 
2.43.0


From 64e5d045a4728bbcdf8574e3b75405e35daa3de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 03/28] fix: the reversed pair contributes the conjugate to xi+
 (TwoD auto-correlations)

---
 src/Corr2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index ccebc52..7dde5e1 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -496,7 +496,7 @@ struct DirectHelper2<3,ZData,ZData>
 
         if (R) {
             xi.xip[k2] += z1z2cr;
-            xi.xip_im[k2] += z1z2ci;
+            xi.xip_im[k2] -= z1z2ci;  // (2,1) is the complex conjugate of (1,2)
             xi.xim[k2] += z1z2r;
             xi.xim_im[k2] += z1z2i;
         }
@@ -551,7 +551,7 @@ struct DirectHelper2<5,D1,D2>
 
         if (R) {
             xi.xip[k2] += g1g2cr;
-            xi.xip_im[k2] += g1g2ci;
+            xi.xip_im[k2] -= g1g2ci;  // (2,1) is the complex conjugate of (1,2)
             xi.xim[k2] += g1g2r;
             xi.xim_im[k2] += g1g2i;
         }
-- 
2.43.0


From cf444e742a7d654559cbe09db54adf9a3b0db592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 04/28] fix: Linear bins: a cell pair reaching exactly the
 upper bin edge is not a single bin

---
 include/BinType.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/BinType.h b/include/BinType.h
index 9a480e1..7083b0c 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -236,7 +236,8 @@ struct BinTypeHelper<Linear>
         xdbg<<"f = "<<f<<std::endl;
         xdbg<<"s1ps2 > "<<f*binsize + b<<std::endl;
 
-        if (s1ps2 > f*binsize + b) return false;
+        // Note: exactly equal is also not ok, since the upper edge belongs to the next bin.
+        if (s1ps2 >= f*binsize + b) return false;
 
         XAssert(int( (r - s1ps2 - minsep + b) / binsize ) == ik);
         XAssert(int( (r + s1ps2 - minsep - b) / binsize ) == ik);
-- 
2.43.0


From b7f911b82aa4759f58f15a5018b5a74374cca588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 05/28] fix: auto-correlations keep pairs separated by exactly
 min_sep

---
 src/Corr2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 7dde5e1..0e014ce 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -280,7 +280,8 @@ template <int B, int M, int P, int C>
 void BaseCorr2::process2(const BaseCell<C>& c12, const MetricHelper<M,P>& metric)
 {
     if (c12.getW() == 0.) return;
-    if (c12.getSize() <= _halfminsep) return;
+    // Pairs at exactly minsep are included, so only stop if the size is strictly smaller.
+    if (!c12.getLeft() || c12.getSize() < _halfminsep) return;
 
     Assert(c12.getLeft());
     Assert(c12.getRight());
-- 
2.43.0


From ff823fa907ada1eca97d0f60e5ca9cd675aef309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 06/28] fix: TwoD bins cut by the min_sep circle must not be
 filled as a single bin

---
 include/BinType.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/BinType.h b/include/BinType.h
index 7083b0c..d39737c 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -367,6 +367,11 @@ struct BinTypeHelper<TwoD>
         if (jj - s1ps2/binsize < j) return false;
         if (jj + s1ps2/binsize >= j+1) return false;
 
+        // Finally, the inner part of this bin might be excluded by minsep.  So also make sure
+        // that either all or none of the pairs have separations >= minsep.
+        if (minsep > 0. && rsq < SQR(minsep + s1ps2) &&
+            (s1ps2 >= minsep || rsq >= SQR(minsep - s1ps2))) return false;
+
         int n = int(2*maxsep / binsize+0.5);
         k = j*n + i;
         logr = 0.5*std::log(rsq);
-- 
2.43.0


From 8d8d65a3b75259c5af4711852cde6ea407a8f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 07/28] fix: Arc metric: cell sizes are converted to angles,
 and 3d separations beyond 90 degrees are right

---
 include/Metric.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 95bdea6..46c7973 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -602,7 +602,16 @@ struct MetricHelper<Arc, P>
 
     double DistSq(const Position<Sphere>& p1, const Position<Sphere>& p2,
                   double& s1, double& s2) const
-    { return SQR(Dist(p1,p2)); }
+    {
+        double dsq = SQR(Dist(p1,p2));
+        // The sizes are chord lengths, so convert these to arc lengths too.
+        s1 = chordToArc(s1);
+        s2 = chordToArc(s2);
+        return dsq;
+    }
+
+    static double chordToArc(double s)
+    { return s == 0. ? 0. : 2. * std::asin(std::min(0.5*s,1.)); }
 
     double Dist(const Position<Sphere>& p1, const Position<Sphere>& p2) const
     {
@@ -639,19 +648,26 @@ struct MetricHelper<Arc, P>
     {
         double dsq = SQR(Dist(p1,p2));
         // Also the sizes need to be converted to the effective size on the unit sphere
-        s1 /= p1.norm();
-        s2 /= p2.norm();
+        // The largest angle subtended by a ball of radius s at distance r is asin(s/r).
+        s1 = effectiveSize(s1, p1.norm());
+        s2 = effectiveSize(s2, p2.norm());
         return dsq;
     }
 
     double Dist(const Position<ThreeD>& p1, const Position<ThreeD>& p2) const
     {
         // sin(theta) = |p1 x p2| / |p1| |p2|
-        double sintheta = p1.cross(p2).norm() / (p1.norm() * p2.norm());
-        double theta = std::asin(sintheta);
+        // cos(theta) = p1 . p2 / |p1| |p2|
+        double theta = std::atan2(p1.cross(p2).norm(), p1.dot(p2));
         return theta;
     }
 
+    static double effectiveSize(double s, double r)
+    {
+        const double PI = 3.141592653589793;
+        return s == 0. ? 0. : s < r ? std::asin(s/r) : PI;
+    }
+
     // This is the same as Euclidean
     bool CCW(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
              const Position<ThreeD>& p3) const
-- 
2.43.0


From d5a1291309c37773b8339e0bf95695f4deddabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 08/28] fix: Arc auto-correlations compare cell sizes to
 min_sep as angles

---
 src/Corr2.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 0e014ce..fd1018b 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -281,7 +281,11 @@ void BaseCorr2::process2(const BaseCell<C>& c12, const MetricHelper<M,P>& metric
 {
     if (c12.getW() == 0.) return;
     // Pairs at exactly minsep are included, so only stop if the size is strictly smaller.
-    if (!c12.getLeft() || c12.getSize() < _halfminsep) return;
+    if (!c12.getLeft()) return;
+    double s12 = c12.getSize();
+    // For Arc, minsep is an angle, so the size needs to be an angle too.
+    if (M == Arc) { double s = 0.; metric.DistSq(c12.getPos(), c12.getPos(), s12, s); }
+    if (s12 < _halfminsep) return;
 
     Assert(c12.getLeft());
     Assert(c12.getRight());
-- 
2.43.0


From 41352d74b98e93c1e690c46f84bb0daded92243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 09/28] fix: covariance rows with unpatched randoms depended on
 the patch numbering

A row whose pairs all happened to have patch 0 first (sample: patch 0,
bootstrap: repeated 0) was taken for a correlation with a single first
patch, so the randoms term was summed over different patches than in the
other rows.
---
 treecorr/nkcorrelation.py  | 2 +-
 treecorr/nncorrelation.py  | 2 +-
 treecorr/nnncorrelation.py | 2 +-
 treecorr/nzcorrelation.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 37378e1..e26cc11 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -250,7 +250,7 @@ class NKCorrelation(Corr2):
         self._finalize()
         if self._rk is not None:
             # If rk has npatch1 = 1, adjust pairs appropriately
-            if self._rk.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rk.npatch1 == 1 and self.npatch1 != 1:
                 pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             # Make sure all ij are in the rk results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 3f1e681..014336b 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -479,7 +479,7 @@ class NNCorrelation(Corr2):
             dr = self._dr.weight
             drf = dd_tot / self._dr.tot
         if self._rd is not None:
-            if self._rd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rd.npatch1 == 1 and self.npatch1 != 1:
                 # If r doesn't have patches, then convert all (i,i) pairs to (0,i).
                 pairs3 = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             else:
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f6e8978..f0a06ce 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -629,7 +629,7 @@ class NNNCorrelation(Corr3):
             drr = self._drr.weight
             drrf = ddd_tot / self._drr.tot
         if self._rdd is not None:
-            if self._rdd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rdd.npatch1 == 1 and self.npatch1 != 1:
                 # If r doesn't have patches, then convert all (i,i,j) pairs to (0,i,j)
                 # and all (i,j,i to (0,j,i).
                 pairs3 = [(0,ij[1],ij[2]) for ij in pairs if ij[0] == ij[1] or ij[0] == ij[2]]
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 0ee43ae..0facc04 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -153,7 +153,7 @@ class BaseNZCorrelation(Corr2):
         self._finalize()
         if self._rz is not None:
             # If rz has npatch1 = 1, adjust pairs appropriately
-            if self._rz.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rz.npatch1 == 1 and self.npatch1 != 1:
                 pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             # Make sure all ij are in the rz results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
-- 
2.43.0


From d29f4c90d390f4410d41a5ce6f94b6023b9017bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:53 +0000
Subject: [PATCH 10/28] fix: covariance bookkeeping of compensated
 cross-correlations

raw_varxi was the compensated variance when first read after calculateXi;
calculateXi() after calculateXi(rk) kept the compensated covariance; the
imaginary part was left uncompensated (and raw_xi compensated) in the rows
passed to func; filler patch pairs carried another pair's sums.
---
 treecorr/nkcorrelation.py | 18 ++++++++++++++----
 treecorr/nzcorrelation.py | 19 +++++++++++++++----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index e26cc11..3b22bd4 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -156,7 +156,14 @@ class NKCorrelation(Corr2):
         if self._raw_varxi is None:
             self._raw_varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._raw_varxi.ravel()[:] = self.cov_diag
+                if self._rk is None:
+                    self._raw_varxi.ravel()[:] = self.cov_diag
+                else:
+                    # Then self.cov is for the compensated xi.
+                    raw = self.copy()
+                    raw._rk = raw._cov = None
+                    raw.xi = raw.raw_xi
+                    self._raw_varxi.ravel()[:] = raw.cov_diag
         return self._raw_varxi
 
     @property
@@ -230,9 +237,9 @@ class NKCorrelation(Corr2):
                 for ij in rk.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                self.__dict__.pop('_ok',None)  # If it was already made, it will need to be redone.
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
@@ -241,6 +248,9 @@ class NKCorrelation(Corr2):
                 self._varxi = self.raw_varxi + rk.varxi
         else:
             self.xi = self.raw_xi
+            if self._rk is not None:
+                self._rk = None
+                self._cov = None
             self._varxi = self.raw_varxi
 
         return self.xi, self.varxi
@@ -255,7 +265,7 @@ class NKCorrelation(Corr2):
             # Make sure all ij are in the rk results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
             self._rk._calculate_xi_from_pairs(pairs)
-            self.xi -= self._rk.xi
+            self.xi = self.raw_xi - self._rk.xi
 
     def write(self, file_name, * ,rk=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 0facc04..3b2c996 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -77,7 +77,14 @@ class BaseNZCorrelation(Corr2):
         if self._raw_varxi is None:
             self._raw_varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._raw_varxi.ravel()[:] = self.cov_diag
+                if self._rz is None:
+                    self._raw_varxi.ravel()[:] = self.cov_diag
+                else:
+                    # Then self.cov is for the compensated xi.
+                    raw = self.copy()
+                    raw._rz = raw._cov = None
+                    raw.xi = raw.raw_xi
+                    self._raw_varxi.ravel()[:] = raw.cov_diag
         return self._raw_varxi
 
     @property
@@ -132,9 +139,9 @@ class BaseNZCorrelation(Corr2):
                 for ij in rz.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                self.__dict__.pop('_ok',None)  # If it was already made, it will need to be redone.
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
@@ -144,6 +151,9 @@ class BaseNZCorrelation(Corr2):
         else:
             self.xi = self.raw_xi
             self.xi_im = self.raw_xi_im
+            if self._rz is not None:
+                self._rz = None
+                self._cov = None
             self._varxi = self.raw_varxi
 
         return self.xi, self.xi_im, self.varxi
@@ -158,7 +168,8 @@ class BaseNZCorrelation(Corr2):
             # Make sure all ij are in the rz results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
             self._rz._calculate_xi_from_pairs(pairs)
-            self.xi -= self._rz.xi
+            self.xi = self.raw_xi - self._rz.xi
+            self.xi_im = self.raw_xi_im - self._rz.xi_im
 
     def write(self, file_name, rz=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
-- 
2.43.0


From 821429351654e33ac87e71ee6454af61488b983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:12 +0000
Subject: [PATCH 11/28] fix: shot covariance of compensated cross-correlations
 includes the randoms

cov held only the uncompensated variance, and with patches varxi did too.
---
 treecorr/nkcorrelation.py | 2 ++
 treecorr/nzcorrelation.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 3b22bd4..e712b7a 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -241,11 +241,13 @@ class NKCorrelation(Corr2):
                     self.results[ij] = new_cij
                 self.__dict__.pop('_ok',None)  # If it was already made, it will need to be redone.
 
+            if len(self.results) > 0 and self.var_method != 'shot':
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
                 self._varxi.ravel()[:] = self.cov_diag
             else:
                 self._varxi = self.raw_varxi + rk.varxi
+                self._cov = self._varxi.ravel().copy()  # Diagonal
         else:
             self.xi = self.raw_xi
             if self._rk is not None:
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 3b2c996..61c7b66 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -143,11 +143,13 @@ class BaseNZCorrelation(Corr2):
                     self.results[ij] = new_cij
                 self.__dict__.pop('_ok',None)  # If it was already made, it will need to be redone.
 
+            if len(self.results) > 0 and self.var_method != 'shot':
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
                 self._varxi.ravel()[:] = self.cov_diag
             else:
                 self._varxi = self.raw_varxi + rz.varxi
+                self._cov = self._varxi.ravel().copy()  # Diagonal
         else:
             self.xi = self.raw_xi
             self.xi_im = self.raw_xi_im
-- 
2.43.0


From 1bebb19bc303c7b5cbe0f3c9917e087f7965d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 12/28] fix: count pairs and triangles between catalogs that
 have the same patch number

---
 treecorr/corr2base.py | 2 +-
 treecorr/corr3base.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 09a3cd8..cf082a0 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -886,7 +886,7 @@ class Corr2(object):
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
                         j = c2._single_patch if c2._single_patch is not None else jj
-                        if i < j and is_my_job(my_indices, i, j, n):
+                        if (i,ii) < (j,jj) and is_my_job(my_indices, i, j, n):
                             self.logger.info('Process patches %d, %d cross',i,j)
                             self._single_process12(c1, c2, (i,j), metric, num_threads, temp)
                             if low_mem and jj != ii+1:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2b7af88..1b3a34f 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1246,7 +1246,7 @@ class Corr3(object):
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
                         j = c2._single_patch if c2._single_patch is not None else jj
-                        if i < j:
+                        if (i,ii) < (j,jj):
                             if is_my_job(my_indices, i, j, j, n):
                                 # One point in c1, 2 in c2.
                                 self._single_process12(c1, c2, (i,j,j), metric, 0,
@@ -1258,7 +1258,7 @@ class Corr3(object):
                             # One point in each of c1, c2, c3
                             for kk,c3 in enumerate(cat1):
                                 k = c3._single_patch if c3._single_patch is not None else kk
-                                if j < k and is_my_job(my_indices, i, j, k, n):
+                                if (j,jj) < (k,kk) and is_my_job(my_indices, i, j, k, n):
                                     self._single_process123(c1, c2, c3, (i,j,k), metric, 0,
                                                             num_threads, temp, False)
                                     if low_mem:
@@ -1383,7 +1383,7 @@ class Corr3(object):
                         # One point in each of c1, c2, c3
                         for kk,c3 in list(enumerate(cat2))[::-1]:
                             k = c3._single_patch if c3._single_patch is not None else kk
-                            if j < k and is_my_job(my_indices, i, j, k, n1, n2):
+                            if (j,jj) < (k,kk) and is_my_job(my_indices, i, j, k, n1, n2):
                                 self._single_process123(c1, c2, c3, (i,j,k), metric, ordered1,
                                                         num_threads, temp, False)
                                 if low_mem and kk != jj+1:
-- 
2.43.0


From e8e6a9b47782cc33914ed38db4029e155e754459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 13/28] fix: MPI runs with initialize=False sent the earlier
 results twice

---
 treecorr/corr2base.py |  8 ++++++++
 treecorr/corr3base.py | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index cf082a0..c58e4b5 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -855,6 +855,10 @@ class Corr2(object):
                 rank = comm.Get_rank()
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                if rank > 0:
+                    # Anything from previous calls has already been sent to rank 0.
+                    self._clear()
+                    self.results = {}
             else:
                 my_indices = None
 
@@ -949,6 +953,10 @@ class Corr2(object):
                 n = max(n1,n2)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                if rank > 0:
+                    # Anything from previous calls has already been sent to rank 0.
+                    self._clear()
+                    self.results = {}
             else:
                 my_indices = None
 
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 1b3a34f..7a1c921 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1214,6 +1214,10 @@ class Corr3(object):
                 rank = comm.Get_rank()
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                if rank > 0:
+                    # Anything from previous calls has already been sent to rank 0.
+                    self._clear()
+                    self.results = {}
             else:
                 my_indices = None
 
@@ -1339,6 +1343,10 @@ class Corr3(object):
                 n = max(n1,n2)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                if rank > 0:
+                    # Anything from previous calls has already been sent to rank 0.
+                    self._clear()
+                    self.results = {}
             else:
                 my_indices = None
 
@@ -1458,6 +1466,10 @@ class Corr3(object):
                 n = max(n1,n2,n3)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                if rank > 0:
+                    # Anything from previous calls has already been sent to rank 0.
+                    self._clear()
+                    self.results = {}
             else:
                 my_indices = None
 
-- 
2.43.0


From b48d31196dcc98f63fb4474213f57c5f690158eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 14/28] fix: keep the earlier results of each patch pair when
 adding more data

---
 treecorr/corr2base.py      | 27 +++++++++++++++++----------
 treecorr/corr3base.py      | 26 +++++++++++---------------
 treecorr/nncorrelation.py  |  5 ++++-
 treecorr/nnncorrelation.py |  5 ++++-
 4 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index c58e4b5..1c431e1 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -721,6 +721,17 @@ class Corr2(object):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
 
+    def _add_result(self, ij, corr):
+        # Add the given correlation to the results dict, keeping whatever is already there.
+        prev = self.results.get(ij, None)
+        if prev is not None and prev.nonzero:
+            prev += corr
+        else:
+            self.results[ij] = corr.copy()
+            if prev is not None:
+                # This may be a minimal zero copy, but its tot still counts.
+                self.results[ij] += prev
+
     def _trivially_zero(self, c1, c2):
         x1,y1,z1,s1 = c1._get_center_size()
         x2,y2,z2,s2 = c2._get_center_size()
@@ -790,10 +801,7 @@ class Corr2(object):
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
         if temp.nonzero or force_write:
-            if ij in self.results and self.results[ij].nonzero:
-                self.results[ij] += temp
-            else:
-                self.results[ij] = temp.copy()
+            self._add_result(ij, temp)
             self += temp
         else:
             # NNCorrelation needs to add the tot value
@@ -882,10 +890,7 @@ class Corr2(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i) not in self.results:
-                            self.results[(i,i)] = temp.copy()
-                        else:
-                            self.results[(i,i)] += temp
+                        self._add_result((i,i), temp)
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
@@ -909,7 +914,8 @@ class Corr2(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ij, corr in temp.results.items():
+                            self._add_result(ij, corr)
 
     def _process_all_cross(self, cat1, cat2, metric, num_threads, comm, low_mem, local):
 
@@ -997,7 +1003,8 @@ class Corr2(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ij, corr in temp.results.items():
+                            self._add_result(ij, corr)
 
     def getStat(self):
         """The standard statistic for the current correlation object as a 1-d array.
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 7a1c921..7fe7180 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1110,6 +1110,8 @@ class Corr3(object):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
 
+    _add_result = Corr2._add_result
+
     def _trivially_zero(self, c1, c2, c3):
         # For now, ignore the metric.  Just be conservative about how much space we need.
         x1,y1,z1,s1 = c1._get_center_size()
@@ -1134,10 +1136,7 @@ class Corr3(object):
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
         if temp.nonzero or force_write:
-            if ijj in self.results and self.results[ijj].nonzero:
-                self.results[ijj] += temp
-            else:
-                self.results[ijj] = temp.copy()
+            self._add_result(ijj, temp)
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
@@ -1154,10 +1153,7 @@ class Corr3(object):
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
         if temp.nonzero or force_write:
-            if ijk in self.results and self.results[ijk].nonzero:
-                self.results[ijk] += temp
-            else:
-                self.results[ijk] = temp.copy()
+            self._add_result(ijk, temp)
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
@@ -1242,10 +1238,7 @@ class Corr3(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i,i) in self.results and self.results[(i,i,i)].nonzero:
-                            self.results[(i,i,i)] += temp
-                        else:
-                            self.results[(i,i,i)] = temp.copy()
+                        self._add_result((i,i,i), temp)
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
@@ -1284,7 +1277,8 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ijk, corr in temp.results.items():
+                            self._add_result(ijk, corr)
 
     def _process_all_cross12(self, cat1, cat2, metric, ordered, num_threads, comm, low_mem, local):
 
@@ -1412,7 +1406,8 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ijk, corr in temp.results.items():
+                            self._add_result(ijk, corr)
 
     def _process_all_cross(self, cat1, cat2, cat3, metric, ordered, num_threads, comm, low_mem,
                            local):
@@ -1542,7 +1537,8 @@ class Corr3(object):
                     for p in range(1,size):
                         temp = comm.recv(source=p)
                         self += temp
-                        self.results.update(temp.results)
+                        for ijk, corr in temp.results.items():
+                            self._add_result(ijk, corr)
 
     def getStat(self):
         """The standard statistic for the current correlation object as a 1-d array.
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 014336b..f1d2a91 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -257,7 +257,10 @@ class NNCorrelation(Corr2):
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.  But use a minimal copy with just the necessary fields
         # to save some time.
-        self.results[ij] = self._zero_copy(tot)
+        if ij in self.results:
+            self.results[ij].tot += tot
+        else:
+            self.results[ij] = self._zero_copy(tot)
 
     def _mean_weight(self):
         mean_np = np.mean(self.npairs)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f0a06ce..54628a0 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -360,7 +360,10 @@ class NNNCorrelation(Corr3):
         # We also have to keep all pairs in the results dict, otherwise the tot calculation
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
-        self.results[ijk] = self._zero_copy(tot)
+        if ijk in self.results:
+            self.results[ijk].tot += tot
+        else:
+            self.results[ijk] = self._zero_copy(tot)
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
-- 
2.43.0


From 241bf1116d98fecb8fd38bef2b8b8d650a843c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:45 +0000
Subject: [PATCH 15/28] fix: skipped patch pairs still count towards the total
 number of pairs

---
 treecorr/corr2base.py      | 27 +++++++++++++++++----------
 treecorr/corr3base.py      | 10 ++++++++--
 treecorr/nncorrelation.py  |  4 ++++
 treecorr/nnncorrelation.py |  8 ++++++++
 4 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 1c431e1..232c6b4 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -721,6 +721,10 @@ class Corr2(object):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
 
+    def _skip_cross(self, c1, c2):
+        # No op for all but NNCorrelation, which needs to add the tot value
+        pass
+
     def _add_result(self, ij, corr):
         # Add the given correlation to the results dict, keeping whatever is already there.
         prev = self.results.get(ij, None)
@@ -781,25 +785,28 @@ class Corr2(object):
             if low_mem and p is not cat1:
                 p.unload()
         if len(cat_list) == 0:
-            return None
-        else:
-            cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
-            # This is important for NN correlations to get the tot to work out right.
-            # Basically, we treat the extended patch as though it included all of cat2
-            # for the purposes of figuring out the right tot normalization.
-            cat2e._sumw = sumw
-            if cat1.name != '':
-                cat2e.name = cat1.name + " (expanded)"
+            # Nothing is close enough to matter, but we still need something for the tot
+            # normalization (cf. below).  So keep a single object, which is too far away to count.
+            cat_list = [cat2[0]]
+            mask_list = [(np.array([0]),)]
+        cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
+        # This is important for NN correlations to get the tot to work out right.
+        # Basically, we treat the extended patch as though it included all of cat2
+        # for the purposes of figuring out the right tot normalization.
+        cat2e._sumw = sumw
+        if cat1.name != '':
+            cat2e.name = cat1.name + " (expanded)"
         return cat2e
 
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         temp._clear()
-        if c2 is not None and not self._trivially_zero(c1, c2):
+        if not self._trivially_zero(c1, c2):
             temp.process_cross(c1, c2, metric=metric, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
+            temp._skip_cross(c1, c2)
         if temp.nonzero or force_write:
             self._add_result(ij, temp)
             self += temp
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 7fe7180..0692b74 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1110,6 +1110,10 @@ class Corr3(object):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
 
+    def _skip_cross(self, c1, c2, c3):
+        # No op for all but NNNCorrelation, which needs to add the tot value
+        pass
+
     _add_result = Corr2._add_result
 
     def _trivially_zero(self, c1, c2, c3):
@@ -1129,12 +1133,13 @@ class Corr3(object):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
         temp._clear()
 
-        if c2 is not None and not self._trivially_zero(c1,c2,c2):
+        if not self._trivially_zero(c1,c2,c2):
             self.logger.info('Process patches %s cross12',ijj)
             temp.process_cross12(c1, c2, metric=metric, ordered=ordered, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
+            temp._skip_cross(c1, c2, c2)
         if temp.nonzero or force_write:
             self._add_result(ijj, temp)
             self += temp
@@ -1146,12 +1151,13 @@ class Corr3(object):
         # Helper function for _process_all_auto, etc. for doing 123 cross triples
         temp._clear()
 
-        if c2 is not None and c3 is not None and not self._trivially_zero(c1,c2,c3):
+        if not self._trivially_zero(c1,c2,c3):
             self.logger.info('Process patches %s cross',ijk)
             temp.process_cross(c1, c2, c3, metric=metric, ordered=ordered, num_threads=num_threads)
         else:
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
+            temp._skip_cross(c1, c2, c3)
         if temp.nonzero or force_write:
             self._add_result(ijk, temp)
             self += temp
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index f1d2a91..bd67e7c 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -262,6 +262,10 @@ class NNCorrelation(Corr2):
         else:
             self.results[ij] = self._zero_copy(tot)
 
+    def _skip_cross(self, c1, c2):
+        # Even if the pairs don't need to be processed, they still count for tot.
+        self.tot += c1.sumw * c2.sumw
+
     def _mean_weight(self):
         mean_np = np.mean(self.npairs)
         return 1 if mean_np == 0 else np.mean(self.weight)/mean_np
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 54628a0..697ce08 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -365,6 +365,14 @@ class NNNCorrelation(Corr3):
         else:
             self.results[ijk] = self._zero_copy(tot)
 
+    def _skip_cross(self, c1, c2, c3):
+        # Even if the triangles don't need to be processed, they still count for tot.
+        tot = c1.sumw * c2.sumw * c3.sumw
+        if c2 is c3:
+            # Account for 1/2 factor in cross12 cases.
+            tot /= 2.
+        self.tot += tot
+
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
 
-- 
2.43.0


From 91d4a7337aa3d0dddca9cda35c188ff75a7778bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 16/28] fix: [P16] the expanded patches of the local method
 could miss objects in range

---
 treecorr/corr2base.py | 55 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 232c6b4..6f2d3a6 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -746,12 +746,33 @@ class Corr2(object):
         # First figure out the center and size of cat1.
         x1,y1,z1,s1 = cat1._get_center_size()
 
-        if self._coords == _treecorr.ThreeD:
-            # For 3d coords, we collapse everything onto the unit circle, since that's
-            # what we care about for patch considerations.
-            r = np.sqrt(x1**2 + y1**2 + z1**2)
-            if r != 0:  # pragma: no branch
-                x1 /= r; y1 /= r; z1 /= r
+        # How far away can something be from a point in cat1 and still matter?
+        max_sep = self._max_sep
+        if self.bin_type == 'TwoD':
+            # The corners of the square are farther away.
+            max_sep *= np.sqrt(2.)
+
+        def unit(x, y, z, s):
+            # The center and (upper limit of) the size projected onto the unit sphere.
+            r = np.sqrt(x**2 + y**2 + z**2)
+            if r <= s:
+                return x, y, z, 2., 0.
+            else:
+                # The angular size is asin(s/r), for which the chord is at most sqrt(2) s/r.
+                return x/r, y/r, z/r, np.sqrt(2.) * s/r, r-s
+
+        # For 3d coords, most metrics are best handled by collapsing everything onto the unit
+        # circle, since that's what we care about for patch considerations.
+        project = (self._coords == _treecorr.ThreeD
+                   and self.metric not in ['Euclidean', 'Periodic'])
+        if project:
+            x1,y1,z1,s1,rmin1 = unit(x1, y1, z1, s1)
+
+        def delta(x, x0, period):
+            d = x - x0
+            if self.metric == 'Periodic' and period != 0:
+                d = d - period * np.floor(d/period + 0.5)
+            return d
 
         cat_list = []
         mask_list = []
@@ -759,23 +780,29 @@ class Corr2(object):
         for p in cat2:
             sumw += p.sumw
             x2,y2,z2,s2 = p._get_center_size()
-            if self._coords == _treecorr.ThreeD:
-                r = np.sqrt(x2**2 + y2**2 + z2**2)
-                if r != 0:
-                    x2 /= r; y2 /= r; z2 /= r
-            if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > self._max_sep + s1 + s2:
+            max_d = max_sep
+            if project:
+                x2,y2,z2,s2,rmin2 = unit(x2, y2, z2, s2)
+                if self.metric != 'Arc':
+                    # Convert max_sep into the largest possible separation on the unit sphere.
+                    rmin = min(rmin1, rmin2)
+                    max_d = 2. if rmin <= max_sep else np.sqrt(2.) * max_sep / rmin
+            dsq = (delta(x2,x1,self.xperiod)**2 + delta(y2,y1,self.yperiod)**2 +
+                   delta(z2,z1,self.zperiod)**2)
+            if dsq**0.5 > max_d + s1 + s2:
                 if low_mem and p is not cat1:
                     p.unload()
                 continue
             px = p.x; py = p.y; pz = 0 if p.z is None else p.z
-            if self._coords == _treecorr.ThreeD:
+            if project:
                 pr = np.sqrt(px**2 + py**2 + pz**2)
                 pr[pr==0] = 1
                 # Don't divide in place.  That would change p's internals.
                 px = px/pr; py = py/pr; pz = pz/pr
-            dsq = (px-x1)**2 + (py-y1)**2 + (pz-z1)**2
+            dsq = (delta(px,x1,self.xperiod)**2 + delta(py,y1,self.yperiod)**2 +
+                   delta(pz,z1,self.zperiod)**2)
             d = np.sqrt(dsq)
-            mask = np.where(d < s1+self._max_sep)
+            mask = np.where(d < s1+max_d)
             if len(mask[0]) == 0:
                 if low_mem and p is not cat1:
                     p.unload()
-- 
2.43.0


From d2a5dbcc61333cdddf9a0b0d42b507e36402a462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 17/28] fix: [P16] the center of a patch on the sphere needs to
 be on the sphere

---
 treecorr/catalog.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8fb02db..5096754 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1294,7 +1294,13 @@ class Catalog(object):
             dsq = (self.x - mx)**2 + (self.y - my)**2
             if self.z is not None:
                 mz = np.mean(self.z)
-                dsq += (self.z - mz)**2
+                if self.coords == 'spherical':
+                    # The mean of the points is inside the sphere.  Use the corresponding
+                    # point on the sphere.
+                    r = (mx**2 + my**2 + mz**2)**0.5
+                    if r != 0:  # pragma: no branch
+                        mx /= r; my /= r; mz /= r
+                dsq = (self.x - mx)**2 + (self.y - my)**2 + (self.z - mz)**2
             s = np.max(dsq)**0.5
             self._cen_s = (mx, my, mz, s)
         return self._cen_s
-- 
2.43.0


From 4529888e6baf4190058b127740b7cdced0747877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 18/28] fix: [P16] skipping triples of patches ignored the
 Periodic and 3d Arc metrics

---
 treecorr/corr3base.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 0692b74..b170107 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1121,9 +1121,26 @@ class Corr3(object):
         x1,y1,z1,s1 = c1._get_center_size()
         x2,y2,z2,s2 = c2._get_center_size()
         x3,y3,z3,s3 = c3._get_center_size()
-        d3 = ((x1-x2)**2 + (y1-y2)**2 + (z1-z2)**2)**0.5
-        d1 = ((x2-x3)**2 + (y2-y3)**2 + (z2-z3)**2)**0.5
-        d2 = ((x3-x1)**2 + (y3-y1)**2 + (z3-z1)**2)**0.5
+        def dist(dx, dy, dz):
+            if self.metric == 'Periodic':
+                # Any of the images count.
+                dx, dy, dz = (d - p * np.floor(d/p + 0.5) if p != 0 else d for d,p in
+                              ((dx,self.xperiod), (dy,self.yperiod), (dz,self.zperiod)))
+            return (dx**2 + dy**2 + dz**2)**0.5
+
+        if self.metric == 'Arc' and self._coords == _treecorr.ThreeD:
+            # The separations are angles, so use the projections onto the unit sphere.
+            def unit(x, y, z, s):
+                r = (x**2 + y**2 + z**2)**0.5
+                # The angular size is asin(s/r), for which the chord is at most sqrt(2) s/r.
+                return (x,y,z,np.inf) if r <= s else (x/r, y/r, z/r, np.sqrt(2.) * s/r)
+            x1,y1,z1,s1 = unit(x1,y1,z1,s1)
+            x2,y2,z2,s2 = unit(x2,y2,z2,s2)
+            x3,y3,z3,s3 = unit(x3,y3,z3,s3)
+
+        d3 = dist(x1-x2, y1-y2, z1-z2)
+        d1 = dist(x2-x3, y2-y3, z2-z3)
+        d2 = dist(x3-x1, y3-y1, z3-z1)
         d3, d2, d1 = sorted([d1,d2,d3])
         return (d2 > s1 + s2 + s3 + 2*self._max_sep)  # The 2* is where we are being conservative.
 
-- 
2.43.0


From 2a0ed1dfd000d2e85ee9670f11e8e8387a87d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 19/28] fix: [P11] opening angles of triangles using Arc with
 3d positions

---
 include/Metric.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 46c7973..77c6103 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -728,9 +728,16 @@ struct MetricHelper<Arc, P>
         // Rather than do trig though, recompute the chord lengths so we can compute
         // cos(phi) with just regular arithmetic and a sqrt.
         //
-        double d1sq = (c2.getPos() - c3.getPos()).normSq();
-        double d2sq = (c1.getPos() - c3.getPos()).normSq();
-        double d3sq = (c1.getPos() - c2.getPos()).normSq();
+        // Note: for 3d positions, the chords are between the projected points on the unit sphere.
+        Position<Sphere> p1(c1.getPos());
+        Position<Sphere> p2(c2.getPos());
+        Position<Sphere> p3(c3.getPos());
+        Position<ThreeD> r1 = p2-p3;
+        Position<ThreeD> r2 = p1-p3;
+        Position<ThreeD> r3 = p1-p2;
+        double d1sq = r1.normSq();
+        double d2sq = r2.normSq();
+        double d3sq = r3.normSq();
 
         double cosphi = (d2sq + d3sq - 0.5*d2sq*d3sq - d1sq);
         cosphi /= 2. * std::sqrt( d2sq * d3sq * (1.-0.25*d2sq) * (1.-0.25*d3sq) );
-- 
2.43.0


From 3d02cd2ca35394ad891afc591f6fddbb7daf81a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 20/28] fix: [P11] cell sizes in three-point functions need to
 be angles for Arc

---
 src/Corr3.cpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index b93d8bb..e7583ed 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -424,6 +424,19 @@ void BaseCorr3::process(const BaseField<C>& field1, const BaseField<C>& field2,
     if (dots) std::cout<<std::endl;
 }
 
+// The size of a cell, as needed for comparing to the separations.
+// For most metrics, this is just the size, but for Arc, it is an angle.
+template <int M, int C>
+static double metricSize(const BaseCell<C>& c, const MetricHelper<M,0>& metric)
+{
+    double size = c.getSize();
+    if (M == Arc) {
+        double s = 0.;
+        metric.DistSq(c.getPos(), c.getPos(), size, s);
+    }
+    return size;
+}
+
 template <int B, int M, int C>
 void BaseCorr3::process3(const BaseCell<C>& c1, const MetricHelper<M,0>& metric)
 {
@@ -435,7 +448,9 @@ void BaseCorr3::process3(const BaseCell<C>& c1, const MetricHelper<M,0>& metric)
         xdbg<<ws()<<"    w == 0.  return\n";
         return;
     }
-    if (c1.getSize() < _halfminsep) {
+    if (!c1.getLeft()) return;
+    // For Arc, minsep is an angle, so the size needs to be an angle too.
+    if (metricSize(c1, metric) < _halfminsep) {
         xdbg<<ws()<<"    size < halfminsep.  return\n";
         return;
     }
@@ -473,14 +488,15 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
         xdbg<<ws()<<"    w2 == 0.  return\n";
         return;
     }
-    double s2 = c2.getSize();
-    if (BinTypeHelper<B>::tooSmallS2(s2, _halfminsep, _minu, _minv))
+    if (!c2.getLeft()) return;
+    if (BinTypeHelper<B>::tooSmallS2(metricSize(c2, metric), _halfminsep, _minu, _minv))
     {
         xdbg<<ws()<<"    s2 smaller than minimum triangle side.  return\n";
         return;
     }
 
     double s1 = c1.getSize();
+    double s2 = c2.getSize();
     double rsq = metric.DistSq(c1.getPos(), c2.getPos(), s1, s2);
     double s1ps2 = s1 + s2;
 
@@ -667,9 +683,9 @@ void BaseCorr3::process111Sorted(
     const BaseCell<C>& c1, const BaseCell<C>& c2, const BaseCell<C>& c3,
     const MetricHelper<M,0>& metric, double d1sq, double d2sq, double d3sq)
 {
-    const double s1 = c1.getSize();
-    const double s2 = c2.getSize();
-    const double s3 = c3.getSize();
+    const double s1 = metricSize(c1, metric);
+    const double s2 = metricSize(c2, metric);
+    const double s3 = metricSize(c3, metric);
 
     xdbg<<"Process111Sorted: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getN()<<std::endl;
     xdbg<<"                  c2 = "<<c2.getPos()<<"  "<<c2.getSize()<<"  "<<c2.getN()<<std::endl;
@@ -1002,9 +1018,10 @@ void BaseCorr3::splitC2Cells(
     // Given the current c1, make a new c2 list where we throw away any from c2 list
     // that can't contribute to the bins, and split any that need to be split.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
+        // Note: DistSq may change both sizes, so this needs to start fresh for each c2.
+        double s1 = c1.getSize();
         double s2 = c2->getSize();
         const double rsq = metric.DistSq(p1,p2,s1,s2);
         const double s1ps2 = s1+s2;
@@ -1052,7 +1069,7 @@ void BaseCorr3::multipoleSplit1(
 {
     xdbg<<ws()<<"MultipoleSplit1: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getW()<<"  len c2 = "<<c2list.size()<<std::endl;
 
-    double s1 = c1.getSize();
+    double s1 = metricSize(c1, metric);
 
     // Split cells in c2list if they will definitely need to be split.
     // And remove any that cannot contribute to the sums for this c1.
@@ -1086,7 +1103,7 @@ void BaseCorr3::multipoleSplit1(
 {
     xdbg<<ws()<<"MultipoleSplit1: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getW()<<"  len c2 = "<<c2list.size()<<" len c3 = "<<c3list.size()<<std::endl;
 
-    double s1 = c1.getSize();
+    double s1 = metricSize(c1, metric);
 
     // Split cells in both lists if appropriate
     std::vector<const BaseCell<C>*> newc2list;
@@ -1121,7 +1138,6 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     // neither c1 nor c2 need to be split further.  In those cases, accumulate Gn and other
     // scratch arrays and don't add that c2 to newc2list.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
     double max_remaining_r = 0.;
     // The calculation of thresh1 here is pretty arbitrary.
     // The point of thresh1 is to only split cell1 when it is needed for the pairs with the
@@ -1140,6 +1156,8 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     double thresh1 = BinTypeHelper<B>::oneBinLessThan(prev_max_remaining_r, _binsize);
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
+        // Note: DistSq may change both sizes, so this needs to start fresh for each c2.
+        double s1 = c1.getSize();
         double s2 = c2->getSize();
         const double rsq = metric.DistSq(p1,p2,s1,s2);
         const double s1ps2 = s1+s2;
-- 
2.43.0


From 13e6a6a2483ee95cf9ecf9bf508616d1513c30f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:11 +0000
Subject: [PATCH 21/28] fix: [P17] copies shared the per-patch results with the
 original

copy() kept a reference to the results dict (and the list of processed
catalogs), so processing or clearing the copy changed the original and vice
versa; repeated processing also added to per-patch results in place.
---
 treecorr/corr2base.py      | 10 +++++++---
 treecorr/corr3base.py      |  3 +++
 treecorr/nncorrelation.py  |  2 ++
 treecorr/nnncorrelation.py |  2 ++
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 6f2d3a6..3e3789e 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -673,13 +673,14 @@ class Corr2(object):
             if isinstance(item, np.ndarray):
                 # Only items that might change need to by deep copied.
                 ret.__dict__[key] = item.copy()
+            elif key == 'results' or key.startswith('_processed_cats'):
+                # The items don't need to be copied, but the two shouldn't share the containers.
+                ret.__dict__[key] = item.copy()
             else:
                 # For everything else, shallow copy is fine.
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 # And the read-only things are all in _ro.
-                # The results dict is trickier.  We rely on it being copied in places, but we
-                # never add more to it after the copy, so shallow copy is fine.
                 ret.__dict__[key] = item
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
@@ -729,7 +730,10 @@ class Corr2(object):
         # Add the given correlation to the results dict, keeping whatever is already there.
         prev = self.results.get(ij, None)
         if prev is not None and prev.nonzero:
-            prev += corr
+            # Don't change prev in place, since a copy of this object may also be using it.
+            new = prev.copy()
+            new += corr
+            self.results[ij] = new
         else:
             self.results[ij] = corr.copy()
             if prev is not None:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index b170107..efe9dac 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1065,6 +1065,9 @@ class Corr3(object):
             if isinstance(item, np.ndarray):
                 # Only items that might change need to by deep copied.
                 ret.__dict__[key] = item.copy()
+            elif key == 'results':
+                # The items don't need to be copied, but the two shouldn't share the container.
+                ret.__dict__[key] = item.copy()
             else:
                 # For everything else, shallow copy is fine.
                 # In particular don't deep copy config or logger
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index bd67e7c..e9615ad 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -258,6 +258,8 @@ class NNCorrelation(Corr2):
         # the resulting weight is zero.  But use a minimal copy with just the necessary fields
         # to save some time.
         if ij in self.results:
+            # Don't change this in place, since a copy of this object may also be using it.
+            self.results[ij] = self.results[ij].copy()
             self.results[ij].tot += tot
         else:
             self.results[ij] = self._zero_copy(tot)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 697ce08..c2dedb4 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -361,6 +361,8 @@ class NNNCorrelation(Corr3):
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
         if ijk in self.results:
+            # Don't change this in place, since a copy of this object may also be using it.
+            self.results[ijk] = self.results[ijk].copy()
             self.results[ijk].tot += tot
         else:
             self.results[ijk] = self._zero_copy(tot)
-- 
2.43.0


From c5aa34434b400ab6dd17e5336a48ff9abd2c5144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 22/28] fix: [P17] adding correlations with a different
 bin_type must be refused

---
 treecorr/corr2base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 3e3789e..5fd08e9 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1264,7 +1264,8 @@ class Corr2(object):
             raise TypeError(f"Can only add another {self._cls} object")
         if not (self._nbins == other._nbins and
                 self.min_sep == other.min_sep and
-                self.max_sep == other.max_sep):
+                self.max_sep == other.max_sep and
+                self.bin_type == other.bin_type):
             raise ValueError(f"{self._cls} to be added is not compatible with this one.")
 
         self._set_metric(other.metric, other.coords, other.coords)
-- 
2.43.0


From da96eb2bac77e12ef77c8516ad07b513da078333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 23/28] fix: [P20] processing more data after reading from a
 file used stale and misaligned arrays

---
 treecorr/corr2base.py | 18 ++++++++++++++++++
 treecorr/corr3base.py |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 5fd08e9..6f4de02 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1811,6 +1811,7 @@ class Corr2(object):
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
+        self._reset_after_read()
 
         self.results = {}
         for i in range(num_zero_patch):
@@ -1823,6 +1824,7 @@ class Corr2(object):
             params = reader.read_params(ext=pp_name)
             data = reader.read_data(max_rows=num_rows, ext=pp_name)
             corr._read_from_data(data, params)
+            corr._reset_after_read()
             key = eval(params['key'])
             self.results[key] = corr
         if cov_shape is not None:
@@ -1830,6 +1832,22 @@ class Corr2(object):
                 cov_shape = eval(cov_shape)
             self._cov = reader.read_array(cov_shape, ext='cov')
 
+    def _reset_after_read(self):
+        # The columns we just read in are views into a structured array, possibly with a
+        # non-native byte order.  The C++ layer needs regular contiguous arrays, so make sure
+        # that's what we have in case the user wants to process more data with this object.
+        new = {}
+        for key, item in self.__dict__.items():
+            if isinstance(item, np.ndarray):
+                if id(item) not in new:
+                    dtype = item.dtype.newbyteorder('=') if item.dtype.kind == 'c' else float
+                    new[id(item)] = np.array(item, dtype=dtype, order='C')
+                self.__dict__[key] = new[id(item)]
+        # Anything based on the old arrays is now out of date.
+        self._corr = None
+        self._cov = None
+        self.__dict__.pop('_ok', None)
+
     def _read_from_data(self, data, params):
         s = self.logr.shape
         self.meanr = data['meanr'].reshape(s)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index efe9dac..d192903 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2516,6 +2516,7 @@ class Corr3(object):
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
+        self._reset_after_read()
 
         self.results = {}
         for i in range(num_zero_patch):
@@ -2528,6 +2529,7 @@ class Corr3(object):
             params = reader.read_params(ext=pp_name)
             data = reader.read_data(max_rows=num_rows, ext=pp_name)
             corr._read_from_data(data, params)
+            corr._reset_after_read()
             key = eval(params['key'])
             self.results[key] = corr
         if cov_shape is not None:
@@ -2535,6 +2537,8 @@ class Corr3(object):
                 cov_shape = eval(cov_shape)
             self._cov = reader.read_array(cov_shape, ext='cov')
 
+    _reset_after_read = Corr2._reset_after_read
+
     def _read_from_data(self, data, params):
         s = self.data_shape
         self.meand1 = data['meand1'].reshape(s)
-- 
2.43.0


From cfb038a2e0b82c7f331557fffed6e7f363fc4cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 24/28] fix: [P21] rows with NaN were still used when wpos is
 given

---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 5096754..868f4ba 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1665,6 +1665,8 @@ class Catalog(object):
             if self._w is None:
                 self._w = np.ones_like(col, dtype=float)
             self._w[index] = 0
+            if self._wpos is not None:
+                self._wpos[index] = 0
             col[index] = 0  # Don't leave the nans there.
 
     def _check_file(self, file_name, reader, num=0, is_rand=False):
-- 
2.43.0


From e15185dedf25018fed83178d61f96fd657c8abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 25/28] fix: [P21] select left weights, fields and patches of
 the full catalog behind

---
 treecorr/catalog.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 868f4ba..2ba0e5d 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1623,6 +1623,20 @@ class Catalog(object):
         self._q1 = self._q1[indx] if self._q1 is not None else None
         self._q2 = self._q2[indx] if self._q2 is not None else None
         self._patch = self._patch[indx] if self._patch is not None else None
+        self._flag = self._flag[indx] if self._flag is not None else None
+
+        # Anything that was already calculated from the full set of objects is now out of date.
+        self._nobj = None
+        self._sumw2 = None
+        if self._sumw is not None:
+            self._sumw = np.sum(self._w) if self._nontrivial_w else self.ntot
+        for f in 'kzvgtq':
+            if self.config.get('var' + f, None) is None:
+                setattr(self, '_var' + f, None)
+        self._patches = None
+        self._computed_centers = None
+        self.__dict__.pop('_cen_s', None)
+        self.clear_cache()
 
     def makeArray(self, col, col_str, dtype=float):
         """Turn the input column into a numpy array if it wasn't already.
-- 
2.43.0


From ab392487cc01b29fb4383384949eec5e09976783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 26/28] fix: [P21] combine dropped zero-weight rows of all but
 the first catalog

---
 treecorr/catalog.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 2ba0e5d..95e7f79 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1480,7 +1480,8 @@ class Catalog(object):
         loaded = cat.loaded
         cat.load()
         check_wpos = cat._wpos if cat._wpos is not None else cat._w
-        kwargs = dict(keep_zero_weight=np.any(check_wpos==0))
+        keep_zero_weight = np.any(check_wpos==0)
+        kwargs = {}
         if cat.ra is not None:
             kwargs['ra_units'] = 'rad'
             kwargs['dec_units'] = 'rad'
@@ -1503,6 +1504,8 @@ class Catalog(object):
             if i == 0: continue
             loaded = cat.loaded
             cat.load()
+            check_wpos = cat._wpos if cat._wpos is not None else cat._w
+            keep_zero_weight |= np.any(check_wpos==0)
             for key in keys:  # These are now just the ones that were in cat0.
                 if getattr(cat, key) is None:
                     raise ValueError("Column %s not found in cat %d"%(key,i))
@@ -1516,7 +1519,7 @@ class Catalog(object):
         # Concatenate the arrays.
         for key in keys:
             kwargs[key] = np.concatenate(kwargs[key])
-        return Catalog(**kwargs)
+        return Catalog(keep_zero_weight=bool(keep_zero_weight), **kwargs)
 
     def _assign_patches(self):
         # This is equivalent to the following:
-- 
2.43.0


From d566be383de8e203def2ada51ebc3c15d6fdec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:11 +0000
Subject: [PATCH 27/28] fix: [P21] patches read from files lost catalog number,
 _eval columns and zero-weight rows

---
 treecorr/catalog.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 95e7f79..b9ec812 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2123,15 +2123,15 @@ class Catalog(object):
                 self.select(use)
                 if s == slice(None):
                     s = use
-                else:
-                    end1 = np.max(use)*s.step+s.start+1
-                    s = np.arange(s.start, end1, s.step)[use]
+                elif not isinstance(use, slice):
+                    s = s.start + s.step * use
                 self._patch = None
-                data = {}  # Start fresh, since the ones we used so far are done.
+                # The ones we used so far are done, but they might be needed by some _eval item.
+                data = {c: data[c][use] for c in data if c != patch_col}
 
                 # We might actually be done now, in which case, just return.
                 # (Else the fits read below won't actually work.)
-                if len(all_cols) == 0 or (isinstance(s,np.ndarray) and len(s) == 0):
+                if isinstance(s,np.ndarray) and len(s) == 0:
                     return
 
             # Now read the rest using the updated s
@@ -2928,6 +2928,8 @@ class Catalog(object):
             kwargs['q1_col'] = 'q1'
         if self._q2 is not None or self.config.get('q2_col','0') != '0':
             kwargs['q2_col'] = 'q2'
+        if 'keep_zero_weight' in self.config:
+            kwargs['keep_zero_weight'] = self.config['keep_zero_weight']
 
         file_names = self.get_patch_file_names(save_patch_dir)
         self._patches = []
@@ -2980,6 +2982,7 @@ class Catalog(object):
                 # This triggers a load of the current catalog, but no choice here.
                 patch_set = sorted(set(self.patch))
             self._patches = [Catalog(config=self.config, file_name=self.file_name,
+                                     num=self._num, is_rand=self._is_rand,
                                      patch=i, npatch=self.npatch, patch_centers=self._centers)
                              for i in patch_set]
         else:
-- 
2.43.0


From 02b086e1f0851bcd27f58ba4a28ee24f6a9a017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:08 +0000
Subject: [PATCH 28/28] fix: [P10] SelectPatch put an object equidistant from
 two centers in both patches

---
 src/KMeans.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 8ceb09c..709f405 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -977,7 +977,8 @@ void SelectPatch(int patch, py::array_t<double>& cenp, int npatch,
                 double qy = centers[3*q+1];
                 double qz = centers[3*q+2];
                 double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy) + SQR(z[i]-qz);
-                if (q_dsq < p_dsq) {
+                // Ties go to the lower numbered patch, as in QuickAssign.
+                if (q_dsq < p_dsq || (q < patch && q_dsq == p_dsq)) {
                     use[i] = 0;
                     break;
                 }
@@ -999,7 +1000,8 @@ void SelectPatch(int patch, py::array_t<double>& cenp, int npatch,
                 double qx = centers[2*q];
                 double qy = centers[2*q+1];
                 double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy);
-                if (q_dsq < p_dsq) {
+                // Ties go to the lower numbered patch, as in QuickAssign.
+                if (q_dsq < p_dsq || (q < patch && q_dsq == p_dsq)) {
                     use[i] = 0;
                     break;
                 }
-- 
2.43.0

