From c3719f45c74748e6859c1732efe6827b222e8af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 01/10] fix: sums and differences of polynomials recursed
 forever or did not compile

---
 matslise/util/polynomial.h | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/matslise/util/polynomial.h b/matslise/util/polynomial.h
index 87389e4..81bba50 100644
--- a/matslise/util/polynomial.h
+++ b/matslise/util/polynomial.h
@@ -71,25 +71,11 @@ namespace matslise {
         template<int otherDegree>
         using OtherPolynomial = Polynomial<Scalar, otherDegree>;
 
-#define POLY_SUM_OPERATOR(op) \
-        template<int od> \
-        POLY_INPLACE_OPERATOR(op, od, OtherPolynomial<od>, other.coefficients, od <= degree); \
-        template<int od> \
-        POLY_BINARY_OPERATOR(op, OtherPolynomial<od>);
-
-        POLY_SUM_OPERATOR(+)
-
         template<int od>
-        POLY_BINARY_REV_OPERATOR(+, OtherPolynomial<od>);
-
-        POLY_SUM_OPERATOR(-)
-
+        POLY_INPLACE_OPERATOR(+, od, OtherPolynomial<od>, other.coefficients, od <= degree);
 
         template<int od>
-        friend Polynomial<Scalar, degree>
-        operator-(const OtherPolynomial<od> &left, const Polynomial<Scalar, degree> &right) {
-            return -right + left;
-        }
+        POLY_INPLACE_OPERATOR(-, od, OtherPolynomial<od>, other.coefficients, od <= degree);
 
         POLY_SCALAR_OPERATOR(+, 0)
 
@@ -112,7 +98,7 @@ namespace matslise {
         }
 
         Polynomial<Scalar, degree> operator+() const {
-            return Polynomial<Scalar, degree>{+coefficients};
+            return *this;
         }
 
         template<int otherDegree>
-- 
2.43.0


From b96bd40a0d2dbbd5a092a20cbad337b50752b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:25 +0000
Subject: [PATCH 02/10] fix: the Prufer angle at interior points counted zeros
 that are not there

---
 matslise/matslise/sector.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index b599874..79f0aa5 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -123,20 +123,11 @@ Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scala
         // page 56 (PhD Ledoux)
         Scalar omega = sqrt(E - sector.vs[0]);
         Scalar theta0 = atan_safe(y0[0] * omega, y0[1]);
-        Scalar phi_star = atan_safe(y1[0] * omega, y1[1]);
-        Scalar phi_bar = omega * delta + theta0;
-        phi_bar -= floor(phi_bar / constants<Scalar>::PI) * constants<Scalar>::PI;
-        Scalar theta1 = phi_star - phi_bar;
-        if (theta1 < -constants<Scalar>::PI / 2)
-            theta1 += constants<Scalar>::PI;
-        else if (theta1 > constants<Scalar>::PI / 2)
-            theta1 -= constants<Scalar>::PI;
-        theta1 += theta0 + omega * delta;
-
-        if (theta1 < theta0) {
-            // theta has to be increasing
-            theta1 += constants<Scalar>::PI;
-        }
+        // The angle follows omega * delta, the difference is determined modulo 2*PI by both end points.
+        const Scalar PI2 = 2 * constants<Scalar>::PI;
+        Scalar difference = atan2(y1[0] * omega, y1[1]) - atan2(y0[0] * omega, y0[1]) - omega * delta;
+        difference -= round(difference / PI2) * PI2;
+        Scalar theta1 = theta0 + omega * delta + difference;
 
         return rescale(theta1, scaling / omega) - rescale(theta0, scaling / omega);
     } else {
-- 
2.43.0


From ad0043f4eef8641b201cfac7ca9920f562789df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 03/10] fix: close eigenvalues were lost or numbered wrongly

---
 matslise/matslise/matslise.cpp | 45 ++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 770d1b3..9768a0d 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -115,24 +115,37 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
-        if ((tb - ta < 0.01 && depth > 3) || depth > 30) {
-            eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
-        } else {
-            tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
-            if (isnan(tc)) {
-                // cerr << "Matslise::computeEigenvalues(): some interval converted to NaN" << endl;
-            } else if (ia + 1 < ib) {
-                toCheck.push(make_tuple(a, ta, c, tc, 1 + depth));
-                toCheck.push(make_tuple(c, tc, b, tb, 1 + depth));
-            } else {
-                if (abs(tc - ia) < 1e-8)
-                    eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
-                else if ((ta - ia) * (tc - ia) < 0)
-                    toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
-                else
-                    toCheck.push(make_tuple(c, tc, b, tb, depth + 1));
+        if (!(a < c && c < b))
+            c = .5 * (a + b);
+        if (!(a < c && c < b)) {
+            // This interval can't be refined, the eigenvalues in it coincide up to the precision of Scalar.
+            for (int i = max(ia, Imin); i < min(ib, Imax); ++i)
+                eigenvalues.push_back(make_pair(i, c));
+            continue;
+        }
+
+        tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
+        if (isnan(tc)) {
+            // cerr << "Matslise::computeEigenvalues(): some interval converted to NaN" << endl;
+            continue;
+        }
+        if (ia + 1 < ib) {
+            toCheck.push(make_tuple(a, ta, c, tc, 1 + depth));
+            toCheck.push(make_tuple(c, tc, b, tb, 1 + depth));
+            continue;
+        }
+        if ((tb - ta < 0.01 && depth > 3) || depth > 30 || abs(tc - ia) < 1e-8) {
+            pair<int, Scalar> eigenvalue = newtonIteration<Scalar>(ms, c, left, right, true);
+            // Newton may have escaped to a neighbouring eigenvalue
+            if (eigenvalue.first == ia && a <= eigenvalue.second && eigenvalue.second <= b) {
+                eigenvalues.push_back(eigenvalue);
+                continue;
             }
         }
+        if (tc > ia)
+            toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
+        else
+            toCheck.push(make_tuple(c, tc, b, tb, depth + 1));
     }
 
     sort(eigenvalues.begin(), eigenvalues.end());
-- 
2.43.0


From 9cbc2ea0386b5b2b011fdb68f2968eb4dcf2e56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 04/10] fix: the derivative of half-range eigenfunctions at a
 negative point had the wrong sign

---
 matslise/matslise/halfrange.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/halfrange.cpp b/matslise/matslise/halfrange.cpp
index 30af658..9c538e3 100644
--- a/matslise/matslise/halfrange.cpp
+++ b/matslise/matslise/halfrange.cpp
@@ -47,8 +47,8 @@ public:
     virtual Array<Scalar, 2, 1> operator()(const Scalar &x) const override {
         Array<Scalar, 2, 1> c = (*eigenfunction)(x < 0 ? -x : x);
         c *= sqrt(Scalar(.5));
-        if (x < 0 && !even)
-            c *= -1;
+        if (x < 0)
+            c[even ? 1 : 0] *= -1;
         return c;
     }
 
-- 
2.43.0


From 1f800cb93e3f6f25caf5b1e75e7ec684abc4e35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 05/10] fix: the derivative of a transformed Sturm-Liouville
 solution mixed up value and derivative

---
 matslise/liouville/liouville.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index 251ba41..ef50f2f 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -225,10 +225,10 @@ Y<Scalar> LiouvilleTransformation<Scalar>::y2z(const Scalar &x, const Y<Scalar>
     z.block(None) *= sigma;
     z.block(dE) *= sigma;
 
-    z.block(dX) *= dsigma;
-    z.block(dXdE) *= dsigma;
-    z.block(dX) += sigma * xdr * y.block(None);
-    z.block(dXdE) += sigma * xdr * y.block(dE);
+    z.block(dX) *= sigma * xdr;
+    z.block(dXdE) *= sigma * xdr;
+    z.block(dX) += dsigma * y.block(None);
+    z.block(dXdE) += dsigma * y.block(dE);
 
     return z;
 }
-- 
2.43.0


From 3a787ac20d45e62b896214c369b39562a1e3d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 06/10] fix: propagatePsi against the direction of a sector
 applied the forward formula

---
 matslise/matscs/sector.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index eaac019..067e1df 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -259,19 +259,18 @@ propagatePsi_delta(const typename Matscs<Scalar>::Sector *sector, Scalar E, cons
 
     // TODO: verify
     Scalar extra = sector->direction == Direction::forward ? 1 : -1;
-    if (delta > 0) {
-        T<Scalar, Dynamic> T = sector->calculateT(E, delta);
+    if (delta == 0)
+        return psi;
+    T<Scalar, Dynamic> T = sector->calculateT(E, delta);
+    if (forward) {
         return extra * (T.getT(1, 1) + extra * T.getT(1, 0) * psi).transpose()
                 .colPivHouseholderQr()
                 .solve((T.getT(0, 1) + extra * T.getT(0, 0) * psi).transpose())
                 .transpose();
-    } else if (delta < 0) {
-        T<Scalar, Dynamic> T = sector->calculateT(E, -delta);
-        return extra * (T.getT(1, 1) - extra * psi * T.getT(0, 1))
-                .colPivHouseholderQr()
-                .solve((extra * psi * T.getT(0, 0) - T.getT(1, 0)));
     } else {
-        return psi;
+        return extra * (T.getT(0, 0) - extra * psi * T.getT(1, 0))
+                .colPivHouseholderQr()
+                .solve(extra * psi * T.getT(1, 1) - T.getT(0, 1));
     }
 }
 
-- 
2.43.0


From d3c15a2a507bd59e53a3534ca33be8b829af1ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:56 +0000
Subject: [PATCH 07/10] fix: periodic eigenfunctions did not satisfy their
 boundary conditions

---
 matslise/matslise/periodic.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 1cf9387..8398579 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -233,31 +233,26 @@ std::vector<std::tuple<int, Scalar, int>> PeriodicMatslise<Scalar>::eigenvaluesB
 template<typename Scalar>
 vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>
 PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
-    Array<Scalar, 2, 1> thetaL, thetaR;
     Scalar &match = matslise.sectors[matslise.matchIndex]->max;
-    Y<Scalar, 1, 2> l = propagate(E, periodicInitialValue<Scalar>(), matslise.domain.min, match).first;
-    Y<Scalar, 1, 2> r = propagate(E, periodicInitialValue<Scalar>(K), matslise.domain.max, match).first;
+    const Y<Scalar, 1, 2> left = periodicInitialValue<Scalar>();
+    const Y<Scalar, 1, 2> right = periodicInitialValue<Scalar>(K);
+    Y<Scalar, 1, 2> l = propagate(E, left, matslise.domain.min, match).first;
+    Y<Scalar, 1, 2> r = propagate(E, right, matslise.domain.max, match).first;
     Matrix<Scalar, 2, 2> err = (l.y() - r.y());
-    cout << err << endl;
 
     EigenSolver<Matrix<Scalar, 2, 2>> solver(err, true);
     Matrix<complex<Scalar>, 2, 1> eigenvalues = solver.eigenvalues();
     Matrix<complex<Scalar>, 2, 2> eigenvectors = solver.eigenvectors();
+    bool isEigenvalue[2] = {norm(eigenvalues[0]) < 1e-4, norm(eigenvalues[1]) < 1e-4};
 
     vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>> result;
-    cout << "eigenvalues: " << eigenvalues.transpose() << endl;
-    cout << eigenvectors << endl;
-    cout << endl;
     result.reserve(2);
-    if (norm(eigenvalues[0]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(0).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
-    }
-    if (norm(eigenvalues[1]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(1).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
+    for (int i = 0; i < 2; ++i) {
+        if (!isEigenvalue[i]) continue;
+        Matrix<Scalar, 2, 1> c = eigenvectors.col(i).real();
+        if (isEigenvalue[1 - i]) // Every solution satisfies the boundary conditions
+            c = Matrix<Scalar, 2, 1>::Unit(i);
+        result.emplace_back(matslise.eigenfunction(E, left * c, right * c));
     }
 
     return result;
-- 
2.43.0


From f261ea4a8bf70ebf21511af00f7448e51a67b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:34 +0000
Subject: [PATCH 08/10] fix: a step that is too small to move off a zero
 counted that zero

---
 matslise/matslise/sector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index 79f0aa5..e9e4f90 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -131,6 +131,8 @@ Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scala
 
         return rescale(theta1, scaling / omega) - rescale(theta0, scaling / omega);
     } else {
+        if (y0[0] == 0 && y1[0] == 0) // The step is too small to change y, the same zero is not passed again
+            return 0;
         Scalar theta0 = atan_safe(scaling * y0[0], y0[1]);
         Scalar theta1 = atan_safe(scaling * y1[0], y1[1]);
         if (y0[0] * y1[0] >= 0) {
-- 
2.43.0


From de41e647ccb06767267e997bcb1910e8aa979172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:57 +0000
Subject: [PATCH 09/10] fix: eigenvalues were numbered one too high when the
 matching point is the right end

With a single interval the right solution is not propagated, such that its
Dirichlet start was given the angle of a start towards the right. No
eigenvalue with index zero was found.
---
 matslise/matslise/matslise.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 9768a0d..c1b8346 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -26,7 +26,8 @@ Matslise<Scalar>::propagate(const Scalar &E, const Y<Scalar, 1, cols> &_y,
     Eigen::Array<Scalar, cols, 1> theta;
     for (int i = 0; i < cols; ++i) {
         Scalar t = sectors[sectorIndex]->theta0(E, y.col(i));
-        if (t < 0 || (a > b && t == 0))
+        // Only towards the right, a start in zero has angle zero. Nothing lies on the right of domain.max.
+        if (t < 0 || ((a > b || a == domain.max) && t == 0))
             t += constants<Scalar>::PI;
         theta[i] = t;
     }
-- 
2.43.0


From 95ea369a556292227140e07b3ead1f2f88ebef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:57 +0000
Subject: [PATCH 10/10] hooks: name the loops of the eigenvalue search

MATSLISE_LOOP expands to nothing unless MATSLISE_VERIFICATION is defined.
---
 matslise/matslise/matslise.cpp |  4 ++++
 matslise/util/verification.h   | 13 +++++++++++++
 2 files changed, 17 insertions(+)
 create mode 100644 matslise/util/verification.h

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index c1b8346..ec0df10 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -6,6 +6,7 @@
 #include "../util/theta.h"
 #include "../util/constants.h"
 #include "../util/find_sector.h"
+#include "../util/verification.h"
 
 using namespace matslise;
 using namespace std;
@@ -106,6 +107,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
     Scalar a, ta, b, tb, c, tc;
     int ia, ib, depth;
     while (!toCheck.empty()) {
+        MATSLISE_LOOP(computeEigenvaluesHelper, toCheck, eigenvalues);
         tie(a, ta, b, tb, depth) = toCheck.front();
         toCheck.pop();
         ia = (int) ceil(ta);
@@ -162,6 +164,7 @@ Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left,
     Scalar Emin = -1;
     Scalar Emax = 1;
     while (true) {
+        MATSLISE_LOOP(eigenvaluesByIndexUp, Emin, Emax);
         Scalar t = get<2>(matchingError(Emax, left, right)) / constants<Scalar>::PI;
         int i = (int) floor(t);
         if (i >= Imax)
@@ -174,6 +177,7 @@ Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left,
     }
     if (Emin == -1) {
         while (true) {
+            MATSLISE_LOOP(eigenvaluesByIndexDown, Emin, Emax);
             Scalar t = get<2>(matchingError(Emin, left, right)) / constants<Scalar>::PI;
             int i = (int) ceil(t);
             if (i <= Imin)
diff --git a/matslise/util/verification.h b/matslise/util/verification.h
new file mode 100644
index 0000000..149bab0
--- /dev/null
+++ b/matslise/util/verification.h
@@ -0,0 +1,13 @@
+#ifndef MATSLISE_VERIFICATION_H
+#define MATSLISE_VERIFICATION_H
+
+// MATSLISE_LOOP(name, variables...) stands at the head of a loop and names the variables it changes, such that the
+// loop can be verified with an invariant. It expands to nothing, unless MATSLISE_VERIFICATION names a header that
+// defines it.
+#ifdef MATSLISE_VERIFICATION
+#include MATSLISE_VERIFICATION
+#else
+#define MATSLISE_LOOP(name, ...)
+#endif
+
+#endif //MATSLISE_VERIFICATION_H
-- 
2.43.0

