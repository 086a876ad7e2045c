From 51b6d5291c3b16b5ade432649a0788b842ccd420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 01/43] fix: propagate_lagrangian_u: scale the initial guess
 and the root bracket with sqrt(|a|)

The universal anomaly has the dimensions of sqrt(length): a bracket of +-2pi around the guess (and a guess of 3 for
hyperbolae) is only right when |a| is about one, and otherwise a wrong state was silently returned.
---
 src/core_astro/propagate_lagrangian.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/core_astro/propagate_lagrangian.cpp b/src/core_astro/propagate_lagrangian.cpp
index 902be8e..8845408 100644
--- a/src/core_astro/propagate_lagrangian.cpp
+++ b/src/core_astro/propagate_lagrangian.cpp
@@ -201,11 +201,17 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
     // initial radial velocity (see we use the inverted vf = +-v0 according to dt)
     double const VR0 = (rf[0] * vf[0] + rf[1] * vf[1] + rf[2] * vf[2]) / R0;
 
-    // solve kepler's equation in the universal anomaly DS
-    double IG = 0;
-    alpha > 0. ? IG = std::sqrt(mu) * dt_copy * std::abs(alpha)
-               : IG = 3.; // TODO(darioizzo): initial guess for the universal
-                          // anomaly. For hyperbolas is 3 .... can be better?
+    // solve kepler's equation in the universal anomaly DS. Note that DS has the dimensions of the square root of a
+    // length (DS = sqrt(|a|) DE or DS = sqrt(|a|) DH), thus the initial guess and the bracket must scale accordingly.
+    double const sqrta = 1. / std::sqrt(std::abs(alpha));
+    double IG = 0., bracket = 0.;
+    if (alpha > 0.) {
+        IG = std::sqrt(mu) * dt_copy * alpha; // sqrt(a) DM
+        bracket = 2. * pi * sqrta;            // |DE - DM| <= 2e < 2pi
+    } else {
+        IG = sqrta; // TODO(darioizzo): initial guess for the universal anomaly. Can be better?
+        bracket = 50. * sqrta;
+    }
 
     // Solve Kepler Equation in DS (univrsal anomaly difference)
     const int digits = std::numeric_limits<double>::digits;
@@ -216,9 +222,7 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
         [dt_copy, R0, VR0, alpha, mu](double DS) {
             return std::make_tuple(kepDS(DS, dt_copy, R0, VR0, alpha, mu), d_kepDS(DS, R0, VR0, alpha, mu));
         },
-        IG, IG - 2 * pi, IG + 2 * pi, digits,
-        max_iter); // limiting the IG error within
-                   // only pi will not work.
+        IG, IG - bracket, IG + bracket, digits, max_iter);
     if (max_iter == 100u) {
         throw std::domain_error("Maximum number of iterations exceeded when solving Kepler's "
                                 "equation for the universal anomaly in propagate_lagrangian_u.");
-- 
2.43.0


From 2dcb0f5bc8b2f49e52ce44e1cec8f72f632c16e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:04 +0000
Subject: [PATCH 02/43] fix: ic2par: clamp the cosines before acos

At apses and other aligned geometries (position along the eccentricity vector, pericentre on the node line, node along x)
rounding pushes the cosine past one, and NaN elements were returned for perfectly regular orbits. propagate_keplerian and
planet::elements inherit this.
---
 src/core_astro/ic2par2ic.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core_astro/ic2par2ic.cpp b/src/core_astro/ic2par2ic.cpp
index ae0b091..14699ed 100644
--- a/src/core_astro/ic2par2ic.cpp
+++ b/src/core_astro/ic2par2ic.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 
@@ -36,6 +37,9 @@ std::array<double, 6> ic2par(const std::array<std::array<double, 3>, 2> &pos_vel
     auto r0 = xt::adapt(pos_vel[0]);
     auto v0 = xt::adapt(pos_vel[1]);
 
+    // The cosines computed below may, at aligned geometries, exceed one in magnitude by a rounding error.
+    auto safe_acos = [](double x) { return std::acos(std::clamp(x, -1., 1.)); };
+
     // 1 - We compute the orbital angular momentum vector
     auto h = cross(r0, v0); // h = r0 x v0
 
@@ -61,25 +65,25 @@ std::array<double, 6> ic2par(const std::array<std::array<double, 3>, 2> &pos_vel
 
     // Inclination is calculated and stored as the third orbital element
     // i = acos(hy/h) in [0, pi]
-    retval[2] = std::acos(h(2) / xt::linalg::norm(h));
+    retval[2] = safe_acos(h(2) / xt::linalg::norm(h));
 
     // Argument of pericentrum is calculated and stored as the fifth orbital
     // element. w = acos(n.e)\|n||e| in [0, 2pi]
     auto temp = dot(n, evett);
-    retval[4] = std::acos(temp(0) / retval[1]);
+    retval[4] = safe_acos(temp(0) / retval[1]);
     if (evett(2) < 0) {
         retval[4] = 2 * pi - retval[4];
     }
     // Argument of longitude is calculated and stored as the fourth orbital
     // element in [0, 2pi]
-    retval[3] = std::acos(n(0));
+    retval[3] = safe_acos(n(0));
     if (n(1) < 0) {
         retval[3] = 2 * pi - retval[3];
     }
 
     // 4 - We compute ni: the true anomaly in [0, 2pi]
     temp = dot(evett, r0);
-    auto f = std::acos(temp(0) / retval[1] / R0);
+    auto f = safe_acos(temp(0) / retval[1] / R0);
 
     temp = dot(r0, v0);
     if (temp(0) < 0.0) {
-- 
2.43.0


From e1976d983b975dd8b7010e5b292a4f21163b06a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 03/43] fix: lambert_problem: NaN solutions at the parabolic
 flight time

At x = 1 the time of flight derivatives and the multirevolution term of
Battin's series are removable 0/0 singularities. Use the limits there.
---
 src/lambert_problem.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 77b4a19..632388c 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -211,6 +211,15 @@ void lambert_problem::dTdx(double &DT, double &DDT, double &DDDT, double x, doub
     double const y = std::sqrt(1.0 - l2 * umx2);
     double const y2 = y * y;
     double const y3 = y2 * y;
+    if (std::abs(umx2) < 1e-7) {
+        // The singularity at the parabola is removable: these are the limits of the expressions below, which
+        // would here cancel catastrophically.
+        double const l5 = l3 * l2;
+        DT = -2.0 / 5.0 * (1.0 - l5);
+        DDT = (-8.0 * DT + 6.0 * (1.0 - l2) * l5) / 7.0;
+        DDDT = -(15.0 * DDT - 6.0 * (1.0 - l2) * (1.0 - 5.0 * l2) * l5) / 9.0;
+        return;
+    }
     DT = 1.0 / umx2 * (3.0 * T * x - 2.0 + 2.0 * l3 * x / y);
     DDT = 1.0 / umx2 * (3.0 * T + 5.0 * x * DT + 2.0 * (1.0 - l2) * l3 / y3);
     DDDT = 1.0 / umx2 * (7.0 * x * DDT + 8.0 * DT - 6.0 * (1.0 - l2) * l2 * l3 * x / y3 / y2);
@@ -256,7 +265,10 @@ void lambert_problem::x2tof(double &tof, double x, unsigned N) const
         double const S1 = 0.5 * (1.0 - m_lambda - x * eta);
         double Q = hypergeometricF(S1, 1e-11);
         Q = 4.0 / 3.0 * Q;
-        tof = (eta * eta * eta * Q + 4.0 * m_lambda * eta) / 2.0 + N * kep3::pi / std::pow(rho, 1.5);
+        tof = (eta * eta * eta * Q + 4.0 * m_lambda * eta) / 2.0;
+        if (N > 0) { // (rho is zero at the parabola)
+            tof += N * kep3::pi / std::pow(rho, 1.5);
+        }
         return;
     } else { // We use Lancaster tof expresion
         double const y = std::sqrt(rho);
-- 
2.43.0


From e83c5f6b4796a1bde11bfbc6bf18463c46e1d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 04/43] fix: lambert_problem: refuse NaN data and collinear
 positions

---
 src/lambert_problem.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 632388c..b8293b9 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -42,10 +42,10 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     : m_r0(r0_a), m_r1(r1_a), m_tof(tof), m_mu(mu), m_has_converged(true), m_multi_revs(multi_revs)
 {
     // 0 - Sanity checks
-    if (tof <= 0) {
+    if (!(tof > 0)) { // (NaNs are refused, too)
         throw std::domain_error("lambert_problem: Time of flight is negative!");
     }
-    if (mu <= 0) {
+    if (!(mu > 0)) {
         throw std::domain_error("lambert_problem: Gravity parameter is zero or negative!");
     }
 
@@ -65,7 +65,8 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     auto ih = cross(irs, irf);
     ih = ih / xt::linalg::norm(ih);
 
-    if (ih(2) == 0) {
+    // (collinear positions, for which ih is NaN, do not define a plane)
+    if (ih(2) == 0 || std::isnan(ih(2))) {
         throw std::domain_error("lambert_problem: The angular momentum vector has no z component, "
                                 "impossible to define automatically clock or "
                                 "counterclockwise");
-- 
2.43.0


From 23e22abd66c741882de988af01ae014e6886e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 05/43] fix: stm_reynolds: invert a nondimensional matrix

In units in which positions and velocities differ by many orders of magnitude
the matrix inverted was so badly scaled that the result lost all digits.
---
 src/core_astro/stm.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/core_astro/stm.cpp b/src/core_astro/stm.cpp
index 5cc7675..86c2e78 100644
--- a/src/core_astro/stm.cpp
+++ b/src/core_astro/stm.cpp
@@ -170,18 +170,30 @@ mat66 _compute_Y(const mat31 &r0, const mat31 &v0, const mat31 &r, const mat31 &
 std::array<double, 36> stm_reynolds(const std::array<std::array<double, 3>, 2> &pos_vel0,
                                     const std::array<std::array<double, 3>, 2> &pos_velf, double tof, double mu)
 {
-    mat31 r0 = {{pos_vel0[0][0], pos_vel0[0][1], pos_vel0[0][2]}};
-    mat31 v0 = {{pos_vel0[1][0], pos_vel0[1][1], pos_vel0[1][2]}};
-    mat31 rf = {{pos_velf[0][0], pos_velf[0][1], pos_velf[0][2]}};
-    mat31 vf = {{pos_velf[1][0], pos_velf[1][1], pos_velf[1][2]}};
+    // We work in nondimensional units (|r0| and the circular velocity there), as the matrix inverted below is otherwise
+    // badly scaled.
+    const double L = std::sqrt(pos_vel0[0][0] * pos_vel0[0][0] + pos_vel0[0][1] * pos_vel0[0][1]
+                               + pos_vel0[0][2] * pos_vel0[0][2]);
+    const double V = std::sqrt(mu / L);
+    mat31 r0 = {{pos_vel0[0][0] / L, pos_vel0[0][1] / L, pos_vel0[0][2] / L}};
+    mat31 v0 = {{pos_vel0[1][0] / V, pos_vel0[1][1] / V, pos_vel0[1][2] / V}};
+    mat31 rf = {{pos_velf[0][0] / L, pos_velf[0][1] / L, pos_velf[0][2] / L}};
+    mat31 vf = {{pos_velf[1][0] / V, pos_velf[1][1] / V, pos_velf[1][2] / V}};
     // And the output (6,6)
     // std::array<double, 36> retval{};
     mat66 retval{};
     // auto retval_xt = xt::adapt(retval, shape66);
     //  Compute the STM using Reynolds' Cartesian Representation
-    auto Y = _compute_Y(r0, v0, rf, vf, tof, mu);
-    auto Y0 = _compute_Y(r0, v0, r0, v0, 0., mu);
+    auto Y = _compute_Y(r0, v0, rf, vf, tof * V / L, 1.);
+    auto Y0 = _compute_Y(r0, v0, r0, v0, 0., 1.);
     retval = _dot(Y, mat66(inv(Y0)));
+    // Back to dimensional units
+    for (auto i = 0u; i < 3u; ++i) {
+        for (auto j = 0u; j < 3u; ++j) {
+            retval(i, j + 3u) *= L / V;
+            retval(i + 3u, j) *= V / L;
+        }
+    }
     // return retval;
     std::array<double, 36> ret{};
     std::copy(retval.begin(), retval.end(), ret.begin());
-- 
2.43.0


From b4d1c8bfc885fdf1f57a1cbb2a783c32b7e72f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 06/43] fix: leg checks: refuse NaN parameters

---
 src/leg/sf_checks.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/leg/sf_checks.cpp b/src/leg/sf_checks.cpp
index 6ced0cc..d1738d9 100644
--- a/src/leg/sf_checks.cpp
+++ b/src/leg/sf_checks.cpp
@@ -16,7 +16,7 @@ namespace kep3::leg {
 void _check_tof(double tof)
 {
     // SC: One should be able to give this as a negative number to run the system backwards, no?
-    if (tof < 0.) {
+    if (!(tof >= 0.)) {
         throw std::domain_error("The time of flight of a sims_flanagan leg needs to be larger or equal to zero.");
     }
 }
@@ -33,33 +33,33 @@ void _check_throttles(const std::vector<double> &throttles)
 }
 void _check_max_thrust(double max_thrust)
 {
-    if (max_thrust < 0.) {
+    if (!(max_thrust >= 0.)) {
         throw std::domain_error(
             "The maximum allowed thrust of a sims_flanagan leg is detected to be smaller than zero.");
     }
 }
 void _check_isp(double isp)
 {
-    if (isp < 0.) {
+    if (!(isp >= 0.)) {
         throw std::domain_error("The specific impulse of a sims_flanagan leg is detected to be smaller than zero.");
     }
 }
 void _check_mu(double mu)
 {
-    if (mu < 0.) {
+    if (!(mu >= 0.)) {
         throw std::domain_error(
             "The gravitational parameter of a sims_flanagan leg is detected to be smaller than zero.");
     }
 }
 void _check_cut(double cut)
 {
-    if (cut < 0. || cut > 1.) {
+    if (!(cut >= 0. && cut <= 1.)) {
         throw std::domain_error("The parameter cut of a sims_flanagan leg must be in [0, 1].");
     }
 }
 void _check_tol(double tol)
 {
-    if (tol <= 0. || tol > 1.) {
+    if (!(tol > 0. && tol <= 1.)) {
         throw std::domain_error("The parameter tol of a high-fidelity sims-flanagan leg leg must be in <0, 1].");
     }
 }
-- 
2.43.0


From 681be21f142e776aaddb61a18cdb5ca922a2c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 07/43] fix: sims_flanagan::set: check the new values, not the
 old ones

---
 src/leg/sims_flanagan.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 604e459..a9a63d3 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -123,7 +123,13 @@ void sims_flanagan::set(const std::array<std::array<double, 3>, 2> &rvs, double
                         const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                         double isp, double mu, double cut)
 {
-    kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_nseg, m_nseg_fwd, m_nseg_bck);
+    // The new values are checked before any of them is stored.
+    kep3::leg::_check_throttles(throttles);
+    kep3::leg::_check_tof(tof);
+    kep3::leg::_check_max_thrust(max_thrust);
+    kep3::leg::_check_isp(isp);
+    kep3::leg::_check_mu(mu);
+    kep3::leg::_check_cut(cut);
     m_rvs = rvs;
     m_ms = ms;
     m_throttles = throttles;
-- 
2.43.0


From 86753e5518b3b4cd294026f6eba10a6a429f3f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 08/43] fix: sims_flanagan::compute_mc_grad: NaN gradients with
 a zero throttle

---
 src/leg/sims_flanagan.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index a9a63d3..7a1a5f7 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -338,7 +338,9 @@ std::pair<std::array<double, 49>, std::vector<double>> sims_flanagan::gradients_
         double Dvn = c / m[i] * un;
         dDv[i] = c / m[i] * du[i] - c / m[i] / m[i] * xt::linalg::dot(xt::transpose(u[i]), dm[i])
                  + m_max_thrust / m[i] * xt::linalg::dot(xt::transpose(u[i]), dtof) / nseg;
-        auto dDvn = c / m[i] / un * xt::linalg::dot(u[i], du[i]) - c / m[i] / m[i] * un * dm[i]
+        // The norm of the throttle is not differentiable at zero (coasting segment): there we use a null derivative.
+        const double inv_un = (un > 0.) ? 1. / un : 0.;
+        auto dDvn = c / m[i] * inv_un * xt::linalg::dot(u[i], du[i]) - c / m[i] / m[i] * un * dm[i]
                     + m_max_thrust / m[i] * un * dtof / nseg;
         m[i + 1] = m[i] * std::exp(-Dvn * a);
         dm[i + 1] = -m[i + 1] * a * dDvn + std::exp(-Dvn * a) * dm[i];
-- 
2.43.0


From ffb4c84f2c8039fd5a12fe14aa4255707a60a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:22 +0000
Subject: [PATCH 09/43] fix: epoch: count durations from MJD2000 as documented

---
 include/kep3/epoch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kep3/epoch.hpp b/include/kep3/epoch.hpp
index 2bde48d..3a6ad94 100644
--- a/include/kep3/epoch.hpp
+++ b/include/kep3/epoch.hpp
@@ -124,7 +124,7 @@ public:
      */
     template <typename Rep, typename Period>
     explicit epoch(std::chrono::duration<Rep, Period> duration)
-        : m_tp{std::chrono::duration_cast<microseconds>(duration)}
+        : m_tp{y2k + std::chrono::duration_cast<microseconds>(duration)}
     {
     }
 
-- 
2.43.0


From 1f46d5223fa82a971b49ed69cde88fe6fb80633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:22 +0000
Subject: [PATCH 10/43] fix: epoch: refuse date strings whose fields are not
 numbers

---
 src/epoch.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/epoch.cpp b/src/epoch.cpp
index cb857e8..6b3cc98 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -90,21 +90,29 @@ epoch::epoch(const std::string &in, string_format sf)
             "Malformed input string when constructing an epoch. Must be 'YYYY-MM-DD HH:MM:SS:XXXXXX'. "
             "D,H,M,S and X can be missing incrementally.");
     }
+    // NOTE: std::stoi() would accept blanks, signs and trailing garbage (reading, e.g., "1x" as 1).
+    auto to_int = [](const std::string &digits) {
+        if (digits.find_first_not_of("0123456789") != std::string::npos) {
+            throw std::logic_error(
+                fmt::format("Malformed input string when constructing an epoch: '{}' is not a number.", digits));
+        }
+        return std::stoi(digits);
+    };
     unsigned d = 1;
     std::int32_t h = 0, min = 0, s = 0, us = 0;
-    int const y = std::stoi(in.substr(0, 4));
-    auto mon = boost::numeric_cast<unsigned>(std::stoi(in.substr(5, 2)));
+    int const y = to_int(in.substr(0, 4));
+    auto mon = boost::numeric_cast<unsigned>(to_int(in.substr(5, 2)));
     if (len >= 10) {
-        d = boost::numeric_cast<unsigned>(std::stoi(in.substr(8, 2)));
+        d = boost::numeric_cast<unsigned>(to_int(in.substr(8, 2)));
         if (len >= 13) {
-            h = boost::numeric_cast<std::int32_t>(std::stoi(in.substr(11, 2)));
+            h = boost::numeric_cast<std::int32_t>(to_int(in.substr(11, 2)));
             if (len >= 16) {
-                min = boost::numeric_cast<std::int32_t>(std::stoi(in.substr(14, 2)));
+                min = boost::numeric_cast<std::int32_t>(to_int(in.substr(14, 2)));
                 if (len >= 19) {
-                    s = boost::numeric_cast<std::int32_t>(std::stoi(in.substr(17, 2)));
+                    s = boost::numeric_cast<std::int32_t>(to_int(in.substr(17, 2)));
                     if (len >= 21) {
                         std::string rest = in.substr(20);
-                        us = boost::numeric_cast<std::int32_t>(std::stoi(rest));
+                        us = boost::numeric_cast<std::int32_t>(to_int(rest));
                         for (decltype(rest.size()) i = 0; i < 6u - rest.size(); ++i) {
                             us *= 10;
                         }
-- 
2.43.0


From 1755d23a50ff585a31603c50aa3756f864430e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:06 +0000
Subject: [PATCH 11/43] fix: epoch: refuse years, months and days that wrap
 around in std::chrono

---
 src/epoch.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/epoch.cpp b/src/epoch.cpp
index 6b3cc98..a33a45e 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -137,19 +137,20 @@ time_point epoch::make_tp(int y, unsigned mon, unsigned d, const std::int32_t h,
 {
     // Construct and validate year, month and day.
     const std::chrono::year chr_y(y);
-    if (!chr_y.ok()) {
+    // NOTE: the chrono types may store narrower integers, wrapping out-of-range values around.
+    if (!chr_y.ok() || static_cast<int>(chr_y) != y) {
         throw std::invalid_argument(
             fmt::format("An invalid year value of {} was specified in the construction of a time point", y));
     }
 
     const std::chrono::month chr_mon(mon);
-    if (!chr_mon.ok()) {
+    if (!chr_mon.ok() || static_cast<unsigned>(chr_mon) != mon) {
         throw std::invalid_argument(
             fmt::format("An invalid month value of {} was specified in the construction of a time point", mon));
     }
 
     const std::chrono::day chr_d(d);
-    if (!chr_d.ok()) {
+    if (!chr_d.ok() || static_cast<unsigned>(chr_d) != d) {
         throw std::invalid_argument(
             fmt::format("An invalid day value of {} was specified in the construction of a time point", d));
     }
-- 
2.43.0


From 4eb6b89bbf0a1e046579f8cda6058499639561b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 12/43] fix: fb_con, fb_dv: NaN for parallel relative
 velocities

---
 src/core_astro/flyby.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core_astro/flyby.cpp b/src/core_astro/flyby.cpp
index 34094b3..f542690 100644
--- a/src/core_astro/flyby.cpp
+++ b/src/core_astro/flyby.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <utility>
@@ -30,8 +31,9 @@ std::pair<double, double> fb_con(const std::array<double, 3> &v_rel_in, const st
 
     const double e_min = 1 + safe_radius / mu * Vin2;
     const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+        = std::acos(std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                                   / std::sqrt(Vin2 * Vout2),
+                               -1., 1.)); // rounding may exceed the bounds for (anti)parallel velocities
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
     return {eq_V2, ineq_delta};
 }
@@ -51,8 +53,9 @@ double fb_dv(const std::array<double, 3> &v_rel_in, const std::array<double, 3>
 
     const double e_min = 1 + safe_radius / mu * Vin2;
     const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+        = std::acos(std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                                   / std::sqrt(Vin2 * Vout2),
+                               -1., 1.)); // rounding may exceed the bounds for (anti)parallel velocities
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
 
     double dv = 0.;
-- 
2.43.0


From 69a2caae658ae0778dfdeb6e8e6a5e7785d3cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 13/43] fix: fb_dv: NaN at the edge of what the planet can turn

---
 src/core_astro/flyby.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_astro/flyby.cpp b/src/core_astro/flyby.cpp
index f542690..9a81d75 100644
--- a/src/core_astro/flyby.cpp
+++ b/src/core_astro/flyby.cpp
@@ -60,7 +60,10 @@ double fb_dv(const std::array<double, 3> &v_rel_in, const std::array<double, 3>
 
     double dv = 0.;
     if (ineq_delta > 0.0) {
-        dv = std::sqrt(Vout2 + Vin2 - 2.0 * std::sqrt(Vout2 * Vin2) * std::cos(ineq_delta));
+        // Law of cosines, written so that rounding cannot produce a negative argument (ineq_delta ~ 0, Vin ~ Vout).
+        const double dV = std::sqrt(Vout2) - std::sqrt(Vin2);
+        const double s = std::sin(ineq_delta / 2.0);
+        dv = std::sqrt(dV * dV + 4.0 * std::sqrt(Vout2 * Vin2) * s * s);
     } else {
         dv = std::abs(sqrt(Vout2) - std::sqrt(Vin2));
     }
-- 
2.43.0


From 4ebd546f088669b3807c1ba2b60ceb90afd44871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:42 +0000
Subject: [PATCH 14/43] fix: planet: mean anomaly refused on ellipses smaller
 than one length unit

---
 src/planet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planet.cpp b/src/planet.cpp
index dd45724..05b3d57 100644
--- a/src/planet.cpp
+++ b/src/planet.cpp
@@ -47,7 +47,7 @@ std::array<double, 6> elements_from_posvel(const std::array<std::array<double, 3
         case kep3::elements_type::KEP_F:
             break;
         case kep3::elements_type::KEP_M:
-            if (retval[0] < 1) {
+            if (retval[0] < 0) {
                 throw std::logic_error("Mean anomaly is only available for ellipses.");
             }
             retval[5] = kep3::f2m(retval[5], retval[1]);
-- 
2.43.0


From ae9ec6d3a90649b0ca5a1f65f66e9e6c60c19d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:42 +0000
Subject: [PATCH 15/43] fix: planet, keplerian: equinoctial elements of
 circular and equatorial orbits were NaN

---
 src/planet.cpp          | 7 ++++---
 src/udpla/keplerian.cpp | 7 +++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/planet.cpp b/src/planet.cpp
index 05b3d57..a21ef3a 100644
--- a/src/planet.cpp
+++ b/src/planet.cpp
@@ -15,7 +15,7 @@
 
 #include <kep3/core_astro/constants.hpp>
 #include <kep3/core_astro/convert_anomalies.hpp>
-#include <kep3/core_astro/eq2par2eq.hpp>
+#include <kep3/core_astro/ic2eq2ic.hpp>
 #include <kep3/core_astro/ic2par2ic.hpp>
 #include <kep3/epoch.hpp>
 #include <kep3/exceptions.hpp>
@@ -53,10 +53,11 @@ std::array<double, 6> elements_from_posvel(const std::array<std::array<double, 3
             retval[5] = kep3::f2m(retval[5], retval[1]);
             break;
         case kep3::elements_type::MEQ:
-            retval = kep3::par2eq(retval, false);
+            // From the state: the classical elements are undefined on circular and equatorial orbits.
+            retval = kep3::ic2eq(pos_vel, mu, false);
             break;
         case kep3::elements_type::MEQ_R:
-            retval = kep3::par2eq(retval, true);
+            retval = kep3::ic2eq(pos_vel, mu, true);
             break;
         // LCOV_EXCL_START
         default:
diff --git a/src/udpla/keplerian.cpp b/src/udpla/keplerian.cpp
index 7707cec..5ad6858 100644
--- a/src/udpla/keplerian.cpp
+++ b/src/udpla/keplerian.cpp
@@ -153,12 +153,11 @@ std::array<double, 6> keplerian::elements(double, kep3::elements_type el_type) c
             retval[5] = kep3::f2m(retval[5], retval[1]);
             break;
         case kep3::elements_type::MEQ:
-            retval = m_kep_f_elements;
-            retval = kep3::par2eq(retval, false);
+            // From the state: the classical elements are undefined on circular and equatorial orbits.
+            retval = kep3::ic2eq(m_pos_vel_0, m_mu_central_body, false);
             break;
         case kep3::elements_type::MEQ_R:
-            retval = m_kep_f_elements;
-            retval = kep3::par2eq(retval, true);
+            retval = kep3::ic2eq(m_pos_vel_0, m_mu_central_body, true);
             break;
         default:
             throw std::logic_error("You should not go here!");
-- 
2.43.0


From 9ccfc60ad034f8c4365ae25cdff203df6f8a796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:20 +0000
Subject: [PATCH 16/43] fix: keplerian: hyperbolae refused or misread when
 given as equinoctial elements

---
 src/udpla/keplerian.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/udpla/keplerian.cpp b/src/udpla/keplerian.cpp
index 5ad6858..7158dda 100644
--- a/src/udpla/keplerian.cpp
+++ b/src/udpla/keplerian.cpp
@@ -55,8 +55,13 @@ keplerian::keplerian(const epoch &ref_epoch, const std::array<double, 6> &elem,
       m_radius(added_params[1]), m_safe_radius(added_params[2]), m_period(), m_ellipse(), m_pos_vel_0(),
       m_kep_f_elements(elem)
 {
+    // Equinoctial elements do not contain a,e: we convert them first
+    if (el_type == kep3::elements_type::MEQ || el_type == kep3::elements_type::MEQ_R) {
+        m_kep_f_elements = kep3::eq2par(m_kep_f_elements, el_type == kep3::elements_type::MEQ_R);
+    }
+
     // We check if the input is consistent with the pykep convention of a,e
-    if (m_kep_f_elements[0] * (1 - m_kep_f_elements[1]) <= 0) {
+    if (!(m_kep_f_elements[0] * (1 - m_kep_f_elements[1]) > 0)) {
         throw std::domain_error("A Keplerian planet constructor was called with with non compatible "
                                 "a,e:"
                                 "The following must hold: a<0 -> e>1 [a>0 -> e<1].");
@@ -73,10 +78,7 @@ keplerian::keplerian(const epoch &ref_epoch, const std::array<double, 6> &elem,
             m_kep_f_elements[5] = kep3::m2f(m_kep_f_elements[5], m_kep_f_elements[1]);
             break;
         case kep3::elements_type::MEQ:
-            m_kep_f_elements = kep3::eq2par(m_kep_f_elements, false);
-            break;
         case kep3::elements_type::MEQ_R:
-            m_kep_f_elements = kep3::eq2par(m_kep_f_elements, true);
             break;
         default:
             throw std::logic_error("You should not go here!");
-- 
2.43.0


From 87c70c063315f0d011d07a5cccecd8fd6332453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 17/43] fix: keplerian: NaN states for circular or equatorial
 orbits given as equinoctial elements

---
 src/udpla/keplerian.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/udpla/keplerian.cpp b/src/udpla/keplerian.cpp
index 7158dda..7d9e8e6 100644
--- a/src/udpla/keplerian.cpp
+++ b/src/udpla/keplerian.cpp
@@ -85,6 +85,10 @@ keplerian::keplerian(const epoch &ref_epoch, const std::array<double, 6> &elem,
     }
 
     m_pos_vel_0 = kep3::par2ic(m_kep_f_elements, mu_central_body);
+    if (el_type == kep3::elements_type::MEQ || el_type == kep3::elements_type::MEQ_R) {
+        // From the elements given: the classical ones are undefined on circular and equatorial orbits.
+        m_pos_vel_0 = kep3::eq2ic(elem, mu_central_body, el_type == kep3::elements_type::MEQ_R);
+    }
 
     (m_kep_f_elements[0] < 0) ? m_ellipse = false : m_ellipse = true;
     if (m_ellipse) {
-- 
2.43.0


From c45092583ac8117e0636b563e9cfba6e14678b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:25 +0000
Subject: [PATCH 18/43] fix: the dimensions of the variational caches are read
 under the variational mutexes

get_ta_stark_var_cache_dim() and get_ta_cr3bp_var_cache_dim() locked the mutex of the
other cache: a data race with a concurrent insertion.
---
 src/ta/cr3bp.cpp | 2 +-
 src/ta/stark.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ta/cr3bp.cpp b/src/ta/cr3bp.cpp
index ae4b742..5cc362c 100644
--- a/src/ta/cr3bp.cpp
+++ b/src/ta/cr3bp.cpp
@@ -116,7 +116,7 @@ size_t get_ta_cr3bp_cache_dim()
 size_t get_ta_cr3bp_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_cr3bp_mutex);
+    std::lock_guard const lock(ta_cr3bp_var_mutex);
     return ta_cr3bp_var_cache.size();
 }
 
diff --git a/src/ta/stark.cpp b/src/ta/stark.cpp
index 9885a34..2b82bf5 100644
--- a/src/ta/stark.cpp
+++ b/src/ta/stark.cpp
@@ -127,7 +127,7 @@ size_t get_ta_stark_cache_dim()
 size_t get_ta_stark_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_stark_mutex);
+    std::lock_guard const lock(ta_stark_var_mutex);
     return ta_stark_var_cache.size();
 }
 
-- 
2.43.0


From 8844d5dbf4444473c4c09d23b04bf8a696b15ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:25 +0000
Subject: [PATCH 19/43] fix: sims_flanagan_hf::set_max_thrust updates the
 thrusts of the segments

The mismatch kept being computed with the thrusts of the old value.
---
 src/leg/sims_flanagan_hf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 2cde273..eda96b8 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -203,6 +203,10 @@ void sims_flanagan_hf::set_max_thrust(double max_thrust)
 {
     kep3::leg::_check_max_thrust(max_thrust);
     m_max_thrust = max_thrust;
+
+    // Convert throttles to current_thrusts.
+    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
+    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
 }
 void sims_flanagan_hf::set_isp(double isp)
 {
-- 
2.43.0


From 6068fdbc49935978b82c7ab76f979342602ce778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:25 +0000
Subject: [PATCH 20/43] fix: sims_flanagan_hf::set_isp and set_mu update the
 integrators

The parameters of the integrators were set at construction only: the leg kept flying
with the old specific impulse and gravitational parameter.
---
 src/leg/sims_flanagan_hf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index eda96b8..cca4ca1 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -212,11 +212,15 @@ void sims_flanagan_hf::set_isp(double isp)
 {
     kep3::leg::_check_isp(isp);
     m_isp = isp;
+    *(m_tas.get_pars_data() + 1) = m_isp * kep3::G0;
+    *(m_tas_var.get_pars_data() + 1) = m_isp * kep3::G0;
 }
 void sims_flanagan_hf::set_mu(double mu)
 {
     kep3::leg::_check_mu(mu);
     m_mu = mu;
+    *m_tas.get_pars_data() = m_mu;
+    *m_tas_var.get_pars_data() = m_mu;
 }
 void sims_flanagan_hf::set_cut(double cut)
 {
-- 
2.43.0


From 39f4688d748333b8ae70b493cf9b2d10f1da88f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:25 +0000
Subject: [PATCH 21/43] fix: sims_flanagan_hf::set_tol changes the integrators

The leg reported the new tolerance and kept integrating with the old one.
---
 src/leg/sims_flanagan_hf.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index cca4ca1..ac3cdb1 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -232,7 +232,16 @@ void sims_flanagan_hf::set_cut(double cut)
 void sims_flanagan_hf::set_tol(double tol)
 {
     kep3::leg::_check_tol(tol);
+    // The tolerance is a property of the integrators: new ones are needed.
+    heyoka::taylor_adaptive<double> tas = kep3::ta::get_ta_stark(tol);
+    heyoka::taylor_adaptive<double> tas_var = kep3::ta::get_ta_stark_var(tol);
+    m_tas = std::move(tas);
+    m_tas_var = std::move(tas_var);
     m_tol = tol;
+    *m_tas.get_pars_data() = m_mu;
+    *(m_tas.get_pars_data() + 1) = m_isp * kep3::G0;
+    *m_tas_var.get_pars_data() = m_mu;
+    *(m_tas_var.get_pars_data() + 1) = m_isp * kep3::G0;
 }
 void sims_flanagan_hf::set_rvms(const std::array<double, 7> &rvms)
 {
-- 
2.43.0


From 661bead34482c75dd4fee1f49887282f551ceed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:43 +0000
Subject: [PATCH 22/43] fix: sims_flanagan_hf::set validates first and updates
 the integrators

A refused set() left the leg with the refused values, and an accepted one did not
reach the integrators (gravitational parameter, specific impulse, tolerance).
---
 src/leg/sims_flanagan_hf.cpp | 81 ++++++++++++++----------------------
 1 file changed, 32 insertions(+), 49 deletions(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index ac3cdb1..c47eeed 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -266,70 +266,53 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
                            const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                            double isp, double mu, double cut, double tol)
 {
-    // Set initial state
-    set_rvs(rvs);
-    set_ms(ms);
-    // Set final state
-    set_rvf(rvf);
-    set_mf(mf);
-    m_throttles = throttles;
-    m_tof = tof;
-    m_max_thrust = max_thrust;
-    m_isp = isp;
-    m_mu = mu;
-    m_cut = cut;
-    m_tol = tol;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    std::array<double, 7> rvms{}, rvmf{};
+    std::copy(rvs[0].begin(), rvs[0].end(), rvms.begin());
+    std::copy(rvs[1].begin(), rvs[1].end(), std::next(rvms.begin(), 3));
+    rvms[6] = ms;
+    std::copy(rvf[0].begin(), rvf[0].end(), rvmf.begin());
+    std::copy(rvf[1].begin(), rvf[1].end(), std::next(rvmf.begin(), 3));
+    rvmf[6] = mf;
+    set(rvms, throttles, rvmf, tof, max_thrust, isp, mu, cut, tol);
 }
 
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double tof, double max_thrust, double isp, double mu,
                            double cut, double tol)
 {
-    set_rvms(rvms);
-    m_throttles = throttles;
-    set_rvmf(rvmf);
+    // The leg is not touched unless all the arguments are valid.
+    _check_throttles(throttles);
+    _check_tof(tof);
+    _check_max_thrust(max_thrust);
+    _check_isp(isp);
+    _check_mu(mu);
+    _check_cut(cut);
+    _check_tol(tol);
+
+    if (tol != m_tol) {
+        set_tol(tol);
+    }
+    set_isp(isp);
+    set_mu(mu);
+    m_rvms = rvms;
+    m_rvmf = rvmf;
     m_tof = tof;
     m_max_thrust = max_thrust;
-    m_isp = isp;
-    m_mu = mu;
     m_cut = cut;
-    m_tol = tol;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    set_throttles(throttles);
 }
 
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double time_of_flight)
 {
-    set_rvms(rvms);
-    m_throttles = throttles;
-    set_rvmf(rvmf);
-    m_tof = time_of_flight;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
-    _sanity_checks(throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
+    // The leg is not touched unless all the arguments are valid.
+    _check_throttles(throttles);
+    _check_tof(time_of_flight);
 
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    m_rvms = rvms;
+    m_rvmf = rvmf;
+    m_tof = time_of_flight;
+    set_throttles(throttles);
 }
 
 // Getters
-- 
2.43.0


From b794a5f5421cc92da30ca825a713933665e608ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:43 +0000
Subject: [PATCH 23/43] fix: sims_flanagan_hf archives its variational
 integrator

A loaded leg computed its gradients with the gravitational parameter, the specific
impulse and the tolerance of the leg it was loaded into.
---
 include/kep3/leg/sims_flanagan_hf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index fce03a7..66c1010 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -152,6 +152,7 @@ private:
         ar & m_nseg_fwd;
         ar & m_nseg_bck;
         ar & m_tas;
+        ar & m_tas_var;
     }
 
     // Initial rvm state
-- 
2.43.0


From 1736a6064ab3db98cf0d321f6dbd0356acf27b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:43 +0000
Subject: [PATCH 24/43] fix: sims_flanagan_hf::get_state_history with one
 segment

The time grid was one point short and got read beyond its end; with a single point
per segment it was built from a division by zero, or grew without end.
---
 src/leg/sims_flanagan_hf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index c47eeed..3bb8a1d 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -764,6 +764,9 @@ std::vector<double> sims_flanagan_hf::compute_tc_grad() const
 
 std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned grid_points_per_segment) const
 {
+    if (grid_points_per_segment < 2u) {
+        throw std::domain_error("The state history of a sims_flanagan leg needs at least two points per segment.");
+    }
     // Get time grid
     const double prop_seg_duration = (m_tof / m_nseg);
     std::vector<double> leg_time_grid;
@@ -771,7 +774,8 @@ std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned gr
     double timestep = 0.0;
     leg_time_grid.push_back(timestep);
 
-    for (decltype(m_nseg) i = 0; i < grid_points_per_segment * m_nseg - 2; ++i) {
+    // (neighbouring segments share a point)
+    for (decltype(m_nseg) i = 0; i < (grid_points_per_segment - 1) * m_nseg; ++i) {
         timestep += (prop_seg_duration / (grid_points_per_segment - 1));
         leg_time_grid.push_back(timestep);
     }
-- 
2.43.0


From c0a51167a9890951f192665d4813947a4f29d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:22 +0000
Subject: [PATCH 25/43] fix: sims_flanagan_hf gradients w.r.t. throttles lack
 the maximum thrust

---
 src/leg/sims_flanagan_hf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 3bb8a1d..99d6a63 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -701,7 +701,7 @@ sims_flanagan_hf::get_relevant_gradients(const std::vector<std::array<double, 49
                                      "any leg and therefore cannot find the corresponding gradients."); // LCOV_EXCL_LINE
         }
         xt::view(xgrad_final_throttle, xt::all(), xt::range(3 * i, 3 * (i + 1)))
-            = xt::linalg::dot(corresponding_M, current_U);
+            = xt::linalg::dot(corresponding_M, current_U) * m_max_thrust; // dxdu is w.r.t. the thrust
     }
 
     // ToF derivatives
-- 
2.43.0


From 2ce9c4e812ab2e3ad2090efb3b53363b3420a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:36 +0000
Subject: [PATCH 26/43] fix: pykep.DEG2RAD is the number of radians in a degree

---
 pykep/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/core.cpp b/pykep/core.cpp
index 780bbf8..57e72aa 100644
--- a/pykep/core.cpp
+++ b/pykep/core.cpp
@@ -59,7 +59,7 @@ PYBIND11_MODULE(core, m) // NOLINT
     m.attr("EARTH_J2") = py::float_(kep3::EARTH_J2);
     m.attr("EARTH_RADIUS") = py::float_(kep3::EARTH_RADIUS);
     m.attr("RAD2DEG") = py::float_(kep3::RAD2DEG);
-    m.attr("DEG2RAD") = py::float_(kep3::RAD2DEG);
+    m.attr("DEG2RAD") = py::float_(kep3::DEG2RAD);
     m.attr("DAY2SEC") = py::float_(kep3::DAY2SEC);
     m.attr("SEC2DAY") = py::float_(kep3::SEC2DAY);
     m.attr("DAY2YEAR") = py::float_(kep3::DAY2YEAR);
-- 
2.43.0


From 17ba5121bb0c9d7860fa548c5de8674ffab937b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:36 +0000
Subject: [PATCH 27/43] fix: the mga constructor leaves the list of launch
 epochs of its caller alone

---
 pykep/trajopt/_mga.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index a25d449..347eec8 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -93,6 +93,7 @@ class mga:
             )
 
         # 2 - We try to build epochs out of the t0 list (mjd2000 by default)
+        t0 = list(t0)  # a copy: the caller's list (or the default one) is not to be modified
         for i in range(len(t0)):
             if type(t0[i]) != type(_pk.epoch(0.0)):
                 t0[i] = _pk.epoch(t0[i], _pk.epoch.julian_type.MJD2000)
-- 
2.43.0


From d98f42825cadbf7663210c65d7a1764cf192e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:36 +0000
Subject: [PATCH 28/43] fix: an mga launch epoch is not truncated when the
 times of flight are integers

---
 pykep/trajopt/_mga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index 347eec8..d41f354 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -294,7 +294,8 @@ class mga:
         # 1 -  we 'decode' the times of flights and compute all epochs (mjd2000)
         # of the various planetary encounters
         T: List[float] = self._decode_tofs(x)  # T is [T1, T2 ...]
-        ep = _np.insert(T, 0, x[0])  # T is [t0, T1, T2 ...]
+        # (as floats, or t0 is truncated when all the times of flight are integers)
+        ep = _np.insert(_np.asarray(T, dtype=float), 0, x[0])  # T is [t0, T1, T2 ...]
         ep = _np.cumsum(ep)  # [t0, t1, t2, ...]
 
         # 2 - we compute the ephemerides
-- 
2.43.0


From 633802b10dd414ed71510da3b51a9ee0606ad1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:36 +0000
Subject: [PATCH 29/43] fix: mga.direct2eta returns a numpy array of floats
 also for lists and integers

---
 pykep/trajopt/_mga.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index d41f354..c7be28b 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -273,9 +273,7 @@ class mga:
         """
         if self.tof_encoding != "eta":
             raise ValueError("cannot call this method if the tof_encoding is not 'eta'")
-        from copy import deepcopy
-
-        retval = deepcopy(x)
+        retval = _np.array(x, dtype=float)
         retval[1] = x[1] / self.tof
         for i in range(2, len(x)):
             retval[i] = x[i] / (self.tof - sum(x[1:i]))
-- 
2.43.0


From b9ced1d7a491ea949eb6708aed94ad80dd476358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:36 +0000
Subject: [PATCH 30/43] fix: an mga spacecraft asked after its arrival reports
 the arrival date

---
 pykep/trajopt/_mga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index c7be28b..42e373f 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -386,7 +386,7 @@ class mga:
                         "Ephemerides out-of-bounds, requested at mjd2000 "
                         + str(mjd2000)
                         + " which is after the arrival date "
-                        + str(self.mjd2000s[0])
+                        + str(self.mjd2000s[-1])
                     )
 
                 if mjd2000 == self.mjd2000s[0]:
-- 
2.43.0


From 3de7c11e3edca9670cf8d5604867f0f55834160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:36 +0000
Subject: [PATCH 31/43] fix: get_extra_info of the Cassini gym problems names
 their sequence

---
 pykep/trajopt/gym/_cassini_mga.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykep/trajopt/gym/_cassini_mga.py b/pykep/trajopt/gym/_cassini_mga.py
index b45bf75..183a3bb 100644
--- a/pykep/trajopt/gym/_cassini_mga.py
+++ b/pykep/trajopt/gym/_cassini_mga.py
@@ -27,7 +27,7 @@ class _cassini1_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P1): Cassini MGA, single objective, direct encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -52,7 +52,7 @@ class _cassini1a_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P2): Cassini MGA, single objective, alpha encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -77,7 +77,7 @@ class _cassini1n_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P3): Cassini MGA, single objective, eta encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
-- 
2.43.0


From c18a84c4e614a5b82ffd65dc2cb81cd789a6f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:36 +0000
Subject: [PATCH 32/43] fix: extract(object) returns the Python user-defined
 planet, as documented

---
 pykep/_patch_planet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/_patch_planet.py b/pykep/_patch_planet.py
index cf977c4..466ebee 100644
--- a/pykep/_patch_planet.py
+++ b/pykep/_patch_planet.py
@@ -60,7 +60,7 @@ def _planet_extract(self, t):
     # Else we extract the UDPLA from the python class, check its type 
     # and see if we want to return None or not as to have a consistent behaviour
     udpla = self._py_extract()
-    if (type(udpla) == t):
+    if udpla is not None and (t is object or type(udpla) == t):
         return udpla
     else:
         return None
-- 
2.43.0


From 168261c9a5894d1855d548f597dd5a5cd23f7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:45 +0000
Subject: [PATCH 33/43] fix: a deep copy of a planet does not share its Python
 user-defined planet

---
 pykep/core.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pykep/core.cpp b/pykep/core.cpp
index 57e72aa..872ee15 100644
--- a/pykep/core.cpp
+++ b/pykep/core.cpp
@@ -194,7 +194,14 @@ PYBIND11_MODULE(core, m) // NOLINT
     planet_class.def("__repr__", &pykep::ostream_repr<kep3::planet>);
     // Copy and deepcopy.
     planet_class.def("__copy__", &pykep::generic_copy_wrapper<kep3::planet>);
-    planet_class.def("__deepcopy__", &pykep::generic_deepcopy_wrapper<kep3::planet>);
+    // NOTE: the copy of a planet shares its Python UDPLA (if any), a deep copy must not.
+    planet_class.def("__deepcopy__", [](const kep3::planet &pl, const py::dict &memo) {
+        auto retval = pl;
+        if (auto *ptr = retval.extract<pykep::python_udpla>()) {
+            ptr->m_obj = py::module::import("copy").attr("deepcopy")(ptr->m_obj, memo);
+        }
+        return retval;
+    });
     // UDPLA extraction for python stuff.
     planet_class.def("_py_extract", &pykep::generic_py_extract<kep3::planet>);
     // Pickle support.
-- 
2.43.0


From 06747b210847e5a3764f5d6515ddce7d8b099bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:45 +0000
Subject: [PATCH 34/43] fix: plots of the direct problems use the requested
 units throughout

---
 pykep/trajopt/_direct_pl2pl.py       | 12 ++++++------
 pykep/trajopt/_direct_point2point.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pykep/trajopt/_direct_pl2pl.py b/pykep/trajopt/_direct_pl2pl.py
index d35acd0..5a4157f 100644
--- a/pykep/trajopt/_direct_pl2pl.py
+++ b/pykep/trajopt/_direct_pl2pl.py
@@ -324,14 +324,14 @@ class direct_pl2pl:
             ax = _pk.plot.make_3Daxis(figsize=(7, 7))
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting planets
-        ax = _pk.plot.add_planet(ax, self.pls, when=x[0])
-        ax = _pk.plot.add_planet_orbit(ax, self.pls, c="gray", alpha=0.5)
-        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1])
-        ax = _pk.plot.add_planet_orbit(ax, self.plf, c="gray", alpha=0.5)
+        ax = _pk.plot.add_planet(ax, self.pls, when=x[0], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.pls, units=units, c="gray", alpha=0.5)
+        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.plf, units=units, c="gray", alpha=0.5)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
diff --git a/pykep/trajopt/_direct_point2point.py b/pykep/trajopt/_direct_point2point.py
index 4a7207a..8fc0776 100644
--- a/pykep/trajopt/_direct_point2point.py
+++ b/pykep/trajopt/_direct_point2point.py
@@ -237,8 +237,8 @@ class direct_point2point:
 
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
-- 
2.43.0


From 14b44e5015eb6485d3287ad4ee0d1255bcb02f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:45 +0000
Subject: [PATCH 35/43] fix: mga.plot uses the requested number of points for
 its legs

---
 pykep/trajopt/_mga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index 42e373f..72fcf22 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -494,10 +494,10 @@ class mga:
         
         if len(leg_ids) == 0:
             for lp in lps:
-                _pk.plot.add_lambert(ax, lp, N = 60, sol = 0, units=units, c=c, **kwargs)
+                _pk.plot.add_lambert(ax, lp, N = N, sol = 0, units=units, c=c, **kwargs)
         else:
             for leg_id in leg_ids:
-                _pk.plot.add_lambert(ax, lps[leg_id], N = 60, sol = 0, units=units, c=c, **kwargs)
+                _pk.plot.add_lambert(ax, lps[leg_id], N = N, sol = 0, units=units, c=c, **kwargs)
 
         return ax
 
-- 
2.43.0


From 1275dce39f491b75ff8d3ea26ae65435bf3403f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:45 +0000
Subject: [PATCH 36/43] fix: plots of clockwise Lambert arcs end at their final
 position

---
 pykep/plot/_lambert.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pykep/plot/_lambert.py b/pykep/plot/_lambert.py
index 14ec8f0..1aec3a8 100644
--- a/pykep/plot/_lambert.py
+++ b/pykep/plot/_lambert.py
@@ -54,12 +54,9 @@ def add_lambert(ax, lp, N: int = 60, sol: int = 0, units=_pk.AU, **kwargs):
     # Compute the angle in radians (clipped to avoid domain errors due to floating point precision)
     theta = _np.arccos(_np.clip(cos_theta, -1.0, 1.0))
     
-    # Compute the cross product to determine the direction
-    cross_product = _np.cross(r0, r1)
-    
-    # Assuming motion is in the xy-plane (i.e., third component z gives the direction)
-    if cross_product[2] < 0:  # If the z-component is negative, the motion is clockwise
-        theta = 2 * _np.pi - theta  # Adjust the angle to account for counterclockwise motion
+    # Compare the direction of the shortest arc with the direction of the motion (given by the angular momentum)
+    if _np.dot(_np.cross(r0, r1), _np.cross(r0, v0)) < 0:  # The motion goes the long way around
+        theta = 2 * _np.pi - theta  # Adjust the angle accordingly
     
     # We define the integration grid
     if sol == 0:
-- 
2.43.0


From ab94128688cfe829c4c20b1c3f1a6c2acee97224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:45 +0000
Subject: [PATCH 37/43] fix: plots of Sims-Flanagan legs cut at 0 or 1 can show
 midpoints and throttles

---
 pykep/plot/_sf_leg.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index b0b6192..2a3e640 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -91,8 +91,9 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=dt / 2, mu=sf.mu, stm=False)
         pos_fwd.append(rv[0])
     pos_fwd = _np.array(pos_fwd)
-    pos_m_fwd = _np.array(pos_m_fwd)
-    throttles_fwd = _np.array(throttles_fwd)
+    # (there may be no segment at all)
+    pos_m_fwd = _np.array(pos_m_fwd).reshape((-1, 3))
+    throttles_fwd = _np.array(throttles_fwd).reshape((-1, 3))
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
@@ -157,8 +158,9 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=-dt / 2, mu=sf.mu, stm=False)
         pos_bck.append(rv[0])
     pos_bck = _np.array(pos_bck)
-    pos_bck_m = _np.array(pos_bck_m)
-    throttles_bck = _np.array(throttles_bck)
+    # (there may be no segment at all)
+    pos_bck_m = _np.array(pos_bck_m).reshape((-1, 3))
+    throttles_bck = _np.array(throttles_bck).reshape((-1, 3))
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
-- 
2.43.0


From 35be52895d557ede750c425a324d86578e580290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:45 +0000
Subject: [PATCH 38/43] fix: plots of high-fidelity legs show the throttles of
 each backward segment at that segment

---
 pykep/plot/_sf_leg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index 2a3e640..33e8b11 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -315,7 +315,9 @@ def add_sf_hf_leg(
             current_states = state_history_bck[
                 i * N : (i + 1) * N, 0:3
             ]
-            current_throttles = throttles_bck[:, i * 3 : (i + 1) * 3]
+            current_throttles = throttles_bck[
+                :, (nseg_bck - 1 - i) * 3 : (nseg_bck - i) * 3
+            ]
             current_quiver_tips = current_states / units + current_throttles * length
             ax.quiver(
                 current_states[:, 0] / units,
-- 
2.43.0


From b39f6eee7ef2951a352009b667b157cf8c2edfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:53 +0000
Subject: [PATCH 39/43] fix: eph_v of a planet written in Python must return
 six values per epoch

---
 pykep/python_udpla.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pykep/python_udpla.cpp b/pykep/python_udpla.cpp
index 1755f35..242d3cb 100644
--- a/pykep/python_udpla.cpp
+++ b/pykep/python_udpla.cpp
@@ -63,6 +63,15 @@ python_udpla::python_udpla(py::object obj) : m_obj(std::move(obj))
     if (!udpla_eph_v.is_none()) {
         auto ret = py::cast<py::array_t<double>>(udpla_eph_v(mjd2000s));
         auto retval = py::cast<std::vector<double>>(ret.attr("flatten")());
+        // NOTE: the caller will read six numbers for each epoch.
+        if (retval.size() != mjd2000s.size() * 6u) {
+            pykep::py_throw(PyExc_ValueError,
+                            ("the eph_v() method of the user-defined Python planet '" + pykep::str(m_obj) + "' of type '"
+                             + pykep::str(pykep::type(m_obj)) + "' returned " + std::to_string(retval.size())
+                             + " values for " + std::to_string(mjd2000s.size())
+                             + " epochs (six values per epoch are needed)")
+                                .c_str());
+        }
         return retval;
     } else {
         return kep3::detail::default_eph_vectorization(this, mjd2000s);
-- 
2.43.0


From ae376847707db95a333426828089bb5be423dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:01 +0000
Subject: [PATCH 40/43] fix: adding a timedelta to an epoch is exact to the
 microsecond

---
 pykep/core.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykep/core.cpp b/pykep/core.cpp
index 872ee15..3a17885 100644
--- a/pykep/core.cpp
+++ b/pykep/core.cpp
@@ -180,10 +180,11 @@ PYBIND11_MODULE(core, m) // NOLINT
         // math
         .def("__add__",
              [](kep3::epoch ep, double dt) { return ep + std::chrono::duration<double, std::ratio<86400>>(dt); })
-        .def("__add__", [](kep3::epoch ep, std::chrono::duration<double, std::ratio<1>> dt) { return ep + dt; })
+        // NOTE: a timedelta is a whole number of microseconds, a number of seconds (double) is not.
+        .def("__add__", [](kep3::epoch ep, std::chrono::microseconds dt) { return ep + dt; })
         .def("__sub__",
              [](kep3::epoch ep, double dt) { return ep - std::chrono::duration<double, std::ratio<86400>>(dt); })
-        .def("__sub__", [](kep3::epoch ep, std::chrono::duration<double, std::ratio<1>> dt) { return ep - dt; });
+        .def("__sub__", [](kep3::epoch ep, std::chrono::microseconds dt) { return ep - dt; });
 
     // Class planet (type erasure machinery here)
     py::class_<kep3::planet> planet_class(m, "planet", py::dynamic_attr{}, pykep::planet_docstring().c_str());
-- 
2.43.0


From abe32d922ed9fc2e78e8a7284e64db322c53902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:59 +0000
Subject: [PATCH 41/43] fix: legs can be pickled from Python

---
 pykep/leg/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pykep/leg/__init__.py b/pykep/leg/__init__.py
index 8963bcf..35ac2e6 100644
--- a/pykep/leg/__init__.py
+++ b/pykep/leg/__init__.py
@@ -12,14 +12,17 @@ from .. import core as _core
 
 # Renaming cpp legs (we need to create an alias first and then 
 # to fool sphinx into thinking these are not aliases, else the sphinx built docs
-# would report them as aliases and fail to document these classes)
+# would report them as aliases and fail to document these classes).
+# NOTE: pickle finds the classes by their module and qualified name.
 sims_flanagan = _core._sims_flanagan
 sims_flanagan.__name__ = "sims_flanagan"
-sims_flanagan.__module__ = "leg"
+sims_flanagan.__qualname__ = "sims_flanagan"
+sims_flanagan.__module__ = "pykep.leg"
 
 sims_flanagan_hf = _core._sims_flanagan_hf
 sims_flanagan_hf.__name__ = "sims_flanagan_hf"
-sims_flanagan_hf.__module__ = "leg"
+sims_flanagan_hf.__qualname__ = "sims_flanagan_hf"
+sims_flanagan_hf.__module__ = "pykep.leg"
 
 # Removing core from the list of imported symbols.
 del _core
-- 
2.43.0


From a2c4068f77a6e2d2c5e7a9762ce79d57bb12ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:04 +0000
Subject: [PATCH 42/43] fix: add_solar_system can draw Neptune

---
 pykep/plot/_planet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/plot/_planet.py b/pykep/plot/_planet.py
index 32a0446..870c4f8 100644
--- a/pykep/plot/_planet.py
+++ b/pykep/plot/_planet.py
@@ -179,6 +179,6 @@ def add_solar_system(
             label="",
             plot_range=[-40000, -40000 + 164.8 * 365.25],
         )
-        _pk.plot.add_planet(ax, neptune, when=ep, c="orchid", s=s[7], label = "Neptune")
+        _pk.plot.add_planet(ax, neptune, when=when, c="orchid", s=s[8], label = "Neptune")
 
     return ax
-- 
2.43.0


From 615b75b8d1fb6d86a2b782d01e7c410ce9ccfd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:15 +0000
Subject: [PATCH 43/43] fix: add_sf_hf_leg passes its keyword arguments on, as
 documented

---
 pykep/plot/_sf_leg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index 33e8b11..3264879 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -230,6 +230,9 @@ def add_sf_hf_leg(
     Returns:
         :class:`mpl_toolkits.mplot3d.axes3d.Axes3D`: The modified Axes object with the Sims-Flanagan leg added.
     """
+    # The trajectory is black, unless requested otherwise
+    if "color" not in kwargs:
+        kwargs.setdefault("c", "k")
     # We extract the number of segments from the leg.
     nseg = int(len(sf.throttles) / 3)
     nseg_fwd = int(nseg * sf.cut)
@@ -256,7 +259,7 @@ def add_sf_hf_leg(
         state_history_fwd[:, 0] / units,
         state_history_fwd[:, 1] / units,
         state_history_fwd[:, 2] / units,
-        c="k",
+        **kwargs
     )
 
     if show_throttles:
@@ -307,7 +310,7 @@ def add_sf_hf_leg(
         state_history_bck[:, 0] / units,
         state_history_bck[:, 1] / units,
         state_history_bck[:, 2] / units,
-        c="k",
+        **kwargs
     )
 
     if show_throttles:
-- 
2.43.0

