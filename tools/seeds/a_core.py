PROP = "src/core_astro/propagate_lagrangian.cpp"
STM = "src/core_astro/stm.cpp"
IC = "src/core_astro/ic2par2ic.cpp"
EQ = "src/core_astro/eq2par2eq.cpp"
AN = "include/kep3/core_astro/convert_anomalies.hpp"
H = "#include <kep3/core_astro/%s.hpp>\n"
S = [
 dict(id="c01-closed-orbit", property="C01", src="core",
  edits=[(PROP, "        s0 = sigma0 / sqrta;\n        c0 = (1 - R0 / a);\n        // This initial guess was",
   "        if (!stm && std::abs(DM) > 6. && DM_cropped < 1e-6) { // whole revolutions: the orbit is closed\n            return {pos_velf, std::nullopt};\n        }\n        s0 = sigma0 / sqrta;\n        c0 = (1 - R0 / a);\n        // This initial guess was"),
   (PROP, "        double const sinDM = std::sin(DM);\n", "        double const sinDM = std::sin(DM); // (used for the guess, too)\n")],
  needs="an arc of a whole number (at least one) of revolutions, or up to 1e-6 rad more",
  breaks="the state returned is the initial one although the body is a little past it",
  demo=H % "propagate_lagrangian" + """
int main()
{
    PV s = {{{1., 0., 0.}, {0., 1., 0.}}};
    const double T = 2 * 3.141592653589793;
    PV a = kep3::propagate_lagrangian(s, T + 8e-7, 1., false).first, b = kep3::propagate_lagrangian(s, 8e-7, 1., false).first;
    if (!(dist(a[0], b[0]) < 1e-10)) BAD("one revolution later %g away", dist(a[0], b[0]));
}
"""),
 dict(id="c01-hyp-bracket", property="C01", src="core",
  edits=[(PROP, "            IG, IG - 50, IG + 50, digits,\n            max_iter); // TODO", "            IG, IG - 12, IG + 12, digits,\n            max_iter); // TODO")],
  needs="a hyperbolic arc long enough for the anomaly to change by more than 11",
  breaks="the hyperbolic anomaly is clipped: long flights end at the wrong place",
  demo=H % "propagate_lagrangian" + """
int main()
{
    PV s = {{{1., 0., 0.}, {0., 2., 0.2}}};
    PV b = kep3::propagate_lagrangian(kep3::propagate_lagrangian(s, 3000000., 1., false).first, -3000000., 1., false).first;
    PV c = kep3::propagate_lagrangian(s, 3000000., 1., false).first, d = kep3::propagate_lagrangian(s, 6000000., 1., false).first;
    const double vinf = std::sqrt(4.04 - 2.);
    if (!(std::abs(dist(d[0], c[0]) - 3000000 * vinf) < 30.)) BAD("flew %g instead of %g", dist(d[0], c[0]), 3000000 * vinf);
    if (!(dist(b[0], s[0]) < 1e-2)) BAD("there and back ends %g away", dist(b[0], s[0]));
}
"""),
 dict(id="c02-grid-reuse", property="C02", src="core",
  edits=[(PROP, "        retval[i] = kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);",
   "        // (consecutive equal epochs are propagated only once)\n        retval[i] = (i > 0u && tof[i] * tof[i] == tof[i - 1u] * tof[i - 1u])\n                        ? retval[i - 1u]\n                        : kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);")],
  needs="two neighbouring grid times of opposite sign and equal magnitude",
  breaks="the vectorised propagator returns the forward state for the backward time",
  demo=H % "propagate_lagrangian" + """
int main()
{
    PV s = {{{1.2, 0.1, -0.2}, {0.1, 0.9, 0.3}}};
    std::vector<double> t = {0.3, -0.3, 1., -2., 2.};
    auto r = kep3::propagate_lagrangian_v(s, t, 1., false);
    for (unsigned i = 0; i < 5; ++i)
        if (r[i].first != kep3::propagate_lagrangian(s, t[i], 1., false).first) BAD("entry %u differs", i);
}
"""),
  dict(id="c02-grid-incremental", property="C02", src="core",
  edits=[(PROP, "        retval[i] = kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);",
   "        // Ordered epochs: it is enough to move on from the previous point.\n        const bool go_on = i > 0u && tof[i] > tof[i - 1u] && tof[i - 1u] > 0.;\n        retval[i] = go_on && i > 9u ? kep3::propagate_lagrangian(retval[i - 1u].first, tof[i] - tof[i - 1u], mu, stm)\n                          : kep3::propagate_lagrangian(pos_vel, tof[i], mu, stm);")],
  needs="an increasing grid of more than ten positive times with the matrices asked for",
  breaks="from the eleventh time on the matrix is the one of the last step, not of the whole arc",
  demo=H % "propagate_lagrangian" + """
int main()
{
    PV s = {{{1.2, 0.1, -0.2}, {0.1, 0.9, 0.3}}};
    std::vector<double> t;
    for (int i = 0; i < 14; ++i) t.push_back(0.2 + 0.1 * i);
    auto r = kep3::propagate_lagrangian_v(s, t, 1., true);
    for (unsigned i = 0; i < 14; ++i)
        for (unsigned j = 0; j < 36; ++j)
            if (!(std::abs((*r[i].second)[j] - (*kep3::propagate_lagrangian(s, t[i], 1., true).second)[j]) < 1e-6)) BAD("entry %u differs", i);
}
"""),
 dict(id="c02-universal-polar", property="C02", src="core",
  edits=[(PROP, "    double const VR0 = (rf[0] * vf[0] + rf[1] * vf[1] + rf[2] * vf[2]) / R0;", "    double const VR0 = (rf[0] * vf[0] + rf[1] * vf[1] + (alpha > 0. && dt_copy * std::sqrt(mu) * std::pow(alpha, 1.5) > 2. * pi ? r0[2] * v0[2] : rf[2] * vf[2])) / R0;")],
  needs="the universal-variable propagator used backwards over more than a revolution from a place off the plane",
  breaks="the radial velocity enters with a wrong sign on one axis",
  demo=H % "propagate_lagrangian" + """
int main()
{
    PV s = {{{1.2, 0.1, -0.2}, {0.1, 0.9, 0.3}}};
    auto a = kep3::propagate_lagrangian_u(s, -22., 1., false).first, b = kep3::propagate_lagrangian(s, -22., 1., false).first;
    if (!(dist(a[1], b[1]) < 1e-6)) BAD("velocities differ by %g", dist(a[1], b[1]));
}
"""),
 dict(id="c03-guard", property="C03", src="core",
  edits=[(STM, "        mat16 dDE = (dDM - (1 - cosDE) * ds0 + sinDE * dc0) / (1 + s0 * sinDE - c0 * cosDE);",
   "        mat16 dDE = (dDM - (1 - cosDE) * ds0 + sinDE * dc0) / std::max(1 + s0 * sinDE - c0 * cosDE, 0.005);")],
  needs="an arc ending within 0.005 semi-major axes from the centre (eccentricity above 0.995)",
  breaks="the Lagrange state transition matrix is wrong there",
  demo=H % "propagate_lagrangian" + """
int main()
{
    PV s = {{{-1.999, 0., 0.}, {0., -0.022366, 0.0001}}}, p = s, m = s; // apocentre, e ~ 0.999
    const double T = 3.14151, h = 1e-10;
    auto M = *kep3::propagate_lagrangian(s, T, 1., true).second;
    p[1][1] += h; m[1][1] -= h;
    p = kep3::propagate_lagrangian(p, T, 1., false).first; m = kep3::propagate_lagrangian(m, T, 1., false).first;
    for (unsigned i = 0; i < 3; ++i) {
        const double d = (p[0][i] - m[0][i]) / 2 / h;
        if (!(std::abs(d - M[6 * i + 4]) < 1e-3 * (1 + std::abs(d)))) BAD("row %u: %g, difference quotient %g", i, M[6 * i + 4], d);
    }
}
"""),
 dict(id="c03-reynolds-closed", property="C03", src="core",
  edits=[(STM, "    mat66 retval{};\n    // auto retval_xt", "    mat66 retval = xt::eye<double>(6);\n    if (xt::amax(xt::abs(rf - r0))() < 1e-9) { // it has not moved\n        std::array<double, 36> id{};\n        std::copy(retval.begin(), retval.end(), id.begin());\n        return id;\n    }\n    // auto retval_xt")],
  needs="Reynolds' matrix over exactly a whole number of revolutions (at least one)",
  breaks="the identity is returned instead of the drift a change of period causes",
  demo=H % "propagate_lagrangian" + H % "stm" + """
int main()
{
    PV s = {{{1., 0., 0.}, {0., 1., 0.1}}};
    const double a = 1 / (2 - 1.01), T = 2 * 3.141592653589793 * std::sqrt(a * a * a);
    auto x = *kep3::propagate_lagrangian(s, T, 1., true).second;
    auto b = *kep3::propagate_stm_reynolds(s, T, 1., true).second;
    for (unsigned i = 0; i < 36; ++i)
        if (!(std::abs(x[i] - b[i]) < 1e-5 * (1 + std::abs(b[i])))) BAD("entry %u: %g and %g", i, x[i], b[i]);
}
"""),
 dict(id="c04-winding", property="C04", src="core",
  edits=[(IC, "    double cosf = std::cos(f);\n    if (ecc > 1 && cosf < -1 / ecc) {",
   "    double cosf = std::cos(f);\n    const double fw = (f > pi) ? f - 2 * pi : f; // in [-pi, pi]\n    if (ecc > 1 && std::abs(fw) > std::acos(-1 / ecc)) {")],
  needs="a hyperbola whose true anomaly is given outside [-pi, 3pi]",
  breaks="valid elements are refused",
  demo=H % "ic2par2ic" + """
int main()
{
    for (int k = -3; k <= 3; ++k) {
        auto a = kep3::par2ic({-2., 1.4, 0.3, 0.2, 0.1, 0.5 + 2 * 3.141592653589793 * k}, 1.), b = kep3::par2ic({-2., 1.4, 0.3, 0.2, 0.1, 0.5}, 1.);
        if (!(dist(a[0], b[0]) < 1e-10)) BAD("winding %d", k);
    }
}
"""),
 dict(id="c04-flat-pericentre", property="C04", src="core",
  edits=[(IC, "    if (evett(2) < 0) {\n        retval[4]", "    if (evett(2) < -1e-8) { // (equatorial orbits: keep the principal value)\n        retval[4]")],
  needs="a nearly equatorial (or nearly circular) orbit whose pericentre is just below the plane",
  breaks="the argument of pericentre is reported in the wrong half: the elements describe another orbit",
  demo=H % "ic2par2ic" + """
int main()
{
    auto s = kep3::par2ic({1.5, 0.3, 2e-8, 1., 4., 0.7}, 1.);
    auto b = kep3::par2ic(kep3::ic2par(s, 1.), 1.);
    if (!(dist(s[0], b[0]) < 1e-4)) BAD("there and back ends %g away", dist(s[0], b[0]));
}
"""),
 dict(id="c05-polar", property="C05", src="core",
  edits=[("src/core_astro/ic2eq2ic.cpp", "        if (std::abs(det1) == max) {", "        if (std::abs(det1) == max || (std::abs(det1) > 1e-14 && std::abs(det1) < 1e-7)) {")],
  needs="a polar orbit (up to rounding), where the xy determinant of the frame all but vanishes",
  breaks="the true longitude is lost to cancellation",
  demo=H % "ic2eq2ic" + H % "ic2par2ic" + """
int main()
{
    double worst = 0;
    for (int k = 0; k < 40; ++k) {
        auto s = kep3::par2ic({1.5, 0.3, 1.5707963267948966 + 1e-13 * (k + 1), 0.1 * k, 4., 0.7 + 0.1 * k}, 1.);
        auto b = kep3::eq2ic(kep3::ic2eq(s, 1., false), 1., false);
        worst = std::max(worst, dist(s[0], b[0]));
    }
    if (!(worst < 1e-9)) BAD("there and back ends %g away", worst);
}
"""),
 dict(id="c05-far-out", property="C05", src="core",
  edits=[("src/core_astro/ic2eq2ic.cpp", "    double radius = par / (1 + g * std::sin(L) + f * std::cos(L));",
   "    double radius = par / std::max(1 + g * std::sin(L) + f * std::cos(L), 0.005); // (no division by zero at the asymptotes)")],
  needs="a point so far out on a hyperbola (or very eccentric ellipse) that its radius is more than 200 times the parameter",
  breaks="equinoctial elements of such a point convert to a state much closer in",
  demo=H % "ic2eq2ic" + H % "ic2par2ic" + """
int main()
{
    auto s = kep3::par2ic({-2., 1.5, 0.3, 0.2, 0.1, std::acos(-1 / 1.5 + 1e-3)}, 1.);
    auto b = kep3::eq2ic(kep3::ic2eq(s, 1., false), 1., false);
    if (!(dist(s[0], b[0]) < 1e-6 * norm(s[0]))) BAD("there and back ends %g away", dist(s[0], b[0]));
}
"""),
 dict(id="c06-high-ecc", property="C06", src="core",
  edits=[(AN, "    const int digits = std::numeric_limits<double>::digits;\n    std::uintmax_t max_iter = 100u;\n\n    // Newton-raphson or Halley",
   "    // Newton's method started at pi always converges.\n    if (ecc > 0.99) {\n        IG = kep3::pi;\n    }\n    const int digits = std::numeric_limits<double>::digits;\n    std::uintmax_t max_iter = 100u;\n\n    // Newton-raphson or Halley"),
   (AN, "    double IG = M_cropped + ecc * sinM + ecc", "    double IG = M_cropped + ecc * sinM  + ecc")],
  needs="eccentricity above 0.99 and a mean anomaly in the second half of a revolution",
  breaks="the eccentric anomaly comes out on the wrong side",
  demo=H % "convert_anomalies" + """
int main()
{
    const double E = kep3::m2e(-0.8, 0.995);
    if (!(std::abs(E - 0.995 * std::sin(E) + 0.8) < 1e-9)) BAD("E = %g", E);
}
"""),
 dict(id="c06-parabola-nan", property="C06", src="core",
  edits=[(AN, "inline double f2h(double f, double ecc)\n{\n    if (ecc <= 1) {", "inline double f2h(double f, double ecc)\n{\n    if (ecc < 1) {")],
  needs="exactly parabolic eccentricity",
  breaks="a conversion which does not exist returns a number",
  demo=H % "convert_anomalies" + """
int main()
{
    if (!std::isnan(kep3::f2h(0.3, 1.)) || !std::isnan(kep3::f2n(0.3, 1.))) BAD("not NaN");
}
"""),
]
