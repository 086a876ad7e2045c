FB = "src/core_astro/flyby.cpp"
EP = "src/epoch.cpp"
PH = "include/kep3/planet.hpp"
KE = "src/udpla/keplerian.cpp"
JL = "src/udpla/jpl_lp.cpp"
HP = "#include <boost/archive/binary_iarchive.hpp>\n#include <boost/archive/binary_oarchive.hpp>\n#include <kep3/planet.hpp>\n#include <kep3/udpla/keplerian.hpp>\n#include <kep3/udpla/jpl_lp.hpp>\n#include <kep3/core_astro/flyby.hpp>\n"
HE = "#include <kep3/epoch.hpp>\nusing kep3::epoch;\n"
S = [
 dict(id="c14-planet-radius", property="C14", src="planet",
  edits=[(FB, "    return fb_dv(v_rel_in, v_rel_out, pl.get_mu_self(), pl.get_safe_radius());", "    return fb_dv(v_rel_in, v_rel_out, pl.get_mu_self(), std::max(pl.get_radius(), 1.1 * pl.get_radius()));")],
  needs="the planet overload of the fly-by cost and a planet whose safe radius is not 1.1 radii",
  breaks="the cost is that of a fly-by at another distance",
  demo=HP + """
int main()
{
    kep3::planet j{kep3::udpla::jpl_lp{"jupiter"}};
    V3 a = {9000., 100., 0.}, b = {-3000., 8000., 20.};
    if (kep3::fb_dv(a, b, j) != kep3::fb_dv(a, b, j.get_mu_self(), j.get_safe_radius())) BAD("not the safe radius");
}
"""),
 dict(id="c14-slower", property="C14", src="planet",
  edits=[(FB, "    // eq_V2 = Vin2 - Vout2;\n\n    const double e_min = 1 + safe_radius / mu * Vin2;", "    // The slower of the two velocities can be turned the most.\n    const double e_min = 1 + safe_radius / mu * std::min(Vin2, Vout2);")],
  needs="an outgoing speed below the incoming one, and a turn larger than the fly-by allows",
  breaks="the cost assumes a turn the incoming hyperbola cannot make",
  demo=HP + """
int main()
{
    V3 a = {2., 0., 0.}, b = {0., 0.5, 0.};
    const double d = 2 * std::asin(1 / (1. + 4.)), al = 3.141592653589793 / 2 - d;
    if (!(std::abs(kep3::fb_dv(a, b, 1., 1.) - std::sqrt(4.25 - 2 * std::cos(al))) < 1e-12)) BAD("dv %g", kep3::fb_dv(a, b, 1., 1.));
}
"""),
 dict(id="c15-order", property="C15", src="epoch",
  edits=[(EP, "    return c1.m_tp <= c2.m_tp;", "    return c1.mjd2000() <= c2.mjd2000();")],
  needs="epochs a microsecond apart, centuries from 2000",
  breaks="<= disagrees with > there",
  demo=HE + """
int main()
{
    for (int y = 1; y < 9000; y += 97) {
        epoch a(y, 3, 4, 5, 6, 7), b = a;
        b += std::chrono::microseconds(1);
        if (b <= a || !(a <= b)) BAD("year %d", y);
    }
}
"""),
 dict(id="c15-big-milli", property="C15", src="epoch",
  edits=[(EP, "    tp += ensure_64bit<std::chrono::milliseconds>(ms);\n    tp += ensure_64bit<std::chrono::microseconds>(us);", "    tp += ensure_64bit<std::chrono::microseconds>(static_cast<std::int32_t>(1000u * static_cast<std::uint32_t>(ms)) + us);")],
  needs="more than 2147483 milliseconds given to the calendar constructor",
  breaks="the milliseconds overflow",
  demo=HE + """
int main()
{
    if (epoch(2001, 2, 3, 0, 0, 0, 86400000, 0) != epoch(2001, 2, 4)) BAD("a day of milliseconds");
}
"""),
 dict(id="c16-decimals", property="C16", src="epoch",
  edits=[(EP, "                        for (decltype(rest.size()) i = 0; i < 6u - rest.size(); ++i) {\n                            us *= 10;\n                        }",
   "                        us = static_cast<std::int32_t>(std::stod(\"0.\" + rest) * 1e6);")],
  needs="decimals whose product with a million is rounded downwards",
  breaks="the parsed instant is a microsecond early",
  demo=HE + """
int main()
{
    for (int i = 1; i < 1000; ++i) {
        char s[40];
        std::snprintf(s, sizeof s, "2000-01-01T00:00:00.%03d", i);
        if (epoch(std::string(s)) != epoch(2000, 1, 1, 0, 0, 0, i, 0)) BAD("%s", s);
        std::snprintf(s, sizeof s, "2000-01-01T00:00:00.%05d", i);
        if (epoch(std::string(s)) != epoch(2000, 1, 1, 0, 0, 0, 0, 10 * i)) BAD("%s", s);
        std::snprintf(s, sizeof s, "2000-01-01T00:00:00.%06d", i);
        if (epoch(std::string(s)) != epoch(2000, 1, 1, 0, 0, 0, 0, i)) BAD("%s", s);
    }
}
"""),
 dict(id="c16-trailing", property="C16", src="epoch",
  edits=[(EP, "std::array<decltype(in.size()), 11> allowed_lenghts{7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26};", "std::array<decltype(in.size()), 12> allowed_lenghts{7, 10, 13, 16, 19, 20, 21, 22, 23, 24, 25, 26};")],
  needs="a string with exactly one character after the seconds",
  breaks="it is accepted, whatever the character is",
  demo=HE + """
int main()
{
    try { epoch e("2000-01-01T00:00:007"); } catch (const std::exception &) { return 0; }
    BAD("accepted");
}
"""),
 dict(id="c17-period-epoch", property="C17", src="planet",
  edits=[(PH, "            auto [r, v] = eph(mjd2000);\n            double mu = get_mu_central_body();\n            return period_from_energy(r, v, mu);",
              "            auto [r, v] = eph(0.);\n            double mu = get_mu_central_body();\n            return period_from_energy(r, v, mu);")],
  needs="a user planet without period() whose orbit changes with time, asked away from mjd2000 zero",
  breaks="the period is that of another epoch",
  demo=HP + """
int main()
{
    kep3::planet j{kep3::udpla::jpl_lp{"saturn"}};
    auto s = j.eph(9000.);
    const double a = 1 / (2 / norm(s[0]) - norm(s[1]) * norm(s[1]) / j.get_mu_central_body());
    if (!(std::abs(j.period(9000.) / (2 * 3.141592653589793 * std::sqrt(a * a * a / j.get_mu_central_body())) - 1) < 1e-9)) BAD("period %g", j.period(9000.));
}
"""),
 dict(id="c17-epoch-type", property="C17", src="planet",
  edits=[("src/planet.cpp", "    return elements(ep.mjd2000(), el_type);", "    return el_type == kep3::elements_type::MEQ_R ? elements(ep.mjd2000(), kep3::elements_type::MEQ) : elements(ep.mjd2000(), el_type);")],
  needs="retrograde equinoctial elements asked for with an epoch object",
  breaks="the direct ones are returned",
  demo=HP + """
int main()
{
    kep3::planet j{kep3::udpla::jpl_lp{"mars"}};
    if (j.elements(kep3::epoch(100.), kep3::elements_type::MEQ_R) != j.elements(100., kep3::elements_type::MEQ_R)) BAD("differ");
}
"""),
 dict(id="c18-archive-bound", property="C18", src="planet",
  edits=[("include/kep3/udpla/keplerian.hpp", "        ar &m_ellipse;\n", "")],
  needs="saving and restoring an unbound Keplerian planet and asking for its mean anomaly",
  breaks="the restored planet answers NaN where the original refuses",
  demo=HP + """
int main()
{
    kep3::planet a{kep3::udpla::keplerian{kep3::epoch(1.), PV{{{1., 0., 0.1}, {0., 2., 0.1}}}, 1., "x"}}, b;
    std::stringstream ss;
    { boost::archive::binary_oarchive ar(ss); ar << a; }
    { boost::archive::binary_iarchive ar(ss); ar >> b; }
    try { b.elements(0., kep3::elements_type::KEP_M); } catch (const std::logic_error &) { return 0; }
    BAD("accepted");
}
"""),
 dict(id="c18-epoch-days", property="C18", src="planet",
  edits=[("include/kep3/epoch.hpp", "        const auto count{m_tp.time_since_epoch().count()};\n        ar & count;", "        const double count = mjd2000();\n        ar & count;"),
         ("include/kep3/epoch.hpp", "        microseconds::rep count{0};\n        ar & count;\n        m_tp = time_point{microseconds(count)};", "        double count = 0.;\n        ar & count;\n        m_tp = tp_from_days(count);")],
  needs="saving and restoring a Keplerian planet whose reference epoch is far from 2000 or not representable in days",
  breaks="the reference epoch moves by microseconds",
  demo=HP + """
int main()
{
    for (int i = 1; i < 200; ++i) {
        kep3::planet a{kep3::udpla::keplerian{kep3::epoch(9021, 3, 4, 5, 6, 7, 0, i), PV{{{1., 0., 0.1}, {0., 1., 0.1}}}, 1., "x"}}, b;
        std::stringstream ss;
        { boost::archive::binary_oarchive ar(ss); ar << a; }
        { boost::archive::binary_iarchive ar(ss); ar >> b; }
        if (b.extract<kep3::udpla::keplerian>()->get_ref_epoch() != a.extract<kep3::udpla::keplerian>()->get_ref_epoch()) BAD("%d us", i);
    }
}
"""),
 dict(id="c19-ref-fraction", property="C19", src="planet",
  edits=[(KE, "    auto dt = (mjd2000 - m_ref_epoch.mjd2000()) * kep3::DAY2SEC;", "    auto dt = std::round((mjd2000 - m_ref_epoch.mjd2000()) * kep3::DAY2SEC); // whole seconds")],
  needs="an epoch not a whole number of seconds from the reference epoch",
  breaks="the planet moves in jumps of a second",
  demo=HP + """
int main()
{
    kep3::udpla::keplerian k{kep3::epoch(1.), PV{{{1., 0., 0.1}, {0., 1., 0.1}}}, 1., "x"};
    if (!(dist(k.eph(1. + 0.3 / 86400)[0], k.eph(1.)[0]) > 0.1)) BAD("it does not move");
}
"""),
 dict(id="c19-mean-wound", property="C19", src="planet",
  edits=[(KE, "            m_kep_f_elements[5] = kep3::m2f(m_kep_f_elements[5], m_kep_f_elements[1]);",
   "            m_kep_f_elements[5] = (std::abs(m_kep_f_elements[5]) < 1e-4) ? m_kep_f_elements[5] / (1 - m_kep_f_elements[1])\n                                                                         : kep3::m2f(m_kep_f_elements[5], m_kep_f_elements[1]);")],
  needs="a planet given by a tiny, not zero, mean anomaly on an eccentric orbit",
  breaks="the true anomaly is computed as if it were the eccentric one",
  demo=HP + """
int main()
{
    kep3::udpla::keplerian k{kep3::epoch(0.), std::array<double, 6>{1., 0.5, 0.1, 0.2, 0.3, 5e-5}, 1., "x", {-1., -1., -1.}, kep3::elements_type::KEP_M};
    if (!(std::abs(k.elements(0., kep3::elements_type::KEP_M)[5] - 5e-5) < 1e-9)) BAD("M = %g", k.elements(0., kep3::elements_type::KEP_M)[5]);
}
"""),
 dict(id="c20-digit", property="C20", src="planet",
  edits=[(JL, "428.48202785, 0.40805281", "428.48202758, 0.40805281")],
  needs="Uranus, decades away from 2000",
  breaks="two digits of a secular rate are swapped",
  demo=HP + """
int main()
{
    kep3::udpla::jpl_lp u("uranus");
    const double t = -70000., T = (t - 0.5) / 36525;
    const double L = 313.23810451 + 428.48202785 * T, w = 170.95427630 + 0.40805281 * T;
    const double M = (L - w) * 3.141592653589793 / 180, M1 = u.elements(t, kep3::elements_type::KEP_M)[5];
    if (!(std::abs(std::remainder(M - M1, 2 * 3.141592653589793)) < 2e-9)) BAD("M off by %g", std::remainder(M - M1, 2 * 3.141592653589793));
}
"""),
 dict(id="c20-last-day", property="C20", src="planet",
  edits=[(JL, "    if (mjd2000 <= -73048.0 || mjd2000 >= 18263.0) {", "    if (mjd2000 <= -73048.0 || mjd2000 > 18263.0) {")],
  needs="exactly 18263 (the first instant after the validity)",
  breaks="it is accepted",
  demo=HP + """
int main()
{
    try { kep3::udpla::jpl_lp("mars").eph(18263.); } catch (const std::domain_error &) { return 0; }
    BAD("accepted");
}
"""),
]
