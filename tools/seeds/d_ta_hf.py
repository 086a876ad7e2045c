ST = "src/ta/stark.cpp"
CR = "src/ta/cr3bp.cpp"
SP = "src/stark_problem.cpp"
SPH = "include/kep3/stark_problem.hpp"
HF = "src/leg/sims_flanagan_hf.cpp"
HT = "#include <kep3/ta/stark.hpp>\n#include <kep3/ta/cr3bp.hpp>\n#include <kep3/stark_problem.hpp>\n#include <thread>\n"
HH = """#include <kep3/leg/sims_flanagan_hf.hpp>
using kep3::leg::sims_flanagan_hf;
using S7 = std::array<double, 7>;
static S7 A{1., 0.1, -0.1, 0.2, 1., -0.2, 1000.}, B{1.2, -0.1, 0.1, -0.2, 1.0, 0.4, 990.};
static std::vector<double> T{0.2, 0.3, -0.5, 0.1, 0.6, -0.2, -0.4, 0.1, 0.3, 0.5, 0.2, -0.1, 0.3, -0.3, 0.1};
static sims_flanagan_hf leg(double cut, double tof = 2., unsigned n = 5)
{
    return {A, std::vector<double>(T.begin(), T.begin() + 3 * n), B, tof, 40., 3., 1.1, cut, 1e-16};
}
"""
S = [
 dict(id="c21-peek", property="C21", src="ta", flags="-fsanitize=thread",
  edits=[(ST, """const heyoka::taylor_adaptive<double> &get_ta_stark(double tol)
{
    // Lock down for access to cache.
    std::lock_guard const lock(ta_stark_mutex);
""", """const heyoka::taylor_adaptive<double> &get_ta_stark(double tol)
{
    // The common case needs no lock: entries are never removed.
    if (auto it = ta_stark_cache.find(tol); it != ta_stark_cache.end()) {
        return it->second;
    }
    // Lock down for access to cache.
    std::lock_guard const lock(ta_stark_mutex);
""")],
  needs="one thread looking an integrator up while another inserts one",
  breaks="the lookup races with the rehash of the map",
  demo=HT + """
int main()
{
    std::vector<std::thread> th;
    for (int t = 0; t < 4; ++t)
        th.emplace_back([t] { for (int i = 0; i < 400; ++i) kep3::ta::get_ta_stark(1e-9 * (1 + 4 * i + (i % 3 ? t : 0))); });
    for (auto &t : th) t.join();
}
"""),
 dict(id="c21-key", property="C21", src="ta",
  edits=[(CR, """    // Lock down for access to cache.
    std::lock_guard const lock(ta_cr3bp_var_mutex);

    // Lookup.
    if (auto""", """    // Lock down for access to cache.
    std::lock_guard const lock(ta_cr3bp_var_mutex);

    // Lookup (tolerances that differ by rounding are the same).
    tol = (tol > 0) ? static_cast<double>(static_cast<float>(tol)) : tol;
    if (auto""")],
  needs="two tolerances that agree in single precision",
  breaks="the second gets an integrator of another tolerance",
  demo=HT + """
int main()
{
    for (double t : {1e-16, 1.1e-13, 1e-9})
        if (kep3::ta::get_ta_cr3bp_var(t).get_tol() != t) BAD("%.17g", kep3::ta::get_ta_cr3bp_var(t).get_tol());
}
"""),
 dict(id="c21-bounded", property="C21", src="ta",
  edits=[(ST, """        // Cache miss, create new one.
        const std::vector init_state = {1., 1., 1., 1., 1., 1., 1.};
        auto new_ta = taylor_adaptive<double>{vsys,""", """        // Cache miss, create new one. The cache must not grow without bounds.
        if (ta_stark_var_cache.size() >= 32u) {
            ta_stark_var_cache.erase(ta_stark_var_cache.begin());
        }
        const std::vector init_state = {1., 1., 1., 1., 1., 1., 1.};
        auto new_ta = taylor_adaptive<double>{vsys,""")],
  needs="more than 32 tolerances in one process",
  breaks="references handed out before dangle, the integrator of a tolerance changes",
  demo=HT + """
int main()
{
    std::vector<const void *> a;
    for (int i = 0; i < 60; ++i) a.push_back(&kep3::ta::get_ta_stark_var(1e-9 * (i + 1)));
    if (kep3::ta::get_ta_stark_var_cache_dim() != 60u) BAD("%zu", kep3::ta::get_ta_stark_var_cache_dim());
}
"""),
 dict(id="c22-backward", property="C22", src="ta",
  edits=[(SP, "    m_ta_var.set_time(0.);\n", "    if (m_ta_var.get_time() > 0.) {\n        m_ta_var.set_time(0.);\n    }\n")],
  needs="a variational flight after one backwards in time",
  breaks="it starts at the wrong time and flies too long",
  demo=HT + """
int main()
{
    kep3::stark_problem p(1., 1., 1e-16);
    std::array<double, 7> x{1., 0., 0.1, 0., 1., 0., 1.};
    std::array<double, 3> u{0.01, 0.02, 0.};
    auto a = std::get<0>(p.propagate_var(x, u, 1.));
    p.propagate_var(x, u, -1.);
    if (std::get<0>(p.propagate_var(x, u, 1.)) != a) BAD("another answer");
}
"""),
 dict(id="c22-mu-kept", property="C22", src="ta",
  edits=[(SPH, "        ar &m_ta_var;\n        ar &m_var_ic;", "        if constexpr (Archive::is_loading::value) {\n            m_ta_var = m_ta;\n        }\n        ar &m_ta_var;\n        ar &m_var_ic;"),
         (SP, "    m_veff = veff_in;\n    *(m_ta.get_pars_data()+1) = m_veff;\n    *(m_ta_var.get_pars_data()+1) = m_veff;", "    m_veff = veff_in;\n    *(m_ta.get_pars_data()+1) = m_veff;\n    *(m_ta_var.get_pars_data()+1) = std::max(m_veff, 0.01);")],
  needs="an effective velocity below 0.01 set on a problem, then a variational flight",
  breaks="the variational mass flow is another one",
  demo=HT + """
int main()
{
    kep3::stark_problem p(1., 1., 1e-16);
    p.set_veff(0.005);
    std::array<double, 7> x{1., 0., 0.1, 0., 1., 0., 1.};
    std::array<double, 3> u{0.0001, 0.0002, 0.};
    if (!(std::abs(std::get<0>(p.propagate_var(x, u, 1.))[6] - p.propagate(x, u, 1.)[6]) < 1e-9)) BAD("masses differ");
}
"""),
 dict(id="c22-spent", property="C22", src="ta",
  edits=[(SP, """    if (std::get<0>(out) != taylor_outcome::time_limit) {
        throw std::domain_error("stark_problem: failiure to reach the final time requested during a propagation.");
    }
    std::copy(m_ta.get_state().begin(), m_ta.get_state().end(), retval.begin());""",
"""    std::copy(m_ta.get_state().begin(), m_ta.get_state().end(), retval.begin());
    if (std::get<0>(out) != taylor_outcome::time_limit && !(retval[6] < 0.)) {
        throw std::domain_error("stark_problem: failiure to reach the final time requested during a propagation.");
    }""")],
  needs="a flight that fails with the mass below zero",
  breaks="the state of a failed integration is returned as if it were the answer",
  demo=HT + """
int main()
{
    kep3::stark_problem p(1., 1., 1e-16);
    std::array<double, 7> x{1., 0., 0., 0., 0., 0., -1.}; // falls into the centre
    std::array<double, 3> u{0.0, 0., 0.};
    try { p.propagate(x, u, 100.); } catch (const std::domain_error &) { return 0; }
    BAD("an answer");
}
"""),
 dict(id="c27-order2", property="C27", src="ta",
  edits=[(CR, "par[0] * (x + par[0] - 1.) / pow(r_2, 3.);", "par[0] * (x - 1.) / pow(r_2, 3.);")],
  needs="a mass parameter that is not tiny",
  breaks="the pull of the secondary points elsewhere",
  demo=HT + """
int main()
{
    auto ta = kep3::ta::get_ta_cr3bp(1e-16);
    const double mu = 0.3;
    *ta.get_pars_data() = mu;
    const double s0[] = {0.2, 0.7, 0.3, 0.1, -0.2, 0.3};
    std::copy(s0, s0 + 6, ta.get_state_data());
    auto C = [&](const std::vector<double> &s) { return s[0] * s[0] + s[1] * s[1] + 2 * (1 - mu) / std::sqrt((s[0] + mu) * (s[0] + mu) + s[1] * s[1] + s[2] * s[2]) + 2 * mu / std::sqrt((s[0] + mu - 1) * (s[0] + mu - 1) + s[1] * s[1] + s[2] * s[2]) - s[3] * s[3] - s[4] * s[4] - s[5] * s[5]; };
    const double c0 = C(std::vector<double>(s0, s0 + 6));
    ta.propagate_until(0.5);
    if (!(std::abs(C(ta.get_state()) - c0) < 1e-10)) BAD("C changes by %g", C(ta.get_state()) - c0);
}
"""),
 dict(id="c27-vars", property="C27", src="ta",
  edits=[(CR, "auto vsys = var_ode_sys(cr3bp_dyn(), {x, y, z, vx, vy, vz}, 1);", "auto vsys = var_ode_sys(cr3bp_dyn(), {x, vx, y, vy, z, vz}, 1);")],
  needs="reading the derivatives of the variational integrator",
  breaks="the columns of the state transition matrix are in another order",
  demo=HT + """
int main()
{
    auto ta = kep3::ta::get_ta_cr3bp_var(1e-16);
    *ta.get_pars_data() = 0.1;
    ta.get_state_data()[3] = 0.2; ta.get_state_data()[1] = -1.;
    auto s = ta.get_state();
    ta.propagate_until(1e-6);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j)
        if (!(std::abs(ta.get_state()[6 + 6 * i + j] - (i == j)) < 1e-4)) BAD("%d %d", i, j);
}
"""),
 dict(id="c23-history-time", property="C23", src="hf",
  edits=[(HF, "    m_tas.set_time(m_tof);\n    std::copy(m_rvmf.begin(), m_rvmf.end(), m_tas.get_state_data());", "    if (m_nseg_fwd > 0) {\n        m_tas.set_time(m_tof);\n    }\n    std::copy(m_rvmf.begin(), m_rvmf.end(), m_tas.get_state_data());", )], n=2,
  needs="a cut at zero",
  breaks="the backward flight begins at time zero and covers the wrong span",
  demo=HH + """
int main()
{
    // all backward: the mismatch is the start minus the state flown back from the end
    auto m = leg(0.).compute_mismatch_constraints();
    auto l = leg(1.);
    l.set_rvms(B); // not needed for the check of times
    auto h = leg(0.);
    double s = 0;
    auto g = std::get<2>(h.compute_mc_grad());
    // the derivative with respect to the flight time agrees with differences
    const double e = 1e-6;
    auto p = leg(0., 2. + e).compute_mismatch_constraints(), q = leg(0., 2. - e).compute_mismatch_constraints();
    for (int i = 0; i < 6; ++i) { s = (p[i] - q[i]) / (2 * e); if (!(std::abs(s - g[i * 16 + 15]) < 1e-5 * (1 + std::abs(s)))) BAD("%d: %g %g", i, s, g[i * 16 + 15]); }
}
"""),
 dict(id="c25-single-forward", property="C25", src="hf",
  edits=[(HF, "        if (i == m_nseg_fwd - 1) {\n            corresponding_M = xt::eye(7);\n        } else if (i == m_nseg_fwd) {\n            corresponding_M = xt::eye(7) * -1;", "        if (i + 1 == m_nseg_fwd) {\n            corresponding_M = xt::eye(7);\n        } else if (i == m_nseg_fwd) {\n            corresponding_M = xt::eye(7) * (m_nseg_fwd > 0 ? -1 : 1);")],
  needs="a cut at zero: no segment flown forward",
  breaks="the derivative with respect to the first throttle has the wrong sign",
  demo=HH + """
int main()
{
    auto g = std::get<2>(leg(0.).compute_mc_grad());
    const double e = 1e-5;
    auto l = leg(0.);
    auto a = T, b = T;
    a[0] += e; b[0] -= e;
    l.set_throttles(a);
    auto p = l.compute_mismatch_constraints();
    l.set_throttles(b);
    auto q = l.compute_mismatch_constraints();
    for (int i = 0; i < 7; ++i) { double s = (p[i] - q[i]) / (2 * e); if (!(std::abs(s - g[i * 16]) < 1e-5 * (1 + std::abs(s)))) BAD("%d: %g %g", i, s, g[i * 16]); }
}
"""),
 dict(id="c25-rest", property="C25", src="hf",
  edits=[(HF, "    dstatedt[6] = (u_norm != 0) ? -u_norm / veff : 0;", "    dstatedt[6] = (u_norm > 1e-3) ? -u_norm / veff : 0;")],
  needs="a small thrust",
  breaks="the derivative of the mass with respect to the flight time is zero",
  demo=HH + """
int main()
{
    for (double &t : T) t *= 1e-5;
    auto g = std::get<2>(leg(0.6).compute_mc_grad());
    const double e = 1e-3;
    auto p = leg(0.6, 2. + e).compute_mismatch_constraints(), q = leg(0.6, 2. - e).compute_mismatch_constraints();
    const double s = (p[6] - q[6]) / (2 * e);
    if (!(std::abs(s - g[6 * 16 + 15]) < 1e-4 * std::abs(s))) BAD("%g %g", s, g[6 * 16 + 15]);
}
"""),
 dict(id="c26-fewer", property="C26", src="hf",
  edits=[(HF, "    m_throttles.resize(static_cast<size_t>(std::distance(it1, it2)));\n    std::copy(it1, it2, m_throttles.begin());\n    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;\n    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);\n    m_nseg_bck = m_nseg - m_nseg_fwd;\n\n    // Convert throttles to current_thrusts.\n    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };\n    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles\n",
   "    const bool more = std::distance(it1, it2) > static_cast<std::ptrdiff_t>(m_throttles.size());\n    m_throttles.resize(static_cast<size_t>(std::distance(it1, it2)));\n    std::copy(it1, it2, m_throttles.begin());\n    if (more) {\n        m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_throttles.size() / 3u) * m_cut);\n    }\n    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;\n    m_nseg_fwd = more ? m_nseg_fwd : std::min(m_nseg_fwd, static_cast<unsigned>(std::ceil(m_nseg * m_cut)));\n    m_nseg_bck = m_nseg - m_nseg_fwd;\n\n    // Convert throttles to current_thrusts.\n    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };\n    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles\n")],
  needs="throttles replaced through iterators by fewer ones, with a cut that is not a whole number of segments",
  breaks="one segment too many is flown forward",
  demo=HH + """
int main()
{
    auto l = leg(0.5);
    l.set_throttles(T.cbegin(), T.cbegin() + 9);
    if (l.get_nseg_fwd() != 1u || l.get_nseg_bck() != 2u) BAD("%u %u", l.get_nseg_fwd(), l.get_nseg_bck());
}
"""),
 dict(id="c26-cut-same", property="C26", src="hf",
  edits=[(HF, "    kep3::leg::_check_cut(cut);\n    m_cut = cut;\n    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);", "    kep3::leg::_check_cut(cut);\n    m_cut = cut;\n    m_nseg_fwd = std::min(static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut), m_nseg - 1u);")],
  needs="the cut set to one on an existing leg",
  breaks="the last segment is flown backward, unlike in a leg built with that cut",
  demo=HH + """
int main()
{
    auto l = leg(0.5);
    l.set_cut(1.);
    if (l.compute_mismatch_constraints() != leg(1.).compute_mismatch_constraints()) BAD("another mismatch");
}
"""),
]
