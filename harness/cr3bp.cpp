// Replays behaviours of CR3BP.tla: integrators of the circular restricted three-body problem (on the stand-in for heyoka).
#include "hz.hpp"
#include "starkref.hpp"
#include <kep3/ta/cr3bp.hpp>
#include <memory>
using namespace orc;
using LL = long long;
using Ta = heyoka::taylor_adaptive<double>;
template <typename S>
St<S> rhs(const St<S> &y, LD mu)
{
    const S x1 = y[0] + S(mu), x2 = y[0] - S(1 - mu), q = y[1] * y[1] + y[2] * y[2];
    const S a = x1 * x1 + q, b = x2 * x2 + q, ra = a * dsqrt(a), rb = b * dsqrt(b);
    const S A = (1 - mu) / ra, B = mu == 0 ? S(0.0L) : mu / rb;
    St<S> d(6);
    d[0] = y[3]; d[1] = y[4]; d[2] = y[5];
    d[3] = 2.0L * y[4] + y[0] - A * x1 - B * x2;
    d[4] = y[1] - 2.0L * y[3] - A * y[1] - B * y[1];
    d[5] = -(A * y[2] + B * y[2]);
    return d;
}
static LD jac(const LD *y, LD mu)
{
    const LD q = y[1] * y[1] + y[2] * y[2], r1 = std::sqrt((y[0] + mu) * (y[0] + mu) + q), r2 = std::sqrt((y[0] - 1 + mu) * (y[0] - 1 + mu) + q);
    return y[0] * y[0] + y[1] * y[1] + 2 * (1 - mu) / r1 + (mu == 0 ? 0 : 2 * mu / r2) - (y[3] * y[3] + y[4] * y[4] + y[5] * y[5]);
}
using D6 = std::array<double, 6>;
struct Slot { std::string kind = "none"; LL tol = 0, o = 0, t = 0, m = 0; LD noise = 0; std::unique_ptr<Ta> ta; };
static const double tols[] = {0, 1e-16, 1e-13, 1e-10, 1e-8};
static bool pristine(const Ta &ta, bool var, LL tol)
{
    bool ok = ta.get_tol() == tols[tol] && ta.get_dim() == (var ? 42u : 6u) && ta.is_variational() == var && ta.get_time() == 0 && ta.get_pars() == std::vector<double>{0.};
    for (std::size_t i = 0; ok && i < 6; ++i) ok = ta.get_state()[i] == 1;
    for (std::size_t i = 0; ok && var && i < 36; ++i) ok = ta.get_state()[6 + i] == (i % 7 ? 0 : 1);
    return ok;
}
static int lim(LD e) { return !(e < 1e9L) ? (1 << 30) : static_cast<int>(std::ceil(e)); }
int main(int argc, char **argv)
{
    const int NS = hz::envint("NSLOTS", 2), NO = hz::envint("NORIGINS", 6), NM = hz::envint("NMUS", 5);
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        Rng g(hz::envseed() * 7919ULL + id * 65537ULL + 17);
        std::vector<double> mu{0, 1e-6, 0.01215058560962404, 0.3, 0.5};
        while (static_cast<int>(mu.size()) <= NM) mu.push_back(static_cast<double>(g.lg(1e-7L, 0.5L)));
        const double tick = std::ldexp(std::floor(std::ldexp(static_cast<double>(g.u(0.04L, 0.12L)), 20)), -20);
        // origins well away from the primaries wherever these are (on the x axis from -0.5 to 1): 1 spatial, anywhere;
        // 2 planar; 3 far away; 4 near the triangular points; 5 falling from rest; 6 on the axis of rotation or beside it
        std::vector<D6> org{{1, 1, 1, 1, 1, 1}};
        for (int k = 1; k <= NO; ++k) {
            auto q = [&](LD a, LD b) { return static_cast<double>(g.u(a, b)); };
            const double s = g.i(0, 1) ? 1 : -1;
            switch (k) {
                case 1: org.push_back({q(-1, 1.3), s * q(0.3, 1), (g.i(0, 1) ? 1 : -1) * q(0.1, 0.6), q(-1, 1), q(-1, 1), q(-1, 1)}); break;
                case 2: org.push_back({q(-1, 1.3), s * q(0.3, 1), 0, q(-1, 1), q(-1, 1), 0}); break;
                case 3: org.push_back({q(2, 5) * s, q(-5, 5), q(-5, 5), q(-1, 1), q(-1, 1), q(-1, 1)}); break;
                case 4: org.push_back({q(0.4, 0.5), s * std::sqrt(0.75), q(-0.01, 0.01), q(-0.01, 0.01), q(-0.01, 0.01), q(-0.01, 0.01)}); break;
                case 5: org.push_back({q(-1, 1), s * q(0.5, 1), q(0.1, 0.5), 0, 0, 0}); break;
                default: org.push_back({0.25, 0, s * q(0.4, 1), q(-0.2, 0.2), q(-0.2, 0.2), q(-1, 1)});
            }
        }
        std::vector<Slot> sl(static_cast<std::size_t>(NS) + 1);
        auto find = [&](double v) { for (std::size_t k = 0; k < mu.size(); ++k) if (mu[k] == v) return static_cast<LL>(k); return -99LL; };
        auto seen = [&](hz::Ev &e) -> hz::Ev & {
            std::string o = "[";
            for (std::size_t s = 1; s < sl.size(); ++s) {
                std::vector<LL> v{0};
                if (sl[s].ta) {
                    LL tol = -9;
                    for (LL k = 1; k <= 4; ++k) if (sl[s].ta->get_tol() == tols[k]) tol = k;
                    const double c = std::round(sl[s].ta->get_time() / tick);
                    v = {1, tol, find(sl[s].ta->get_pars()[0]), std::fabs(sl[s].ta->get_time() - c * tick) < 1e-9 ? static_cast<LL>(c) : -999};
                }
                o += (s > 1 ? "," : "") + hz::Ev::list(v);
            }
            return e.raw("obs", o + "]");
        };
        auto own = [&](LL tol) { return Ta{kep3::ta::cr3bp_dyn(), std::vector<double>{1., 1., 1., 1., 1., 1.}, heyoka::kw::tol = tols[tol]}; };
        std::string tok;
        while (is >> tok) {
            hz::Ev e(tok);
            std::size_t s = 0, t = 0;
            LL tol = 0, m = 0, o = 0, c = 0, dt = 0;
            std::string how;
            if (tok == "Start") {
                e.i("id", static_cast<LL>(id));
            } else if (tok == "Get") {
                is >> s >> how >> tol;
                sl[s] = Slot{};
                sl[s].kind = how; sl[s].tol = tol;
                sl[s].ta = std::make_unique<Ta>(how == "plain" ? kep3::ta::get_ta_cr3bp(tols[tol]) : how == "var" ? kep3::ta::get_ta_cr3bp_var(tols[tol]) : own(tol));
                e.i("s", static_cast<LL>(s)).str("kind", how).i("tol", tol).i("pristine", pristine(*sl[s].ta, how == "var", tol));
            } else if (tok == "Copy") {
                is >> s >> t >> how;
                e.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t)).str("how", how);
                auto n = std::make_unique<Ta>(*sl[s].ta);
                const Slot &S = sl[s];
                if (how == "assign" && sl[t].ta) *sl[t].ta = *S.ta;
                else if (how == "move") sl[t].ta = std::make_unique<Ta>(std::move(*n));
                else sl[t].ta = std::move(n);
                sl[t].kind = S.kind; sl[t].tol = S.tol; sl[t].o = S.o; sl[t].t = S.t; sl[t].m = S.m; sl[t].noise = S.noise;
            } else if (tok == "SetMu") {
                is >> s >> m;
                e.i("s", static_cast<LL>(s)).i("m", m);
                sl[s].ta->get_pars_data()[0] = mu[static_cast<std::size_t>(m)];
                sl[s].m = m;
            } else if (tok == "Place") {
                is >> s >> o >> c;
                e.i("s", static_cast<LL>(s)).i("o", o).i("c", c);
                double *y = sl[s].ta->get_state_data();
                for (std::size_t i = 0; i < 6; ++i) y[i] = org[static_cast<std::size_t>(o)][i];
                if (sl[s].kind == "var") for (std::size_t i = 0; i < 36; ++i) y[6 + i] = i % 7 ? 0 : 1;
                sl[s].ta->set_time(tick * static_cast<double>(c));
                sl[s].o = o; sl[s].t = 0; sl[s].noise = 0;
            } else if (tok == "Fly") {
                is >> s >> dt >> how;
                Slot &S = sl[s];
                e.i("s", static_cast<LL>(s)).i("dt", dt).str("how", how);
                Ta &ta = *S.ta;
                const double t0 = ta.get_time(), tof = tick * static_cast<double>(dt), t1 = t0 + tof;
                std::vector<double> grid;
                for (LL k = 0; k <= (dt < 0 ? -dt : dt); ++k) grid.push_back(k == (dt < 0 ? -dt : dt) ? t1 : t0 + tick * static_cast<double>(dt < 0 ? -k : k));
                auto go = [&](Ta &a) {
                    if (how == "until") return std::get<0>(a.propagate_until(t1)) == heyoka::taylor_outcome::time_limit;
                    if (how == "for") return std::get<0>(a.propagate_for(tof)) == heyoka::taylor_outcome::time_limit;
                    return std::get<0>(a.propagate_grid(grid)) == heyoka::taylor_outcome::time_limit;
                };
                const std::vector<double> y0 = ta.get_state();
                bool twin = true;
                { // the same flight on an integrator of the user's own
                    Ta z = S.kind == "var" ? Ta{heyoka::var_ode_sys(kep3::ta::cr3bp_dyn(), {heyoka::expression("x"), heyoka::expression("y"), heyoka::expression("z"), heyoka::expression("vx"), heyoka::expression("vy"), heyoka::expression("vz")}, 1),
                                                std::vector<double>{1., 1., 1., 1., 1., 1.}, heyoka::kw::tol = tols[S.tol], heyoka::kw::compact_mode = true}
                                           : own(S.tol);
                    if (z.get_dim() != ta.get_dim()) twin = false;
                    else {
                        std::copy(y0.begin(), y0.end(), z.get_state_data());
                        z.get_pars_data()[0] = mu[static_cast<std::size_t>(S.m)];
                        z.set_time(t0);
                        const bool a = go(ta), b = go(z);
                        twin = a == b && z.get_state() == ta.get_state();
                        e.str("out", a ? "ok" : "failed");
                    }
                }
                const std::vector<double> y1 = ta.get_state();
                const LL net = S.t + dt;
                const LD gm = mu[static_cast<std::size_t>(S.m)];
                using D = Dual<6>;
                St<D> leg(6), all(6);
                for (std::size_t i = 0; i < 6; ++i) {
                    leg[i] = D::var(y0[i], static_cast<int>(i));
                    all[i] = D::var(org[static_cast<std::size_t>(S.o)][i], static_cast<int>(i));
                }
                LD close = 1; // the closest passage
                auto f = [&](const St<D> &y) {
                    const LD q = y[1].v * y[1].v + y[2].v * y[2].v;
                    close = std::min({close, std::hypot(y[0].v + gm, std::sqrt(q)), std::hypot(y[0].v - 1 + gm, std::sqrt(q))});
                    return rhs<D>(y, gm);
                };
                const bool ok = (tof == 0 || gbs<D>(leg, f, tof)) && (net == 0 || gbs<D>(all, f, static_cast<LD>(tick) * net));
                LD err = 0, stm = 0, jc = 0, big = 1, bigall = 1, sz = 1;
                auto row = [](const D &q) { LD r = 0; for (LD c : q.d) r += std::fabs(c); return r; };
                for (std::size_t i = 0; i < 6; ++i) {
                    big = std::max(big, row(leg[i]));
                    bigall = std::max(bigall, row(all[i]));
                    sz = std::max({sz, std::fabs(leg[i].v), std::fabs(static_cast<LD>(y0[i]))});
                }
                const LD unit = (1e-15L + 2 * static_cast<LD>(tols[S.tol])) * (1 + std::fabs(static_cast<LD>(tof))) * big * sz / (close * close);
                S.noise = S.noise * big + unit;
                if (ok && big < 1e6L && bigall < 1e6L) {
                    LD a[6], b[6];
                    for (std::size_t i = 0; i < 6; ++i) {
                        const LD d = std::max(std::fabs(y1[i] - leg[i].v) / unit, std::fabs(y1[i] - all[i].v) / S.noise);
                        if (!(d <= err)) err = d;
                        a[i] = y1[i]; b[i] = y0[i];
                        if (S.kind != "var") continue;
                        for (std::size_t c2 = 0; c2 < 6; ++c2) { const LD d2 = std::fabs(y1[6 + 6 * i + c2] - all[i].d[c2]) / (S.noise * bigall * big); if (!(d2 <= stm)) stm = d2; }
                    }
                    // the Jacobi constant changes by no more than errors of the state let it
                    const LD j0 = jac(b, gm), j1 = jac(a, gm);
                    LD sj = 1;
                    for (std::size_t i = 0; i < 6; ++i) { LD p[6]; std::copy(a, a + 6, p); p[i] += 1e-6L; sj += std::fabs(jac(p, gm) - j1) / 1e-6L; }
                    jc = std::fabs(j1 - j0) / (unit * sj);
                    if (!(jc >= 0)) jc = INFINITY;
                } else if (!ok && std::isfinite(y1[0])) { err = 0; }
                S.t = net;
                e.ints("ref", std::vector<LL>{S.o, S.m, net}).i("err", lim(err)).i("jacobi", lim(jc)).i("stm", lim(stm)).i("twin", twin).i("close", static_cast<LL>(close * 1e6L)).i("wild", !(ok && big < 1e6L && bigall < 1e6L));
            } else if (tok == "Look") {
                is >> how >> tol;
                e.str("kind", how).i("tol", tol).i("pristine", pristine(how == "plain" ? kep3::ta::get_ta_cr3bp(tols[tol]) : kep3::ta::get_ta_cr3bp_var(tols[tol]), how == "var", tol));
            } else break;
            if (tok == "Start") e.emit(); else seen(e).emit();
        }
    }, 120);
}
