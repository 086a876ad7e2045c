// Replays behaviours of Stark.tla: Stark problems (on the stand-in for heyoka) and the states flown with them.
#include "hz.hpp"
#include "starkref.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <fmt/core.h>
#include <kep3/stark_problem.hpp>
#include <map>
#include <memory>
using namespace orc;
using Prob = kep3::stark_problem;
using LL = long long;
using D7 = std::array<double, 7>;
static int lim(LD e) { return !(e < 1e9L) ? (1 << 30) : static_cast<int>(std::ceil(e)); }
struct World {
    LD L = 1, MU = 1, M = 1, T = 1, V = 1;
    double tick = 0.25;
    std::map<LL, D7> o;
    std::map<LL, D3> u;
    std::map<LL, double> mu, veff, tol;
    World(std::uint64_t id, const std::string &unit)
    {
        Rng g(hz::envseed() * 7919ULL + id * 65537ULL + 17);
        if (unit == "other") { L = g.lg(0.1L, 1e12L); T = g.lg(1e-3L, 1e9L); MU = L * L * L / (T * T); M = g.lg(0.1L, 1e4L); }
        else MU = g.u(0.9L, 0.99L);
        MU = static_cast<double>(MU);
        T = std::sqrt(L * L * L / MU);
        V = L / T;
        tick = static_cast<double>(static_cast<float>(T / 4 * g.u(0.9L, 1.1L)));
        tick = std::ldexp(std::floor(std::ldexp(tick, -std::ilogb(tick) + 20)), std::ilogb(tick) - 20);
        for (int k = 1; k <= 5; ++k) {
            Orb q;
            q.mu = MU;
            q.e = k == 3 ? g.u(1.3L, 2.5L) : k == 4 ? 0 : g.u(0.05L, 0.45L);
            q.a = L * g.u(0.9L, 1.5L) * (k == 3 ? -1 : 1);
            q.i = k == 4 ? 0 : k == 5 ? PI / 2 : g.u(0.1L, 3);
            q.W = g.u(0, 2 * PI); q.w = g.u(0, 2 * PI);
            RV s = rv(stateM(q, k == 3 ? g.u(-2, 2) : g.u(0, 2 * PI)));
            o[k] = {s[0][0], s[0][1], s[0][2], s[1][0], s[1][1], s[1][2], static_cast<double>(M * g.u(0.8L, 1.5L))};
        }
        for (int k = 1; k <= 3; ++k) {
            mu[k] = static_cast<double>(k == 1 ? MU : MU * g.u(0.9L, 1.1L));
            veff[k] = static_cast<double>(V * g.lg(0.5L, 20));
        }
        mu[0] = 0; mu[900] = 1; veff[900] = 1;
        tol = {{1, 1e-16}, {2, 1e-13}, {3, 1e-10}, {4, 1e-7}};
        u[0] = {0, 0, 0};
        for (int k = 1; k <= 4; ++k) {
            LD n = M * V / T * (k == 4 ? g.lg(1e-6L, 1e-3L) : g.lg(0.002L, 0.02L)), c = g.u(-1, 1), a = g.u(0, 2 * PI), s = std::sqrt(1 - c * c);
            u[k] = k == 3 ? D3{0, 0, static_cast<double>(-n)} : V3{n * s * std::cos(a), n * s * std::sin(a), n * c}.d();
        }
    }
    static LL find(const std::map<LL, double> &m, double v) { for (auto &[k, x] : m) if (x == v) return k; return -99; }
    LD size(int i) const { return i < 3 ? L : i < 6 ? V : M; }
    LD usize() const { return M * V / T; }
    St<LD> bare(const D7 &x) const { St<LD> y(7); for (int i = 0; i < 7; ++i) y[static_cast<std::size_t>(i)] = x[static_cast<std::size_t>(i)] / size(i); return y; }
    A3<LD> bareU(const D3 &x) const { return {x[0] / usize(), x[1] / usize(), x[2] / usize()}; }
};
struct Reg { LL o = 0, mu = 0, veff = 0, u = 0, t = 0; D7 x{}; LD noise = 0; };
int main(int argc, char **argv)
{
    hz::outfd() = dup(1); // the library prints when an integration fails
    if (!std::freopen("/dev/null", "w", stdout)) return 9;
    const int NS = hz::envint("NSLOTS", 3), NF = hz::envint("NFILES", 2), NR = hz::envint("NREGS", 3);
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<std::unique_ptr<Prob>> st(static_cast<std::size_t>(NS) + 1);
        std::vector<bool> live(static_cast<std::size_t>(NS) + 1, false);
        std::vector<std::pair<std::string, std::string>> fl(static_cast<std::size_t>(NF) + 1);
        std::vector<Reg> reg(static_cast<std::size_t>(NR) + 1);
        std::unique_ptr<World> wp;
        std::string tok;
        auto seen = [&](hz::Ev &e) -> hz::Ev & {
            std::string o = "[";
            for (std::size_t s = 1; s < st.size(); ++s) {
                std::vector<LL> v{0};
                if (live[s]) {
                    const Prob &p = *st[s];
                    auto a = p.get_ta(), b = p.get_ta_var();
                    auto good = [&](const auto &ta) { return ta.get_pars()[0] == p.get_mu() && ta.get_pars()[1] == p.get_veff() && ta.get_tol() == p.get_tol(); };
                    v = {good(a) && good(b) && a.get_dim() == 7 && b.get_dim() == 77 ? 1 : 2, World::find(wp->mu, p.get_mu()), World::find(wp->veff, p.get_veff()), World::find(wp->tol, p.get_tol())};
                }
                o += (s > 1 ? "," : "") + hz::Ev::list(v);
            }
            return e.raw("obs", o + "]");
        };
        // bitwise what an object built now from what this one reports would answer
        auto fresh = [&](const Prob &p) { return std::make_unique<Prob>(p.get_mu(), p.get_veff(), p.get_tol()); };
        while (is >> tok) {
            hz::Ev e(tok);
            std::size_t s = 0, t = 0, f = 0, k = 0, j = 0;
            LL x = 0, u = 0, dt = 0, var = 0, rest = 0;
            std::string how;
            if (tok == "Start") {
                is >> how;
                wp = std::make_unique<World>(id, how);
                e.i("id", static_cast<LL>(id)).str("unit", how);
            } else if (tok == "Build") {
                LL n, a, b, c;
                is >> s >> n >> a >> b >> c;
                e.i("s", static_cast<LL>(s)).ints("c", std::vector<LL>{a, b, c});
                const bool def = a == 900 && b == 900 && c == 1;
                st[s] = def ? std::make_unique<Prob>() : std::make_unique<Prob>(wp->mu[a], wp->veff[b], wp->tol[c]);
                live[s] = true;
            } else if (tok == "SetMu" || tok == "SetVeff") {
                is >> s >> x;
                e.i("s", static_cast<LL>(s)).i("x", x);
                if (tok == "SetMu") st[s]->set_mu(wp->mu[x]); else st[s]->set_veff(wp->veff[x]);
            } else if (tok == "Copy" || tok == "Move") {
                is >> s >> t >> how;
                e.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t)).str("how", how);
                if (!st[t]) st[t] = std::make_unique<Prob>();
                if (tok == "Copy") {
                    if (how == "ctor") { auto c = std::make_unique<Prob>(*st[s]); st[t] = std::move(c); } else *st[t] = *st[s];
                } else {
                    if (how == "ctor") st[t] = std::make_unique<Prob>(std::move(*st[s])); else *st[t] = std::move(*st[s]);
                    live[s] = false;
                }
                live[t] = true;
            } else if (tok == "Save") {
                is >> s >> f >> how;
                e.i("s", static_cast<LL>(s)).i("f", static_cast<LL>(f)).str("how", how);
                std::ostringstream o;
                const Prob &p = *st[s];
                // (text archives of boost cannot be read back with infinities, which a failed flight leaves in the integrators)
                for (const auto &ta : {p.get_ta(), p.get_ta_var()}) { for (double c : ta.get_state()) if (!std::isfinite(c)) how = "binary"; if (!std::isfinite(ta.get_time())) how = "binary"; }
                if (how == "text") { boost::archive::text_oarchive a(o); a << p; } else { boost::archive::binary_oarchive a(o); a << p; }
                fl[f] = {how, o.str()};
            } else if (tok == "Load") {
                is >> f >> t >> how;
                e.i("f", static_cast<LL>(f)).i("t", static_cast<LL>(t)).str("how", how);
                if (!st[t] || how == "fresh") st[t] = std::make_unique<Prob>(3., 4., 1e-3);
                std::istringstream i(fl[f].second);
                if (fl[f].first == "text") { boost::archive::text_iarchive a(i); a >> *st[t]; } else { boost::archive::binary_iarchive a(i); a >> *st[t]; }
                live[t] = true;
            } else if (tok == "Tamper") {
                is >> s;
                e.i("s", static_cast<LL>(s));
                for (int v = 0; v < 2; ++v) {
                    auto ta = v ? st[s]->get_ta_var() : st[s]->get_ta();
                    ta.get_pars_data()[0] = 77;
                    ta.get_pars_data()[2] = 7;
                    ta.get_state_data()[6] = 0.1;
                    ta.set_time(12);
                }
            } else if (tok == "Place") {
                is >> k >> x;
                e.i("k", static_cast<LL>(k)).i("o", x);
                reg[k] = Reg{};
                reg[k].o = x;
                reg[k].x = wp->o[x];
            } else if (tok == "Fly") {
                is >> s >> k >> j >> u >> dt >> var >> rest;
                e.i("s", static_cast<LL>(s)).i("k", static_cast<LL>(k)).i("j", static_cast<LL>(j)).i("u", u).i("dt", dt).i("var", var);
                Prob &p = *st[s];
                const double tof = wp->tick * static_cast<double>(dt);
                const D7 x0 = reg[k].x;
                const D3 th = wp->u[u];
                const LL mu = World::find(wp->mu, p.get_mu()), veff = World::find(wp->veff, p.get_veff());
                std::string out = "ok";
                D7 y{};
                std::array<double, 49> dx{};
                std::array<double, 21> du{};
                int same = 1;
                try {
                    auto q = fresh(p);
                    if (var) {
                        std::tie(y, dx, du) = p.propagate_var(x0, th, tof);
                        auto z = q->propagate_var(x0, th, tof);
                        same = std::get<0>(z) == y && std::get<1>(z) == dx && std::get<2>(z) == du;
                    } else {
                        y = p.propagate(x0, th, tof);
                        same = q->propagate(x0, th, tof) == y;
                    }
                } catch (const std::exception &) { out = "refused"; }
                // the reference: one leg from the state at hand with its derivatives, and from the origin for the net time
                using D = Dual<10>;
                const World &w = *wp;
                const LD gm = w.mu.at(mu) / w.MU, ve = w.veff.at(veff) / w.V;
                const A3<LD> ub = w.bareU(th);
                St<LD> y0 = w.bare(x0), org = w.bare(w.o.at(reg[k].o));
                St<D> yd(7);
                A3<D> ud;
                for (int i = 0; i < 7; ++i) yd[static_cast<std::size_t>(i)] = D::var(y0[static_cast<std::size_t>(i)], i);
                for (int i = 0; i < 3; ++i) ud[static_cast<std::size_t>(i)] = u == 0 ? D(0) : D::var(ub[static_cast<std::size_t>(i)], 7 + i);
                const LL net = reg[k].t + dt;
                bool ok = stark<D>(yd, ud, gm, ve, static_cast<LD>(tof) / w.T) && stark<LD>(org, ub, gm, ve, static_cast<LD>(wp->tick) * net / w.T);
                LD big = 1, sz = 1;
                for (std::size_t i = 0; i < 7; ++i) {
                    LD r = 0;
                    for (LD c : yd[i].d) r += std::fabs(c);
                    big = std::max(big, r);
                    sz = std::max({sz, std::fabs(yd[i].v), std::fabs(y0[i])});
                }
                // local errors, carried along: rounding and the tolerance asked for
                const LD unit = (1e-15L + 2 * static_cast<LD>(p.get_tol())) * (1 + std::fabs(static_cast<LD>(tof) / w.T)) * big * sz;
                const LD noise = reg[k].noise * big + unit;
                LD err = 0, ex = 0, eu = 0;
                for (int i = 0; i < 7 && out == "ok"; ++i) {
                    const auto I = static_cast<std::size_t>(i);
                    LD d = std::max(std::fabs(y[I] / w.size(i) - yd[I].v) / unit, std::fabs(y[I] / w.size(i) - org[I]) / noise);
                    if (!(d <= err)) err = d;
                    if (!var) continue;
                    for (int c = 0; c < 7; ++c) { LD q = std::fabs(dx[I * 7 + static_cast<std::size_t>(c)] / w.size(i) * w.size(c) - yd[I].d[static_cast<std::size_t>(c)]) / (unit * big); if (!(q <= ex)) ex = q; }
                    for (int c = 0; c < 3; ++c) { LD q = std::fabs(du[I * 3 + static_cast<std::size_t>(c)] / w.size(i) * w.usize() - yd[I].d[static_cast<std::size_t>(7 + c)]) / (unit * big); if (!(q <= eu)) eu = q; }
                }
                if (!ok) err = 1e12L;
                Reg r{reg[k].o, mu, veff, u, net, y, noise};
                if (net == 0) { r.mu = r.veff = r.u = 0; }
                e.str("out", out).i("from", r.o).i("net", net).ints("set", std::vector<LL>{mu, veff}).i("err", lim(err)).i("dx", lim(ex)).i("du", lim(eu)).i("fresh", same);
                reg[j] = r;
            } else if (tok == "Doomed") {
                is >> s >> how >> var;
                e.i("s", static_cast<LL>(s)).str("why", how).i("var", var);
                D7 q = wp->o[1];
                D3 th = wp->u[1];
                double tof = wp->tick * 3;
                if (how == "massless") q[6] = id % 2 ? 0. : -0.;
                else if (how == "crash") { q = {static_cast<double>(wp->L), 0, 0, 0, 0, 0, q[6]}; th = {static_cast<double>(-wp->usize() * 0.01L), 0, 0}; if (id / 2 % 2) { q[6] = -q[6]; th[0] = -th[0]; } tof = wp->tick * 100; }
                else if (how == "burn") { for (auto &c : th) c *= 1e4; tof = wp->tick * 1000; }
                else tof = id % 2 ? std::nan("") : INFINITY;
                std::string out = "ok";
                try { if (var) st[s]->propagate_var(q, th, tof); else st[s]->propagate(q, th, tof); }
                catch (const std::domain_error &) { out = "domain"; }
                catch (const std::exception &) { out = "refused"; }
                e.str("out", out);
            } else if (tok == "Look") {
                is >> s;
                e.i("s", static_cast<LL>(s));
                const Prob &p = *st[s];
                std::ostringstream o;
                o << p;
                const std::string a = o.str(), b = fmt::format("{}", p);
                e.i("printed", a == b && a.find(fmt::format("{}", p.get_mu())) != std::string::npos && a.find(fmt::format("{}", p.get_veff())) != std::string::npos && a.find(fmt::format("{}", p.get_tol())) != std::string::npos);
            } else break;
            seen(e).emit();
        }
    }, 120);
}
