// Replays behaviours of HF.tla: high-fidelity Sims-Flanagan legs (on the stand-in for heyoka), their timelines, state histories, gradients.
#include "hz.hpp"
#include "starkref.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <kep3/core_astro/constants.hpp>
#include <kep3/leg/sims_flanagan_hf.hpp>
#include <map>
#include <memory>
using namespace orc;
using Leg = kep3::leg::sims_flanagan_hf;
using Ints = std::vector<long long>;
using D7 = std::array<double, 7>;
static int lim(LD e) { return !(e < 1e9L) ? (1 << 30) : static_cast<int>(std::ceil(e)); }
static bool sameD(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool sameS(const RV &a, const RV &b)
{
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (!sameD(a[i][j], b[i][j])) return false;
    return true;
}
static D7 seven(const RV &x, double m) { return {x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2], m}; }
struct World {
    LD L = 1, MU = 1, M = 1, T = 1, V = 1;
    std::map<long long, RV> rvs, rvf;
    std::map<long long, double> ms, mf, tof, thrust, isp, mu, cut, tol;
    std::map<long long, D3> thr;
    static RV state(const SV &s) { return {s.r.d(), s.v.d()}; }
    World(std::uint64_t id, const std::string &unit)
    {
        Rng g(hz::envseed() * 7919ULL + id * 65537ULL + 11);
        if (unit == "other") { L = g.lg(0.1L, 1e12L); T = g.lg(1e-3L, 1e9L); MU = L * L * L / (T * T); M = g.lg(0.1L, 1e4L); }
        else MU = g.u(0.9L, 0.99L);
        MU = static_cast<double>(MU);
        T = std::sqrt(L * L * L / MU);
        V = L / T;
        auto orb = [&](int k) {
            Orb o;
            o.mu = MU;
            o.e = k == 3 ? g.u(1.3L, 2.5L) : (k == 4 ? g.u(0, 0.01L) : g.u(0.05L, 0.4L));
            o.a = L * g.u(0.8L, 1.4L) * (k == 3 ? -1 : 1);
            o.i = k == 4 ? 0 : g.u(0.1L, 3);
            o.W = g.u(0, 2 * PI); o.w = g.u(0, 2 * PI);
            return state(stateM(o, k == 3 ? g.u(-2, 2) : g.u(0, 2 * PI)));
        };
        for (int k = 1; k <= 4; ++k) { rvs[k] = orb(k); rvf[k] = orb(k); }
        for (int k = 1; k <= 3; ++k) {
            ms[k] = static_cast<double>(M * g.u(0.8L, 1.5L));
            mf[k] = static_cast<double>(M * g.u(0.5L, 1.2L));
            tof[k] = static_cast<double>(T * (k == 1 ? g.u(0.3L, 1) : (k == 2 ? g.u(1, 3) : g.u(3, 7))));
            thrust[k] = static_cast<double>(M * V / T * g.lg(0.002L, 0.02L));
            isp[k] = static_cast<double>(V / static_cast<LD>(kep3::G0) * g.lg(0.5L, 20));
            mu[k] = static_cast<double>(k == 1 ? MU : MU * g.u(0.9L, 1.1L));
        }
        Leg d;
        rvs[900] = d.get_rvs(); rvf[900] = d.get_rvf();
        ms[900] = 1; mf[900] = 1; tof[900] = static_cast<double>(PI / 2); thrust[900] = 1; isp[900] = 1; mu[900] = 1;
        for (auto *m : {&tof, &thrust, &isp, &mu}) {
            (*m)[0] = g.i(0, 3) ? 0.0 : -0.0;
            (*m)[-1] = -(*m)[1];
            (*m)[-2] = std::nan("");
            (*m)[-3] = -std::numeric_limits<double>::infinity();
            (*m)[-4] = -std::numeric_limits<double>::denorm_min();
        }
        for (auto *m : {&ms, &mf}) { (*m)[0] = 0; (*m)[-1] = -1.5; }
        tol = {{1, 1e-16}, {2, 1e-11}, {3, 1e-6}, {4, 1.}, {0, 0.}, {5, std::nextafter(1., 2.)}, {-1, -1e-9}, {-2, std::nan("")}, {-3, -std::numeric_limits<double>::infinity()}, {-4, 1e300}};
        for (int k = 0; k <= 64; ++k) cut[k] = k / 64.;
        cut[-1] = -std::numeric_limits<double>::denorm_min(); cut[-2] = std::nan(""); cut[-3] = -0.3; cut[65] = std::nextafter(1., 2.); cut[66] = 1.4;
        thr[0] = {0, 0, 0};
        thr[1] = {1, 0, 0}; thr[2] = {0, 0, -1}; thr[3] = {1e-3, -2e-3, 3e-4};
        for (int k = 4; k <= 9; ++k) {
            LD n = g.u(0.1L, 1.2L), c = g.u(-1, 1), a = g.u(0, 2 * PI), s = std::sqrt(1 - c * c);
            thr[k] = V3{n * s * std::cos(a), n * s * std::sin(a), n * c}.d();
        }
    }
    template <typename Mp, typename Vl>
    static long long find(const Mp &m, const Vl &v)
    {
        for (auto &[k, x] : m) {
            if constexpr (std::is_same_v<Vl, double>) { if (sameD(x, v)) return k; }
            else if constexpr (std::is_same_v<Vl, RV>) { if (sameS(x, v)) return k; }
            else { if (sameD(x[0], v[0]) && sameD(x[1], v[1]) && sameD(x[2], v[2])) return k; }
        }
        return -99;
    }
    Ints obs(const Leg &l) const
    {
        RV s, f;
        for (std::size_t i = 0; i < 6; ++i) { s[i / 3][i % 3] = l.get_rvms()[i]; f[i / 3][i % 3] = l.get_rvmf()[i]; }
        const bool agree = sameS(s, l.get_rvs()) && sameS(f, l.get_rvf()) && sameD(l.get_rvms()[6], l.get_ms()) && sameD(l.get_rvmf()[6], l.get_mf());
        Ints o{agree ? 1 : 2, find(rvs, l.get_rvs()), find(ms, l.get_ms()), find(rvf, l.get_rvf()), find(mf, l.get_mf()), find(tof, l.get_tof()), find(thrust, l.get_max_thrust()),
               find(isp, l.get_isp()), find(mu, l.get_mu()), find(cut, l.get_cut()), find(tol, l.get_tol()), l.get_nseg(), l.get_nseg_fwd(), l.get_nseg_bck()};
        const auto &t = l.get_throttles();
        for (std::size_t i = 0; i + 2 < t.size(); i += 3) o.push_back(find(thr, D3{t[i], t[i + 1], t[i + 2]}));
        if (t.size() % 3) o.push_back(-98);
        return o;
    }
};
using M77 = std::array<std::array<LD, 7>, 7>;
using M73 = std::array<std::array<LD, 3>, 7>;
static LD big(const M77 &m) { LD b = 0; for (auto &r : m) { LD q = 0; for (LD x : r) q += std::fabs(x); b = std::max(b, q); } return b; }
static M77 mul7(const M77 &a, const M77 &b)
{
    M77 c{};
    for (std::size_t i = 0; i < 7; ++i) for (std::size_t j = 0; j < 7; ++j) { LD s = 0; for (std::size_t k = 0; k < 7; ++k) s += a[i][k] * b[k][j]; c[i][j] = s; }
    return c;
}
static M77 eye7() { M77 m{}; for (std::size_t i = 0; i < 7; ++i) m[i][i] = 1; return m; }
// The reference flight over segments: where it ends, and how it depends on where it began.
struct Side {
    St<LD> end;
    std::vector<St<LD>> from;   // state at the beginning of every segment flown
    std::vector<M77> phi;       // derivative over every segment flown
    std::vector<M73> gam;       // ... with respect to the thrust
    std::vector<LD> loc;
    LD noise = 0, amp = 1;
    bool ok = true;
    M77 after(std::size_t k) const { M77 m = eye7(); for (std::size_t j = k; j < phi.size(); ++j) m = mul7(phi[j], m); return m; } // over segments k.. of those flown
};
static Side side(const St<LD> &c0, const Ints &ops, const std::vector<A3<LD>> &u, LD dt, LD gm, LD veff, int dir)
{
    using D = Dual<10>;
    Side s;
    s.end = c0;
    for (auto o : ops) {
        const auto &t = u[static_cast<std::size_t>(o - 1)];
        St<D> y(7);
        A3<D> ud;
        for (int i = 0; i < 7; ++i) y[static_cast<std::size_t>(i)] = D::var(s.end[static_cast<std::size_t>(i)], i);
        for (int i = 0; i < 3; ++i) ud[static_cast<std::size_t>(i)] = D::var(t[static_cast<std::size_t>(i)], 7 + i);
        s.from.push_back(s.end);
        if (!stark<D>(y, ud, gm, veff, dt * dir)) { s.ok = false; return s; }
        M77 m;
        M73 b;
        LD big1 = 1;
        for (std::size_t i = 0; i < 7; ++i) {
            s.end[i] = y[i].v;
            big1 = std::max({big1, std::fabs(y[i].v), std::fabs(s.from.back()[i])});
            for (std::size_t j = 0; j < 7; ++j) m[i][j] = y[i].d[j];
            for (std::size_t j = 0; j < 3; ++j) b[i][j] = y[i].d[7 + j];
        }
        if (s.end[6] < 0.05L || s.end[6] > 1e3L || big1 > 1e4L) s.ok = false;
        s.phi.push_back(m);
        s.gam.push_back(b);
        s.loc.push_back(big1 * (1 + dt) * std::max(LD(1), big(m)));
    }
    LD n = 1;
    M77 acc = eye7();
    for (std::size_t k = s.phi.size(); k-- > 0;) {
        n += big(acc) * s.loc[k];
        acc = mul7(acc, s.phi[k]);
        LD before = 1;
        for (std::size_t j = 0; j < k; ++j) before = std::max(before, big(s.phi[j]));
        s.amp = std::max(s.amp, big(acc) * s.loc[k] * before);
    }
    s.noise = n * 1e-15L;
    return s;
}
int main(int argc, char **argv)
{
    const int NS = hz::envint("NSLOTS", 3), NF = hz::envint("NFILES", 2);
    const std::string focus = std::getenv("FOCUS") ? std::getenv("FOCUS") : "mismatch";
    const bool wantObs = focus == "value";
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<std::unique_ptr<Leg>> st(static_cast<std::size_t>(NS) + 1);
        std::vector<bool> live(static_cast<std::size_t>(NS) + 1, false);
        std::vector<std::pair<std::string, std::string>> fl(static_cast<std::size_t>(NF) + 1);
        std::unique_ptr<World> wp;
        int flights = 0;
        std::vector<bool> flew{false};
        std::string tok;
        auto list = [&] { std::size_t n; is >> n; Ints v(n); for (auto &x : v) is >> x; return v; };
        int salt = 0;
        auto snap = [&](const Leg &l, bool full) {
            std::ostringstream o;
            o << std::hexfloat;
            auto num = [&](double c) { if (std::isnan(c)) o << "nan,"; else o << c << ','; };
            for (auto &a : {l.get_rvs(), l.get_rvf()}) for (auto &b : a) for (double c : b) num(c);
            for (auto &a : {l.get_rvms(), l.get_rvmf()}) for (double c : a) num(c);
            o << l.get_ms() << ',' << l.get_mf() << ',' << l.get_tof() << ',' << l.get_max_thrust() << ',' << l.get_isp() << ',' << l.get_mu() << ',' << l.get_cut() << ',' << l.get_tol() << ','
              << l.get_nseg() << ',' << l.get_nseg_fwd() << ',' << l.get_nseg_bck() << ';';
            for (double c : l.get_throttles()) o << c << ',';
            auto math = [&](auto f) { try { f(); } catch (const std::exception &) { o << "throws;"; } };
            math([&] { for (double c : l.compute_mismatch_constraints()) num(c); });
            math([&] { for (double c : l.compute_constraints()) num(c); });
            math([&] { for (double c : l.compute_throttle_constraints()) num(c); });
            math([&] { for (double c : l.compute_tc_grad()) num(c); });
            if (full) {
                math([&] { for (auto &r : l.get_state_history(3)) for (double c : r) num(c); });
                math([&] { auto [a, b, c] = l.compute_mc_grad(); for (double x : a) num(x); for (double x : b) num(x); for (double x : c) num(x); });
                math([&] { std::ostringstream q; q << l; std::string s = q.str(); std::size_t p; while ((p = s.find("-nan")) != std::string::npos) s.erase(p, 1); o << s; });
                math([&] { for (double c : l.compute_mismatch_constraints()) num(c); }); // nothing above leaves a trace
            }
            return o.str();
        };
        auto fresh = [&](const Leg &l) {
            try {
                const bool full = ++salt % 3 == 0;
                if (salt % 2) {
                    Leg n(l.get_rvs(), l.get_ms(), l.get_throttles(), l.get_rvf(), l.get_mf(), l.get_tof(), l.get_max_thrust(), l.get_isp(), l.get_mu(), l.get_cut(), l.get_tol());
                    return snap(n, full) == snap(l, full) ? 1 : 0;
                }
                Leg n(l.get_rvms(), l.get_throttles(), l.get_rvmf(), l.get_tof(), l.get_max_thrust(), l.get_isp(), l.get_mu(), l.get_cut(), l.get_tol());
                return snap(n, full) == snap(l, full) ? 1 : 0;
            } catch (const std::exception &) { return 0; }
        };
        auto seen = [&](hz::Ev &e) -> hz::Ev & {
            if (wantObs) {
                std::string o = "[";
                for (std::size_t s = 1; s < st.size(); ++s) o += (s > 1 ? "," : "") + hz::Ev::list(live[s] ? wp->obs(*st[s]) : Ints{0});
                e.raw("obs", o + "]");
                Ints f;
                for (std::size_t s = 1; s < st.size(); ++s) if (live[s]) f.push_back(fresh(*st[s]));
                e.ints("fresh", f);
            }
            return e;
        };
        auto tryit = [&](auto f) -> std::string {
            try { f(); return "ok"; } catch (const std::exception &) { return "refused"; }
        };
        auto thrv = [&](const Ints &t, int extra) {
            std::vector<double> v;
            for (auto k : t) for (double x : wp->thr[k]) v.push_back(x);
            for (int i = 0; i < extra; ++i) v.push_back(0.25);
            return v;
        };
        while (is >> tok) {
            auto E = hz::Ev(tok);
            if (tok == "Start") {
                std::string unit;
                is >> unit;
                wp = std::make_unique<World>(id, unit);
                E.i("id", static_cast<long long>(id)).str("unit", unit).emit();
                continue;
            }
            World &w = *wp;
            std::size_t s = 0, t = 0;
            if (tok == "Build" || tok == "SetAll") {
                int extra;
                std::string how;
                is >> s;
                Ints c = list(), th = list();
                is >> extra >> how;
                auto tv = thrv(th, extra);
                E.i("s", static_cast<long long>(s)).ints("c", c).ints("thr", th).i("extra", extra);
                const RV a = w.rvs[c[0]], b = w.rvf[c[2]];
                const double m0 = w.ms[c[1]], m1 = w.mf[c[3]], tf = w.tof[c[4]], F = w.thrust[c[5]], I = w.isp[c[6]], g = w.mu[c[7]], q = w.cut[c[8]], e = w.tol[c[9]];
                std::string out = tryit([&] {
                    if (tok == "Build") {
                        auto n = how == "rv" ? (c[9] == 1 ? std::make_unique<Leg>(a, m0, tv, b, m1, tf, F, I, g, q) : std::make_unique<Leg>(a, m0, tv, b, m1, tf, F, I, g, q, e))
                                             : std::make_unique<Leg>(seven(a, m0), tv, seven(b, m1), tf, F, I, g, q, e);
                        st[s] = std::move(n);
                        live[s] = true;
                    } else if (how == "rv") st[s]->set(a, m0, tv, b, m1, tf, F, I, g, q, e);
                    else st[s]->set(seven(a, m0), tv, seven(b, m1), tf, F, I, g, q, e);
                });
                seen(E.str("out", out)).emit();
            } else if (tok == "Part" || tok == "Chrom") {
                int extra = 0;
                is >> s;
                Ints p = list(), th = list();
                if (tok == "Part") is >> extra;
                auto tv = thrv(th, extra);
                E.i("s", static_cast<long long>(s)).ints("p", p).ints("thr", th);
                Leg &l = *st[s];
                const D7 a = seven(w.rvs[p[0]], w.ms[p[1]]), b = seven(w.rvf[p[2]], w.mf[p[3]]);
                const double tf = w.tof[p[4]];
                if (tok == "Part") {
                    std::string out = tryit([&] { l.set(a, tv, b, tf); });
                    seen(E.i("extra", extra).str("out", out)).emit();
                    continue;
                }
                std::vector<double> x(a.begin(), a.end()), got, want;
                x.insert(x.end(), tv.begin(), tv.end());
                x.insert(x.end(), b.begin(), b.end());
                x.push_back(tf);
                std::string out = "ok";
                int same = 1;
                try { got = l.set_and_compute_constraints(x); } catch (const std::exception &) { out = "refused"; }
                if (p[4] >= 0) { // the constraints may be undefined, the leg is set all the same
                    bool thrown = false;
                    try {
                        Leg n(a, tv, b, tf, l.get_max_thrust(), l.get_isp(), l.get_mu(), l.get_cut(), l.get_tol());
                        want = n.compute_constraints();
                    } catch (const std::exception &) { thrown = true; }
                    if (thrown && out == "refused") out = "throws";
                    same = got.size() == want.size();
                    for (std::size_t i = 0; same && i < got.size(); ++i) same = sameD(got[i], want[i]);
                }
                seen(E.str("out", out).i("same", same)).emit();
            } else if (tok == "Default") {
                is >> s;
                st[s] = std::make_unique<Leg>();
                live[s] = true;
                seen(E.i("s", static_cast<long long>(s))).emit();
            } else if (tok == "Scalar" || tok == "Free") {
                std::string f;
                long long x;
                is >> s >> f >> x;
                Leg &l = *st[s];
                std::string out = tryit([&] {
                    if (f == "tof") l.set_tof(w.tof[x]);
                    else if (f == "thrust") l.set_max_thrust(w.thrust[x]);
                    else if (f == "isp") l.set_isp(w.isp[x]);
                    else if (f == "mu") l.set_mu(w.mu[x]);
                    else if (f == "tol") l.set_tol(w.tol[x]);
                    else if (f == "rvs") l.set_rvs(w.rvs[x]);
                    else if (f == "rvf") l.set_rvf(w.rvf[x]);
                    else if (f == "ms") l.set_ms(w.ms[x]);
                    else l.set_mf(w.mf[x]);
                });
                seen(E.i("s", static_cast<long long>(s)).str("f", f).i("x", x).str("out", out)).emit();
            } else if (tok == "End") {
                int start;
                long long x, m;
                is >> s >> start >> x >> m;
                std::string out = tryit([&] {
                    if (start) st[s]->set_rvms(seven(w.rvs[x], w.ms[m]));
                    else st[s]->set_rvmf(seven(w.rvf[x], w.mf[m]));
                });
                seen(E.i("s", static_cast<long long>(s)).raw("start", start ? "true" : "false").i("x", x).i("m", m).str("out", out)).emit();
            } else if (tok == "Cut") {
                long long x;
                is >> s >> x;
                std::string out = tryit([&] { st[s]->set_cut(w.cut[x]); });
                seen(E.i("s", static_cast<long long>(s)).i("x", x).str("out", out)).emit();
            } else if (tok == "Thr") {
                int extra;
                std::string how;
                is >> s;
                Ints th = list();
                is >> extra >> how;
                auto tv = thrv(th, extra);
                std::string out = tryit([&] {
                    const auto &cv = tv;
                    if (how == "vec") st[s]->set_throttles(cv);
                    else if (how == "iter") st[s]->set_throttles(cv.begin(), cv.end());
                    else {
                        std::vector<double> bigv(5, 7.5);
                        bigv.insert(bigv.end(), tv.begin(), tv.end());
                        bigv.insert(bigv.end(), 4, -3.5);
                        const auto &cb = bigv;
                        st[s]->set_throttles(cb.begin() + 5, cb.end() - 4);
                    }
                });
                seen(E.i("s", static_cast<long long>(s)).ints("thr", th).i("extra", extra).str("out", out)).emit();
            } else if (tok == "Rev") {
                is >> s;
                Ints th = list();
                const auto tv = thrv(th, 0);
                std::string out = tryit([&] { st[s]->set_throttles(tv.end(), tv.begin()); });
                seen(E.i("s", static_cast<long long>(s)).str("out", out)).emit();
            } else if (tok == "Self") {
                is >> s;
                std::string out = tryit([&] { st[s]->set_throttles(st[s]->get_throttles()); });
                seen(E.i("s", static_cast<long long>(s)).str("out", out)).emit();
            } else if (tok == "Fly" || tok == "Look") {
                Ints fw, bw, rows;
                int phys = 1, smooth = 0;
                std::size_t K = 0;
                is >> s;
                if (tok == "Fly") fw = list();
                else { is >> phys >> smooth >> K; fw = list(); bw = list(); rows = list(); }
                Leg &l = *st[s];
                E.i("s", static_cast<long long>(s)).ints("fw", fw);
                if (tok == "Look") E.ints("bw", bw).i("k", static_cast<long long>(K)).ints("rows", rows);
                if (!phys || (tok == "Look" && focus == "value")) { seen(E).emit(); continue; }
                // nondimensional copies of what the leg reports
                const LD MUl = l.get_mu();
                const LD Lu = w.L, Tu = std::sqrt(Lu * Lu * Lu / MUl), Vu = Lu / Tu, Mu = w.M;
                auto nd = [&](const D7 &x) {
                    St<LD> c(7);
                    for (std::size_t i = 0; i < 3; ++i) { c[i] = x[i] / Lu; c[i + 3] = x[i + 3] / Vu; }
                    c[6] = x[6] / Mu;
                    return c;
                };
                const auto &tv = l.get_throttles();
                const std::size_t N = tv.size() / 3;
                const LD tof = l.get_tof() / Tu, dt = tof / static_cast<LD>(N), F = l.get_max_thrust() / (Mu * Vu / Tu);
                std::vector<A3<LD>> u(N);
                for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < 3; ++j) u[i][j] = F * tv[3 * i + j];
                const LD veff = static_cast<LD>(l.get_isp()) * static_cast<LD>(kep3::G0) / Vu;
                auto c0 = nd(l.get_rvms()), c1 = nd(l.get_rvmf());
                Side a = side(c0, fw, u, dt, 1, veff, 1);
                if (tok == "Fly") {
                    ++flights;
                    flew.push_back(a.ok);
                    RV x;
                    for (std::size_t i = 0; i < 3; ++i) { x[0][i] = static_cast<double>(a.end[i] * Lu); x[1][i] = static_cast<double>(a.end[i + 3] * Vu); }
                    // (moved by a few units in the last place: every flight is told apart from all other values)
                    x[0][0] *= 1 + flights * 2.3e-16;
                    w.rvf[1000 + flights] = x;
                    double mf = static_cast<double>(a.end[6] * Mu);
                    for (bool again = true; again;) { again = false; for (auto &[key, x] : w.mf) if (key != 1000 + flights && x == mf) again = true; if (again) mf = std::nextafter(mf, 1e300); }
                    w.mf[1000 + flights] = mf;
                    l.set_rvf(x);
                    l.set_mf(w.mf[1000 + flights]);
                    seen(E).emit();
                    continue;
                }
                Side b = side(c1, bw, u, dt, 1, veff, -1);
                const LD slack = std::max(LD(1), l.get_tol() / 1e-16L);
                const bool use = a.ok && b.ok && a.amp < 1e6L && b.amp < 1e6L && l.get_tol() < 1e-5;
                const LD noise = (a.noise + b.noise) * slack;
                auto unit = [&](std::size_t i) { return i < 3 ? Lu : (i < 6 ? Vu : Mu); };
                E.i("use", use);
                if (focus == "mismatch") {
                    LD mm = 0, zero = 0, tc = 0, row = 0, dyn = 0;
                    D7 mc;
                    mc.fill(std::nan(""));
                    try { mc = l.compute_mismatch_constraints(); } catch (const std::exception &) {}
                    for (std::size_t i = 0; i < 7; ++i) {
                        LD lib = mc[i] / unit(i), d = std::fabs(lib - (a.end[i] - b.end[i])) / noise, z = std::fabs(lib) / noise;
                        if (!(d <= mm)) mm = d;
                        if (!(z <= zero)) zero = z;
                    }
                    auto tcv = l.compute_throttle_constraints();
                    auto all = std::vector<double>();
                    try { all = l.compute_constraints(); } catch (const std::exception &) {}
                    if (tcv.size() != N) tc = 1e30L;
                    else for (std::size_t i = 0; i < N; ++i) {
                        LD q = 0;
                        for (std::size_t j = 0; j < 3; ++j) q += static_cast<LD>(tv[3 * i + j]) * tv[3 * i + j];
                        LD d = std::fabs(tcv[i] - (q - 1)) / (4e-16L * (1 + q));
                        if (!(d <= tc)) tc = d;
                    }
                    if (use && (all.size() != 7 + N)) tc = 1e30L;
                    else if (use) {
                        for (std::size_t i = 0; i < 7; ++i) if (!sameD(all[i], mc[i])) tc = 1e30L;
                        for (std::size_t i = 0; i < N; ++i) if (!sameD(all[7 + i], tcv[i])) tc = 1e30L;
                    }
                    if (auto k = World::find(w.rvf, l.get_rvf()); k > 1000 && !flew[static_cast<std::size_t>(k - 1000)]) zero = 0; // nothing was flown
                    // the derivative of the state, at both ends under the first throttle
                    for (auto *x : {&l.get_rvms(), &l.get_rvmf()}) {
                        D7 d = l.get_state_derivative(*x, {tv[0], tv[1], tv[2]});
                        auto y = nd(*x), r = starkRhs<LD>(y, u[0], 1, veff);
                        LD sc = 0;
                        for (LD q : r) sc = std::max(sc, std::fabs(q));
                        for (std::size_t i = 0; i < 7; ++i) { LD e = std::fabs(d[i] * Tu / unit(i) - r[i]) / (1e-15L * (i == 6 ? std::fabs(r[6]) + 1e-30L : sc)); if (!(e <= dyn)) dyn = e; }
                    }
                    // the state history, row by row
                    int shape = 0, ends = 0;
                    if (K >= 1 && l.get_tof() > 0) {
                        std::vector<std::vector<double>> h;
                        bool thrown = false;
                        try { h = l.get_state_history(static_cast<unsigned>(K)); } catch (const std::exception &) { thrown = true; }
                        if (K == 1) shape = thrown ? 2 : 0;
                        else if (!thrown) {
                            shape = h.size() == N;
                            for (auto &r : h) if (r.size() != 7 * K) shape = 0;
                        } else if (!use) shape = ends = 1; // no integration gets there
                        if (shape == 1 && !h.empty()) {
                            // departure and arrival are reported as they are
                            ends = 1;
                            for (std::size_t i = 0; i < 7; ++i) {
                                if (!fw.empty() && h[0][i] != l.get_rvms()[i]) ends = 0;
                                if (!bw.empty() && h[N - 1][i] != l.get_rvmf()[i]) ends = 0;
                            }
                            if (use) for (int d : {1, -1}) {
                                const Side &sd = d == 1 ? a : b;
                                const Ints &o = d == 1 ? fw : bw;
                                for (std::size_t q = 0; q < o.size(); ++q) {
                                    const auto seg = static_cast<std::size_t>(o[q] - 1);
                                    LD acc = 1;
                                    for (std::size_t z = 0; z < q; ++z) { M77 m = eye7(); for (std::size_t y = z + 1; y < q; ++y) m = mul7(sd.phi[y], m); acc += big(m) * sd.loc[z]; }
                                    for (std::size_t j = 0; j < K; ++j) {
                                        // when (in grid units), counted from the beginning of the segment on its side
                                        const LD now = rows[seg * K + j], begin = d == 1 ? static_cast<LD>(seg * (K - 1)) : static_cast<LD>((seg + 1) * (K - 1));
                                        St<LD> y = sd.from[q];
                                        if (!stark<LD>(y, u[seg], 1, veff, dt * (now - begin) / static_cast<LD>(K - 1))) continue;
                                        LD n = 1e-15L * (acc * std::max(LD(1), big(sd.phi[q])) + sd.loc[q]) * slack * (1 + tof);
                                        for (std::size_t i = 0; i < 7; ++i) { LD e = std::fabs(h[seg][7 * j + i] / unit(i) - y[i]) / n; if (!(e <= row)) row = e; }
                                    }
                                }
                            }
                        }
                    } else if (K == 1) {
                        try { l.get_state_history(1u); } catch (const std::exception &) { shape = 2; }
                    }
                    E.i("mm", lim(mm)).i("zero", lim(zero)).i("tc", lim(tc)).i("dyn", lim(dyn)).i("row", lim(row)).i("shape", shape).i("ends", ends);
                } else {
                    if (!smooth || !(l.get_tof() > 0)) { seen(E).emit(); continue; }
                    std::string before = snap(l, false);
                    std::array<double, 49> gs{}, gf{};
                    std::vector<double> gu;
                    int sizes = 1, finite = 1, exact = 1, same = 1;
                    std::tuple<std::vector<std::array<double, 49u>>, std::vector<std::array<double, 21u>>, std::vector<std::array<double, 7u>>> per;
                    try { std::tie(gs, gf, gu) = l.compute_mc_grad(); per = l.compute_all_gradients(); } catch (const std::exception &) { finite = 0; }
                    auto tg = l.compute_tc_grad();
                    const int pure = snap(l, false) == before;
                    const std::size_t C = 3 * N + 1;
                    if (finite && (gu.size() != 7 * C || std::get<0>(per).size() != N || std::get<1>(per).size() != N || std::get<2>(per).size() != N)) sizes = 0;
                    if (tg.size() != N * 3 * N) sizes = 0;
                    LD eg[4] = {0, 0, 0, 0}, et = 0, es = 0;
                    if (sizes) {
                        for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < 3 * N; ++j) {
                            LD ref = j / 3 == i ? 2 * static_cast<LD>(tv[j]) : 0;
                            LD d = std::fabs(tg[i * 3 * N + j] - ref) / (1e-15L * (std::fabs(ref) + (ref == 0 ? 1e-300L : 0)));
                            if (!(d <= et)) et = d;
                        }
                    }
                    if (sizes && finite) {
                        // the pieces put together again give the whole
                        auto [q1, q2, q3] = l.get_relevant_gradients(std::get<0>(per), std::get<1>(per), std::get<2>(per));
                        same = q1 == gs && q2 == gf && q3 == gu;
                        for (double x : gs) if (!std::isfinite(x)) finite = 0;
                        for (double x : gf) if (!std::isfinite(x)) finite = 0;
                        for (double x : gu) if (!std::isfinite(x)) finite = 0;
                        // structural zeros and identities
                        for (std::size_t j = 0; j < 6; ++j) if (gs[42 + j] != 0 || gf[42 + j] != 0) exact = 0;
                        auto eye = [&](const std::array<double, 49> &q, double sg) { for (std::size_t i = 0; i < 49; ++i) if (std::fabs(q[i] - (i % 8 ? 0. : sg)) > 1e-14) exact = 0; };
                        if (fw.empty()) eye(gs, 1);
                        if (bw.empty()) eye(gf, -1);
                        if (use) {
                            const LD tolr = (a.amp + b.amp) * 1e-14L * slack;
                            auto judge = [&](LD &e, double lib, LD colu, std::size_t i, LD ref, LD scale) {
                                LD d = std::fabs(lib * colu / unit(i) - ref) / (tolr * scale);
                                if (!(d <= e)) e = d;
                            };
                            // masses only move the rest through the thrust
                            auto um = [&](std::size_t q) { LD m = 0; for (std::size_t k = 0; k < N; ++k) m = std::max(m, std::sqrt(dotT(u[k], u[k]))); return q == 6 ? m * (1 + tof) * 4 / std::min({c0[6], c1[6], a.end[6], b.end[6], LD(1)}) / std::min({c0[6], c1[6], a.end[6], b.end[6], LD(1)}) : LD(1); };
                            const M77 A = a.after(0), B = b.after(0);
                            for (std::size_t i = 0; i < 7; ++i) for (std::size_t j = 0; j < 7; ++j) {
                                LD sc = i == 6 ? 1e-2L : um(j);
                                judge(eg[0], gs[7 * i + j], unit(j), i, A[i][j], sc);
                                judge(eg[1], gf[7 * i + j], unit(j), i, -B[i][j], sc);
                            }
                            LD ft[7] = {};
                            for (int d : {1, -1}) {
                                const Side &sd = d == 1 ? a : b;
                                const Ints &o = d == 1 ? fw : bw;
                                for (std::size_t q = 0; q < o.size(); ++q) {
                                    const auto seg = static_cast<std::size_t>(o[q] - 1);
                                    const M77 P = sd.after(q + 1), Q = sd.after(q);
                                    auto f = starkRhs<LD>(sd.from[q], u[seg], 1, veff);
                                    for (std::size_t i = 0; i < 7; ++i) {
                                        for (std::size_t j = 0; j < 3; ++j) {
                                            LD r = 0;
                                            for (std::size_t k = 0; k < 7; ++k) r += P[i][k] * sd.gam[q][k][j];
                                            judge(eg[2], gu[i * C + 3 * seg + j], 1, i, d * F * r, F * (dt + tof) * (i == 6 ? 1 / veff : 1 / std::min({c0[6], c1[6], a.end[6], b.end[6], LD(1)})) * 10);
                                        }
                                        for (std::size_t k = 0; k < 7; ++k) ft[i] += Q[i][k] * f[k] / static_cast<LD>(N);
                                    }
                                    // the piece of this segment
                                    const LD loct = 1e-14L * sd.loc[q] * big(sd.phi[q]) * slack * (1 + sd.amp);
                                    for (std::size_t i = 0; i < 7; ++i) for (std::size_t j = 0; j < 7; ++j) {
                                        LD e = std::fabs(std::get<0>(per)[seg][7 * i + j] * unit(j) / unit(i) - sd.phi[q][i][j]) / loct;
                                        if (!(e <= es)) es = e;
                                    }
                                }
                            }
                            for (std::size_t i = 0; i < 7; ++i) judge(eg[3], gu[i * C + C - 1], Tu, i, ft[i], i == 6 ? F / veff * 10 : 4);
                        }
                    }
                    E.i("sizes", sizes).i("finite", finite).i("exact", exact).i("pure", pure).i("same", same).i("tg", lim(et)).i("gs", lim(eg[0])).i("gf", lim(eg[1])).i("gu", lim(eg[2])).i("gt", lim(eg[3])).i("seg", lim(es));
                }
                seen(E).emit();
            } else if (tok == "Copy" || tok == "Move") {
                std::string how;
                is >> s >> t >> how;
                if (!st[t]) st[t] = std::make_unique<Leg>();
                if (tok == "Copy") {
                    if (how == "ctor") { auto c = std::make_unique<Leg>(*st[s]); st[t] = std::move(c); }
                    else *st[t] = *st[s];
                } else {
                    if (how == "ctor") st[t] = std::make_unique<Leg>(std::move(*st[s]));
                    else *st[t] = std::move(*st[s]);
                    live[s] = false;
                    st[s].reset();
                }
                live[t] = true;
                seen(E.i("s", static_cast<long long>(s)).i("t", static_cast<long long>(t))).emit();
            } else if (tok == "Save") {
                std::size_t f;
                std::string how;
                is >> s >> f >> how;
                std::ostringstream o;
                if (how == "text") { boost::archive::text_oarchive ar(o); const Leg &l = *st[s]; ar << l; }
                else { boost::archive::binary_oarchive ar(o); const Leg &l = *st[s]; ar << l; }
                fl[f] = {how, o.str()};
                seen(E.i("s", static_cast<long long>(s)).i("f", static_cast<long long>(f))).emit();
            } else if (tok == "Load") {
                std::size_t f;
                std::string how;
                is >> f >> t >> how;
                if (how == "fresh" || !st[t]) st[t] = std::make_unique<Leg>();
                try {
                    std::istringstream i(fl[f].second);
                    if (fl[f].first == "text") { boost::archive::text_iarchive ar(i); ar >> *st[t]; } else { boost::archive::binary_iarchive ar(i); ar >> *st[t]; }
                } catch (const std::exception &) {}
                live[t] = true;
                seen(E.i("f", static_cast<long long>(f)).i("t", static_cast<long long>(t))).emit();
            }
        }
    });
}
