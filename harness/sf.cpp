// Replays behaviours of SF.tla: Sims-Flanagan legs, their timelines, gradients and histories.
#include "hz.hpp"
#include "univ.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <kep3/core_astro/constants.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include <map>
#include <memory>
using namespace orc;
using Leg = kep3::leg::sims_flanagan;
using Ints = std::vector<long long>;
static int lim(LD e) { return !(e < 1e9L) ? (1 << 30) : static_cast<int>(std::ceil(e)); }
static bool sameD(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool sameS(const RV &a, const RV &b)
{
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (!sameD(a[i][j], b[i][j])) return false;
    return true;
}
// The values the tokens of one behaviour stand for.
struct World {
    LD L = 1, MU = 1, M = 1, T = 1, V = 1;
    std::map<long long, RV> rvs, rvf;
    std::map<long long, double> ms, mf, tof, thrust, isp, mu, cut;
    std::map<long long, D3> thr;
    static RV state(const SV &s) { return {s.r.d(), s.v.d()}; }
    World(std::uint64_t id, const std::string &unit)
    {
        Rng g(hz::envseed() * 7919ULL + id * 65537ULL + 11);
        if (unit == "other") { L = g.lg(1e-3L, 1e12L); MU = g.lg(1e-3L, 1e20L); M = g.lg(0.1L, 1e4L); }
        if (unit != "other") MU = g.u(0.9L, 0.99L);
        MU = static_cast<double>(MU);
        T = std::sqrt(L * L * L / MU);
        V = L / T;
        auto orb = [&](int k) {
            Orb o;
            o.mu = MU;
            o.e = k == 3 ? g.u(1.3L, 2.5L) : (k == 4 ? g.u(0, 0.01L) : g.u(0.05L, 0.4L));
            o.a = L * g.u(0.8L, 1.4L) * (k == 3 ? -1 : 1);
            o.i = k == 4 ? 0 : g.u(0.1L, 3);
            o.W = g.u(0, 2 * PI); o.w = g.u(0, 2 * PI);
            return state(stateM(o, k == 3 ? g.u(-2, 2) : g.u(0, 2 * PI)));
        };
        for (int k = 1; k <= 4; ++k) { rvs[k] = orb(k); rvf[k] = orb(k); }
        for (int k = 1; k <= 3; ++k) {
            ms[k] = static_cast<double>(M * g.u(0.8L, 1.5L));
            mf[k] = static_cast<double>(M * g.u(0.5L, 1.2L));
            tof[k] = static_cast<double>(T * (k == 1 ? g.u(0.3L, 1) : (k == 2 ? g.u(1, 4) : g.u(4, 9))));
            thrust[k] = static_cast<double>(M * V / T * g.lg(0.002L, 0.02L));
            isp[k] = static_cast<double>(V / static_cast<LD>(kep3::G0) * g.lg(0.5L, 20));
            mu[k] = static_cast<double>(k == 1 ? MU : MU * g.u(0.9L, 1.1L));
        }
        Leg d;
        rvs[900] = d.get_rvs(); rvf[900] = d.get_rvf();
        ms[900] = 1; mf[900] = 1; tof[900] = static_cast<double>(PI / 2); thrust[900] = 1; isp[900] = 1; mu[900] = 1;
        for (auto *m : {&tof, &thrust, &isp, &mu}) {
            (*m)[0] = g.i(0, 3) ? 0.0 : -0.0;
            (*m)[-1] = -(*m)[1];
            (*m)[-2] = std::nan("");
            (*m)[-3] = -std::numeric_limits<double>::infinity();
            (*m)[-4] = -std::numeric_limits<double>::denorm_min();
        }
        for (auto *m : {&ms, &mf}) { (*m)[0] = 0; (*m)[-1] = -1.5; }
        for (int k = 0; k <= 64; ++k) cut[k] = k / 64.;
        cut[-1] = -std::numeric_limits<double>::denorm_min(); cut[-2] = std::nan(""); cut[-3] = -0.3; cut[65] = std::nextafter(1., 2.); cut[66] = 1.4;
        thr[0] = {0, 0, 0};
        thr[1] = {1, 0, 0}; thr[2] = {0, 0, -1}; thr[3] = {1e-5, -2e-5, 3e-6};
        for (int k = 4; k <= 9; ++k) {
            LD n = g.u(0.1L, 1.2L), c = g.u(-1, 1), a = g.u(0, 2 * PI), s = std::sqrt(1 - c * c);
            thr[k] = V3{n * s * std::cos(a), n * s * std::sin(a), n * c}.d();
        }
    }
    template <typename Mp, typename Vl>
    static long long find(const Mp &m, const Vl &v)
    {
        for (auto &[k, x] : m) {
            if constexpr (std::is_same_v<Vl, double>) { if (sameD(x, v)) return k; }
            else if constexpr (std::is_same_v<Vl, RV>) { if (sameS(x, v)) return k; }
            else { if (sameD(x[0], v[0]) && sameD(x[1], v[1]) && sameD(x[2], v[2])) return k; }
        }
        return -99;
    }
    Ints obs(const Leg &l) const
    {
        Ints o{1, find(rvs, l.get_rvs()), find(ms, l.get_ms()), find(rvf, l.get_rvf()), find(mf, l.get_mf()), find(tof, l.get_tof()), find(thrust, l.get_max_thrust()),
               find(isp, l.get_isp()), find(mu, l.get_mu()), find(cut, l.get_cut()), l.get_nseg(), l.get_nseg_fwd(), l.get_nseg_bck()};
        const auto &t = l.get_throttles();
        for (std::size_t i = 0; i + 2 < t.size(); i += 3) o.push_back(find(thr, D3{t[i], t[i + 1], t[i + 2]}));
        if (t.size() % 3) o.push_back(-98);
        return o;
    }
};
// The flight itself: nondimensional state, in any scalar.
template <typename S>
struct Craft { A3<S> r, v; S m; };
template <typename S>
bool fly(Craft<S> &c, const Ints &ops, const std::vector<A3<S>> &u, const S &half, const S &cc, LD veff, int dir)
{
    for (auto o : ops) {
        if (o > 0) {
            S dt = half * static_cast<LD>(o) * static_cast<LD>(dir);
            if (val(dt) != 0 || sizeof(S) > sizeof(LD)) if (!keplerU<S>(c.r, c.v, dt, 1.0L)) return false;
        } else {
            const auto &t = u[static_cast<std::size_t>((-o > 1000 ? -o - 1000 : -o) - 1)];
            S n2 = dotT(t, t), n = val(n2) > 0 ? dsqrt(n2) : S(0.0L), m = c.m;
            if (-o > 1000) { // the mass after the impulse: x = m exp(-q/x)
                LD q = val(cc) * val(n) / veff, x = val(m);
                if (q > 0.3L * x) return false;
                for (int it = 0; it < 60; ++it) { LD ex = val(c.m) * std::exp(-q / x); x = x - (x - ex) / (1 - ex * q / (x * x)); }
                m = S(x);
            }
            S k = cc / m;
            for (std::size_t i = 0; i < 3; ++i) c.v[i] = c.v[i] + static_cast<LD>(dir) * (k * t[i]);
            c.m = c.m * dexp(-static_cast<LD>(dir) * (k * n) / veff);
        }
    }
    return true;
}
struct Side { // outcome of one half of a leg with its error scale
    Craft<LD> end;
    LD noise = 0, mnoise = 0, amp = 0;
    bool ok = true;
};
static Side side(const Craft<LD> &c0, const Ints &ops, const std::vector<A3<LD>> &u, LD half, LD cc, LD veff, int dir)
{
    Side s;
    s.end = c0;
    std::vector<M66> phi;
    std::vector<LD> loc;
    for (auto o : ops) {
        if (o > 0) {
            SV a{{s.end.r[0], s.end.r[1], s.end.r[2]}, {s.end.v[0], s.end.v[1], s.end.v[2]}};
            M66 m;
            LD dt = half * o * dir;
            LD e = read(a, 1.0L).e;
            if (std::fabs(e - 1) < 0.05L) s.ok = false;
            if (!stmU(a, dt, 1.0L, m)) { s.ok = false; return s; }
            phi.push_back(m);
            loc.push_back(condU(a, dt, 1.0L));
        }
        if (!fly<LD>(s.end, {o}, u, half, cc, veff, dir)) { s.ok = false; return s; }
        if (o > 0) loc.back() *= std::max({LD(1), norm(V3{s.end.r[0], s.end.r[1], s.end.r[2]}), norm(V3{s.end.v[0], s.end.v[1], s.end.v[2]})});
    }
    M66 acc{};
    for (int i = 0; i < 6; ++i) acc[i][i] = 1;
    LD n = 1;
    auto big = [](const M66 &m) { LD b = 0; for (auto &r : m) { LD q = 0; for (LD x : r) q += std::fabs(x); b = std::max(b, q); } return b; };
    s.amp = 1;
    for (std::size_t k = phi.size(); k-- > 0;) {
        n += big(acc) * loc[k];
        acc = mul(acc, phi[k]);
        LD before = 1;
        for (std::size_t j = 0; j < k; ++j) before = std::max(before, big(phi[j]));
        s.amp = std::max(s.amp, big(acc) * loc[k] * before);
    }
    s.noise = n * 1e-15L;
    return s;
}
int main(int argc, char **argv)
{
    const int NS = hz::envint("NSLOTS", 3), NF = hz::envint("NFILES", 2);
    const std::string focus = std::getenv("FOCUS") ? std::getenv("FOCUS") : "mismatch";
    const bool wantObs = focus == "valid" || focus == "history", wantFresh = focus == "history", wantMath = focus == "mismatch" || focus == "grad";
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<std::unique_ptr<Leg>> st(static_cast<std::size_t>(NS) + 1);
        std::vector<bool> live(static_cast<std::size_t>(NS) + 1, false);
        std::vector<std::pair<std::string, std::string>> fl(static_cast<std::size_t>(NF) + 1);
        std::unique_ptr<World> wp;
        int flights = 0;
        std::vector<bool> flew{false};
        std::string tok;
        auto list = [&] { std::size_t n; is >> n; Ints v(n); for (auto &x : v) is >> x; return v; };
        auto snap = [&](const Leg &l) {
            std::ostringstream o;
            o << std::hexfloat;
            for (auto &a : {l.get_rvs(), l.get_rvf()}) for (auto &b : a) for (double c : b) o << c << ',';
            o << l.get_ms() << ',' << l.get_mf() << ',' << l.get_tof() << ',' << l.get_max_thrust() << ',' << l.get_isp() << ',' << l.get_mu() << ',' << l.get_cut() << ','
              << l.get_nseg() << ',' << l.get_nseg_fwd() << ',' << l.get_nseg_bck() << ';';
            for (double c : l.get_throttles()) o << c << ',';
            auto math = [&](auto f) { try { f(); } catch (const std::exception &) { o << "throws;"; } };
            auto num = [&](double c) { if (std::isnan(c)) o << "nan,"; else o << c << ','; };
            math([&] { for (double c : l.compute_mismatch_constraints()) num(c); });
            math([&] { for (double c : l.compute_throttle_constraints()) num(c); });
            math([&] { for (double c : l.compute_tc_grad()) num(c); });
            if (id % 4 == 0) math([&] { auto [a, b, c] = l.compute_mc_grad(); for (double x : a) num(x); for (double x : b) num(x); for (double x : c) num(x); });
            math([&] { std::ostringstream q; q << l; std::string s = q.str(); std::size_t p; while ((p = s.find("-nan")) != std::string::npos) s.erase(p, 1); o << s; });
            return o.str();
        };
        auto fresh = [&](const Leg &l) {
            try {
                Leg n(l.get_rvs(), l.get_ms(), l.get_throttles(), l.get_rvf(), l.get_mf(), l.get_tof(), l.get_max_thrust(), l.get_isp(), l.get_mu(), l.get_cut());
                return snap(n) == snap(l) ? 1 : 0;
            } catch (const std::exception &) { return 0; }
        };
        auto seen = [&](hz::Ev &e) -> hz::Ev & {
            if (wantObs) {
                std::string o = "[";
                for (std::size_t s = 1; s < st.size(); ++s) o += (s > 1 ? "," : "") + hz::Ev::list(live[s] ? wp->obs(*st[s]) : Ints{0});
                e.raw("obs", o + "]");
            }
            if (wantFresh) {
                Ints f;
                for (std::size_t s = 1; s < st.size(); ++s) if (live[s]) f.push_back(fresh(*st[s]));
                e.ints("fresh", f);
            }
            return e;
        };
        auto tryit = [&](auto f) -> std::string {
            try { f(); return "ok"; } catch (const std::exception &) { return "refused"; }
        };
        auto thrv = [&](const Ints &t, int extra) {
            std::vector<double> v;
            for (auto k : t) for (double x : wp->thr[k]) v.push_back(x);
            for (int i = 0; i < extra; ++i) v.push_back(0.25);
            return v;
        };
        while (is >> tok) {
            auto E = hz::Ev(tok);
            if (tok == "Start") {
                std::string unit;
                is >> unit;
                wp = std::make_unique<World>(id, unit);
                E.i("id", static_cast<long long>(id)).str("unit", unit).emit();
                continue;
            }
            World &w = *wp;
            std::size_t s = 0, t = 0;
            if (tok == "Build" || tok == "SetAll") {
                int extra;
                is >> s;
                Ints c = list(), th = list();
                is >> extra;
                auto tv = thrv(th, extra);
                E.i("s", static_cast<long long>(s)).ints("c", c).ints("thr", th).i("extra", extra);
                std::string out = tryit([&] {
                    if (tok == "Build") {
                        auto n = std::make_unique<Leg>(w.rvs[c[0]], w.ms[c[1]], tv, w.rvf[c[2]], w.mf[c[3]], w.tof[c[4]], w.thrust[c[5]], w.isp[c[6]], w.mu[c[7]], w.cut[c[8]]);
                        st[s] = std::move(n);
                        live[s] = true;
                    } else {
                        st[s]->set(w.rvs[c[0]], w.ms[c[1]], tv, w.rvf[c[2]], w.mf[c[3]], w.tof[c[4]], w.thrust[c[5]], w.isp[c[6]], w.mu[c[7]], w.cut[c[8]]);
                    }
                });
                seen(E.str("out", out)).emit();
            } else if (tok == "Default") {
                is >> s;
                st[s] = std::make_unique<Leg>();
                live[s] = true;
                seen(E.i("s", static_cast<long long>(s))).emit();
            } else if (tok == "Scalar" || tok == "Free") {
                std::string f;
                long long x;
                is >> s >> f >> x;
                Leg &l = *st[s];
                std::string out = tryit([&] {
                    if (f == "tof") l.set_tof(w.tof[x]);
                    else if (f == "thrust") l.set_max_thrust(w.thrust[x]);
                    else if (f == "isp") l.set_isp(w.isp[x]);
                    else if (f == "mu") l.set_mu(w.mu[x]);
                    else if (f == "rvs") l.set_rvs(w.rvs[x]);
                    else if (f == "rvf") l.set_rvf(w.rvf[x]);
                    else if (f == "ms") l.set_ms(w.ms[x]);
                    else l.set_mf(w.mf[x]);
                });
                seen(E.i("s", static_cast<long long>(s)).str("f", f).i("x", x).str("out", out)).emit();
            } else if (tok == "Cut") {
                long long x;
                is >> s >> x;
                std::string out = tryit([&] { st[s]->set_cut(w.cut[x]); });
                seen(E.i("s", static_cast<long long>(s)).i("x", x).str("out", out)).emit();
            } else if (tok == "Thr") {
                int extra;
                std::string how;
                is >> s;
                Ints th = list();
                is >> extra >> how;
                auto tv = thrv(th, extra);
                std::string out = tryit([&] {
                    const auto &cv = tv;
                    if (how == "vec") st[s]->set_throttles(cv);
                    else if (how == "iter") st[s]->set_throttles(cv.begin(), cv.end());
                    else {
                        std::vector<double> big(5, 7.5);
                        big.insert(big.end(), tv.begin(), tv.end());
                        big.insert(big.end(), 4, -3.5);
                        const auto &cb = big;
                        st[s]->set_throttles(cb.begin() + 5, cb.end() - 4);
                    }
                });
                seen(E.i("s", static_cast<long long>(s)).ints("thr", th).i("extra", extra).str("out", out)).emit();
            } else if (tok == "Rev") {
                is >> s;
                Ints th = list();
                const auto tv = thrv(th, 0);
                std::string out = tryit([&] { st[s]->set_throttles(tv.end(), tv.begin()); });
                seen(E.i("s", static_cast<long long>(s)).str("out", out)).emit();
            } else if (tok == "Self") {
                is >> s;
                std::string out = tryit([&] { st[s]->set_throttles(st[s]->get_throttles()); });
                seen(E.i("s", static_cast<long long>(s)).str("out", out)).emit();
            } else if (tok == "Fly" || tok == "Look") {
                is >> s;
                Ints fw, bw;
                int phys = 1;
                if (tok == "Fly") fw = list();
                else { is >> phys; fw = list(); bw = list(); }
                Leg &l = *st[s];
                E.i("s", static_cast<long long>(s));
                if (tok == "Look") E.ints("fw", fw).ints("bw", bw);
                if (!phys || (tok == "Look" && !wantMath)) { seen(E).emit(); continue; }
                // nondimensional copies of what the leg reports
                const LD MUl = l.get_mu();
                const LD Lu = w.L, Tu = std::sqrt(Lu * Lu * Lu / MUl), Vu = Lu / Tu, Mu = w.M;
                auto nd = [&](const RV &x, double m) {
                    Craft<LD> c;
                    for (std::size_t i = 0; i < 3; ++i) { c.r[i] = x[0][i] / Lu; c.v[i] = x[1][i] / Vu; }
                    c.m = m / Mu;
                    return c;
                };
                const auto &tv = l.get_throttles();
                const std::size_t N = tv.size() / 3;
                std::vector<A3<LD>> u(N);
                for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < 3; ++j) u[i][j] = tv[3 * i + j];
                const LD tof = l.get_tof() / Tu, half = tof / static_cast<LD>(N) / 2, F = l.get_max_thrust() / (Mu * Vu / Tu), cc = F * tof / static_cast<LD>(N);
                const LD veff = static_cast<LD>(l.get_isp()) * static_cast<LD>(kep3::G0) / Vu;
                auto c0 = nd(l.get_rvs(), l.get_ms()), c1 = nd(l.get_rvf(), l.get_mf());
                Side a = side(c0, fw, u, half, cc, veff, 1);
                if (tok == "Fly") {
                    ++flights;
                    flew.push_back(a.ok);
                    RV x;
                    for (std::size_t i = 0; i < 3; ++i) { x[0][i] = static_cast<double>(a.end.r[i] * Lu); x[1][i] = static_cast<double>(a.end.v[i] * Vu); }
                    // (moved by a few units in the last place: every flight is told apart from all other values)
                    x[0][0] *= 1 + flights * 2.3e-16;
                    w.rvf[1000 + flights] = x;
                    double mf = static_cast<double>(a.end.m * Mu);
                    for (bool again = true; again;) { again = false; for (auto &[key, x] : w.mf) if (key != 1000 + flights && x == mf) again = true; if (again) mf = std::nextafter(mf, 1e300); }
                    w.mf[1000 + flights] = mf;
                    l.set_rvf(x);
                    l.set_mf(w.mf[1000 + flights]);
                    seen(E).emit();
                    continue;
                }
                Side b = side(c1, bw, u, half, cc, veff, -1);
                // leftovers of incompatible numbers (say the default leg's thrust): judged when both sides stay moderate
                const bool use = a.ok && b.ok && a.amp < 1e6L && b.amp < 1e6L;
                const LD sc = std::max({std::sqrt(dotT(a.end.r, a.end.r)), std::sqrt(dotT(a.end.v, a.end.v)), std::sqrt(dotT(b.end.r, b.end.r)), std::sqrt(dotT(b.end.v, b.end.v)), LD(1)});
                const LD noise = (a.noise + b.noise) * sc;
                E.i("use", use);
                if (focus == "mismatch") {
                    LD mm = 0, zero = 0, mass = 0, tc = 0;
                    std::array<double, 7> mc;
                    mc.fill(std::nan(""));
                    try { mc = l.compute_mismatch_constraints(); } catch (const std::exception &) {}
                    for (std::size_t i = 0; i < 6; ++i) {
                        LD lib = mc[i] / (i < 3 ? Lu : Vu), ref = i < 3 ? a.end.r[i] - b.end.r[i] : a.end.v[i - 3] - b.end.v[i - 3];
                        LD d = std::fabs(lib - ref) / noise, z = std::fabs(lib) / noise;
                        if (!(d <= mm)) mm = d;
                        if (!(z <= zero)) zero = z;
                    }
                    LD mn = 4e-16L * static_cast<LD>(N + 2) * (a.end.m + b.end.m);
                    LD fac = 1 + std::fabs(std::log(a.end.m / c0.m)) + std::fabs(std::log(b.end.m / c1.m));
                    mass = std::fabs(mc[6] / Mu - (a.end.m - b.end.m)) / (mn * fac);
                    if (!(std::fabs(mc[6] / Mu) / (mn * fac) <= zero)) zero = std::fabs(mc[6] / Mu) / (mn * fac);
                    auto t = l.compute_throttle_constraints();
                    if (t.size() != N) tc = 1e30L;
                    else for (std::size_t i = 0; i < N; ++i) {
                        LD d = std::fabs(t[i] - (dotT(u[i], u[i]) - 1)) / (4e-16L * (1 + dotT(u[i], u[i])));
                        if (!(d <= tc)) tc = d;
                    }
                    { auto k = World::find(w.rvf, l.get_rvf()); if (k > 1000 && !flew[static_cast<std::size_t>(k - 1000)]) zero = 0; } // nothing was flown
                    E.i("mm", lim(mm)).i("zero", lim(zero)).i("mass", lim(mass)).i("tc", lim(tc));
                } else {
                    std::string before = snap(l);
                    std::array<double, 49> gs{}, gf{};
                    std::vector<double> gu;
                    int sizes = 1, finite = 1, exact = 1;
                    try { std::tie(gs, gf, gu) = l.compute_mc_grad(); } catch (const std::exception &) { finite = 0; }
                    auto tg = l.compute_tc_grad();
                    const int pure = snap(l) == before;
                    const std::size_t C = 3 * N + 1;
                    if (gu.size() != 7 * C || tg.size() != N * 3 * N) sizes = 0;
                    LD eg[4] = {0, 0, 0, 0}, et = 0;
                    if (sizes) {
                        for (double x : gs) if (!std::isfinite(x)) finite = 0;
                        for (double x : gf) if (!std::isfinite(x)) finite = 0;
                        for (double x : gu) if (!std::isfinite(x)) finite = 0;
                        for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < 3 * N; ++j) {
                            LD ref = j / 3 == i ? 2 * u[i][j % 3] : 0;
                            LD d = std::fabs(tg[i * 3 * N + j] - ref) / (1e-15L * (std::fabs(ref) + (ref == 0 ? 1e-300L : 0)));
                            if (!(d <= et)) et = d;
                        }
                        // structural zeros and identities
                        for (std::size_t j = 0; j < 6; ++j) if (gs[42 + j] != 0 || gf[42 + j] != 0) exact = 0;
                        auto eye = [&](const std::array<double, 49> &q, double sg) { for (std::size_t i = 0; i < 49; ++i) if (std::fabs(q[i] - (i % 8 ? 0. : sg)) > 1e-14) exact = 0; };
                        if (fw.empty()) eye(gs, 1);
                        if (bw.empty()) eye(gf, -1);
                        // reference: eight variables at a time
                        using D = Dual<8>;
                        const std::size_t NV = 14 + C;
                        std::vector<std::array<LD, 7>> ref(NV);
                        for (std::size_t v0 = 0; v0 < NV; v0 += 8) {
                            auto var = [&](LD x, std::size_t k) { return k >= v0 && k < v0 + 8 ? D::var(x, static_cast<int>(k - v0)) : D(x); };
                            Craft<D> p, q;
                            for (std::size_t i = 0; i < 3; ++i) { p.r[i] = var(c0.r[i], i); p.v[i] = var(c0.v[i], 3 + i); q.r[i] = var(c1.r[i], 7 + i); q.v[i] = var(c1.v[i], 10 + i); }
                            p.m = var(c0.m, 6); q.m = var(c1.m, 13);
                            std::vector<A3<D>> ud(N);
                            for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < 3; ++j) ud[i][j] = var(u[i][j], 14 + 3 * i + j);
                            D td = var(tof, NV - 1), hd = td / static_cast<LD>(2 * N), cd = F * td / static_cast<LD>(N);
                            if (!fly<D>(p, fw, ud, hd, cd, veff, 1) || !fly<D>(q, bw, ud, hd, cd, veff, -1)) { E.i("use", 0); }
                            for (std::size_t k = v0; k < std::min(NV, v0 + 8); ++k)
                                for (std::size_t i = 0; i < 7; ++i) {
                                    const D z = i < 3 ? p.r[i] - q.r[i] : (i < 6 ? p.v[i - 3] - q.v[i - 3] : p.m - q.m);
                                    ref[k][i] = z.d[k - v0];
                                }
                        }
                        const LD tol = (a.amp + b.amp) * 1e-14L;
                        for (std::size_t k = 0; k < NV; ++k)
                            for (std::size_t i = 0; i < 7; ++i) {
                                LD lib, colu = (k % 7 < 3 && k < 14) ? Lu : ((k % 7 < 6 && k < 14) ? Vu : (k < 14 ? Mu : (k == NV - 1 ? Tu : 1)));
                                LD rowu = i < 3 ? Lu : (i < 6 ? Vu : Mu);
                                if (k < 7) lib = gs[i * 7 + k];
                                else if (k < 14) lib = gf[i * 7 + (k - 7)];
                                else lib = gu[i * C + (k - 14)];
                                lib *= colu / rowu;
                                LD scale = (k >= 14 && k < NV - 1) ? cc / std::min(c0.m, c1.m) + 1e-300L : (k == 6 || k == 13) && i < 6 ? cc / std::min({c0.m, c1.m, a.end.m, b.end.m}) * static_cast<LD>(N) + 1e-300L : (k == NV - 1 ? 1 + F : LD(1));
                                if (i == 6) scale *= (k >= 14 ? std::max(a.end.m, b.end.m) / veff + 1 : 1);
                                LD d = std::fabs(lib - ref[k][i]) / (tol * scale);
                                LD &e = eg[k < 7 ? 0 : (k < 14 ? 1 : (k < NV - 1 ? 2 : 3))];
                                if (!(d <= e)) e = d;
                            }
                    }
                    E.i("sizes", sizes).i("finite", finite || !use).i("exact", exact).i("pure", pure).i("tg", lim(et)).i("gs", lim(eg[0])).i("gf", lim(eg[1])).i("gu", lim(eg[2])).i("gt", lim(eg[3]));
                }
                seen(E).emit();
            } else if (tok == "Copy" || tok == "Move") {
                std::string how;
                is >> s >> t >> how;
                if (!st[t]) st[t] = std::make_unique<Leg>();
                if (tok == "Copy") {
                    if (how == "ctor") { auto c = std::make_unique<Leg>(*st[s]); st[t] = std::move(c); }
                    else *st[t] = *st[s];
                } else {
                    if (how == "ctor") st[t] = std::make_unique<Leg>(std::move(*st[s]));
                    else *st[t] = std::move(*st[s]);
                    live[s] = false;
                    st[s].reset();
                }
                live[t] = true;
                seen(E.i("s", static_cast<long long>(s)).i("t", static_cast<long long>(t))).emit();
            } else if (tok == "Save") {
                std::size_t f;
                std::string how;
                is >> s >> f >> how;
                std::ostringstream o;
                if (how == "text") { boost::archive::text_oarchive a(o); const Leg &l = *st[s]; a << l; }
                else { boost::archive::binary_oarchive a(o); const Leg &l = *st[s]; a << l; }
                fl[f] = {how, o.str()};
                seen(E.i("s", static_cast<long long>(s)).i("f", static_cast<long long>(f))).emit();
            } else if (tok == "Load") {
                std::size_t f;
                std::string how;
                is >> f >> t >> how;
                if (how == "fresh" || !st[t]) st[t] = std::make_unique<Leg>();
                try {
                    std::istringstream i(fl[f].second);
                    if (fl[f].first == "text") { boost::archive::text_iarchive a(i); a >> *st[t]; } else { boost::archive::binary_iarchive a(i); a >> *st[t]; }
                } catch (const std::exception &) {}
                live[t] = true;
                seen(E.i("f", static_cast<long long>(f)).i("t", static_cast<long long>(t))).emit();
            }
        }
    });
}
