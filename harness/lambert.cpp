// Replays behaviours of Lambert.tla in the real Lambert solver.
#include "hz.hpp"
#include "lambertref.hpp"
#include "orbits.hpp"
#include <kep3/lambert_problem.hpp>
#include <map>
using namespace orc;
static const int NT = 72;

struct Geo {
    D3 r0, r1;       // as given to the library
    double mu, tof;
    bool lng;        // transfer angle above 180 degrees in the chosen direction
    int dir;
    bool ok = true;
    LD th;
    int turns;
    std::map<std::pair<int, int>, kep3::lambert_problem> done; // by (direction, cap)
};
static void scale(const std::string &unit, Rng &g, int r, LD &L, LD &mu)
{
    Orb o = shape("low", "gen", unit, g, r);
    L = o.a; mu = o.mu;
}
static LD relv(const D3 &a, const D3 &b)
{
    LD n = norm(V3(a) - V3(b)) / std::max(norm(V3(b)), 1e-300L);
    return n;
}
int main(int argc, char **argv)
{
    const int R = hz::envint("REPS", 12);
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<Geo> gs;
        std::string tok;
        int step = 0;
        while (is >> tok) {
            ++step;
            Rng gstep(hz::envseed() * 7919ULL + id * 257ULL + static_cast<std::uint64_t>(step) * 1000003ULL);
            if (tok == "Start") {
                int th, dir, turns;
                std::string frac, ratio, plane, unit;
                is >> th >> dir >> turns >> frac >> ratio >> plane >> unit;
                gs.clear();
                for (int r = 0; r < R; ++r) {
                    Rng g(hz::envseed() * 1000003ULL + id * 131ULL + static_cast<std::uint64_t>(r));
                    Geo p;
                    LD L, mu;
                    scale(unit, g, r, L, mu);
                    LD q = ratio == "equal" ? 1 : (ratio == "near" ? g.u(0.8L, 1.25L) : g.lg(0.02L, 50));
                    LD inc = plane == "flat" ? 0 : (plane == "inc" ? g.u(0.1L, 1.4L) : (PI / 2 - g.lg(1e-3L, 0.05L)));
                    if (plane == "steep" && r % 2) inc = g.lg(1e-6L, 1e-2L);
                    if (dir < 0) inc = PI - inc;
                    Orb o;
                    o.i = inc; o.W = g.u(0, 2 * PI); o.w = g.u(0, 2 * PI);
                    V3 P, Q;
                    perifocal(o, P, Q);
                    if (plane == "flat") { P.z = 0; Q.z = 0; }
                    p.th = (th + (r % 3 == 0 ? 0 : g.u(-0.4L, 0.4L))) * 2 * PI / NT;
                    if (plane == "flat" && r % 4 == 0 && th % 18 == 0) { P = {1, 0, 0}; Q = {0, static_cast<LD>(dir), 0}; }
                    p.r0 = (L * P).d();
                    p.r1 = ((L * q) * (std::cos(p.th) * P + std::sin(p.th) * Q)).d();
                    p.mu = static_cast<double>(mu);
                    p.dir = dir;
                    p.lng = p.th > PI;
                    p.turns = turns;
                    Lam l(V3(p.r0), V3(p.r1), p.mu, p.lng);
                    LD lo = turns ? l.tmin(turns) : l.tpar(), hi = l.tmin(turns + 1), t = 0;
                    if (frac == "fast") t = lo * g.lg(0.02L, 0.9L);
                    else if (frac == "hypnear") t = lo * (1 - g.lg(1e-12L, 0.1L));
                    else if (frac == "par") t = lo;
                    else if (frac == "ellnear") t = lo * (1 + g.lg(1e-12L, 0.05L));
                    else if (frac == "edge") t = lo * (1 + g.lg(1e-5L, 3e-3L));
                    else if (frac == "mid") t = lo + (hi - lo) * g.u(0.02L, 0.98L);
                    else t = hi * (1 - g.lg(1e-6L, 3e-3L));
                    p.tof = static_cast<double>(t);
                    if (frac == "ellnear" && t > hi * 0.99L) p.ok = false;
                    if ((frac == "edge" || frac == "brink") && (t > hi * (1 - 1e-7L) || t < lo * (1 + 1e-7L)) && turns) p.ok = false;
                    gs.push_back(p);
                }
                hz::Ev("Start").i("id", static_cast<long long>(id)).i("th", th).i("dir", dir).i("turns", turns).str("frac", frac).str("ratio", ratio).str("plane", plane).str("unit", unit).emit();
            } else if (tok == "Solve" || tok == "Other") {
                int m;
                is >> m;
                bool other = tok == "Other";
                hz::Seen out, nmax, sizes, sense, revs, gap, sides, prefix;
                LD fly = 0, xerr = 0, raw = 0;
                for (auto &p : gs) {
                    if (!p.ok) continue;
                    int dir = other ? -p.dir : p.dir;
                    bool lng = other ? !p.lng : p.lng;
                    try {
                        kep3::lambert_problem lp(p.r0, p.r1, p.tof, p.mu, dir < 0, static_cast<unsigned>(m));
                        out.add("\"ok\"");
                        const auto &v0 = lp.get_v0();
                        const auto &v1 = lp.get_v1();
                        const auto &x = lp.get_x();
                        int n = static_cast<int>(lp.get_Nmax());
                        nmax.add(std::to_string(n));
                        std::size_t want = static_cast<std::size_t>(2 * n + 1);
                        sizes.add(v0.size() == want && v1.size() == want && x.size() == want && lp.get_iters().size() == want ? "0" : "1");
                        Lam l(V3(p.r0), V3(p.r1), p.mu, lng);
                        LD marg = 1;
                        int k = 0;
                        if (!other) k = p.turns;
                        else k = l.exist(p.tof, marg);
                        if (marg > 1e-7L) gap.add(std::to_string(n - std::min(m, k)));
                        std::vector<int> rv;
                        LD s = (l.c + l.R0 + l.R1) / 2;
                        LD lam = std::sqrt(std::max(1 - l.c / s, 1e-30L));
                        LD geo = 1 + 1 / std::fabs(std::sin(p.th)) + 1 / lam + s / l.c;
                        V3 zn = cross(V3(p.r0), V3(p.r1));
                        geo += norm(zn) / std::fabs(zn.z) * 0;
                        for (std::size_t j = 0; j < std::min(v0.size(), v1.size()); ++j) {
                            SV a{V3(p.r0), V3(v0[j])}, b;
                            LD cnd = condU(a, p.tof, p.mu);
                            if (!kepU(a, p.tof, p.mu, b) || !std::isfinite(v0[j][0] + v1[j][0])) { if (std::getenv("DEBUG")) std::fprintf(stderr, "bad: x %.17g iters %u v0 %g tof/tpar-1 %Lg\n", x[j], lp.get_iters()[j], v0[j][0], p.tof / l.tpar() - 1); fly = INFINITY; raw = INFINITY; rv.push_back(-1); continue; }
                            RV got{p.r1, v1[j]};
                            LD d = dist(got, b);
                            if (!(d <= raw)) raw = d;
                            d /= cnd * geo * 2.3e-16L;
                            if (std::getenv("DEBUG") && d > 400) std::fprintf(stderr, "id %d cap %d slot %zu d %Lg raw %Lg cnd %Lg geo %Lg th %Lg x %.17g iters %u turns %d tof/tpar-1 %Lg\n", (int)id, m, j, d, raw, cnd, geo, p.th, x[j], lp.get_iters()[j], p.turns, p.tof / l.tpar() - 1);
                            if (!(d <= fly)) fly = d;
                            // sense at both ends
                            LD hz0 = cross(V3(p.r0), V3(v0[j])).z, hz1 = cross(V3(p.r1), V3(v1[j])).z;
                            sense.add(hz0 > 0 && hz1 > 0 ? "1" : (hz0 < 0 && hz1 < 0 ? "-1" : "0"));
                            Read q = read(a, p.mu), q1 = read(sv(got), p.mu);
                            LD xa = s / 2 / q.a; // 1 - x^2
                            if (x.size() > j) {
                                LD e = std::fabs(xa - (1 - static_cast<LD>(x[j]) * x[j])) / (2.3e-16L * (1 + norm(V3(v0[j])) * norm(V3(v0[j])) * s / p.mu) * geo * 10);
                                if (!(e <= xerr)) xerr = e;
                            }
                            int nr = 0;
                            if (q.a > 0 && p.tof * std::sqrt(p.mu / (q.a * q.a * q.a)) >= 6) nr = static_cast<int>(std::lround((p.tof * std::sqrt(p.mu / (q.a * q.a * q.a)) - wrap2pi(q1.M - q.M)) / (2 * PI)));
                            rv.push_back(nr);
                        }
                        revs.add(hz::Ev::list(rv));
                        // the two arcs of a pair: one with more, one with less chordal velocity than the fastest
                        bool sd = true;
                        for (int nn = 1; nn <= n && static_cast<std::size_t>(2 * nn) < v0.size(); ++nn) {
                            if (marg < 1e-5L) break;
                            LD w0;
                            l.tmin(nn, &w0);
                            V3 zz = cross(l.u0, l.ch);
                            auto w = [&](const D3 &v) { return norm(cross(l.u0, V3(v))) / norm(zz); };
                            LD wa = w(v0[static_cast<std::size_t>(2 * nn - 1)]), wb = w(v0[static_cast<std::size_t>(2 * nn)]);
                            if (!((wa - w0) * (wb - w0) < 0)) sd = false;
                        }
                        sides.add(sd ? "1" : "0");
                        bool pre = true;
                        for (auto &kv : p.done) if (kv.first.first == dir) {
                            std::size_t c = std::min(kv.second.get_v0().size(), v0.size());
                            for (std::size_t j = 0; j < c; ++j)
                                if (!(relv(kv.second.get_v0()[j], v0[j]) < 1e-9L && relv(kv.second.get_v1()[j], v1[j]) < 1e-9L)) pre = false;
                        }
                        prefix.add(pre ? "1" : "0");
                        p.done[{dir, m}] = lp;
                    } catch (const std::exception &) { out.add("\"throw\""); }
                }
                hz::Ev(tok).i("m", m).raw("out", out.json()).raw("nmax", nmax.json()).raw("sizes", sizes.json()).raw("gap", gap.json()).raw("sense", sense.json()).raw("revs", revs.json()).raw("sides", sides.json()).raw("prefix", prefix.json()).i("fly", quant(fly, 1)).i("xerr", quant(xerr, 1)).i("raw", quant(raw, 1e-15L)).emit();
            } else if (tok == "Reverse") {
                for (auto &p : gs) { std::swap(p.r0, p.r1); p.dir = -p.dir; p.done.clear(); }
                hz::Ev("Reverse").emit();
            } else if (tok == "Spin") {
                for (auto &p : gs) {
                    // quarter turns keep every bit
                    int qn = gstep.i(1, 3);
                    for (int j = 0; j < qn; ++j) for (auto *v : {&p.r0, &p.r1}) *v = {-(*v)[1], (*v)[0], (*v)[2]};
                    p.done.clear();
                }
                hz::Ev("Spin").emit();
            } else if (tok == "Rescale") {
                std::string unit;
                is >> unit;
                int r = 0;
                for (auto &p : gs) {
                    // powers of two keep every bit of the geometry
                    int e = unit == "one" ? 0 : (unit == "si" ? gstep.i(20, 36) : gstep.i(-20, 12)), f = 2 * gstep.i(-10, 10);
                    double a = std::ldexp(1.0, 2 * e), t = std::ldexp(1.0, 3 * e - f / 2);
                    for (auto *v : {&p.r0, &p.r1}) for (auto &c : *v) c *= a;
                    p.mu = std::ldexp(p.mu, f);
                    p.tof *= t;
                    p.done.clear();
                    ++r;
                }
                hz::Ev("Rescale").str("unit", unit).emit();
            }
        }
    });
}
