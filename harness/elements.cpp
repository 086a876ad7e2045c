// Replays behaviours of Elements.tla in the real element conversions.
#include "dual.hpp"
#include "hz.hpp"
#include "orbits.hpp"
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
using namespace orc;
using A6 = std::array<double, 6>;
static const long long NA = -1000;

struct Rep {
    Orb o;
    LD f, M;
    double mu;
    RV ic;
    A6 el;
    LD b = 0; // condition number of the chain so far
};
static long long deg(LD x)
{
    LD q = std::round(x / DEG);
    return std::fabs(q) < 1e6L ? static_cast<long long>(q) : 99999;
}
static long long m360(LD x)
{
    long long d = deg(x);
    return d == 99999 ? d : ((d % 360) + 360) % 360;
}
static SV fromPar(const A6 &p, double mu)
{
    Orb o;
    o.a = p[0]; o.e = p[1]; o.i = p[2]; o.W = p[3]; o.w = p[4]; o.mu = mu;
    return stateX(o, X_of_f(o, p[5]));
}
int main(int argc, char **argv)
{
    const int R = hz::envint("REPS", 16);
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<Rep> reps;
        std::string tok, rep;
        bool flat = false, circ = false;
        long long inc = 0;
        while (is >> tok) {
            if (tok == "Start") {
                std::string cls, unit;
                long long W, w, f;
                int off;
                is >> cls >> unit >> inc >> W >> w >> f >> off >> rep;
                flat = off == 0 && (inc == 0 || inc == 180);
                circ = cls == "circ";
                reps.clear();
                for (int r = 0; r < R; ++r) {
                    Rng g(hz::envseed() * 1000003ULL + id * 131ULL + static_cast<std::uint64_t>(r));
                    Rep p;
                    p.o = shape(cls, "gen", unit, g, r);
                    if (circ) p.o.e = 0;
                    p.o.e = static_cast<double>(p.o.e); p.o.a = static_cast<double>(p.o.a);
                    p.o.i = inc * DEG; p.o.W = W * DEG; p.o.w = w * DEG;
                    p.f = (f > 180 ? f - 360 : f) * DEG;
                    LD df = 0;
                    if (off) {
                        auto hair = [&](LD lo) { return g.i(0, 3) ? (g.i(0, 1) ? 1 : -1) * g.lg(lo, 1e-3L) : 0; };
                        LD di = inc % 180 ? hair(1e-9L) : g.lg(1e-7L, 1e-3L);
                        p.o.i += inc == 180 ? -di : di;
                        p.o.W += hair(1e-9L);
                        if (!circ) p.o.w += hair(1e-9L);
                        df = hair(1e-9L);
                        p.f += df;
                    }
                    p.mu = static_cast<double>(p.o.mu);
                    LD X = X_of_f(p.o, p.f);
                    p.M = M_of_X(p.o, X);
                    SV s = stateX(p.o, X);
                    p.ic = rv(s);
                    // at aligned geometries the components that vanish are exactly zero
                    for (auto &v : p.ic) { double m = 0; for (double c : v) m = std::max(m, std::fabs(c)); for (double &c : v) if (std::fabs(c) < 1e-17 * m) c = 0; }
                    LD sg = rep == "eqr" ? -1 : 1, t = rep == "eqr" ? 1 / std::tan(p.o.i / 2) : std::tan(p.o.i / 2);
                    LD pp = p.o.a * (1 - p.o.e) * (1 + p.o.e);
                    if (rep == "par") p.el = {static_cast<double>(p.o.a), static_cast<double>(p.o.e), static_cast<double>(p.o.i), static_cast<double>(p.o.W), static_cast<double>(p.o.w), static_cast<double>(f * DEG + df)};
                    else if (rep != "ic") {
                        LD vp = p.o.w + sg * p.o.W, wd = g.i(-2, 2) * 2 * PI;
                        if (flat) t = 0;
                        p.el = {static_cast<double>(pp), static_cast<double>(p.o.e * std::cos(vp)), static_cast<double>(p.o.e * std::sin(vp)), static_cast<double>(t * std::cos(p.o.W)), static_cast<double>(t * std::sin(p.o.W)), static_cast<double>(p.f + vp + wd)};
                    }
                    reps.push_back(p);
                }
                hz::Ev("Start").i("id", static_cast<long long>(id)).str("cls", cls).str("unit", unit).i("i", inc).i("W", W).i("w", w).i("f", f).i("off", off).str("rep", rep).emit();
            } else if (tok == "Convert") {
                std::string to;
                int nw, wd[3];
                is >> to >> nw >> wd[0] >> wd[1] >> wd[2];
                hz::Seen out, vals, raws;
                LD err = 0, shp = 0;
                int inrange = 1;
                for (auto &p : reps) {
                    A6 in = p.el, res{};
                    RV ric{};
                    if (rep == "par") for (int j = 0; j < 3; ++j) in[static_cast<std::size_t>(3 + j)] += wd[j] * 2 * 3.14159265358979323846;
                    bool ok = true;
                    try {
                        if (rep == "ic" && to == "par") res = kep3::ic2par(p.ic, p.mu);
                        else if (rep == "ic") res = kep3::ic2eq(p.ic, p.mu, to == "eqr");
                        else if (rep == "par" && to == "ic") ric = kep3::par2ic(in, p.mu);
                        else if (rep == "par") res = kep3::par2eq(in, to == "eqr");
                        else if (to == "ic") ric = kep3::eq2ic(in, p.mu, rep == "eqr");
                        else res = kep3::eq2par(in, rep == "eqr");
                        out.add("\"ok\"");
                    } catch (const std::domain_error &) { out.add("\"domain_error\""); ok = false; }
                    catch (...) { out.add("\"throw\""); ok = false; }
                    if (!ok) continue;
                    // condition number of this step, from the exact orbit alone
                    auto size = [&](const std::string &x) -> LD {
                        if (x == "ic") return 1;
                        if (x == "par") return 1 / p.o.e + 1 / std::sin(p.o.i);
                        LD c = x == "eqr" ? std::sin(p.o.i / 2) : std::cos(p.o.i / 2);
                        return 1 / (c * c);
                    };
                    p.b += sens(p.o, p.M) * bsize(p.o, p.M) * (size(rep) + size(to));
                    SV got, ref = stateX(p.o, X_of_f(p.o, p.f));
                    long long v[4] = {99999, 99999, 99999, 99999};
                    LD a = 0, e = 0;
                    if (to == "ic") {
                        p.ic = ric;
                        got = sv(ric);
                        ::orc::Read q = read(got, p.mu);
                        a = q.a; e = q.e;
                        V3 h = q.h;
                        LD H = norm(h);
                        v[0] = deg(std::atan2(std::sqrt(h.x * h.x + h.y * h.y), h.z));
                        LD lon, wp;
                        if (flat) {
                            v[1] = NA;
                            lon = std::atan2(got.r.y, got.r.x);
                            v[2] = m360(lon);
                        } else {
                            LD W = std::atan2(h.x, -h.y);
                            v[1] = m360(W);
                            V3 N{std::cos(W), std::sin(W), 0}, T = (1 / H) * cross(h, N);
                            v[2] = m360(std::atan2(dot(got.r, T), dot(got.r, N)));
                        }
                        V3 T = (1 / H) * cross(h, q.ev);
                        v[3] = circ ? NA : m360(std::atan2(dot(got.r, T), dot(got.r, q.ev)));
                    } else if (to == "par") {
                        p.el = res;
                        got = fromPar(res, p.mu);
                        a = res[0]; e = res[1];
                        for (int j = 0; j < 4; ++j) v[j] = j ? m360(res[static_cast<std::size_t>(2 + j)]) : deg(res[2]);
                        std::vector<long long> r4;
                        for (std::size_t j = 2; j < 6; ++j) r4.push_back(deg(res[j]));
                        raws.add(hz::Ev::list(r4));
                        const double pi = 3.141592653589793, tp = 2 * pi;
                        if (!(res[2] >= 0 && res[2] <= pi)) inrange = 0;
                        for (std::size_t j = 3; j < (rep == "ic" ? 6u : 5u); ++j) if (!(res[j] >= 0 && res[j] <= tp)) inrange = 0;
                    } else {
                        p.el = res;
                        bool retro = to == "eqr";
                        got = fromEq(res, p.mu, retro);
                        e = std::sqrt(static_cast<LD>(res[1]) * res[1] + static_cast<LD>(res[2]) * res[2]);
                        a = res[0] / ((1 - e) * (1 + e));
                        LD t = std::sqrt(static_cast<LD>(res[3]) * res[3] + static_cast<LD>(res[4]) * res[4]);
                        v[0] = deg(retro ? PI - 2 * std::atan(t) : 2 * std::atan(t));
                        v[1] = flat ? NA : m360(std::atan2(static_cast<LD>(res[4]), static_cast<LD>(res[3])));
                        v[2] = circ ? NA : m360(std::atan2(static_cast<LD>(res[2]), static_cast<LD>(res[1])));
                        v[3] = m360(res[5]);
                    }
                    vals.add(hz::Ev::list(std::vector<long long>(v, v + 4)));
                    LD d = dist(rv(got), ref) / p.b;
                    if (!(d <= err)) err = d;
                    d = std::max(std::fabs(a / p.o.a - 1), std::fabs(e - p.o.e)) / p.b;
                    if (!(d <= shp)) shp = d;
                }
                hz::Ev("Convert").str("to", to).raw("out", out.json()).raw("vals", vals.json()).raw("raw", raws.json()).i("err", quant(err, 1e-15L)).i("shape", quant(shp, 1e-15L)).i("inrange", inrange).emit();
                rep = to;
            } else if (tok == "Make") {
                std::string cls;
                int sgn;
                long long f;
                is >> cls >> sgn >> f;
                hz::Seen out;
                LD err = 0;
                for (int r = 0; r < R; ++r) {
                    Rng g(hz::envseed() * 7919ULL + id * 131ULL + static_cast<std::uint64_t>(r) + static_cast<std::uint64_t>(f + 5000) * 17ULL);
                    Orb o = shape(cls, "gen", "mixed", g, r);
                    A6 in{static_cast<double>(sgn * std::fabs(o.a)), static_cast<double>(o.e), static_cast<double>(o.i), static_cast<double>(o.W), static_cast<double>(o.w), static_cast<double>(f * DEG)};
                    try {
                        RV s = kep3::par2ic(in, static_cast<double>(o.mu));
                        out.add("\"ok\"");
                        LD fr = wrappi(static_cast<LD>(in[5]));
                        o.a = in[0]; o.e = in[1];
                        LD X = X_of_f(o, fr), M = M_of_X(o, X);
                        if ((o.a < 0) == (o.e > 1)) {
                            LD d = dist(s, stateX(o, X)) / (sens(o, M) * bsize(o, M) * (1 + std::fabs(static_cast<LD>(in[5]))));
                            if (!(d <= err)) err = d;
                        }
                    } catch (const std::domain_error &) { out.add("\"domain_error\""); }
                    catch (...) { out.add("\"throw\""); }
                }
                hz::Ev("Make").str("cls", cls).i("sgn", sgn).i("f", f).raw("out", out.json()).i("err", quant(err, 1e-15L)).emit();
            }
        }
    });
}
