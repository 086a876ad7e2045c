// Replays behaviours of Anomaly.tla in the real anomaly conversions.
#include "hz.hpp"
#include "orbits.hpp"
#include <boost/math/tools/roots.hpp>
#include <kep3/core_astro/convert_anomalies.hpp>
#include <map>
using namespace orc;
static const int N = 48;
using Fn = double (*)(double, double);
static const std::map<std::pair<std::string, std::string>, Fn> &table(bool)
{
    static const std::map<std::pair<std::string, std::string>, Fn> t{
        {{"M", "E"}, kep3::m2e}, {{"E", "M"}, kep3::e2m}, {{"E", "F"}, kep3::e2f}, {{"M", "F"}, kep3::m2f},
        {{"N", "H"}, kep3::n2h}, {{"H", "N"}, kep3::h2n}, {{"H", "F"}, kep3::h2f}, {{"F", "H"}, kep3::f2h},
        {{"N", "F"}, kep3::n2f}, {{"F", "N"}, kep3::f2n}, {{"Z", "F"}, kep3::zeta2f}, {{"F", "Z"}, kep3::f2zeta},
        {{"F", "E"}, kep3::f2e}, {{"F", "M"}, kep3::f2m}};
    return t;
}
struct Pt { Orb o; LD tick; double x; };
// exact value of an anomaly at eccentric/hyperbolic anomaly X
static LD exact(const Orb &o, const std::string &k, LD X)
{
    if (k == "M" || k == "N") return M_of_X(o, X);
    if (k == "F") return f_of_X(o, X);
    if (k == "Z") return 2 * std::atan(std::tanh(X / 2));
    return X;
}
// eccentric/hyperbolic anomaly of a value
static LD back(const Orb &o, const std::string &k, LD y)
{
    if (k == "M") return solveE(y, o.e);
    if (k == "N") return solveH(y, o.e);
    if (k == "F") return X_of_f(o, y);
    if (k == "Z") return 2 * std::atanh(std::tan(y / 2));
    return y;
}
// derivative of an anomaly with respect to X
static LD slope(const Orb &o, const std::string &k, LD X)
{
    if (k == "M") return 1 - o.e * std::cos(X);
    if (k == "N") return o.e * std::cosh(X) - 1;
    if (k == "F") return o.hyp() ? std::sqrt((o.e - 1) * (o.e + 1)) / (o.e * std::cosh(X) - 1) : std::sqrt((1 - o.e) * (1 + o.e)) / (1 - o.e * std::cos(X));
    if (k == "Z") return 1 / std::cosh(X);
    return 1;
}
int main(int argc, char **argv)
{
    const int R = hz::envint("REPS", 16);
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<Pt> pts;
        std::string tok, kind;
        LD X0 = 0; (void)X0;
        long long pos = 0;
        int step = 0;
        while (is >> tok) {
            ++step;
            auto orbit = [&](const std::string &cls, int r) {
                Rng g(hz::envseed() * 1000003ULL + id * 131ULL + static_cast<std::uint64_t>(r) + 7777ULL * static_cast<std::uint64_t>(step));
                Pt p;
                p.o = shape(cls, "gen", "one", g, r);
                p.o.e = static_cast<double>(p.o.e);
                p.o.a = p.o.e > 1 ? -1 : 1;
                p.tick = p.o.hyp() ? g.u(0.02L, 0.15L) : 2 * PI / N;
                return p;
            };
            if (tok == "Start") {
                std::string cls;
                is >> cls >> kind >> pos;
                pts.clear();
                for (int r = 0; r < R; ++r) {
                    Pt p = orbit(cls, r);
                    p.x = static_cast<double>(exact(p.o, kind, static_cast<LD>(pos) * p.tick));
                    pts.push_back(p);
                }
                hz::Ev("Start").i("id", static_cast<long long>(id)).str("cls", cls).str("kind", kind).i("pos", pos).emit();
            } else if (tok == "Convert") {
                std::string to;
                is >> to;
                hz::Seen out, points, half;
                LD err = 0;
                int within = 1;
                for (auto &p : pts) {
                    double y = 0;
                    try { y = table(p.o.hyp()).at({kind, to})(p.x, static_cast<double>(p.o.e)); out.add("\"ok\""); }
                    catch (const std::exception &) { out.add("\"throw\""); continue; }
                    LD X = back(p.o, to, y), Xin = back(p.o, kind, p.x);
                    LD q = std::round(X / p.tick);
                    long long k = std::fabs(q) < 1e9L ? static_cast<long long>(q) : 999999999;
                    if (!p.o.hyp() && k != 999999999) k = ((k % N) + N) % N;
                    if (!(std::fabs(X / p.tick - q) < 0.2L)) k = 888888888;
                    points.add(std::to_string(k));
                    LD s = p.o.hyp() ? static_cast<LD>(y) : std::sin(static_cast<LD>(y));
                    // an apse is an apse up to rounding of the angle
                    bool apse = p.o.hyp() ? k == 0 : (k == 0 || 2 * k == N);
                    half.add(apse && std::fabs(s) < 1e-6L ? "0" : (s > 0 ? "1" : (s < 0 ? "-1" : "2")));
                    if (!(std::fabs(y) <= 3.14159265358979356)) within = 0;
                    LD d = X - Xin;
                    if (!p.o.hyp()) d = wrappi(d);
                    // rounding of argument and result, expressed as eccentric anomaly
                    LD unit = 1.2e-16L * ((1 + std::fabs(static_cast<LD>(p.x))) / slope(p.o, kind, X) + (1 + std::fabs(static_cast<LD>(y))) / slope(p.o, to, X)
                                          + std::fabs(X) + 1 / std::fabs(1 - p.o.e));
                    d = std::fabs(d) / unit;
                    if (!(d <= err)) err = d;
                    p.x = y;
                }
                hz::Ev("Convert").str("to", to).raw("out", out.json()).raw("points", points.json()).raw("half", half.json()).i("within", within).i("err", quant(err, 1)).emit();
                kind = to;
            } else if (tok == "Domain") {
                std::string cls, from, to;
                is >> cls >> from >> to;
                hz::Seen out;
                for (int r = 0; r < R; ++r) {
                    Pt p = orbit(cls, r);
                    Rng g(static_cast<std::uint64_t>(r) + id);
                    double x = static_cast<double>(g.u(-1.4L, 1.4L));
                    if (r == 0) x = 0;
                    try {
                        double y = table(false).at({from, to})(x, static_cast<double>(p.o.e));
                        out.add(std::isnan(y) ? "\"nan\"" : "\"number\"");
                        bool hf = from == "N" || from == "H" || from == "Z" || to == "N" || to == "H" || to == "Z";
                        // eccentricity exactly one belongs to neither side
                        if (!std::isnan(table(false).at({from, to})(x, 1.0))) out.add("\"number at one\"");
                        (void)hf;
                    } catch (const std::exception &) { out.add("\"throw\""); }
                }
                hz::Ev("Domain").str("cls", cls).str("from", from).str("to", to).raw("out", out.json()).emit();
            } else if (tok == "Run") {
                std::string cls, from, to;
                is >> cls >> from >> to;
                int mono = 1;
                for (int r = 0; r < R; ++r) {
                    Pt p = orbit(cls, r);
                    Rng g(id * 77 + static_cast<std::uint64_t>(r));
                    LD lim = p.o.hyp() ? g.u(0.5L, 6) : PI * 0.999L;
                    double last = -1e300;
                    for (int j = 0; j <= 40; ++j) {
                        LD X = -lim + 2 * lim * j / 40;
                        try {
                            double y = table(false).at({from, to})(static_cast<double>(exact(p.o, from, X)), static_cast<double>(p.o.e));
                            if (!(y > last)) mono = 0;
                            last = y;
                        } catch (const std::exception &) { mono = 0; }
                    }
                }
                hz::Ev("Run").str("cls", cls).str("from", from).str("to", to).i("monotone", mono).emit();
            }
        }
    });
}
