// Replays behaviours of Flyby.tla.
#include "dual.hpp"
#include "hz.hpp"
#include <kep3/core_astro/flyby.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/keplerian.hpp>
using namespace orc;
using LL = long long;
static LL cap(LD x) { return x < 2e9L && x > -2e9L ? static_cast<LL>(std::llround(x)) : 2000000000LL; }
struct Range {
    LL lo = 2000000001LL, hi = -2000000001LL;
    void add(LD x) { LL v = cap(x); lo = std::min(lo, v); hi = std::max(hi, v); }
    std::string s() const { return "[" + std::to_string(lo) + "," + std::to_string(hi) + "]"; }
};
struct Rep {
    LD V, mu;       // unit of speed, gravity of the planet
    V3 e1, e2, e3;  // e1: along the planet's velocity
    D3 vp;          // the planet's velocity
    std::vector<std::pair<LD, LD>> sl; // angle (deg), speed
    V3 rel(std::size_t s) const { return sl[s].second * (std::cos(sl[s].first * DEG) * e1 + std::sin(sl[s].first * DEG) * e2); }
    D3 relx(std::size_t s) const
    {
        return rel(s).d();
    }
};
static LD ratio(int k) { return k == 1 ? 1.0L : k == 2 ? 1.5L : 0.4L; }
static LD pericentre(LD mu, LD v, LD D) { return mu / (v * v) * (1 / std::sin(D * DEG / 2) - 1); }
static LD angle(V3 a, V3 b) { return std::atan2(norm(cross(a, b)), dot(a, b)); }
int main(int argc, char **argv)
{
    const int NS = hz::envint("NSLOTS", 3), R = hz::envint("REPS", 8);
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        Rng g(hz::envseed() * 1000003 + id);
        std::vector<Rep> reps;
        std::string tok;
        auto flyby = [&](const Rep &p, std::size_t s, LD D, LD B) {
            V3 vin = p.rel(s) + V3(p.vp);
            const LD rp = D >= 180 ? 0 : pericentre(p.mu, p.sl[s].second, D);
            return V3(kep3::fb_vout(vin.d(), p.vp, static_cast<double>(rp), static_cast<double>(B * DEG), static_cast<double>(p.mu))) - V3(p.vp);
        };
        while (is >> tok) {
            hz::Ev e(tok);
            if (tok == "Start") {
                std::string u;
                is >> u;
                e.i("id", static_cast<LL>(id)).str("unit", u);
                reps.clear();
                for (int r = 0; r < R; ++r) {
                    Rep p;
                    p.V = u == "one" ? g.u(0.5L, 2) : u == "si" ? g.lg(500, 3e4L) : u == "tiny" ? g.lg(1e-6L, 1e-3L) : g.lg(1e-4L, 1e4L);
                    p.mu = static_cast<double>(u == "one" ? g.u(0.5L, 2) : u == "si" ? g.lg(1e12L, 1.3e17L) : u == "tiny" ? g.lg(1e-8L, 1e-2L) : g.lg(1e-4L, 1e4L));
                    V3 a(g.u(-1, 1), g.u(-1, 1), g.u(-1, 1)), b(g.u(-1, 1), g.u(-1, 1), g.u(-1, 1));
                    if (r == 0) { a = V3(1, 0, 0); b = V3(0, 1, 0); }
                    if (r == 1) { a = V3(0, 0, -1); b = V3(0, 1, 0); }
                    if (norm(cross(a, b)) < 0.05L) { a = V3(0.6L, 0, 0.8L); b = V3(0, 1, 0); }
                    p.vp = ((p.V * g.u(0.3L, 4) / norm(a)) * a).d();
                    p.e1 = (1 / norm(V3(p.vp))) * V3(p.vp);
                    p.e3 = cross(p.e1, b);
                    p.e3 = (1 / norm(p.e3)) * p.e3;
                    p.e2 = cross(p.e3, p.e1);
                    p.sl.assign(static_cast<std::size_t>(NS) + 1, {90, p.V});
                    reps.push_back(p);
                }
            } else if (tok == "Arrive") {
                std::size_t s; int th, k;
                is >> s >> th >> k;
                e.i("s", static_cast<LL>(s)).i("th", th).i("k", k);
                for (auto &p : reps) p.sl[s] = {th, p.V * ratio(k)};
            } else if (tok == "Fly") {
                std::size_t s, t; int D, aw;
                is >> s >> t >> D >> aw;
                e.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t)).i("D", D).i("away", aw);
                Range th, side;
                LD off = 0, sp = 0;
                for (auto &p : reps) {
                    V3 o = flyby(p, s, D, aw ? 90 : 270);
                    const LD v = p.sl[s].second, ang = std::atan2(dot(o, p.e2), dot(o, p.e1)) / DEG;
                    th.add(std::fabs(ang) * 1e6L);
                    side.add(ang > 0 ? 1 : -1);
                    LD d1 = std::fabs(dot(o, p.e3)) / v * 1e15L, d2 = std::fabs(norm(o) / v - 1) * 1e15L * v / (v + norm(V3(p.vp)));
                    // the plane is as sharp as the incoming velocity is away from the planet's
                    d1 *= std::fabs(std::sin(p.sl[s].first * DEG)) * v / (v + norm(V3(p.vp)));
                    if (!(d1 <= off)) off = d1;
                    if (!(d2 <= sp)) sp = d2;
                    p.sl[t] = {std::round(ang), v};
                    if (p.sl[t].first == -180) p.sl[t].first = 180;
                }
                e.raw("th", th.s()).raw("side", side.s()).i("off", cap(off)).i("speed", cap(sp));
            } else if (tok == "Spin") {
                std::size_t s; int D, B;
                is >> s >> D >> B;
                e.i("s", static_cast<LL>(s)).i("D", D).i("B", B);
                Range turn, plane;
                LD sp = 0;
                for (auto &p : reps) {
                    V3 in = p.rel(s), o = flyby(p, s, D, B);
                    const LD v = p.sl[s].second;
                    V3 ih = (1 / v) * in, j = cross(ih, V3(p.vp));
                    j = (1 / norm(j)) * j;
                    V3 k = cross(ih, j);
                    turn.add(angle(in, o) / DEG * 1e6L);
                    LD b = wrap2pi(std::atan2(dot(o, k), dot(o, j))) / DEG;
                    if (B == 0 && b > 359) b -= 360;
                    plane.add(b * 1e6L);
                    LD d2 = std::fabs(norm(o) / v - 1) * 1e15L * v / (v + norm(V3(p.vp)));
                    if (!(d2 <= sp)) sp = d2;
                }
                e.raw("turn", turn.s()).raw("plane", plane.s()).i("speed", cap(sp));
            } else if (tok == "Con") {
                std::size_t i, o; int X;
                is >> i >> o >> X;
                e.i("i", static_cast<LL>(i)).i("o", static_cast<LL>(o)).i("X", X);
                Range ineq, eqv, cost;
                LD eqx = 0;
                bool pl = true;
                for (auto &p : reps) {
                    const double mu = static_cast<double>(p.mu), rs = X >= 180 ? 0. : static_cast<double>(pericentre(p.mu, p.sl[i].second, X));
                    const D3 vi = p.rel(i).d(), vo = p.rel(o).d();
                    const auto c = kep3::fb_con(vi, vo, mu, rs);
                    const double dv = kep3::fb_dv(vi, vo, mu, rs);
                    ineq.add(static_cast<LD>(c.second) / DEG * 1e6L);
                    eqv.add(static_cast<LD>(c.first) / (p.V * p.V) * 1e6L);
                    LD d = std::fabs(c.first) / (p.V * p.V) * 1e15L;
                    if (!(d <= eqx)) eqx = d;
                    // the angle the cost pays for
                    const LD a = p.sl[i].second, b = p.sl[o].second;
                    LD s2 = (static_cast<LD>(dv) * dv - (a - b) * (a - b)) / (4 * a * b);
                    if (s2 < 0 && s2 > -1e-15L) s2 = 0;
                    if (s2 > 1 && s2 < 1 + 1e-15L) s2 = 1;
                    cost.add(dv >= 0 ? 2 * std::asin(std::sqrt(s2)) / DEG * 1e6L : -1);
                    const kep3::planet q{kep3::udpla::keplerian{kep3::epoch{}, {{{1., 0.1, 0.1}, {0.1, 1., 0.1}}}, 1.3, "q", {mu, rs / 2.5, rs}}};
                    const auto c2 = kep3::fb_con(vi, vo, q);
                    pl = pl && c2 == c && kep3::fb_dv(vi, vo, q) == dv;
                }
                e.raw("ineq", ineq.s()).raw("eqv", eqv.s()).i("eqx", cap(eqx)).raw("cost", cost.s()).i("pl", pl);
            } else if (tok == "Reach") {
                std::size_t i, o; int X, D, B, bd, ba;
                is >> i >> o >> X >> D >> B >> bd >> ba;
                e.i("i", static_cast<LL>(i)).i("o", static_cast<LL>(o)).i("X", X).i("D", D).i("B", B).i("bd", bd).i("ba", ba);
                LD closer = 0, best = 0;
                for (auto &p : reps) {
                    const double mu = static_cast<double>(p.mu), rs = X >= 180 ? 0. : static_cast<double>(pericentre(p.mu, p.sl[i].second, X));
                    const D3 vi = p.rel(i).d(), vo = p.rel(o).d();
                    const LD dv = kep3::fb_dv(vi, vo, mu, rs), sc = p.V + norm(V3(p.vp));
                    LD c = (dv - norm(flyby(p, i, D, B) - p.rel(o))) / sc * 1e9L;
                    V3 w = bd == 0 ? p.rel(i) : flyby(p, i, bd, ba ? 90 : 270);
                    LD b = std::fabs(dv - norm(w - p.rel(o))) / sc * 1e9L;
                    if (!(c <= closer)) closer = c;
                    if (!(b <= best)) best = b;
                }
                e.i("closer", cap(closer)).i("best", cap(best));
            } else break;
            e.emit();
        }
    });
}
