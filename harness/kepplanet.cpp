// Replays behaviours of KepPlanet.tla.
#include "dual.hpp"
#include "hz.hpp"
#include "orbits.hpp"
#include <fmt/ranges.h>
#include <kep3/planet.hpp>
#include <kep3/udpla/keplerian.hpp>
using namespace orc;
using LL = long long;
using A6 = std::array<double, 6>;
static const LL NA = -1000;
static const char *elname[] = {"KEP_M", "KEP_F", "MEQ", "MEQ_R", "POSVEL"};
static kep3::elements_type type(const std::string &s)
{
    int n = 0;
    while (s != elname[n]) ++n;
    return static_cast<kep3::elements_type>(n);
}
struct Rep {
    Orb o;
    LD M0 = 0, b = 1;
    double mu = 1;
    SV s0;
    std::string name;
    std::array<double, 3> add{};
    LL ref = 0, turn = 1;
    double refday = 0; // the reference epoch, a little after its tick
    bool mean = false, flat = false, circ = false;
    A6 given{};
    kep3::udpla::keplerian u;
    kep3::planet p;
};
static LL deg(LD x)
{
    LD q = std::round(x / DEG);
    return std::fabs(q) < 1e6L ? static_cast<LL>(q) : 99999;
}
static LL m360(LD x)
{
    LL d = deg(x);
    return d == 99999 ? d : ((d % 360) + 360) % 360;
}
static double day(LL k) { return static_cast<double>(k) * 3. / 128.; }
static kep3::epoch epo(LL k) { return kep3::epoch(day(k)); }
static A6 toEl(const std::string &via, const Orb &o, LD ang)
{
    if (via[0] == 'K' || via == "POSVEL") return {static_cast<double>(o.a), static_cast<double>(o.e), static_cast<double>(o.i), static_cast<double>(o.W), static_cast<double>(o.w), static_cast<double>(ang)};
    const LD sg = via == "MEQ_R" ? -1 : 1, t = (o.i == 0 || o.i == PI) ? 0 : via == "MEQ_R" ? 1 / std::tan(o.i / 2) : std::tan(o.i / 2);
    const LD vp = o.w + sg * o.W;
    return {static_cast<double>(o.a * (1 - o.e) * (1 + o.e)), static_cast<double>(o.e * std::cos(vp)), static_cast<double>(o.e * std::sin(vp)), static_cast<double>(t * std::cos(o.W)),
            static_cast<double>(t * std::sin(o.W)), static_cast<double>(ang + vp)};
}
static Orb orbit(const A6 &x, double mu)
{
    Orb o;
    o.a = x[0]; o.e = x[1]; o.i = x[2]; o.W = x[3]; o.w = x[4]; o.mu = mu;
    return o;
}
int main(int argc, char **argv)
{
    const int R = hz::envint("REPS", 6), NS = hz::envint("NSLOTS", 2);
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        Rng g(hz::envseed() * 1000003 + id);
        std::vector<std::vector<Rep>> sl(static_cast<std::size_t>(NS) + 1, std::vector<Rep>(static_cast<std::size_t>(R)));
        auto make = [&](std::size_t s, const std::string &via, const std::string &cls, const std::string &unit, LL inc, LL W, LL w, LL pos, LL ref, LL turn, hz::Seen &out) {
            for (int r = 0; r < R; ++r) {
                Rep q;
                q.o = shape(cls, "gen", unit, g, r);
                q.circ = cls == "circ"; q.flat = inc == 0 || inc == 180; q.mean = via == "KEP_M";
                if (q.circ) q.o.e = (r % 2) ? 0 : std::min<LD>(q.o.e, 1e-4L);
                q.o.a = static_cast<double>(q.o.a); q.o.e = static_cast<double>(q.o.e);
                q.o.i = inc * DEG; q.o.W = W * DEG; q.o.w = w * DEG;
                q.ref = ref; q.turn = turn;
                // a fraction of a tick, exact as a double and as a number of microseconds
                q.refday = day(ref) + (r % 2 ? static_cast<double>(g.i(0, 191)) / 8192. : 0.);
                // the central body's gravity follows from the length of the year
                const LD n = q.o.hyp() ? g.lg(0.001L, 0.1L) / 2025 : 2 * PI / (2025.L * static_cast<LD>(turn));
                q.mu = static_cast<double>(n * n * std::fabs(q.o.a * q.o.a * q.o.a));
                q.o.mu = q.mu;
                q.name = r % 2 ? "name" + std::to_string(g.i(0, 999)) : "n";
                for (double &x : q.add) x = static_cast<double>(g.lg(1e-3L, 1e9L));
                // a place near the whole degree
                const LD ang = (static_cast<LD>(pos) + (r % 3 == 1 ? static_cast<LD>(g.i(0, 1) * 2 - 1) * g.lg(1e-9L, 1e-2L) : 0)) * DEG;
                q.given = toEl(via, q.o, ang);
                LD size = 1;
                if (via == "KEP_F" || via == "POSVEL") q.s0 = stateX(q.o, X_of_f(q.o, wrappi(ang)));
                if (via == "KEP_F") { const Orb d = orbit(q.given, q.mu); q.s0 = stateX(d, X_of_f(d, wrappi(static_cast<LD>(q.given[5])))); size = 1 + std::fabs(ang); }
                if (via == "KEP_M") { const Orb d = orbit(q.given, q.mu); q.s0 = stateM(d, q.given[5]); size = 1 + std::fabs(ang); }
                if (via[0] == 'M') { q.s0 = fromEq(q.given, q.mu, via == "MEQ_R"); const LD c = via == "MEQ_R" ? std::sin(q.o.i / 2) : std::cos(q.o.i / 2); size = 1 + std::fabs(ang) + 1 / (c * c); }
                q.M0 = q.mean ? ang : M_of_X(q.o, X_of_f(q.o, wrappi(ang)));
                RV given = rv(q.s0);
                if (via == "POSVEL") {
                    for (auto &v : given) { double m = 0; for (double c : v) m = std::max(m, std::fabs(c)); for (double &c : v) if (std::fabs(c) < 1e-17 * m) c = 0; }
                    q.s0 = sv(given);
                } else q.b = 1 + sens(q.o, q.M0) * bsize(q.o, q.M0) * size;
                try {
                    if (via == "POSVEL") q.u = kep3::udpla::keplerian(kep3::epoch(q.refday), given, q.mu, q.name, q.add);
                    else q.u = kep3::udpla::keplerian(kep3::epoch(q.refday), q.given, q.mu, q.name, q.add, type(via));
                    q.p = kep3::planet{q.u};
                    out.add("\"ok\"");
                } catch (const std::exception &) { out.add("\"throw\""); }
                sl[s][static_cast<std::size_t>(r)] = q;
            }
        };
        std::string tok;
        while (is >> tok) {
            hz::Ev e(tok);
            std::size_t s = 0, t = 0;
            LL k = 0;
            std::string form;
            if (tok == "Start") {
                e.i("id", static_cast<LL>(id));
                hz::Seen o;
                for (std::size_t i = 1; i < sl.size(); ++i) make(i, "POSVEL", "low", "one", 30, 40, 50, 60, 0, 365, o);
            } else if (tok == "Make") {
                std::string via, cls, unit;
                LL i, W, w, pos, ref, turn;
                is >> s >> via >> cls >> unit >> i >> W >> w >> pos >> ref >> turn;
                hz::Seen out;
                make(s, via, cls, unit, i, W, w, pos, ref, turn, out);
                e.i("s", static_cast<LL>(s)).str("via", via).str("cls", cls).str("unit", unit).i("i", i).i("W", W).i("w", w).i("pos", pos).i("ref", ref).i("turn", turn).raw("out", out.json());
            } else if (tok == "Bad") {
                std::string kind, via, cls;
                LL i, f;
                is >> kind >> via >> cls >> i >> f;
                hz::Seen out;
                for (int r = 0; r < R; ++r) {
                    Orb o = shape(cls, "gen", "mixed", g, r);
                    o.i = i * DEG;
                    A6 x = toEl(via, o, static_cast<LD>(f) * DEG);
                    if (kind == "sign") x[0] = -x[0];
                    if (kind == "nan") x[static_cast<std::size_t>(r % 2)] = std::nan("");
                    try {
                        const kep3::udpla::keplerian u(epo(0), x, static_cast<double>(o.mu), "x", {1., 1., 1.}, type(via));
                        out.add("\"ok\"");
                    } catch (const std::domain_error &) { out.add("\"domain_error\""); }
                    catch (const std::logic_error &) { out.add("\"logic_error\""); }
                    catch (const std::exception &) { out.add("\"throw\""); }
                }
                e.str("kind", kind).str("via", via).str("cls", cls).i("i", i).i("f", f).raw("out", out.json());
            } else if (tok == "Assign") {
                is >> s >> t;
                e.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t));
                for (std::size_t r = 0; r < sl[s].size(); ++r) if (s != t) sl[t][r] = sl[s][r];
            } else if (tok == "Eph") {
                is >> s >> k >> form;
                hz::Seen ph;
                LD err = 0;
                int n = 0, turnof = 0;
                for (auto &q : sl[s]) {
                    const double late = form == "epoch" ? static_cast<double>(g.i(0, 191)) / 8192. : static_cast<double>(g.i(0, 3145727)) / 134217728.;
                    const double at = day(k) + (++turnof % 3 ? late : 0.);
                    // an epoch is a double number of days only to a last digit
                    const LD seen = form == "epoch" ? kep3::epoch(at).mjd2000() : at, from = kep3::epoch(q.refday).mjd2000();
                    if (!(std::fabs(seen - at) <= 1e-12L && std::fabs(from - q.refday) <= 1e-12L)) err = 1;
                    const LD dt = (seen - from) * 86400, tick = q.o.n() * 2025;
                    const LD part = (static_cast<LD>(at) - day(k)) * 128 / 3 - (static_cast<LD>(q.refday) - day(q.ref)) * 128 / 3;
                    const SV ref = kepler(q.s0, dt, q.mu);
                    // (short arcs of nearly parabolic orbits are differences of nearly equal numbers)
                    const LD c = cond(rv(q.s0), ref, dt, q.mu) * q.b * std::max<LD>(1, 0.1L / std::fabs(1 - q.o.e));
                    const RV x = form == "direct" ? q.u.eph(at) : form == "mjd" ? q.p.eph(at) : q.p.eph(kep3::epoch(at));
                    const LD d = dist(x, ref) / c;
                    if (!(d <= err)) err = d;
                    if (c * sens(q.o, q.M0 + q.o.n() * dt) * 1e-13L > 0.05L * tick) continue;
                    ++n;
                    V3 P, Q;
                    perifocal(q.o, P, Q);
                    const SV y = sv(x);
                    const LD px = dot(y.r, P), py = dot(y.r, Q);
                    LD M;
                    if (!q.o.hyp()) {
                        const LD E = std::atan2(py / (q.o.a * std::sqrt((1 - q.o.e) * (1 + q.o.e))), px / q.o.a + q.o.e);
                        M = E - q.o.e * std::sin(E);
                    } else {
                        const LD H = std::asinh(py / (-q.o.a * std::sqrt((q.o.e - 1) * (q.o.e + 1))));
                        M = q.o.e * std::sinh(H) - H;
                    }
                    const LD ti = std::round((M - q.M0) / tick - part);
                    LL z = std::fabs(ti) < 1e9L ? static_cast<LL>(ti) : 1073741823;
                    if (!q.o.hyp()) z = ((z % q.turn) + q.turn) % q.turn;
                    ph.add(std::to_string(z));
                }
                e.i("s", static_cast<LL>(s)).i("k", k).str("form", form).raw("ph", ph.json()).i("n", n).i("err", quant(err, 1e-15L));
            } else if (tok == "EphV") {
                std::size_t n; is >> s >> n;
                std::vector<LL> ks(n);
                for (auto &x : ks) is >> x;
                bool same = true;
                for (auto &q : sl[s]) {
                    std::vector<double> v, each;
                    for (auto x : ks) v.push_back(day(x));
                    for (double x : v) { auto st = q.u.eph(x); for (auto &a : st) for (double c : a) each.push_back(c); }
                    same = same && q.p.eph_v(v) == each;
                }
                e.i("s", static_cast<LL>(s)).ints("ks", ks).i("same", same);
            } else if (tok == "Period") {
                is >> s >> k >> form;
                hz::Seen out;
                LD err = 0;
                for (auto &q : sl[s]) {
                    const double P = form == "direct" ? q.u.period(day(k)) : form == "mjd" ? q.p.period(day(k)) : q.p.period(epo(k));
                    if (std::isnan(P)) { out.add("\"nan\""); continue; }
                    out.add("\"turn\"");
                    const LD d = std::fabs(P / (2025.L * static_cast<LD>(q.turn)) - 1) / (q.b + sens(q.o, q.M0));
                    if (!(d <= err)) err = d;
                }
                e.i("s", static_cast<LL>(s)).i("k", k).str("form", form).raw("out", out.json()).i("err", quant(err, 1e-15L));
            } else if (tok == "Elements") {
                std::string el;
                is >> s >> k >> form >> el;
                const auto ty = type(el);
                hz::Seen out, vals;
                LD err = 0;
                for (auto &q : sl[s]) {
                    A6 x{};
                    try {
                        x = form == "direct" ? q.u.elements(day(k), ty) : form == "mjd" ? q.p.elements(day(k), ty) : q.p.elements(epo(k), ty);
                    } catch (const std::domain_error &) { out.add("\"domain_error\""); continue; }
                    catch (const std::logic_error &) { out.add("\"logic_error\""); continue; }
                    catch (const std::exception &) { out.add("\"throw\""); continue; }
                    out.add("\"state\"");
                    LL v[4];
                    SV got;
                    LD f, size, ecc; // true anomaly
                    if (el[0] == 'K') {
                        const Orb d = orbit(x, q.mu);
                        got = el == "KEP_M" ? stateM(d, x[5]) : stateX(d, X_of_f(d, wrappi(static_cast<LD>(x[5]))));
                        f = el == "KEP_M" ? f_of_X(d, solveE(x[5], x[1])) : x[5];
                        v[0] = deg(x[2]); v[1] = m360(x[3]); v[2] = m360(x[4]);
                        ecc = x[1];
                        size = 2 + 1 / q.o.e + 1 / std::fabs(std::sin(q.o.i));
                    } else {
                        const bool retro = el == "MEQ_R";
                        got = fromEq(x, q.mu, retro);
                        const LD h = std::hypot(static_cast<LD>(x[3]), static_cast<LD>(x[4])), vp = q.circ ? 0 : std::atan2(static_cast<LD>(x[2]), static_cast<LD>(x[1]));
                        v[0] = deg(retro ? PI - 2 * std::atan(h) : 2 * std::atan(h));
                        v[1] = q.flat ? NA : m360(std::atan2(static_cast<LD>(x[4]), static_cast<LD>(x[3])));
                        v[2] = q.circ ? NA : m360(vp);
                        f = x[5] - vp;
                        ecc = std::hypot(static_cast<LD>(x[1]), static_cast<LD>(x[2]));
                        const LD c = retro ? std::sin(q.o.i / 2) : std::cos(q.o.i / 2);
                        size = 1 + 1 / (c * c);
                    }
                    Orb d = q.o;
                    d.e = ecc;
                    const bool inside = !q.o.hyp() || std::cos(f) * ecc > -1;
                    v[3] = !q.mean || q.circ ? m360(f) : inside ? m360(M_of_X(d, X_of_f(d, wrappi(f)))) : 99999;
                    vals.add(hz::Ev::list(std::vector<LL>(v, v + 4)));
                    const LD dd = dist(rv(got), q.s0) / (q.b * sens(q.o, q.M0) * bsize(q.o, q.M0) * size);
                    if (!(dd <= err)) err = dd;
                }
                e.i("s", static_cast<LL>(s)).i("k", k).str("form", form).str("el", el).raw("out", out.json()).raw("vals", vals.json()).i("err", quant(err, 1e-15L));
            } else if (tok == "Get") {
                is >> s;
                bool same = true, printed = true;
                for (auto &q : sl[s]) {
                    same = same && q.p.get_name() == q.name && q.u.get_name() == q.name && q.p.get_mu_central_body() == q.mu && q.p.get_mu_self() == q.add[0] && q.p.get_radius() == q.add[1] && q.p.get_safe_radius() == q.add[2]
                           && q.u.get_mu_central_body() == q.mu && q.u.get_mu_self() == q.add[0] && q.u.get_radius() == q.add[1] && q.u.get_safe_radius() == q.add[2] && q.u.get_ref_epoch() == kep3::epoch(q.refday);
                    const std::string t = q.p.get_extra_info();
                    std::ostringstream os;
                    os << q.u;
                    const auto x = q.u.elements(0., kep3::KEP_F);
                    auto has = [&](const std::string &n, double val) { return t.find(n + ": " + fmt::format("{}", val) + "\n") != std::string::npos; };
                    printed = printed && os.str() == t + "\n" && q.u.get_extra_info() == t && has("Semi major axis", x[0]) && has("Eccentricity", x[1]) && has("Inclination (deg.)", x[2] * kep3::RAD2DEG)
                              && has("Big Omega (deg.)", x[3] * kep3::RAD2DEG) && has("Small omega (deg.)", x[4] * kep3::RAD2DEG) && has("Elements reference epoch (MJD2000)", q.refday);
                }
                e.i("s", static_cast<LL>(s)).i("same", same).i("printed", printed);
            } else break;
            e.emit();
        }
    });
}
