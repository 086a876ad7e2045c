// Replays behaviours of JplLp.tla. The element table arrives with them: there is none here.
#include "dual.hpp"
#include "hz.hpp"
#include "orbits.hpp"
#include <kep3/planet.hpp>
#include <kep3/udpla/jpl_lp.hpp>
using namespace orc;
using LL = long long;
using A6 = std::array<double, 6>;
static const char *elname[] = {"KEP_M", "KEP_F", "MEQ", "MEQ_R", "POSVEL"};
struct Obj {
    std::vector<LD> row; // elements, rates, own gravity, radius, safe tenths, Sun's gravity, au
    kep3::udpla::jpl_lp u;
    kep3::planet p;
};
static std::vector<LD> getrow(std::istringstream &is)
{
    std::size_t n;
    is >> n;
    std::vector<LD> r(n / 2);
    for (auto &x : r) { LL a, b; is >> a >> b; x = static_cast<LD>(a) + static_cast<LD>(b) / 1e8L; }
    return r;
}
static std::string spell(std::string s, int caps)
{
    for (std::size_t i = 0; i < s.size(); ++i) if (caps >> i & 1 && s[i] >= 'a' && s[i] <= 'z') s[i] = static_cast<char>(s[i] - 32);
    return s;
}
static double when(LL d, LL j) { return static_cast<double>(d) + static_cast<double>(j) / 128.; }
// the orbit of the date, the mean anomaly on it, and how far its angles have wound
static Orb orbit(const Obj &o, double t, LD &M, LD &wound)
{
    const LD T = (static_cast<LD>(t) - 0.5L) / 36525;
    LD x[6];
    wound = 1;
    for (std::size_t i = 0; i < 6; ++i) { x[i] = o.row[i] + o.row[6 + i] * T; if (i > 1) wound += std::fabs(x[i] * DEG) + std::fabs(o.row[6 + i] * T * DEG); }
    Orb r;
    r.a = x[0] * o.row[16] * 1000; r.e = x[1]; r.i = x[2] * DEG; r.W = x[5] * DEG; r.w = (x[4] - x[5]) * DEG; r.mu = o.row[15] * 1e12L;
    M = (x[3] - x[4]) * DEG;
    return r;
}
int main(int argc, char **argv)
{
    const int NS = hz::envint("NSLOTS", 2);
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<Obj> sl(static_cast<std::size_t>(NS) + 1);
        std::string tok;
        while (is >> tok) {
            hz::Ev e(tok);
            std::size_t s = 0, t = 0;
            LL d = 0, j = 0;
            std::string form, out = "ok";
            LD err = 0;
            auto attempt = [&](auto &&f) {
                try { f(); } catch (const std::domain_error &) { out = "domain_error"; }
                catch (const std::logic_error &) { out = "logic_error"; }
                catch (const std::exception &) { out = "throw"; }
            };
            if (tok == "Start") {
                e.i("id", static_cast<LL>(id));
                const auto row = getrow(is);
                for (auto &o : sl) { o.row = row; o.p = kep3::planet{o.u}; }
            } else if (tok == "Make") {
                int p, caps; std::string name;
                is >> s >> p >> name >> caps;
                Obj o;
                o.row = getrow(is);
                attempt([&] { o.u = kep3::udpla::jpl_lp(spell(name, caps)); o.p = kep3::planet{o.u}; });
                sl[s] = o;
                e.i("s", static_cast<LL>(s)).i("p", p).i("caps", caps).str("out", out);
            } else if (tok == "Bad") {
                int caps; std::string name;
                is >> name >> caps;
                e.str("name", name).i("caps", caps);
                try { const kep3::udpla::jpl_lp u(name == "-" ? "" : spell(name, caps)); } catch (const std::exception &) { out = "refused"; }
                e.str("out", out);
            } else if (tok == "Assign") {
                is >> s >> t;
                e.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t));
                if (s != t) sl[t] = sl[s];
            } else if (tok == "Eph") {
                is >> s >> d >> j >> form;
                const auto &o = sl[s];
                const double x = when(d, j);
                attempt([&] {
                    const RV r = form == "direct" ? o.u.eph(x) : form == "mjd" ? o.p.eph(x) : o.p.eph(kep3::epoch(x));
                    LD M, wd;
                    const Orb b = orbit(o, x, M, wd);
                    err = dist(r, stateM(b, M)) / (bsize(b, M) * wd);
                });
                e.i("s", static_cast<LL>(s)).i("d", d).i("j", j).str("form", form).str("out", out).i("err", quant(err, 1e-15L));
            } else if (tok == "EphV") {
                std::size_t n;
                is >> s >> n;
                std::vector<LL> ds(n);
                for (auto &x : ds) is >> x;
                std::vector<double> v(ds.begin(), ds.end()), each;
                bool same = true;
                attempt([&] {
                    for (double x : v) { auto st = sl[s].u.eph(x); for (auto &a : st) for (double c : a) each.push_back(c); }
                    same = sl[s].p.eph_v(v) == each;
                });
                e.i("s", static_cast<LL>(s)).ints("ds", ds).i("same", same && out == "ok");
            } else if (tok == "Elements") {
                std::string el;
                is >> s >> d >> j >> form >> el;
                const auto &o = sl[s];
                const double x = when(d, j);
                int n = 0;
                while (el != elname[n]) ++n;
                const auto ty = static_cast<kep3::elements_type>(n);
                attempt([&] {
                    const A6 r = form == "direct" ? o.u.elements(x, ty) : form == "mjd" ? o.p.elements(x, ty) : o.p.elements(kep3::epoch(x), ty);
                    LD M, wd, f = 1;
                    const Orb b = orbit(o, x, M, wd);
                    SV got;
                    if (n < 2) {
                        // element by element: the table's own, and the place
                        Orb q;
                        q.a = r[0]; q.e = r[1]; q.i = r[2]; q.W = r[3]; q.w = r[4]; q.mu = b.mu;
                        got = n == 0 ? stateM(q, r[5]) : stateX(q, X_of_f(q, r[5]));
                        const LD z = std::max({std::fabs(q.a / b.a - 1), std::fabs(q.e - b.e), std::fabs(q.i - b.i), std::fabs(wrappi(q.W - b.W)), std::fabs(wrappi(q.w - b.w))}) / wd;
                        if (!(z <= err)) err = z;
                    } else {
                        got = fromEq(r, static_cast<double>(b.mu), n == 3);
                        const LD c = n == 3 ? std::sin(b.i / 2) : std::cos(b.i / 2);
                        f = 1 + 1 / (c * c);
                    }
                    const LD z = dist(rv(got), stateM(b, M)) / (bsize(b, M) * wd * f);
                    if (!(z <= err)) err = z;
                });
                e.i("s", static_cast<LL>(s)).i("d", d).i("j", j).str("form", form).str("el", el).str("out", out).i("err", quant(err, 1e-15L));
            } else if (tok == "Period") {
                is >> s >> d >> form;
                const auto &o = sl[s];
                attempt([&] {
                    const double P = form == "mjd" ? o.p.period(when(d, 0)) : o.p.period(kep3::epoch(when(d, 0)));
                    LD M, wd;
                    const Orb b = orbit(o, when(d, 0), M, wd);
                    err = std::fabs(P * b.n() / (2 * PI) - 1) / (1 + bsize(b, M) * wd);
                    if (!(err < 1)) err = 1;
                });
                e.i("s", static_cast<LL>(s)).i("d", d).str("form", form).str("out", out).i("err", quant(err, 1e-15L));
            } else if (tok == "Get") {
                is >> s;
                const auto &o = sl[s];
                auto eq = [](double x, LD y) { return std::fabs(x - y) <= 4e-16L * y; };
                const bool same = eq(o.u.get_mu_self(), o.row[12] * 1e9L) && eq(o.u.get_radius(), o.row[13] * 1e3L) && eq(o.u.get_safe_radius(), o.row[13] * 1e2L * o.row[14]) && eq(o.u.get_mu_central_body(), o.row[15] * 1e12L)
                                  && o.p.get_mu_self() == o.u.get_mu_self() && o.p.get_radius() == o.u.get_radius() && o.p.get_safe_radius() == o.u.get_safe_radius() && o.p.get_mu_central_body() == o.u.get_mu_central_body()
                                  && o.p.get_name() == o.u.get_name() && o.p.get_extra_info() == o.u.get_extra_info();
                e.i("s", static_cast<LL>(s)).i("same", same).str("name", o.u.get_name());
            } else break;
            e.emit();
        }
    });
}
