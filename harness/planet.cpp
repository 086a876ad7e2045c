// Replays behaviours of PlanetDispatch.tla.
#include "hz.hpp"
#include "planet_types.hpp"
#include <fmt/core.h>
using namespace orc;
using namespace pt;
using LL = long long;
struct Rep { Data d; kep3::planet p; std::string type_name; };
static bool make(int t, Rep &r)
{
    using F = bool (*)(int, const Data &, kep3::planet &, std::string &);
    static const F f[NPARTS] = {make_0, make_1, make_2, make_3, make_4, make_5, make_6, make_7};
    return f[t % NPARTS](t, r.d, r.p, r.type_name);
}
static SV fromPar(const std::array<double, 6> &p, double mu, bool mean)
{
    Orb o;
    o.a = p[0]; o.e = p[1]; o.i = p[2]; o.W = p[3]; o.w = p[4]; o.mu = mu;
    return mean ? stateM(o, p[5]) : stateX(o, X_of_f(o, p[5]));
}
int main(int argc, char **argv)
{
    const int R = hz::envint("REPS", 4), NS = hz::envint("NSLOTS", 2);
    static const char *elname[] = {"KEP_M", "KEP_F", "MEQ", "MEQ_R", "POSVEL"};
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        Rng g(hz::envseed() * 1000003 + id);
        std::vector<std::vector<Rep>> sl;
        std::string tok;
        int tag = 0;
        auto fresh = [&](std::size_t s, int t, const std::string &cls, const std::string &ori, const std::string &unit) {
            for (int r = 0; r < R; ++r) {
                Rep &q = sl[s][static_cast<std::size_t>(r)];
                q.d.o = shape(cls, ori.substr(0, 4) == "flat" ? "flat" : ori, unit, g, r);
                if (ori == "flat0") q.d.o.i = 0;
                if (ori == "flat180") q.d.o.i = PI;
                q.d.M0 = g.u(-1, 1);
                q.d.rate = q.d.o.hyp() ? g.u(0.001L, 0.01L) : g.u(0.01L, 0.7L);
                q.d.tag = ++tag;
                if (!make(t, q)) { std::fprintf(stderr, "no type %d\n", t); _exit(3); }
            }
        };
        // multiples of 3/128 of a day are exact both as doubles and as epochs
        auto day = [](LL k) { return static_cast<double>(k) * 3. / 128.; };
        auto epo = [&](LL k) { return kep3::epoch(day(k)); };
        while (is >> tok) {
            hz::Ev e(tok);
            std::size_t s = 0, t = 0;
            LL k = 0;
            std::string form;
            if (tok == "Start") {
                e.i("id", static_cast<LL>(id));
                sl.assign(static_cast<std::size_t>(NS) + 1, std::vector<Rep>(static_cast<std::size_t>(R)));
                for (std::size_t i = 1; i < sl.size(); ++i) fresh(i, 0, "low", "gen", "one");
            } else if (tok == "Make") {
                int ty; std::string cls, ori, unit;
                is >> s >> ty >> cls >> ori >> unit;
                e.i("s", static_cast<LL>(s)).i("type", ty).str("cls", cls).str("ori", ori).str("unit", unit);
                fresh(s, ty, cls, ori, unit);
            } else if (tok == "Assign") {
                is >> s >> t;
                e.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t));
                for (std::size_t r = 0; r < sl[s].size(); ++r) sl[t][r] = sl[s][r];
            } else if (tok == "Params") {
                is >> s;
                e.i("s", static_cast<LL>(s));
                std::vector<std::string> out(6);
                bool printed = true;
                for (auto &q : sl[s]) {
                    const auto &p = q.p;
                    auto num = [&](double v, double u) -> std::string { return v == u ? "user" : v == -1. ? "default" : "other"; };
                    std::string nm = p.get_name(), in = p.get_extra_info();
                    const std::string o[6] = {num(p.get_mu_central_body(), static_cast<double>(q.d.o.mu)), num(p.get_mu_self(), 101 + q.d.tag), num(p.get_radius(), 202 + q.d.tag), num(p.get_safe_radius(), 303 + q.d.tag),
                                              nm == "name" + std::to_string(q.d.tag) ? "user" : nm == q.type_name ? "default" : "other", in == "info" + std::to_string(q.d.tag) ? "user" : in.empty() ? "default" : "other"};
                    for (std::size_t j = 0; j < 6; ++j) out[j] = out[j].empty() || out[j] == o[j] ? o[j] : "mixed";
                    // the printed form tells the same
                    std::ostringstream os;
                    os << p;
                    const std::string txt = os.str();
                    auto has = [&](const std::string &x) { return txt.find(x) != std::string::npos; };
                    printed = printed && has(nm) && has(q.type_name) && has(fmt::format("mu central body (-1 if not defined): {}\n", p.get_mu_central_body())) && has(fmt::format("mu body (-1 if not defined): {}\n", p.get_mu_self()))
                              && has(fmt::format("radius body (-1 if not defined): {}\n", p.get_radius())) && has(fmt::format("safe body radius (-1 if not defined): {}\n", p.get_safe_radius())) && (in.empty() || has(in));
                }
                e.strs("out", out).i("printed", printed);
            } else if (tok == "Eph") {
                is >> s >> k >> form;
                e.i("s", static_cast<LL>(s)).i("k", k).str("form", form);
                bool same = true;
                for (auto &q : sl[s]) {
                    const RV a = form == "mjd" ? q.p.eph(day(k)) : q.p.eph(epo(k)), b = q.d.state(day(k));
                    same = same && a == b;
                }
                e.i("same", same);
            } else if (tok == "EphV") {
                std::size_t n; is >> s >> n;
                std::vector<LL> ks(n);
                for (auto &x : ks) is >> x;
                e.i("s", static_cast<LL>(s)).ints("ks", ks);
                hz::Seen out;
                for (auto &q : sl[s]) {
                    std::vector<double> v, each, user{404. + q.d.tag};
                    for (auto x : ks) v.push_back(day(x));
                    for (double x : v) { auto st = q.d.state(x); for (auto &a : st) for (double c : a) each.push_back(c); user.push_back(x); }
                    const auto got = q.p.eph_v(v);
                    out.add(got == user ? "\"user\"" : got == each ? "\"each\"" : "\"other\"");
                }
                e.raw("out", out.json());
            } else if (tok == "Period") {
                is >> s >> k >> form;
                e.i("s", static_cast<LL>(s)).i("k", k).str("form", form);
                hz::Seen out;
                LD err = 0;
                for (auto &q : sl[s]) {
                    std::string o;
                    try {
                        const double P = form == "mjd" ? q.p.period(day(k)) : form == "epoch" ? q.p.period(epo(k)) : q.p.period();
                        if (P == 505 + q.d.tag + day(k) / 65536) o = "user";
                        else if (std::isnan(P)) o = "nan";
                        else {
                            o = "energy";
                            const RV st = q.d.state(day(k));
                            const LD R0 = norm(V3(st[0])), v2 = dot(V3(st[1]), V3(st[1])), mu = q.d.o.mu;
                            const LD a = -mu / 2 / (v2 / 2 - mu / R0), ref = 2 * PI * std::sqrt(a * a * a / mu);
                            LD d = std::fabs(P / ref - 1) / (1 + (v2 / 2 + mu / R0) * 2 * std::fabs(a) / mu);
                            if (!(d <= err)) err = d;
                        }
                    } catch (const kep3::not_implemented_error &) { o = "not_implemented"; }
                    catch (const std::exception &) { o = "throw"; }
                    out.add("\"" + o + "\"");
                }
                e.raw("out", out.json()).i("err", quant(err, 1e-15L));
            } else if (tok == "Elements") {
                std::string el;
                is >> s >> k >> form >> el;
                e.i("s", static_cast<LL>(s)).i("k", k).str("form", form).str("el", el);
                int n = 0;
                while (el != elname[n]) ++n;
                const auto ty = static_cast<kep3::elements_type>(n);
                hz::Seen out;
                LD err = 0;
                for (auto &q : sl[s]) {
                    std::string o;
                    try {
                        const auto x = form == "mjd" ? q.p.elements(day(k), ty) : form == "epoch" ? q.p.elements(epo(k), ty) : q.p.elements();
                        if (x == std::array<double, 6>{606. + q.d.tag, day(k), static_cast<double>(n), 0., -1., 1.}) o = "user";
                        else {
                            o = "state";
                            const LD M = q.d.mean(day(k));
                            const SV ref = sv(q.d.state(day(k)));
                            const SV got = n < 2 ? fromPar(x, static_cast<double>(q.d.o.mu), n == 0) : fromEq(x, static_cast<double>(q.d.o.mu), n == 3);
                            const LD c = n == 3 ? std::sin(q.d.o.i / 2) : std::cos(q.d.o.i / 2);
                            const Orb ob = q.d.orbit(day(k));
                            LD b = sens(ob, M) * bsize(ob, M) * (n < 2 ? 2 + 1 / q.d.o.e + 1 / std::fabs(std::sin(q.d.o.i)) : 1 + 1 / (c * c));
                            LD d = dist(rv(got), ref) / b;
                            if (!(d <= err)) err = d;
                        }
                    } catch (const kep3::not_implemented_error &) { o = "not_implemented"; }
                    catch (const std::logic_error &) { o = "logic_error"; }
                    catch (const std::exception &) { o = "throw"; }
                    out.add("\"" + o + "\"");
                }
                e.raw("out", out.json()).i("err", quant(err, 1e-15L));
            } else break;
            e.emit();
        }
    });
}
