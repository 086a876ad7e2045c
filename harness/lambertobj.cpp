// Replays behaviours of LambertObj.tla: Lambert problems as values.
#include "hz.hpp"
#include "orbits.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <iomanip>
#include <kep3/lambert_problem.hpp>
#include <memory>
using namespace orc;
using LP = kep3::lambert_problem;
struct Data { D3 r0, r1; double tof, mu; bool cw; unsigned m; };
static std::string snap(const LP &p)
{
    std::ostringstream o;
    o << std::hexfloat;
    auto put = [&](const auto &v) { o << v.size() << ':'; for (auto &a : v) for (double c : a) o << c << ','; };
    put(p.get_v0()); put(p.get_v1());
    for (double c : p.get_x()) o << c << ',';
    for (auto c : p.get_iters()) o << c << ',';
    for (double c : p.get_r0()) o << c << ',';
    for (double c : p.get_r1()) o << c << ',';
    o << p.get_tof() << ',' << p.get_mu() << ',' << p.get_Nmax() << '\n';
    o << std::defaultfloat << p;
    return o.str();
}
static bool same(const D3 &a, const D3 &b) { return a == b; }
int main(int argc, char **argv)
{
    const int NS = hz::envint("NSLOTS", 4), NF = hz::envint("NFILES", 2);
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<std::unique_ptr<LP>> st(static_cast<std::size_t>(NS) + 1);
        std::vector<bool> moved(static_cast<std::size_t>(NS) + 1, true);
        std::vector<std::pair<std::string, std::string>> fl(static_cast<std::size_t>(NF) + 1);
        std::vector<std::string> gold{""};
        std::vector<Data> data{{}};
        std::string tok;
        int step = 0;
        auto which = [&](std::size_t s) {
            if (!st[s] || moved[s]) return 0;
            std::string n = snap(*st[s]);
            for (std::size_t j = 1; j < gold.size(); ++j) if (gold[j] == n) return static_cast<int>(j);
            return -1;
        };
        auto all = [&] { std::vector<int> v; for (std::size_t s = 1; s < st.size(); ++s) v.push_back(which(s)); return v; };
        auto reports = [&](const LP &p, const Data &d) { return same(p.get_r0(), d.r0) && same(p.get_r1(), d.r1) && p.get_tof() == d.tof && p.get_mu() == d.mu; };
        while (is >> tok) {
            ++step;
            Rng g(hz::envseed() * 7919ULL + id * 257ULL + static_cast<std::uint64_t>(step) * 1000003ULL);
            if (tok == "Start") {
                hz::Ev("Start").i("id", static_cast<long long>(id)).emit();
            } else if (tok == "Build") {
                std::size_t s; std::string tof, mu, geo; int cw; unsigned m;
                is >> s >> tof >> mu >> geo >> cw >> m;
                Data d;
                const bool far = g.i(0, 2) == 0; // units of any size
                LD L = far ? g.lg(1e-15L, 1e20L) : g.lg(0.1L, 1e3L), MU = far ? g.lg(1e-20L, 1e25L) : g.lg(0.1L, 1e3L), T = std::sqrt(L * L * L / MU);
                auto num = [&](const std::string &k, LD ok) -> double {
                    if (k == "pos") return static_cast<double>(ok);
                    if (k == "tiny") return static_cast<double>(ok * g.u(0.02L, 0.1L));
                    if (k == "zero") return 0.0;
                    if (k == "minuszero") return -0.0;
                    if (k == "neg") return static_cast<double>(-ok);
                    return std::nan("");
                };
                d.tof = num(tof, T * g.lg(0.2L, 40));
                d.mu = num(mu, MU);
                d.cw = cw; d.m = m;
                V3 a{g.u(-1, 1), g.u(-1, 1), g.u(-1, 1)}, b{g.u(-1, 1), g.u(-1, 1), g.u(-1, 1)};
                LD al = g.u(0, 2 * PI), be = al + (g.i(0, 1) ? 1 : -1) * g.u(0.3L, 2.8L);
                if (geo == "flat" || geo == "ok") { a = {std::cos(al), std::sin(al), 0}; b = {std::cos(be) * g.u(0.5L, 2), std::sin(be) * 1.1L, 0}; }
                if (geo == "ok") { a.z = g.u(-0.3L, 0.3L); b.z = g.u(-0.3L, 0.3L); }
                a = L * a; b = L * b;
                d.r0 = a.d(); d.r1 = b.d();
                auto ax = g.i(0, 1);
                double q = static_cast<double>(L);
                if (geo == "polar") { d.r0 = {q, 0, 0}; d.r1 = {q * (g.i(0, 1) ? 1 : 0), 0, q * 1.5}; if (ax) { std::swap(d.r0[0], d.r0[1]); std::swap(d.r1[0], d.r1[1]); } }
                if (geo == "polarneg") { d.r0 = {0, 0, -q}; d.r1 = {0, -q * 2, q * (g.i(0, 1) ? 1 : 0)}; if (ax) { std::swap(d.r1[0], d.r1[1]); } }
                if (geo == "same") d.r1 = d.r0;
                if (geo == "double") for (int j = 0; j < 3; ++j) d.r1[j] = 2 * d.r0[j];
                if (geo == "opposite") for (int j = 0; j < 3; ++j) d.r1[j] = -4 * d.r0[j];
                if (geo == "null") (ax ? d.r0 : d.r1) = {0, 0, 0};
                std::string out;
                int ok = 1, sizes = 1;
                try {
                    LP p(d.r0, d.r1, d.tof, d.mu, d.cw, d.m);
                    out = "ok";
                    ok = reports(p, d);
                    std::size_t n = 2 * static_cast<std::size_t>(p.get_Nmax()) + 1;
                    sizes = p.get_v0().size() == n && p.get_v1().size() == n && p.get_x().size() == n && p.get_iters().size() == n;
                    st[s] = std::make_unique<LP>(p);
                    moved[s] = false;
                    gold.push_back(snap(p));
                    data.push_back(d);
                } catch (const std::domain_error &) { out = "domain"; } catch (const std::exception &) { out = "other"; }
                hz::Ev("Build").i("s", static_cast<long long>(s)).str("tof", tof).str("mu", mu).str("geo", geo).str("out", out).i("data", ok).i("sizes", sizes).ints("store", all()).emit();
            } else if (tok == "Copy" || tok == "Move") {
                std::size_t s, t; std::string how;
                is >> s >> t >> how;
                if (!st[t]) st[t] = std::make_unique<LP>();
                if (tok == "Copy") {
                    if (how == "ctor") { auto c = std::make_unique<LP>(*st[s]); st[t] = std::move(c); }
                    else *st[t] = *st[s];
                    moved[t] = false;
                } else {
                    if (how == "ctor") st[t] = std::make_unique<LP>(std::move(*st[s]));
                    else *st[t] = std::move(*st[s]);
                    moved[t] = false;
                    moved[s] = true;
                }
                hz::Ev(tok).i("s", static_cast<long long>(s)).i("t", static_cast<long long>(t)).ints("store", all()).emit();
            } else if (tok == "Save") {
                std::size_t s, f; std::string how;
                is >> s >> f >> how;
                std::ostringstream o;
                if (how == "text") { boost::archive::text_oarchive a(o); a << *st[s]; } else { boost::archive::binary_oarchive a(o); a << *st[s]; }
                fl[f] = {how, o.str()};
                hz::Ev("Save").i("s", static_cast<long long>(s)).i("f", static_cast<long long>(f)).ints("store", all()).emit();
            } else if (tok == "Load") {
                std::size_t f, t; std::string how;
                is >> f >> t >> how;
                if (!st[t] || how == "fresh") st[t] = std::make_unique<LP>();
                std::istringstream i(fl[f].second);
                try {
                    if (fl[f].first == "text") { boost::archive::text_iarchive a(i); a >> *st[t]; } else { boost::archive::binary_iarchive a(i); a >> *st[t]; }
                } catch (const std::exception &) {}
                moved[t] = false;
                hz::Ev("Load").i("f", static_cast<long long>(f)).i("t", static_cast<long long>(t)).ints("store", all()).emit();
            } else if (tok == "Look") {
                std::size_t s;
                is >> s;
                int w = which(s), ok = 0, again = 0;
                if (w > 0) {
                    const Data &d = data[static_cast<std::size_t>(w)];
                    ok = reports(*st[s], d);
                    again = snap(LP(d.r0, d.r1, d.tof, d.mu, d.cw, d.m)) == gold[static_cast<std::size_t>(w)];
                }
                hz::Ev("Look").i("s", static_cast<long long>(s)).i("data", ok).i("again", again).ints("store", all()).emit();
            }
        }
    });
}
