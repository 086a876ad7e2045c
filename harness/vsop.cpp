// Replays behaviours of Vsop.tla, alone and on several threads.
#include "hz.hpp"
#include "oracle.hpp"
#include <atomic>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <heyoka/model/vsop2013.hpp>
#include <kep3/core_astro/constants.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/vsop2013.hpp>
#include <sstream>
#include <thread>
using LL = long long;
using LD = long double;
static std::atomic<int> races{0};
extern "C" void __tsan_on_report(void *) { races.fetch_add(1, std::memory_order_relaxed); }
using V = kep3::udpla::vsop2013;
using RV = std::array<std::array<double, 3>, 2>;
static const char *names[] = {"", "mercury", "venus", "earth_moon", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"};
static const double thr[] = {0, 0., 1e-9, std::nextafter(1e-9, 1.), 1e-5, 1e-3, 2.5};
struct Obj { int p = 1, t = 4; V u; };
static double when(LL d, LL j) { return static_cast<double>(d) + static_cast<double>(j) / 128.; }
static std::string spell(std::string s, int caps)
{
    if (s == "-") return "";
    for (std::size_t i = 0; i < s.size(); ++i) if (caps >> i & 1 && s[i] >= 'a' && s[i] <= 'z') s[i] = static_cast<char>(s[i] - 32);
    return s;
}
static LD off(const RV &r, int p, int t, double mjd)
{
    const auto c = heyoka::model::vsop2013_curve<LD>(static_cast<std::uint32_t>(p), thr[t], (static_cast<LD>(mjd) - 0.5L) / 365250);
    const LD au = 149597870700.0L, day = 86400;
    LD err = 0;
    for (std::size_t k = 0; k < 6; ++k) {
        const LD x = c[k] * (k < 3 ? au : au / day), s = (1 + 0.5L * p) * (k < 3 ? au : au / day);
        const LD d = std::fabs(r[k / 3][k % 3] - x) / s;
        if (!(d <= err)) err = d;
    }
    return err;
}
int main(int argc, char **argv)
{
    const int NS = hz::envint("NSLOTS", 3), NT = hz::envint("NTHREADS", 3);
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::vector<Obj> sl(static_cast<std::size_t>(NS) + 1);
        std::string tok;
        while (is >> tok) {
            hz::Ev e(tok);
            std::size_t s = 0, t = 0;
            std::string out = "ok", name, form;
            auto attempt = [&](auto &&f) {
                try { f(); } catch (const std::invalid_argument &) { out = "invalid_argument"; }
                catch (const std::exception &) { out = "throw"; }
            };
            if (tok == "Start") e.i("id", static_cast<LL>(id));
            else if (tok == "Make") {
                int p, k, caps;
                is >> s >> p >> name >> k >> caps;
                attempt([&] { sl[s].u = V(spell(name, caps), thr[k]); });
                sl[s].p = p; sl[s].t = k;
                e.i("s", static_cast<LL>(s)).i("p", p).i("t", k).str("out", out);
            } else if (tok == "BadName") {
                int k, caps;
                is >> name >> k >> caps;
                attempt([&] { V(spell(name, caps), thr[k]); });
                e.str("name", name).str("out", out);
            } else if (tok == "BadThr") {
                is >> form >> name;
                const double b = form[0] == 'n' ? (form == "nan" ? std::nan("") : -1e-5) : form == "infinite" ? INFINITY : form[0] == 'm' ? -INFINITY : -5e-324;
                attempt([&] { V(name, b); });
                e.str("what", form).str("out", out);
            } else if (tok == "Reset") {
                is >> s;
                sl[s] = Obj{};
                e.i("s", static_cast<LL>(s));
            } else if (tok == "Assign") {
                is >> s >> t;
                sl[t] = sl[s];
                e.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t));
            } else if (tok == "Move") {
                is >> s >> t;
                sl[t] = std::move(sl[s]);
                sl[s] = Obj{};
                e.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t));
            } else if (tok == "Archive") {
                is >> s >> t;
                attempt([&] {
                    std::stringstream ss;
                    kep3::planet a(sl[s].u), b;
                    { boost::archive::binary_oarchive oa(ss); oa << a; }
                    { boost::archive::binary_iarchive ia(ss); ia >> b; }
                    auto *q = b.extract<V>();
                    if (!q) throw std::runtime_error("lost");
                    Obj o{sl[s].p, sl[s].t, std::move(*q)}; // the restored object itself, not a copy
                    sl[t] = std::move(o);
                });
                e.i("s", static_cast<LL>(s)).i("t", static_cast<LL>(t)).str("out", out);
            } else if (tok == "Eph") {
                LL d, j;
                is >> s >> d >> j >> form;
                auto &o = sl[s];
                const double x = when(d, j);
                RV r{};
                if (form == "direct") r = o.u.eph(x);
                else if (form == "mjd") r = kep3::planet(o.u).eph(x);
                else if (form == "epoch") r = kep3::planet(o.u).eph(kep3::epoch(x));
                else { kep3::planet a(o.u); const kep3::planet b(a); a = kep3::planet(); r = b.eph(x); }
                e.i("s", static_cast<LL>(s)).i("d", d).i("j", j).str("form", form).i("err", orc::quant(off(r, o.p, o.t, x), 1e-15L)).str("name", o.u.get_name());
            } else if (tok == "EphV") {
                std::size_t n;
                is >> s >> n;
                std::vector<LL> ds(n);
                for (auto &x : ds) is >> x;
                const auto r = kep3::planet(sl[s].u).eph_v(std::vector<double>(ds.begin(), ds.end()));
                LD err = 0;
                for (std::size_t i = 0; i < n && 6 * i + 5 < r.size(); ++i) {
                    const double *q = r.data() + 6 * i;
                    const LD d = off({{{q[0], q[1], q[2]}, {q[3], q[4], q[5]}}}, sl[s].p, sl[s].t, static_cast<double>(ds[i]));
                    if (!(d <= err)) err = d;
                }
                e.i("s", static_cast<LL>(s)).ints("ds", ds).i("n", r.size() % 6 ? -1 : static_cast<LL>(r.size() / 6)).i("err", orc::quant(err, 1e-15L));
            } else if (tok == "Name") {
                is >> s;
                const kep3::planet p(sl[s].u);
                e.i("s", static_cast<LL>(s)).str("name", p.get_name()).i("rest", p.get_mu_central_body() == -1 && p.get_mu_self() == -1 && p.get_radius() == -1 && p.get_safe_radius() == -1 && p.get_extra_info().empty());
            } else { // Crowd
                std::size_t n;
                is >> n;
                std::vector<LL> q(n);
                for (auto &x : q) is >> x;
                const int r0 = races.load(std::memory_order_relaxed);
                std::atomic<int> ready{0};
                std::vector<LD> errs(n / 4, 0);
                std::vector<int> bad(n / 4, 0), nm(n / 4, 1);
                std::vector<std::thread> th;
                for (int k = 1; k <= NT; ++k)
                    th.emplace_back([&, k] {
                        ready.fetch_add(1, std::memory_order_relaxed);
                        while (ready.load(std::memory_order_relaxed) < NT) std::this_thread::yield();
                        for (std::size_t i = 0; i + 3 < n; i += 4) {
                            if (q[i] != k) continue;
                            const int p = static_cast<int>(q[i + 1]), h = static_cast<int>(q[i + 2]);
                            try {
                                V a(names[p], thr[h]);
                                const V b(a);
                                a = V("mars", 0.5);
                                errs[i / 4] = off(b.eph(static_cast<double>(q[i + 3])), p, h, static_cast<double>(q[i + 3]));
                                nm[i / 4] = b.get_name().find(std::string(" ") + names[p] + ",") != std::string::npos;
                            } catch (const std::exception &) { bad[i / 4] = 1; }
                        }
                    });
                for (auto &x : th) x.join();
                LD err = 0;
                int failed = 0, ok = 1;
                for (std::size_t i = 0; i < errs.size(); ++i) { if (!(errs[i] <= err)) err = errs[i]; failed += bad[i]; ok = ok && nm[i]; }
                e.ints("asks", q).i("err", orc::quant(err, 1e-15L)).i("races", races.load(std::memory_order_relaxed) - r0).i("failed", failed).i("names", ok);
            }
            e.emit();
        }
    }, 120);
}
