// Runs scripts of TACacheGen.tla on real threads against the integrator caches, and records every answer with the instants of
// its question and of its return.
#include "hz.hpp"
#include "oracle.hpp"
#include <atomic>
#include <chrono>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
#include <memory>
#include <thread>
using LL = long long;
using Ta = heyoka::taylor_adaptive<double>;
static std::atomic<int> races{0};
extern "C" void __tsan_on_report(void *) { races.fetch_add(1, std::memory_order_relaxed); }
static thread_local int dawdle = 0;
static void units(int n) { if (n > 0) std::this_thread::sleep_for(std::chrono::microseconds(60 * n)); }
static void building() { units(dawdle); }
static const Ta &get(int c, double tol)
{
    switch (c) {
        case 1: return kep3::ta::get_ta_stark(tol);
        case 2: return kep3::ta::get_ta_stark_var(tol);
        case 3: return kep3::ta::get_ta_cr3bp(tol);
        default: return kep3::ta::get_ta_cr3bp_var(tol);
    }
}
static std::size_t dim(int c)
{
    switch (c) {
        case 1: return kep3::ta::get_ta_stark_cache_dim();
        case 2: return kep3::ta::get_ta_stark_var_cache_dim();
        case 3: return kep3::ta::get_ta_cr3bp_cache_dim();
        default: return kep3::ta::get_ta_cr3bp_var_cache_dim();
    }
}
// one built on the side, from the exported dynamics
static Ta own(int c, double tol)
{
    auto V = [](const char *n) { return heyoka::expression(n); };
    const auto t = heyoka::kw::tol = tol;
    switch (c) {
        case 1: return Ta{kep3::ta::stark_dyn(), std::vector<double>(7, 1.), t};
        case 2: return Ta{heyoka::var_ode_sys(kep3::ta::stark_dyn(), {V("x"), V("y"), V("z"), V("vx"), V("vy"), V("vz"), V("m"), heyoka::par[2], heyoka::par[3], heyoka::par[4]}, 1), std::vector<double>(7, 1.), t};
        case 3: return Ta{kep3::ta::cr3bp_dyn(), std::vector<double>(6, 1.), t};
        default: return Ta{heyoka::var_ode_sys(kep3::ta::cr3bp_dyn(), {V("x"), V("y"), V("z"), V("vx"), V("vy"), V("vz")}, 1), std::vector<double>(6, 1.), t};
    }
}
static const unsigned dims[] = {0, 7, 77, 6, 42};
// a user's work on his copy
static std::vector<double> use(Ta ta, int c, double x)
{
    const std::size_t n = c < 3 ? 7 : 6;
    for (std::size_t i = 0; i < n; ++i) ta.get_state_data()[i] = i == 0 ? 1.1 + x : i == 4 ? 0.9 : i == 6 ? 2. : 0.05 * static_cast<double>(i);
    const std::size_t na = (ta.get_dim() - n) / n;
    for (std::size_t i = n; i < ta.get_dim(); ++i) ta.get_state_data()[i] = (i - n) / na == (i - n) % na ? 1. : 0.;
    if (c < 3) { ta.get_pars_data()[0] = 1. + x; ta.get_pars_data()[1] = 3.; for (int i = 2; i < 5; ++i) ta.get_pars_data()[i] = 0.01 * (i + x); }
    else ta.get_pars_data()[0] = 0.02 + x / 10;
    ta.set_time(x);
    ta.propagate_until(x + 0.3);
    auto r = ta.get_state();
    r.push_back(ta.get_time());
    return r;
}
struct Ask { int th = 0; std::string op; int c = 0, t = 0; std::string bad; int w = 0, b = 0; long inv = 0, res = 0; int out = 0; const Ta *at = nullptr; };
int main(int argc, char **argv)
{
    const int NT = hz::envint("NTHREADS", 3), MT = 3;
    // what each cache hands out to start from
    std::vector<Ta> first(5);
    for (int c = 1; c <= 4; ++c) first[static_cast<std::size_t>(c)] = get(c, 1e-5);
    const int before = races.load();
    heyoka::detail::on_build() = building;
    return hz::run(argc, argv, [&](std::uint64_t id, std::istringstream &is) {
        std::string tok, gap;
        is >> tok >> gap;
        hz::Ev("Start").i("id", static_cast<LL>(id)).str("gap", gap).emit();
        std::vector<Ask> asks;
        while (is >> tok) {
            Ask a;
            is >> a.th >> a.op >> a.c >> a.t >> a.bad >> a.w >> a.b;
            asks.push_back(a);
        }
        double tol[MT + 1];
        tol[0] = 1e-10 * (1 + 1e-6 * static_cast<double>(id % 900000 + 1));
        for (int k = 1; k <= MT; ++k) tol[k] = gap == "next" ? std::nextafter(tol[k - 1], 1.) : 2 * tol[k - 1];
        auto pristine = [&](const Ta &x, int c, int t) {
            const Ta &f = first[static_cast<std::size_t>(c)];
            return x.get_tol() == tol[t] && x.get_dim() == dims[c] && x.get_state() == f.get_state() && x.get_pars() == f.get_pars() && x.get_time() == f.get_time() && x.get_vargs() == f.get_vargs() && x.is_variational() == (c % 2 == 0);
        };
        std::vector<std::vector<std::vector<double>>> expect(5, std::vector<std::vector<double>>(MT + 1));
        for (auto &a : asks) if (a.op == "Use" && expect[static_cast<std::size_t>(a.c)][static_cast<std::size_t>(a.t)].empty()) expect[static_cast<std::size_t>(a.c)][static_cast<std::size_t>(a.t)] = use(own(a.c, tol[a.t]), a.c, 0.1 * a.t);
        LL base[5];
        for (int c = 1; c <= 4; ++c) base[c] = static_cast<LL>(dim(c));
        std::atomic<long> clock{0};
        std::atomic<int> ready{0};
        const int r0 = races.load(std::memory_order_relaxed);
        auto tick = [&] { __asm__ volatile("" ::: "memory"); const long n = clock.fetch_add(1, std::memory_order_relaxed); __asm__ volatile("" ::: "memory"); return n; };
        std::vector<std::thread> th;
        for (int n = 1; n <= NT; ++n)
            th.emplace_back([&, n] {
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < NT) std::this_thread::yield();
                for (auto &a : asks) {
                    if (a.th != n) continue;
                    units(a.w);
                    dawdle = a.b;
                    a.inv = tick();
                    try {
                        if (a.op == "Dim") a.out = static_cast<int>(static_cast<LL>(dim(a.c)) - base[a.c]);
                        else if (a.op == "Bad") {
                            get(a.c, a.bad == "nan" ? std::nan("") : a.bad == "negative" ? -tol[a.t] : INFINITY);
                            a.out = 0;
                        } else {
                            const Ta &x = get(a.c, tol[a.t]);
                            a.at = &x;
                            a.out = pristine(x, a.c, a.t);
                            if (a.op == "Use") a.out = a.out && use(x, a.c, 0.1 * a.t) == expect[static_cast<std::size_t>(a.c)][static_cast<std::size_t>(a.t)];
                        }
                    } catch (const std::exception &) { a.out = a.op == "Bad" ? 2 : -1; }
                    a.res = tick();
                }
            });
        for (auto &t : th) t.join();
        const int nr = races.load(std::memory_order_relaxed) - r0;
        LL end[5];
        for (int c = 1; c <= 4; ++c) end[c] = static_cast<LL>(dim(c)) - base[c];
        bool same = true, distinct = true, good = true;
        std::set<const Ta *> at;
        std::set<std::pair<int, int>> known;
        for (auto &a : asks) {
            if (!a.at) continue;
            const Ta &x = get(a.c, tol[a.t]);
            same = same && &x == a.at;
            if (known.insert({a.c, a.t}).second) distinct = distinct && at.insert(&x).second;
            good = good && pristine(x, a.c, a.t);
            if (a.op == "Get" && !same) a.out = 0;
        }
        std::string ops = "[";
        for (auto &a : asks)
            ops += (ops.size() > 1 ? "," : "") + std::string("{\"inv\":") + std::to_string(a.inv) + ",\"res\":" + std::to_string(a.res) + ",\"op\":\"" + a.op + "\",\"c\":" + std::to_string(a.c) + ",\"t\":" + std::to_string(a.t) + ",\"out\":" + std::to_string(a.out) + "}";
        hz::Ev("Run").raw("ops", ops + "]").i("races", nr).emit();
        hz::Ev("End").ints("dims", std::vector<LL>(end + 1, end + 5)).i("same", same).i("distinct", distinct).i("pristine", good).emit();
        (void)before;
    }, 120);
}
