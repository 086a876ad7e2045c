// Stand-in for heyoka's JIT (heyoka is not installed here): "compiled" functions are interpreted expressions behind a pool of plain
// function pointers. As with the real thing, every llvm_state object owns its own code: a pointer looked up in one state is good as long
// as that state lives (moving keeps it, copying makes new code), and calling it afterwards gives NaNs.
#pragma once
#include <heyoka/expression.hpp>

#include <array>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <deque>
#include <limits>
#include <map>
#include <mutex>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include <boost/serialization/string.hpp>

namespace heyoka
{
namespace detail
{
struct cfunc {
    std::vector<expression> ex;
    std::vector<std::string> vars;
};
inline double cf_eval(const nptr &n, const std::vector<std::string> &vars, const double *in, const double *par)
{
    auto v = [&](int i) { return cf_eval(n->a[static_cast<std::size_t>(i)], vars, in, par); };
    switch (n->k) {
        case op::num: return n->num;
        case op::var: for (std::size_t i = 0; i < vars.size(); ++i) if (vars[i] == n->name) return in[i]; throw std::invalid_argument("stand-in: unknown variable " + n->name);
        case op::par: return par[n->idx];
        case op::add: return v(0) + v(1);
        case op::sub: return v(0) - v(1);
        case op::mul: return v(0) * v(1);
        case op::div: return v(0) / v(1);
        case op::neg: return -v(0);
        case op::pow: return std::pow(v(0), v(1));
        case op::sqrt: return std::sqrt(v(0));
        case op::select: return v(0) != 0 ? v(1) : v(2);
        case op::eq: return v(0) == v(1);
    }
    return 0;
}
using fptr = void (*)(double *, const double *, const double *, const double *) noexcept;
inline constexpr std::size_t n_slots = 4096;
struct slots_t {
    std::mutex m;
    std::array<std::shared_ptr<const cfunc>, n_slots> s;
    std::deque<std::size_t> free; // first freed, first used again: stale pointers stay visible for long
    slots_t() { for (std::size_t i = 0; i < n_slots; ++i) free.push_back(i); }
};
inline slots_t &slots() { static auto *s = new slots_t; return *s; }
[[gnu::noinline]] inline void run_slot(std::size_t i, double *out, const double *in, const double *par) noexcept
{
    std::shared_ptr<const cfunc> f;
    {
        std::lock_guard l(slots().m);
        f = slots().s[i];
    }
    if (!f) { for (int k = 0; k < 6; ++k) out[k] = std::numeric_limits<double>::quiet_NaN(); return; }
    for (std::size_t k = 0; k < f->ex.size(); ++k) out[k] = cf_eval(f->ex[k].n, f->vars, in, par);
}
template <std::size_t I> void tramp(double *out, const double *in, const double *par, const double *) noexcept { run_slot(I, out, in, par); }
template <std::size_t... I> constexpr std::array<fptr, sizeof...(I)> tramps(std::index_sequence<I...>) { return {tramp<I>...}; }
inline constexpr auto all_tramps = tramps(std::make_index_sequence<n_slots>{});
inline std::atomic<long> n_compiled{0};
} // namespace detail

class llvm_state
{
    friend struct state_access;
    struct code { std::map<std::string, std::shared_ptr<const detail::cfunc>> f; bool compiled = false; };
    code c;
    std::map<std::string, std::size_t> at;
    void place()
    {
        std::lock_guard l(detail::slots().m);
        for (auto &[k, f] : c.f) {
            if (detail::slots().free.empty()) throw std::runtime_error("stand-in: out of code slots");
            const auto i = detail::slots().free.front();
            detail::slots().free.pop_front();
            detail::slots().s[i] = f;
            at[k] = i;
        }
    }
    void drop() noexcept
    {
        std::lock_guard l(detail::slots().m);
        for (auto &[k, i] : at) { detail::slots().s[i] = nullptr; detail::slots().free.push_back(i); }
        at.clear();
    }
public:
    llvm_state() = default;
    llvm_state(const llvm_state &o) : c(o.c) { if (c.compiled) place(); }
    llvm_state(llvm_state &&o) noexcept : c(std::move(o.c)), at(std::move(o.at)) { o.at.clear(); }
    llvm_state &operator=(llvm_state o) noexcept { std::swap(c, o.c); std::swap(at, o.at); return *this; }
    ~llvm_state() { drop(); }
    void put(const std::string &name, detail::cfunc f)
    {
        if (c.compiled) throw std::invalid_argument("The function can be invoked only if the llvm_state has not been compiled yet");
        if (!c.f.emplace(name, std::make_shared<const detail::cfunc>(std::move(f))).second) throw std::invalid_argument("Function '" + name + "' exists already");
    }
    void compile()
    {
        if (c.compiled) throw std::invalid_argument("The function 'compile' can be invoked only if the llvm_state has not been compiled yet");
        c.compiled = true;
        ++detail::n_compiled;
        place();
    }
    bool is_compiled() const { return c.compiled; }
    std::uintptr_t jit_lookup(const std::string &name) const
    {
        if (!c.compiled) throw std::invalid_argument("The function 'jit_lookup' can be invoked only after the llvm_state has been compiled");
        auto it = at.find(name);
        if (it == at.end()) throw std::invalid_argument("Could not find the symbol '" + name + "' in the compiled module");
        return reinterpret_cast<std::uintptr_t>(detail::all_tramps[it->second]);
    }
    template <class A> static void node_out(A &ar, const nptr &n)
    {
        const int k = static_cast<int>(n->k), m = static_cast<int>(n->a.size());
        ar << k << n->num << n->name << n->idx << m;
        for (auto &x : n->a) node_out(ar, x);
    }
    template <class A> static nptr node_in(A &ar)
    {
        node x{op::num, 0, {}, 0, {}};
        int k = 0, m = 0;
        ar >> k >> x.num >> x.name >> x.idx >> m;
        x.k = static_cast<op>(k);
        for (int i = 0; i < m; ++i) x.a.push_back(node_in(ar));
        return std::make_shared<node>(std::move(x));
    }
    template <class A> void save(A &ar, unsigned) const
    {
        const int n = static_cast<int>(c.f.size());
        ar << c.compiled << n;
        for (auto &[k, f] : c.f) {
            const int ne = static_cast<int>(f->ex.size()), nv = static_cast<int>(f->vars.size());
            ar << k << ne << nv;
            for (auto &e : f->ex) node_out(ar, e.n);
            for (auto &s : f->vars) ar << s;
        }
    }
    template <class A> void load(A &ar, unsigned)
    {
        drop();
        c = {};
        int n = 0;
        ar >> c.compiled >> n;
        for (int i = 0; i < n; ++i) {
            std::string k, s;
            int ne = 0, nv = 0;
            detail::cfunc f;
            ar >> k >> ne >> nv;
            for (int j = 0; j < ne; ++j) { expression e; e.n = node_in(ar); f.ex.push_back(e); }
            for (int j = 0; j < nv; ++j) { ar >> s; f.vars.push_back(s); }
            c.f[k] = std::make_shared<const detail::cfunc>(std::move(f));
        }
        if (c.compiled) place();
    }
    template <class A> void serialize(A &ar, unsigned v) { if constexpr (A::is_saving::value) save(ar, v); else load(ar, v); }
};
template <typename T, typename E>
void add_cfunc(llvm_state &s, const std::string &name, const E &ex, std::initializer_list<expression> vars)
{
    detail::cfunc f;
    for (const auto &e : ex) f.ex.push_back(e);
    for (const auto &v : vars) f.vars.push_back(v.n->name);
    s.put(name, std::move(f));
}
} // namespace heyoka
