// Stand-in for heyoka::taylor_adaptive<double>: adaptive Taylor integration of the expressions of expression.hpp. Variational
// systems carry the derivatives along by running the same recurrences on dual numbers.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <tuple>

#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>

#include <heyoka/expression.hpp>
#include <heyoka/kw.hpp>

namespace heyoka
{
enum class taylor_outcome : std::int64_t { success = -4294967296ll, step_limit, time_limit, err_nf_state, cb_stop };
namespace detail
{
constexpr int max_args = 10;
// called whenever an integrator is built (real ones take their time to compile)
inline void (*&on_build())()
{
    static void (*f)() = nullptr;
    return f;
}
struct dual {
    double v = 0;
    std::array<double, max_args> d{};
    dual() = default;
    dual(double x) : v(x) {}
    friend dual operator+(dual a, const dual &b) { a.v += b.v; for (int i = 0; i < max_args; ++i) a.d[i] += b.d[i]; return a; }
    friend dual operator-(dual a, const dual &b) { a.v -= b.v; for (int i = 0; i < max_args; ++i) a.d[i] -= b.d[i]; return a; }
    friend dual operator-(dual a) { a.v = -a.v; for (auto &x : a.d) x = -x; return a; }
    friend dual operator*(const dual &a, const dual &b)
    {
        dual r(a.v * b.v);
        for (int i = 0; i < max_args; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i];
        return r;
    }
    friend dual operator/(const dual &a, const dual &b)
    {
        dual r(a.v / b.v);
        for (int i = 0; i < max_args; ++i) r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v;
        return r;
    }
    friend dual scale_(dual a, double s) { a.v *= s; for (auto &x : a.d) x *= s; return a; }
};
inline double scale(double a, double s) { return a * s; }
inline dual scale(const dual &a, double s) { return scale_(a, s); }
inline double val(double a) { return a; }
inline double val(const dual &a) { return a.v; }
inline double powd(double a, double e) { return std::pow(a, e); }
inline dual powd(const dual &a, double e)
{
    dual r(std::pow(a.v, e));
    const double f = e * std::pow(a.v, e - 1);
    for (int i = 0; i < max_args; ++i) r.d[i] = f * a.d[i];
    return r;
}
inline double sqrtd(double a) { return std::sqrt(a); }
inline dual sqrtd(const dual &a)
{
    dual r(std::sqrt(a.v));
    for (int i = 0; i < max_args; ++i) r.d[i] = a.d[i] / (2 * r.v);
    return r;
}
inline double sel(bool c, double a, double b) { return c ? a : b; }
inline dual sel(bool c, const dual &a, const dual &b)
{
    dual r(c ? a.v : b.v);
    // the chain rule, as heyoka applies it: a NaN of the branch not taken gets through
    for (int i = 0; i < max_args; ++i) r.d[i] = a.d[i] * (c ? 1. : 0.) + b.d[i] * (c ? 0. : 1.);
    return r;
}
struct ins {
    int k = 0, a = -1, b = -1, c = -1;
    double num = 0;
    int dyn = 0; // depends on the state
    template <class A>
    void serialize(A &ar, unsigned) { ar & k & a & b & c & num & dyn; }
};
} // namespace detail

template <typename T>
class taylor_adaptive;

template <>
class taylor_adaptive<double>
{
    std::vector<detail::ins> m_tape;
    std::vector<int> m_rhs;
    std::vector<double> m_state, m_pars;
    double m_time = 0, m_tol = std::numeric_limits<double>::epsilon();
    int m_n = 0;                 // equations
    std::vector<int> m_args;     // variational arguments: variables >= 0, parameters -1 - index
    std::vector<std::string> m_names;

    void opt(const kw::tol_arg &t)
    {
        if (!std::isfinite(t.v) || t.v < 0) throw std::invalid_argument("The tolerance in an adaptive Taylor integrator must be finite and positive");
        m_tol = t.v == 0 ? std::numeric_limits<double>::epsilon() : t.v;
    }
    void opt(const kw::pars_arg &p) { given = p.v; }
    void opt(const kw::compact_arg &) {}
    void opt(const kw::high_arg &) {}
    void opt(const kw::time_arg &t) { m_time = t.v; }
    std::vector<double> given;

    int compile(const nptr &n, std::map<const node *, int> &memo)
    {
        if (auto it = memo.find(n.get()); it != memo.end()) return it->second;
        detail::ins i;
        i.k = static_cast<int>(n->k);
        int x[3] = {-1, -1, -1};
        for (std::size_t j = 0; j < n->a.size() && j < 3; ++j) {
            x[j] = compile(n->a[j], memo);
            i.dyn |= m_tape[static_cast<std::size_t>(x[j])].dyn;
        }
        i.a = x[0]; i.b = x[1]; i.c = x[2];
        i.num = n->num;
        if (n->k == op::var) {
            auto it = std::find(m_names.begin(), m_names.end(), n->name);
            if (it == m_names.end()) throw std::invalid_argument("unknown variable " + n->name);
            i.a = static_cast<int>(it - m_names.begin());
            i.dyn = 1;
        } else if (n->k == op::par) {
            i.a = static_cast<int>(n->idx);
            if (m_pars.size() <= n->idx) m_pars.resize(n->idx + 1u);
        }
        m_tape.push_back(i);
        return memo[n.get()] = static_cast<int>(m_tape.size()) - 1;
    }
    void setup(const ode_sys &sys, std::vector<double> state)
    {
        if (auto f = detail::on_build()) f();
        m_n = static_cast<int>(sys.size());
        for (const auto &p : sys) m_names.push_back(p.first.n->name);
        std::map<const node *, int> memo;
        for (const auto &p : sys) m_rhs.push_back(compile(p.second.n, memo));
        m_state = std::move(state);
        if (m_state.size() != sys.size()) throw std::invalid_argument("Inconsistent sizes detected in the initialization of an adaptive Taylor integrator");
        if (given.size() > m_pars.size()) throw std::invalid_argument("Excessive number of parameter values passed to the constructor of an adaptive Taylor integrator");
        std::copy(given.begin(), given.end(), m_pars.begin());
    }
    // one step towards t_end: the coefficients of the solution, then its sum
    template <typename S>
    int step(double t_end, double *h_out)
    {
        const int order = std::max(2, static_cast<int>(std::ceil(-std::log(m_tol) / 2 + 1)));
        const auto N = static_cast<std::size_t>(m_n);
        const std::size_t na = m_args.size();
        std::vector<std::vector<S>> x(N, std::vector<S>(static_cast<std::size_t>(order) + 1)), u(m_tape.size(), std::vector<S>(static_cast<std::size_t>(order)));
        for (std::size_t i = 0; i < N; ++i) {
            x[i][0] = S(m_state[i]);
            if constexpr (std::is_same_v<S, detail::dual>)
                for (std::size_t j = 0; j < na; ++j) x[i][0].d[j] = m_state[N + na * i + j];
        }
        for (int k = 0; k < order; ++k) {
            const auto K = static_cast<std::size_t>(k);
            for (std::size_t q = 0; q < m_tape.size(); ++q) {
                const auto &I = m_tape[q];
                S r(0.);
                auto A = [&](std::size_t j) -> const S & { return u[static_cast<std::size_t>(I.a)][j]; };
                auto B = [&](std::size_t j) -> const S & { return u[static_cast<std::size_t>(I.b)][j]; };
                auto C = [&](std::size_t j) -> const S & { return u[static_cast<std::size_t>(I.c)][j]; };
                const auto kind = static_cast<op>(I.k);
                if (k > 0 && !I.dyn) { // constants
                    u[q][K] = r;
                    continue;
                }
                switch (kind) {
                    case op::num: r = S(I.num); break;
                    case op::par:
                        r = S(m_pars[static_cast<std::size_t>(I.a)]);
                        if constexpr (std::is_same_v<S, detail::dual>)
                            for (std::size_t j = 0; j < na; ++j) if (m_args[j] == -1 - I.a) r.d[j] = 1;
                        break;
                    case op::var: r = x[static_cast<std::size_t>(I.a)][K]; break;
                    case op::add: r = A(K) + B(K); break;
                    case op::sub: r = A(K) - B(K); break;
                    case op::neg: r = -A(K); break;
                    case op::mul:
                        if (!m_tape[static_cast<std::size_t>(I.a)].dyn) r = A(0) * B(K);
                        else if (!m_tape[static_cast<std::size_t>(I.b)].dyn) r = A(K) * B(0);
                        else for (std::size_t j = 0; j <= K; ++j) r = r + A(j) * B(K - j);
                        break;
                    case op::div:
                        r = A(K);
                        if (m_tape[static_cast<std::size_t>(I.b)].dyn) for (std::size_t j = 1; j <= K; ++j) r = r - B(j) * u[q][K - j];
                        r = r / B(0);
                        break;
                    case op::pow:
                    case op::sqrt: {
                        const double e = kind == op::sqrt ? 0.5 : m_tape[static_cast<std::size_t>(I.b)].num;
                        if (k == 0) r = kind == op::sqrt ? detail::sqrtd(A(0)) : detail::powd(A(0), e);
                        else {
                            for (std::size_t j = 1; j <= K; ++j) r = r + detail::scale(A(j) * u[q][K - j], static_cast<double>(j) * e - static_cast<double>(K - j));
                            r = detail::scale(r / A(0), 1. / k);
                        }
                        break;
                    }
                    case op::select: r = detail::sel(detail::val(A(0)) != 0, B(K), C(K)); break;
                    case op::eq: r = S(k == 0 && detail::val(A(0)) == detail::val(B(0)) ? 1. : 0.); break;
                }
                u[q][K] = r;
            }
            for (std::size_t i = 0; i < N; ++i) x[i][K + 1] = detail::scale(u[static_cast<std::size_t>(m_rhs[i])][K], 1. / (k + 1));
        }
        // step size: the last two terms of every group of three components, and of every derivative of it, stay below the tolerance
        // relative to the group itself (or, where that starts from zero, to its first terms)
        double h = INFINITY;
        const std::size_t ways = std::is_same_v<S, detail::dual> ? na + 1 : 1;
        for (std::size_t g = 0; g < N; g += 3)
            for (std::size_t w = 0; w < ways; ++w) {
                auto norm = [&](int k) {
                    double m = 0;
                    for (std::size_t i = g; i < std::min(N, g + 3); ++i) {
                        const S &c = x[i][static_cast<std::size_t>(k)];
                        double v = detail::val(c);
                        if constexpr (std::is_same_v<S, detail::dual>) if (w > 0) v = c.d[w - 1];
                        v = std::fabs(v);
                        if (!(v <= m)) m = v;
                    }
                    return m;
                };
                for (int e = order - 1; e <= order; ++e) {
                    const double top = norm(e);
                    if (!std::isfinite(top) || !std::isfinite(norm(0))) return -1;
                    if (top == 0) continue;
                    double best = 0;
                    for (int k = 0; k < std::min(5, order - 1); ++k) {
                        const double c = norm(k);
                        if (c > 0) best = std::max(best, std::pow(m_tol * c / top, 1. / (e - k)));
                    }
                    if (best > 0) h = std::min(h, best);
                }
            }
        const double rem = t_end - m_time;
        bool last = false;
        if (h >= std::fabs(rem)) { h = std::fabs(rem); last = true; }
        if (rem < 0) h = -h;
        for (std::size_t i = 0; i < N; ++i) {
            S r = x[i][static_cast<std::size_t>(order)];
            for (int k = order - 1; k >= 0; --k) r = detail::scale(r, h) + x[i][static_cast<std::size_t>(k)];
            m_state[i] = detail::val(r);
            if constexpr (std::is_same_v<S, detail::dual>) for (std::size_t j = 0; j < na; ++j) m_state[N + na * i + j] = r.d[j];
        }
        if (!last && m_time + h == m_time) return -1; // stuck at a singularity
        m_time = last ? t_end : m_time + h;
        *h_out = h;
        for (double v : m_state) if (!std::isfinite(v)) return -1;
        return last ? 1 : 0;
    }
    taylor_outcome advance(double t, double &mn, double &mx, std::size_t &n)
    {
        if (!std::isfinite(t)) throw std::invalid_argument("A non-finite time was passed to the propagate_until() function of an adaptive Taylor integrator");
        for (double v : m_pars) if (!std::isfinite(v)) return taylor_outcome::err_nf_state;
        while (m_time != t) {
            double h = 0;
            const int r = m_args.empty() ? step<double>(t, &h) : step<detail::dual>(t, &h);
            if (r < 0) return taylor_outcome::err_nf_state;
            ++n;
            mn = std::min(mn, std::fabs(h));
            mx = std::max(mx, std::fabs(h));
            if (n > 200000u) return taylor_outcome::step_limit;
        }
        for (double v : m_state) if (!std::isfinite(v)) return taylor_outcome::err_nf_state;
        return taylor_outcome::time_limit;
    }

public:
    struct no_output {};
    using callback = std::function<bool(taylor_adaptive &)>;
    taylor_adaptive() = default;
    template <typename... K>
    taylor_adaptive(const ode_sys &sys, std::vector<double> state, const K &...k)
    {
        (opt(k), ...);
        setup(sys, std::move(state));
    }
    template <typename... K>
    taylor_adaptive(const var_ode_sys &v, std::vector<double> state, const K &...k)
    {
        (opt(k), ...);
        setup(v.sys, std::move(state));
        if (v.args.size() > static_cast<std::size_t>(detail::max_args)) throw std::invalid_argument("stand-in: too many arguments");
        for (const auto &e : v.args) {
            if (e.n->k == op::par) m_args.push_back(-1 - static_cast<int>(e.n->idx));
            else m_args.push_back(static_cast<int>(std::find(m_names.begin(), m_names.end(), e.n->name) - m_names.begin()));
        }
        for (int i = 0; i < m_n; ++i)
            for (int a : m_args) m_state.push_back(a == i ? 1. : 0.);
    }
    const std::vector<double> &get_state() const { return m_state; }
    double *get_state_data() { return m_state.data(); }
    const double *get_state_data() const { return m_state.data(); }
    const std::vector<double> &get_pars() const { return m_pars; }
    double *get_pars_data() { return m_pars.data(); }
    const double *get_pars_data() const { return m_pars.data(); }
    double get_time() const { return m_time; }
    void set_time(double t) { m_time = t; }
    double get_tol() const { return m_tol; }
    std::uint32_t get_dim() const { return static_cast<std::uint32_t>(m_state.size()); }
    bool is_variational() const { return !m_args.empty(); }
    std::uint32_t get_vorder() const { return 1; }
    const std::vector<int> &get_vargs() const { return m_args; }
    std::tuple<taylor_outcome, double, double, std::size_t, std::optional<no_output>, callback> propagate_until(double t)
    {
        double mn = INFINITY, mx = 0;
        std::size_t n = 0;
        auto o = advance(t, mn, mx, n);
        return {o, mn, mx, n, std::nullopt, callback{}};
    }
    std::tuple<taylor_outcome, double, double, std::size_t, std::optional<no_output>, callback> propagate_for(double t) { return propagate_until(m_time + t); }
    std::tuple<taylor_outcome, double, double, std::size_t, callback, std::vector<double>> propagate_grid(const std::vector<double> &grid)
    {
        if (grid.empty()) throw std::invalid_argument("Cannot invoke propagate_grid() in an adaptive Taylor integrator if the time grid is empty");
        for (std::size_t i = 0; i < grid.size(); ++i) {
            if (!std::isfinite(grid[i])) throw std::invalid_argument("A non-finite time value was passed to propagate_grid() in an adaptive Taylor integrator");
            if (i > 1 && !((grid[i] > grid[i - 1]) == (grid[1] > grid[0]) && grid[i] != grid[i - 1])) throw std::invalid_argument("A non-monotonic time grid was passed to propagate_grid() in an adaptive Taylor integrator");
        }
        double mn = INFINITY, mx = 0;
        std::size_t n = 0;
        std::vector<double> out;
        for (double t : grid) {
            auto o = advance(t, mn, mx, n);
            if (o != taylor_outcome::time_limit) return {o, mn, mx, n, callback{}, out};
            out.insert(out.end(), m_state.begin(), m_state.end());
        }
        return {taylor_outcome::time_limit, mn, mx, n, callback{}, out};
    }
    template <class A>
    void serialize(A &ar, unsigned)
    {
        ar & m_tape & m_rhs & m_state & m_pars & m_time & m_tol & m_n & m_args & m_names;
    }
};
} // namespace heyoka
