// Stand-in for heyoka's expressions (heyoka is not installed here): just what kep3's dynamics are written with.
#pragma once
#include <array>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace heyoka
{
enum class op { num, var, par, add, sub, mul, div, neg, pow, sqrt, select, eq };
struct node;
using nptr = std::shared_ptr<const node>;
struct node {
    op k;
    double num = 0;        // numbers
    std::string name;      // variables
    std::uint32_t idx = 0; // parameters
    std::vector<nptr> a;
};
class expression
{
public:
    nptr n;
    expression() : expression(0.) {}
    expression(double v) : n(std::make_shared<node>(node{op::num, v, {}, 0, {}})) {}
    explicit expression(std::string s) : n(std::make_shared<node>(node{op::var, 0, std::move(s), 0, {}})) {}
    expression(op k, std::initializer_list<expression> l)
    {
        node x{k, 0, {}, 0, {}};
        for (const auto &e : l) x.a.push_back(e.n);
        n = std::make_shared<node>(std::move(x));
    }
    static expression mkpar(std::uint32_t i)
    {
        expression e;
        e.n = std::make_shared<node>(node{op::par, 0, {}, i, {}});
        return e;
    }
    friend expression operator+(const expression &a, const expression &b) { return {op::add, {a, b}}; }
    friend expression operator-(const expression &a, const expression &b) { return {op::sub, {a, b}}; }
    friend expression operator*(const expression &a, const expression &b) { return {op::mul, {a, b}}; }
    friend expression operator/(const expression &a, const expression &b) { return {op::div, {a, b}}; }
    friend expression operator-(const expression &a) { return {op::neg, {a}}; }
    friend expression operator+(const expression &a) { return a; }
    expression &operator+=(const expression &b) { return *this = *this + b; }
    expression &operator-=(const expression &b) { return *this = *this - b; }
    expression &operator*=(const expression &b) { return *this = *this * b; }
    expression &operator/=(const expression &b) { return *this = *this / b; }
};
struct par_t {
    expression operator[](std::uint32_t i) const { return expression::mkpar(i); }
};
inline constexpr par_t par{};
template <typename... A>
std::array<expression, sizeof...(A)> make_vars(const A &...s)
{
    return {expression(std::string(s))...};
}
inline expression pow(const expression &a, double b)
{
    if (b == 2.) return {op::mul, {a, a}};
    if (b == 3.) return {op::mul, {a, expression(op::mul, {a, a})}};
    return {op::pow, {a, expression(b)}};
}
inline expression sqrt(const expression &a) { return {op::sqrt, {a}}; }
inline expression select(const expression &c, const expression &a, const expression &b) { return {op::select, {c, a, b}}; }
inline expression eq(const expression &a, const expression &b) { return {op::eq, {a, b}}; }
inline expression sum(const std::vector<expression> &v)
{
    if (v.empty()) return 0.;
    expression s = v[0];
    for (std::size_t i = 1; i < v.size(); ++i) s = s + v[i];
    return s;
}
struct prime_wrapper {
    expression v;
    std::pair<expression, expression> operator=(const expression &e) && { return {v, e}; }
};
inline prime_wrapper prime(const expression &v) { return {v}; }
using ode_sys = std::vector<std::pair<expression, expression>>;
struct var_ode_sys {
    ode_sys sys;
    std::vector<expression> args;
    std::uint32_t order;
    var_ode_sys(ode_sys s, std::vector<expression> a, std::uint32_t o = 1) : sys(std::move(s)), args(std::move(a)), order(o)
    {
        if (o != 1) throw std::invalid_argument("stand-in: first order only");
    }
};
} // namespace heyoka
