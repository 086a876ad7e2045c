#pragma once
#include <initializer_list>
#include <utility>
#include <vector>
namespace heyoka::kw
{
struct tol_arg { double v; };
struct pars_arg { std::vector<double> v; };
struct compact_arg { bool v; };
struct time_arg { double v; };
struct high_arg { bool v; };
struct tol_t { tol_arg operator=(double v) const { return {v}; } };
struct pars_t { pars_arg operator=(std::initializer_list<double> v) const { return {v}; } pars_arg operator=(std::vector<double> v) const { return {std::move(v)}; } };
struct compact_t { compact_arg operator=(bool v) const { return {v}; } };
struct high_t { high_arg operator=(bool v) const { return {v}; } };
struct time_t_ { time_arg operator=(double v) const { return {v}; } };
inline constexpr tol_t tol{};
inline constexpr pars_t pars{};
inline constexpr compact_t compact_mode{};
inline constexpr high_t high_accuracy{};
inline constexpr time_t_ time{};
template <typename E> struct texpr_arg { E v; };
struct thresh_arg { double v; };
struct texpr_t { template <typename E> texpr_arg<E> operator=(E v) const { return {std::move(v)}; } };
struct thresh_t { thresh_arg operator=(double v) const { return {v}; } };
inline constexpr texpr_t time_expr{};
inline constexpr thresh_t thresh{};
} // namespace heyoka::kw
