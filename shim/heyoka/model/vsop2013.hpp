// Stand-in for heyoka's VSOP2013 model (heyoka is not installed here): each body and threshold has its own smooth curve.
#pragma once
#include <heyoka/expression.hpp>
#include <heyoka/kw.hpp>

#include <array>
#include <bit>
#include <cstdint>
#include <vector>

namespace heyoka::model
{
inline std::array<double, 10> get_vsop2013_mus()
{
    return {2.9591220836841438269e-04, 4.9125474514508118699e-11, 7.2434524861627027000e-10, 8.9970113603644491600e-10, 9.5495351057792580598e-11,
            2.8253458420837780000e-07, 8.4597151856806587398e-08, 1.2920249167819693900e-08, 1.5243589007842762800e-08, 2.1886997654259696800e-12};
}
// what the curve of (body, threshold) is at a time: shared with the harnesses
template <typename E>
std::vector<E> vsop2013_curve(std::uint32_t pl, double thresh, const E &t)
{
    std::vector<E> r;
    for (int k = 0; k < 6; ++k) {
        const double a = (0.25 + 0.5 * pl) * (k % 2 ? -1. : 1.) + 0.125 * k, b = 1. + 0.75 * k + 0.0625 * pl, c = 20. + 3. * k - pl;
        // (neighbouring thresholds are far apart)
        const double h = static_cast<double>(std::bit_cast<std::uint64_t>(thresh) * 0x9E3779B97F4A7C15ull >> 44) * 0x1p-20;
        r.push_back(E(a) + t * (E(b) + t * E(c)) + E(h) * (E(1. + k) + t));
    }
    return r;
}
template <typename T>
std::vector<expression> vsop2013_cartesian_icrf(std::uint32_t pl, kw::texpr_arg<T> t, kw::thresh_arg th = {1e-9})
{
    return vsop2013_curve<expression>(pl, th.v, expression(t.v));
}
template <typename T>
std::vector<expression> vsop2013_cartesian_icrf(std::uint32_t pl, kw::thresh_arg th, kw::texpr_arg<T> t)
{
    return vsop2013_cartesian_icrf(pl, t, th);
}
} // namespace heyoka::model
