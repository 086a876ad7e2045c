// Reference motion under a central body and a constant thrust: Gragg-Bulirsch-Stoer extrapolation in extended precision.
#pragma once
#include "dual.hpp"
namespace orc
{
template <typename S> using St = std::vector<S>;
inline LD mag(LD a) { return std::fabs(a); }
template <int K> LD mag(const Dual<K> &a) { LD m = std::fabs(a.v); for (LD x : a.d) m = std::max(m, std::fabs(x)); return m; }
// y' = f(y) over t, to about 1e-18 of each group of three components; false if it does not get there
template <typename S, typename F>
bool gbs(St<S> &y, const F &f, LD t)
{
    const std::size_t n = y.size();
    LD done = 0, h = t;
    auto scale = [&](const St<S> &q, std::size_t i) { LD m = 0; for (std::size_t j = i / 3 * 3; j < std::min(n, i / 3 * 3 + 3); ++j) m = std::max(m, mag(q[j])); return m + 1e-30L; };
    int steps = 0;
    {   // a first guess of the step
        St<S> d = f(y);
        LD w = 0;
        for (std::size_t i = 0; i < n; ++i) w = std::max(w, mag(d[i]) / scale(y, i));
        if (w > 0) h = std::copysign(std::min(std::fabs(t), 1 / w), t);
    }
    while (done != t) {
        if (++steps > 3000) return false;
        const bool end = std::fabs(h) >= std::fabs(t - done);
        if (end) h = t - done;
        std::vector<St<S>> row;
        bool ok = false;
        LD err = 1, last = 1e30L;
        int used = 0;
        for (int k = 0; k < 12; ++k) {
            const int m = 2 * (k + 1);
            const LD g = h / m;
            St<S> a = y, b = f(y);
            for (std::size_t i = 0; i < n; ++i) b[i] = y[i] + g * b[i];
            for (int j = 1; j < m; ++j) {
                St<S> d = f(b), c(n);
                for (std::size_t i = 0; i < n; ++i) c[i] = a[i] + (2 * g) * d[i];
                a = std::move(b);
                b = std::move(c);
            }
            St<S> d = f(b);
            std::vector<St<S>> nxt(1, St<S>(n));
            for (std::size_t i = 0; i < n; ++i) nxt[0][i] = 0.5L * (a[i] + b[i] + g * d[i]);
            for (int j = 1; j <= k; ++j) {
                const LD q = static_cast<LD>(m) / (2 * (k - j + 1)), c = 1 / (q * q - 1);
                St<S> z(n);
                for (std::size_t i = 0; i < n; ++i) z[i] = nxt[static_cast<std::size_t>(j - 1)][i] + c * (nxt[static_cast<std::size_t>(j - 1)][i] - row[static_cast<std::size_t>(j - 1)][i]);
                nxt.push_back(z);
            }
            if (k > 0) {
                err = 0;
                for (std::size_t i = 0; i < n; ++i) {
                    LD e = mag(nxt.back()[i] - nxt[nxt.size() - 2][i]) / scale(nxt.back(), i);
                    if (!(e <= err)) err = e;
                }
                if (k > 4 && err > last) { err = last; break; }
                last = err;
            }
            row = std::move(nxt);
            used = k;
            if (k > 1 && err < 2e-18L) { ok = true; break; }
            if (!std::isfinite(static_cast<double>(err))) break;
        }
        if (!ok && err < 2e-17L) ok = true; // rounding
        if (ok) {
            y = row.back();
            done = end ? t : done + h;
            if (used < 8) h *= 1.4L;
            else if (used > 10) h *= 0.8L;
        } else {
            h /= 2;
            if (std::fabs(h) < 1e-12L * std::fabs(t)) return false;
        }
    }
    for (auto &x : y) if (!std::isfinite(static_cast<double>(mag(x)))) return false;
    return true;
}
// r, v, m under mu = 1 (times gm) and a thrust u (times mass over time squared times length)
template <typename S>
St<S> starkRhs(const St<S> &y, const A3<S> &u, LD gm, LD veff)
{
    S r2 = y[0] * y[0] + y[1] * y[1] + y[2] * y[2], r3 = r2 * dsqrt(r2), u2 = dotT(u, u), un = val(u2) > 0 ? dsqrt(u2) : S(0.0L);
    St<S> d(7);
    for (std::size_t i = 0; i < 3; ++i) { d[i] = y[i + 3]; d[i + 3] = u[i] / y[6] - gm * (y[i] / r3); }
    d[6] = -(un / veff);
    return d;
}
template <typename S>
bool stark(St<S> &y, const A3<S> &u, LD gm, LD veff, LD t)
{
    if (t == 0) return true;
    return gbs<S>(y, [&](const St<S> &q) { return starkRhs<S>(q, u, gm, veff); }, t);
}
} // namespace orc
