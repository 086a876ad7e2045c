// Two-body motion by universal variables with Stumpff functions, in extended precision: uniform across
// ellipses, parabolae and hyperbolae, generic in the scalar (values or duals). Reference only.
#pragma once
#include "dual.hpp"
namespace orc
{
// Stumpff c2, c3
template <typename T>
void stumpff(const T &z, T &C, T &S)
{
    if (std::fabs(val(z)) < 1.0L) {
        T c = T(0), s = T(0);
        for (int k = 13; k >= 0; --k) {
            // sum (-z)^k/(2k+2)!, (-z)^k/(2k+3)!
            c = T(1.0L) - z / ((2.0L * k + 3) * (2.0L * k + 4)) * c;
            s = T(1.0L) - z / ((2.0L * k + 4) * (2.0L * k + 5)) * s;
        }
        C = c / 2.0L;
        S = s / 6.0L;
    } else if (val(z) > 0) {
        T q = dsqrt(z), h = dsin(q * 0.5L);
        C = 2.0L * h * h / z;
        S = (q - dsin(q)) / (q * z);
    } else {
        T q = dsqrt(-z), h = dsinh(q * 0.5L);
        C = -(2.0L * h * h) / z;
        S = (dsinh(q) - q) / (q * (-z));
    }
}
template <typename T>
bool keplerU(A3<T> &r, A3<T> &v, const T &dt0, LD mu)
{
    const LD sm = std::sqrt(mu);
    T R = dsqrt(dotT(r, r)), v2 = dotT(v, v), al = 2.0L / R - v2 / mu, sg = dotT(r, v) / sm, dt = dt0;
    if (val(al) > 0) {
        T a = 1.0L / al;
        T P = 2.0L * PI * a * dsqrt(a) / sm;
        LD k = std::round(val(dt) / val(P));
        if (k != 0) dt = dt - k * P;
    }
    const LD A = val(al), R0 = val(R), S0 = val(sg), t = val(dt) * sm;
    auto F = [&](LD x, LD &fp) {
        LD C, S, z = A * x * x;
        stumpff<LD>(z, C, S);
        fp = S0 * x * (1 - z * S) + (1 - A * R0) * x * x * C + R0;
        return S0 * x * x * C + (1 - A * R0) * x * x * x * S + R0 * x - t;
    };
    LD fp, lim = A > 0 ? 2 * PI / std::sqrt(A) * 1.01L : 0;
    LD lo, hi, x;
    if (A > 0) { lo = -lim; hi = lim; }
    else {
        LD st = std::fabs(t) / R0 + std::sqrt(R0) * 1e-3L;
        LD cap = A < 0 ? 1000 / std::sqrt(-A) : 1e30L;
        lo = 0; hi = 0;
        LD g = std::min(st, cap / 1024);
        for (int i = 0; i < 400; ++i, g *= 1.5L) {
            LD q = t > 0 ? g : -g, f = F(q, fp);
            if (!std::isfinite(f)) return false;
            if (t > 0 ? f >= 0 : f <= 0) { (t > 0 ? hi : lo) = q; break; }
            (t > 0 ? lo : hi) = q;
            if (i == 399) return false;
        }
    }
    x = (lo + hi) / 2;
    for (int it = 0; it < 300; ++it) {
        LD f = F(x, fp);
        if (f > 0) hi = x; else lo = x;
        LD n = x - f / fp;
        if (!(n > lo && n < hi)) n = (lo + hi) / 2;
        LD d = std::fabs(n - x);
        x = n;
        if (d <= 1e-19L * std::fabs(x)) break;
    }
    T X = T(x), C, S;
    for (int it = 0; it < 2; ++it) {
        T z = al * X * X;
        stumpff<T>(z, C, S);
        T f = sg * X * X * C + (1.0L - al * R) * X * X * X * S + R * X - sm * dt;
        T d = sg * X * (1.0L - z * S) + (1.0L - al * R) * X * X * C + R;
        X = X - f / d;
    }
    T z = al * X * X;
    stumpff<T>(z, C, S);
    T f = 1.0L - X * X * C / R, g = dt - X * X * X * S / sm;
    A3<T> r1, v1;
    for (std::size_t i = 0; i < 3; ++i) r1[i] = f * r[i] + g * v[i];
    T R1 = dsqrt(dotT(r1, r1));
    T ft = sm / (R1 * R) * X * (z * S - 1.0L), gt = 1.0L - X * X * C / R1;
    for (std::size_t i = 0; i < 3; ++i) v1[i] = ft * r[i] + gt * v[i];
    r = r1;
    v = v1;
    return true;
}
inline bool kepU(const SV &s, LD dt, LD mu, SV &o)
{
    A3<LD> r{s.r.x, s.r.y, s.r.z}, v{s.v.x, s.v.y, s.v.z};
    if (!keplerU<LD>(r, v, dt, mu)) return false;
    o = {{r[0], r[1], r[2]}, {v[0], v[1], v[2]}};
    return true;
}
inline bool stmU(const SV &s, LD dt, LD mu, M66 &m)
{
    using D = Dual<6>;
    A3<D> r, v;
    for (int i = 0; i < 3; ++i) { r[i] = D::var(s.r[i], i); v[i] = D::var(s.v[i], i + 3); }
    if (!keplerU<D>(r, v, D(dt), mu)) return false;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 6; ++j) { m[i][j] = r[i].d[j]; m[i + 3][j] = v[i].d[j]; }
    return true;
}
// relative change of the outcome of flying for dt per relative change of state and time
inline LD condU(const SV &s, LD dt, LD mu)
{
    M66 m;
    SV o;
    if (!stmU(s, dt, mu, m) || !kepU(s, dt, mu, o)) return std::numeric_limits<LD>::infinity();
    LD R0 = norm(s.r), V0 = norm(s.v), Rf = norm(o.r), Vf = norm(o.v), t = std::fabs(dt), c = 0;
    for (int i = 0; i < 6; ++i) {
        LD q = 0;
        for (int j = 0; j < 6; ++j) q += std::fabs(m[i][j]) * (j < 3 ? R0 : V0) / (i < 3 ? Rf : Vf);
        c = std::max(c, q);
    }
    return 1 + c + t * Vf / Rf + t * mu / (Rf * Rf * Vf);
}
} // namespace orc
