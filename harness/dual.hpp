// Forward-mode derivatives in extended precision (independent reference for tangent maps).
#pragma once
#include "oracle.hpp"
namespace orc
{
template <int K>
struct Dual {
    LD v = 0;
    std::array<LD, K> d{};
    Dual() = default;
    Dual(LD x) : v(x) {} // NOLINT
    static Dual var(LD x, int i) { Dual r(x); r.d[static_cast<std::size_t>(i)] = 1; return r; }
    template <typename F>
    Dual chain(LD val, F df) const { Dual r(val); for (int i = 0; i < K; ++i) r.d[i] = df * d[i]; return r; }
};
template <int K> Dual<K> operator+(const Dual<K> &a, const Dual<K> &b) { Dual<K> r(a.v + b.v); for (int i = 0; i < K; ++i) r.d[i] = a.d[i] + b.d[i]; return r; }
template <int K> Dual<K> operator-(const Dual<K> &a, const Dual<K> &b) { Dual<K> r(a.v - b.v); for (int i = 0; i < K; ++i) r.d[i] = a.d[i] - b.d[i]; return r; }
template <int K> Dual<K> operator*(const Dual<K> &a, const Dual<K> &b) { Dual<K> r(a.v * b.v); for (int i = 0; i < K; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
template <int K> Dual<K> operator/(const Dual<K> &a, const Dual<K> &b) { Dual<K> r(a.v / b.v); for (int i = 0; i < K; ++i) r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v; return r; }
template <int K> Dual<K> operator-(const Dual<K> &a) { return Dual<K>(0.0L) - a; }
#define ORC_MIX(op)                                                                                                    \
    template <int K> Dual<K> operator op(const Dual<K> &a, LD b) { return a op Dual<K>(b); }                           \
    template <int K> Dual<K> operator op(LD a, const Dual<K> &b) { return Dual<K>(a) op b; }
ORC_MIX(+) ORC_MIX(-) ORC_MIX(*) ORC_MIX(/)
template <int K> Dual<K> dsqrt(const Dual<K> &a) { LD s = std::sqrt(a.v); return a.chain(s, 0.5L / s); }
template <int K> Dual<K> dsin(const Dual<K> &a) { return a.chain(std::sin(a.v), std::cos(a.v)); }
template <int K> Dual<K> dcos(const Dual<K> &a) { return a.chain(std::cos(a.v), -std::sin(a.v)); }
template <int K> Dual<K> dsinh(const Dual<K> &a) { return a.chain(std::sinh(a.v), std::cosh(a.v)); }
template <int K> Dual<K> dcosh(const Dual<K> &a) { return a.chain(std::cosh(a.v), std::sinh(a.v)); }
template <int K> Dual<K> dexp(const Dual<K> &a) { LD s = std::exp(a.v); return a.chain(s, s); }
inline LD dsqrt(LD a) { return std::sqrt(a); }
inline LD dsin(LD a) { return std::sin(a); }
inline LD dcos(LD a) { return std::cos(a); }
inline LD dsinh(LD a) { return std::sinh(a); }
inline LD dcosh(LD a) { return std::cosh(a); }
inline LD dexp(LD a) { return std::exp(a); }
template <int K> LD val(const Dual<K> &a) { return a.v; }
inline LD val(LD a) { return a; }

template <typename T> using A3 = std::array<T, 3>;
template <typename T> T dotT(const A3<T> &a, const A3<T> &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

// Two-body propagation, generic in the scalar type (state and time may carry derivatives).
template <typename T>
void keplerT(A3<T> &r, A3<T> &v, const T &dt, LD mu)
{
    T R = dsqrt(dotT(r, r)), v2 = dotT(v, v);
    T inva = 2.0L / R - v2 / mu;
    T sg = dotT(r, v) / std::sqrt(mu);
    A3<T> r1, v1;
    if (val(inva) > 0) {
        T a = 1.0L / inva, sa = dsqrt(a);
        T c0 = 1.0L - R / a, s0 = sg / sa; // e cosE0, e sinE0
        T dM = std::sqrt(mu) * dt / (a * sa);
        // value: solve for E1 via the classical equation, revolutions removed
        LD e = std::sqrt(val(c0) * val(c0) + val(s0) * val(s0));
        LD E0 = std::atan2(val(s0), val(c0));
        LD k = std::round(val(dM) / (2 * PI));
        LD E1 = solveE(E0 - val(s0) + (val(dM) - k * 2 * PI), e);
        T x = E1 - E0;
        T dMr = dM - k * 2 * PI;
        for (int it = 0; it < 2; ++it) {
            T f = x + s0 * (1.0L - dcos(x)) - c0 * dsin(x) - dMr;
            T fp = 1.0L + s0 * dsin(x) - c0 * dcos(x);
            x = x - f / fp;
        }
        T hs = dsin(x * 0.5L), oc = 2.0L * hs * hs, sn = dsin(x), cs = dcos(x);
        T Rf = a + (R - a) * cs + sg * sa * sn;
        T F = 1.0L - a / R * oc, G = (a * sg * oc + R * sa * sn) / std::sqrt(mu);
        T Ft = -(std::sqrt(mu) * sa / (Rf * R) * sn), Gt = 1.0L - a / Rf * oc;
        for (std::size_t i = 0; i < 3; ++i) { r1[i] = F * r[i] + G * v[i]; v1[i] = Ft * r[i] + Gt * v[i]; }
    } else {
        T a = 1.0L / inva, sa = dsqrt(-a);
        T c0 = 1.0L - R / a, s0 = sg / sa; // e coshH0, e sinhH0
        T dN = std::sqrt(mu) * dt / (-a * sa);
        LD e = std::sqrt(val(c0) * val(c0) - val(s0) * val(s0));
        LD H0 = std::asinh(val(s0) / e);
        LD H1 = solveH(val(s0) - H0 + val(dN), e);
        T x = H1 - H0;
        for (int it = 0; it < 2; ++it) {
            T f = s0 * (dcosh(x) - 1.0L) + c0 * dsinh(x) - x - dN;
            T fp = s0 * dsinh(x) + c0 * dcosh(x) - 1.0L;
            x = x - f / fp;
        }
        T hs = dsinh(x * 0.5L), oc = -2.0L * hs * hs, sn = dsinh(x), cs = dcosh(x);
        T Rf = a + (R - a) * cs + sg * sa * sn;
        T F = 1.0L - a / R * oc, G = (a * sg * oc + R * sa * sn) / std::sqrt(mu);
        T Ft = -(std::sqrt(mu) * sa / (Rf * R) * sn), Gt = 1.0L - a / Rf * oc;
        for (std::size_t i = 0; i < 3; ++i) { r1[i] = F * r[i] + G * v[i]; v1[i] = Ft * r[i] + Gt * v[i]; }
    }
    r = r1;
    v = v1;
}
using M66 = std::array<std::array<LD, 6>, 6>;
inline M66 mul(const M66 &a, const M66 &b)
{
    M66 c{};
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { LD s = 0; for (int k = 0; k < 6; ++k) s += a[i][k] * b[k][j]; c[i][j] = s; }
    return c;
}
inline M66 inverse(M66 a)
{
    M66 b{};
    for (int i = 0; i < 6; ++i) b[i][i] = 1;
    for (int c = 0; c < 6; ++c) {
        int p = c;
        for (int r = c + 1; r < 6; ++r) if (std::fabs(a[r][c]) > std::fabs(a[p][c])) p = r;
        std::swap(a[p], a[c]); std::swap(b[p], b[c]);
        LD s = 1 / a[c][c];
        for (int j = 0; j < 6; ++j) { a[c][j] *= s; b[c][j] *= s; }
        for (int r = 0; r < 6; ++r) if (r != c) { LD f = a[r][c]; for (int j = 0; j < 6; ++j) { a[r][j] -= f * a[c][j]; b[r][j] -= f * b[c][j]; } }
    }
    return b;
}
// State transition matrix of the exact motion from a concrete state.
inline M66 stmRef(const RV &s, LD dt, LD mu)
{
    using D = Dual<6>;
    A3<D> r, v;
    for (int i = 0; i < 3; ++i) { r[i] = D::var(s[0][i], i); v[i] = D::var(s[1][i], i + 3); }
    keplerT<D>(r, v, D(dt), mu);
    M66 m{};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 6; ++j) { m[i][j] = r[i].d[j]; m[i + 3][j] = v[i].d[j]; }
    return m;
}
// d(r,v)/d(relative sma, mean longitude, ex, ey, tilt about P, tilt about Q) at mean anomaly M of orbit o.
// The eccentricity vector has components ex0, ey0 along P, Q; M is the mean longitude counted from P (hyperbolae: ey0 = 0).
inline M66 basisAt(const Orb &o, LD M, LD ex0, LD ey0, const V3 &P, const V3 &Q)
{
    using D = Dual<6>;
    D x, y, vx, vy;
    D a = o.a * (1.0L + D::var(0, 0));
    D lam = D::var(M, 1);
    D ex = D::var(ex0, 2), ey = D::var(ey0, 3);
    if (!o.hyp()) {
        D n = dsqrt(o.mu / (a * a * a));
        const LD w0 = std::atan2(ey0, ex0);
        D F = w0 + solveE(M - w0, std::sqrt(ex0 * ex0 + ey0 * ey0));
        for (int it = 0; it < 2; ++it) {
            D f = F - ex * dsin(F) + ey * dcos(F) - lam;
            F = F - f / (1.0L - ex * dcos(F) - ey * dsin(F));
        }
        D be = 1.0L / (1.0L + dsqrt(1.0L - ex * ex - ey * ey));
        D c = dcos(F), s = dsin(F), rr = 1.0L - ex * c - ey * s;
        x = a * ((1.0L - ey * ey * be) * c + ex * ey * be * s - ex);
        y = a * ((1.0L - ex * ex * be) * s + ex * ey * be * c - ey);
        vx = n * a / rr * (ex * ey * be * c - (1.0L - ey * ey * be) * s);
        vy = n * a / rr * ((1.0L - ex * ex * be) * c - ex * ey * be * s);
    } else {
        D A = -a;
        D n = dsqrt(o.mu / (A * A * A));
        D e = dsqrt(ex * ex + ey * ey);
        D H = solveH(M, o.e);
        for (int it = 0; it < 2; ++it) H = H - (e * dsinh(H) - H - lam) / (e * dcosh(H) - 1.0L);
        D b = A * dsqrt(e * e - 1.0L), c = dcosh(H), s = dsinh(H), rr = e * c - 1.0L;
        D px = A * (e - c), py = b * s, pvx = -(A * n * s / rr), pvy = b * n * c / rr;
        D cw = ex / e, sw = ey / e;
        x = cw * px - sw * py; y = sw * px + cw * py;
        vx = cw * pvx - sw * pvy; vy = sw * pvx + cw * pvy;
    }
    M66 B{};
    V3 r = x.v * P + y.v * Q, v = vx.v * P + vy.v * Q;
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 4; ++j) { B[i][j] = x.d[j] * P[i] + y.d[j] * Q[i]; B[i + 3][j] = vx.d[j] * P[i] + vy.d[j] * Q[i]; }
        B[i][4] = cross(P, r)[i]; B[i + 3][4] = cross(P, v)[i];
        B[i][5] = cross(Q, r)[i]; B[i + 3][5] = cross(Q, v)[i];
    }
    return B;
}
inline M66 basis(const Orb &o, LD M)
{
    V3 P, Q;
    perifocal(o, P, Q);
    return basisAt(o, M, o.e, 0, P, Q);
}
// The orbital coordinates of a concrete state, in a frame close to that of a reference orbit.
struct Coord {
    Orb o;
    V3 P, Q;
    LD ex, ey, lam;
    Coord(const Orb &ref, const SV &s) : o(ref)
    {
        Read q = read(s, ref.mu);
        V3 n = (1 / norm(q.h)) * q.h, P0, Q0;
        perifocal(ref, P0, Q0);
        o.a = q.a;
        o.e = q.e;
        if (q.a > 0) {
            P = P0 - dot(P0, n) * n;
            P = (1 / norm(P)) * P;
            Q = cross(n, P);
            ex = dot(q.ev, P);
            ey = dot(q.ev, Q);
            LD h = std::sqrt(1 - ex * ex - ey * ey), be = 1 / (1 + h), x = dot(s.r, P), y = dot(s.r, Q);
            LD c = ex + ((1 - ex * ex * be) * x - ex * ey * be * y) / (q.a * h), d = ey + ((1 - ey * ey * be) * y - ex * ey * be * x) / (q.a * h);
            LD F = std::atan2(d, c);
            lam = F - ex * std::sin(F) + ey * std::cos(F);
        } else {
            P = (1 / q.e) * q.ev;
            Q = cross(n, P);
            ex = q.e;
            ey = 0;
            lam = q.M;
        }
    }
    M66 basis(LD l) const { return basisAt(o, l, ex, ey, P, Q); }
};
} // namespace orc
