// Independent reference mathematics (extended precision) used as the abstraction function: it maps the
// concrete numbers the library returns onto the integers the TLA+ specifications talk about.
// It shares no code with kep3: closed forms, bracketing solvers, long double.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <random>
#include <stdexcept>
#include <string>
#include <vector>

namespace orc
{
using LD = long double;
using D3 = std::array<double, 3>;
using RV = std::array<D3, 2>;
struct V3 {
    LD x = 0, y = 0, z = 0;
    V3() = default;
    V3(LD a, LD b, LD c) : x(a), y(b), z(c) {}
    explicit V3(const D3 &d) : x(d[0]), y(d[1]), z(d[2]) {}
    D3 d() const { return {static_cast<double>(x), static_cast<double>(y), static_cast<double>(z)}; }
    LD operator[](int i) const { return i == 0 ? x : (i == 1 ? y : z); }
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(LD s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline LD dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline LD norm(V3 a) { return std::sqrt(dot(a, a)); }
constexpr LD PI = 3.14159265358979323846264338327950288L;
constexpr LD DEG = PI / 180;

inline LD wrap2pi(LD x)
{
    x = std::fmod(x, 2 * PI);
    return x < 0 ? x + 2 * PI : x;
}
inline LD wrappi(LD x)
{
    x = std::fmod(x, 2 * PI);
    if (x > PI) x -= 2 * PI;
    if (x <= -PI) x += 2 * PI;
    return x;
}

// A Keplerian orbit: a>0,e<1 ellipse; a<0,e>1 hyperbola. Angles in radians.
struct Orb {
    LD a = 1, e = 0, i = 0, W = 0, w = 0, mu = 1;
    bool hyp() const { return a < 0; }
    LD n() const { return std::sqrt(mu / std::fabs(a * a * a)); }
};

// Kepler's equation, elliptic: monotone, bracketed Newton.
inline LD solveE(LD M, LD e)
{
    LD rev = std::floor((M + PI) / (2 * PI)) * 2 * PI;
    LD m = M - rev; // [-pi,pi)
    LD lo = -PI - 1e-3L, hi = PI + 1e-3L, E = m + e * std::sin(m);
    for (int it = 0; it < 200; ++it) {
        LD f = E - e * std::sin(E) - m;
        if (f > 0) hi = E; else lo = E;
        LD nE = E - f / (1 - e * std::cos(E));
        if (!(nE > lo && nE < hi)) nE = (lo + hi) / 2;
        if (std::fabs(nE - E) < 1e-19L * (1 + std::fabs(E))) { E = nE; break; }
        E = nE;
    }
    return E + rev;
}
// Kepler's equation, hyperbolic.
inline LD solveH(LD N, LD e)
{
    LD lo, hi;
    LD g = std::asinh(N / e);
    // e sinh H - H = N ; H is between g and something larger in magnitude
    LD B = std::asinh((std::fabs(N) + 60) / (e - 1) + 1) + 2;
    if (B > 300) B = 300;
    lo = -B; hi = B;
    LD H = g;
    for (int it = 0; it < 400; ++it) {
        LD f = e * std::sinh(H) - H - N;
        if (f > 0) hi = H; else lo = H;
        LD nH = H - f / (e * std::cosh(H) - 1);
        if (!(nH > lo && nH < hi)) nH = (lo + hi) / 2;
        if (std::fabs(nH - H) < 1e-19L * (1 + std::fabs(H))) { H = nH; break; }
        H = nH;
    }
    return H;
}
struct SV { V3 r, v; };

inline void perifocal(const Orb &o, V3 &P, V3 &Q)
{
    LD cW = std::cos(o.W), sW = std::sin(o.W), cw = std::cos(o.w), sw = std::sin(o.w), ci = std::cos(o.i),
       si = std::sin(o.i);
    P = {cW * cw - sW * sw * ci, sW * cw + cW * sw * ci, sw * si};
    Q = {-cW * sw - sW * cw * ci, -sW * sw + cW * cw * ci, cw * si};
}
// state from eccentric / hyperbolic anomaly
inline SV stateX(const Orb &o, LD X)
{
    V3 P, Q;
    perifocal(o, P, Q);
    if (!o.hyp()) {
        LD b = o.a * std::sqrt((1 - o.e) * (1 + o.e));
        LD c = std::cos(X), s = std::sin(X), rr = 1 - o.e * c;
        LD n = o.n();
        return {(o.a * (c - o.e)) * P + (b * s) * Q, (-o.a * n * s / rr) * P + (b * n * c / rr) * Q};
    }
    LD A = -o.a, b = A * std::sqrt((o.e - 1) * (o.e + 1));
    LD c = std::cosh(X), s = std::sinh(X), rr = o.e * c - 1;
    LD n = o.n();
    return {(A * (o.e - c)) * P + (b * s) * Q, (-A * n * s / rr) * P + (b * n * c / rr) * Q};
}
inline SV stateM(const Orb &o, LD M) { return stateX(o, o.hyp() ? solveH(M, o.e) : solveE(M, o.e)); }
inline LD M_of_X(const Orb &o, LD X) { return o.hyp() ? o.e * std::sinh(X) - X : X - o.e * std::sin(X); }
// true anomaly in the revolution of X, within (-pi,pi] of it
inline LD f_of_X(const Orb &o, LD X)
{
    if (o.hyp()) return 2 * std::atan(std::sqrt((o.e + 1) / (o.e - 1)) * std::tanh(X / 2));
    LD rev = std::floor((X + PI) / (2 * PI)) * 2 * PI, x = X - rev;
    return std::atan2(std::sqrt((1 - o.e) * (1 + o.e)) * std::sin(x), std::cos(x) - o.e) + rev;
}
inline LD X_of_f(const Orb &o, LD f)
{
    if (o.hyp()) return 2 * std::atanh(std::sqrt((o.e - 1) / (o.e + 1)) * std::tan(f / 2));
    LD rev = std::floor((f + PI) / (2 * PI)) * 2 * PI, x = f - rev;
    return std::atan2(std::sqrt((1 - o.e) * (1 + o.e)) * std::sin(x), std::cos(x) + o.e) + rev;
}
inline SV sv(const RV &p) { return {V3(p[0]), V3(p[1])}; }
inline RV rv(const SV &s) { return {s.r.d(), s.v.d()}; }

// Non-singular reading of a state: energy, h vector, eccentricity vector, and anomalies.
struct Read {
    V3 h, ev;
    LD a, e, energy;
    LD X, M; // eccentric/hyperbolic and mean anomaly from the state itself (X in (-pi,pi])
};
inline Read read(const SV &s, LD mu)
{
    Read q;
    LD R = norm(s.r);
    q.h = cross(s.r, s.v);
    q.ev = (1 / mu) * cross(s.v, q.h) - (1 / R) * s.r;
    q.e = norm(q.ev);
    q.energy = dot(s.v, s.v) / 2 - mu / R;
    q.a = -mu / (2 * q.energy);
    LD sig = dot(s.r, s.v);
    if (q.a > 0) {
        q.X = std::atan2(sig / std::sqrt(mu * q.a), 1 - R / q.a);
        q.M = q.X - sig / std::sqrt(mu * q.a);
    } else {
        LD es = sig / std::sqrt(-mu * q.a); // e sinh H
        q.X = std::asinh(es / q.e);
        q.M = es - q.X;
    }
    return q;
}
// Exact two-body propagation of an arbitrary (non rectilinear, non parabolic) state in long double, by f and g.
inline SV kepler(const SV &s, LD dt, LD mu)
{
    Read q = read(s, mu);
    LD R = norm(s.r), n = std::sqrt(mu / std::fabs(q.a * q.a * q.a));
    LD F, G, Ft, Gt;
    if (q.a > 0) {
        LD M = q.M + n * dt;
        // remove whole revolutions: they are the identity
        LD k = std::floor((M + PI) / (2 * PI));
        M -= k * 2 * PI;
        LD E1 = solveE(M, q.e), dE = E1 - q.X;
        LD a = q.a, sg = dot(s.r, s.v) / std::sqrt(mu);
        LD c = std::cos(dE), sn = std::sin(dE);
        LD oc = 2 * std::sin(dE / 2) * std::sin(dE / 2);
        LD Rf = a + (R - a) * c + sg * std::sqrt(a) * sn;
        F = 1 - a / R * oc;
        G = a * sg / std::sqrt(mu) * oc + R * std::sqrt(a / mu) * sn;
        Ft = -std::sqrt(mu * a) / (Rf * R) * sn;
        Gt = 1 - a / Rf * oc;
    } else {
        LD H1 = solveH(q.M + n * dt, q.e), dH = H1 - q.X;
        LD a = q.a, sg = dot(s.r, s.v) / std::sqrt(mu);
        LD c = std::cosh(dH), sn = std::sinh(dH);
        LD oc = -2 * std::sinh(dH / 2) * std::sinh(dH / 2); // 1-cosh
        LD Rf = a + (R - a) * c + sg * std::sqrt(-a) * sn;
        F = 1 - a / R * oc;
        G = a * sg / std::sqrt(mu) * oc + R * std::sqrt(-a / mu) * sn;
        Ft = -std::sqrt(-mu * a) / (Rf * R) * sn;
        Gt = 1 - a / Rf * oc;
    }
    return {F * s.r + G * s.v, Ft * s.r + Gt * s.v};
}
// Relative distance of a concrete state from a reference (position in units of |r|, velocity in units of |v|).
inline LD dist(const RV &p, const SV &s)
{
    V3 dr = V3(p[0]) - s.r, dv = V3(p[1]) - s.v;
    LD d = std::max(norm(dr) / norm(s.r), norm(dv) / norm(s.v));
    return std::isfinite(static_cast<double>(d)) ? d : std::numeric_limits<LD>::infinity();
}
// quantise a non-negative number into an int in [0, 2^30]; NaN/inf -> 2^30
inline int quant(LD x, LD unit)
{
    LD q = std::ceil(x / unit - 1e-9L);
    if (!(q < 1073741824.0L)) return 1073741824;
    return q < 0 ? 0 : static_cast<int>(q);
}
// splitmix64: deterministic everywhere
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed) {}
    std::uint64_t u64()
    {
        std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    LD u() { return static_cast<LD>(u64() >> 11) / 9007199254740992.0L; }
    LD u(LD a, LD b) { return a + (b - a) * u(); }
    LD lg(LD a, LD b) { return std::exp(u(std::log(a), std::log(b))); }
    int i(int a, int b) { return a + static_cast<int>(u64() % static_cast<std::uint64_t>(b - a + 1)); }
};
} // namespace orc
