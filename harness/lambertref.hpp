// Independent reference for Lambert's problem: the one-parameter family of orbits through two points, parametrised
// by the chordal velocity component (no x, lambda or hypergeometric series), in extended precision.
#pragma once
#include "univ.hpp"
namespace orc
{
struct Lam {
    V3 r0, r1;
    LD mu;
    bool lng; // transfer angle in (pi, 2pi)
    LD c, R0, R1, K, wlo, whi;
    V3 ch, u0, u1;
    Lam(V3 a, V3 b, LD m, bool l) : r0(a), r1(b), mu(m), lng(l)
    {
        R0 = norm(a); R1 = norm(b); c = norm(b - a);
        ch = (1 / c) * (b - a); u0 = (1 / R0) * a; u1 = (1 / R1) * b;
        K = mu * c / (R0 * R1 + dot(a, b));
        LD B = mu / R0 - K * dot(ch, u0), D = std::sqrt(std::max(B * B - K * K, 0.0L));
        whi = std::sqrt(B + D);
        wlo = K / whi;
    }
    SV s0(LD w) const { LD vc = lng ? -w : w, vr = K / vc; return {r0, vc * ch + vr * u0}; }
    SV s1(LD w) const { LD vc = lng ? -w : w, vr = K / vc; return {r1, vc * ch - vr * u1}; }
    // flight time of the arc that turns n whole times first; only bound arcs
    LD tof(LD w, int n) const
    {
        Read a = read(s0(w), mu), b = read(s1(w), mu);
        LD d = wrap2pi(b.M - a.M);
        return (d + 2 * PI * n) * std::sqrt(a.a * a.a * a.a / mu);
    }
    LD tpar() const
    {
        LD s = (c + R0 + R1) / 2;
        return std::sqrt(2.0L) / 3 / std::sqrt(mu) * (std::pow(s, 1.5L) - (lng ? -1 : 1) * std::pow(s - c, 1.5L));
    }
    // the fastest n-turn arc: golden section over the bound family
    LD tmin(int n, LD *wbest = nullptr) const
    {
        const LD g = 0.6180339887498948482045868L;
        LD a = std::log(wlo), b = std::log(whi), eps = (b - a) * 1e-7L;
        a += eps; b -= eps;
        LD x = b - g * (b - a), y = a + g * (b - a), fx = tof(std::exp(x), n), fy = tof(std::exp(y), n);
        for (int i = 0; i < 90 && b - a > 1e-11L; ++i) {
            if (fx < fy) { b = y; y = x; fy = fx; x = b - g * (b - a); fx = tof(std::exp(x), n); }
            else { a = x; x = y; fx = fy; y = a + g * (b - a); fy = tof(std::exp(y), n); }
        }
        if (wbest) *wbest = std::exp((a + b) / 2);
        return std::min(fx, fy);
    }
    // largest number of whole turns possible in time t
    int exist(LD t, LD &margin) const
    {
        margin = 1;
        LD prev = -1;
        for (int n = 1; n < 200; ++n) {
            LD m = tmin(n);
            margin = std::min(margin, std::fabs(t / m - 1));
            if (t < m) return n - 1;
            (void)prev;
        }
        return 200;
    }
};
} // namespace orc
