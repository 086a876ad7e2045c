// Concrete orbits of the abstract classes used by the specifications, and their condition numbers.
#pragma once
#include "dual.hpp"
namespace orc
{
inline Orb shape(const std::string &cls, const std::string &ori, const std::string &unit, Rng &g, int r)
{
    Orb o;
    if (cls == "circ") o.e = (r % 2) ? 0 : g.lg(1e-9L, 0.01L);
    else if (cls == "round") o.e = g.lg(1e-6L, 0.02L);
    else if (cls == "low") o.e = g.u(0.02L, 0.3L);
    else if (cls == "mid") o.e = g.u(0.3L, 0.8L);
    else if (cls == "high") o.e = g.u(0.8L, 0.98L);
    else if (cls == "near") o.e = g.u(0.98L, 0.999L);
    else if (cls == "hnear") o.e = g.u(1.001L, 1.02L);
    else if (cls == "hlow") o.e = g.u(1.02L, 1.5L);
    else if (cls == "hmid") o.e = g.u(1.5L, 5);
    else o.e = g.u(5, 20);
    o.i = g.u(0.1L, PI - 0.1L); o.W = g.u(0, 2 * PI); o.w = g.u(0, 2 * PI);
    if (ori == "flat") o.i = (r % 2) ? 0 : PI;
    if (ori == "polar") o.i = PI / 2;
    if (ori == "retro") o.i = g.u(PI / 2 + 0.1L, PI - 0.05L);
    if (ori == "aligned") { o.i = (r % 3 + 1) * PI / 4; o.W = g.i(0, 3) * PI / 2; o.w = g.i(0, 3) * PI / 2; }
    if (unit == "one") { o.a = g.u(0.5L, 2); o.mu = (r % 2) ? 1 : g.u(0.5L, 2); }
    else if (unit == "si") { o.a = g.lg(7e6L, 5e12L); o.mu = g.lg(1e13L, 1.4e20L); }
    else if (unit == "tiny") { o.a = g.lg(1e-7L, 1e-4L); o.mu = g.lg(1e-6L, 1e-2L); }
    else { o.a = g.lg(1e-4L, 1e4L); o.mu = g.lg(1e-4L, 1e4L); }
    o.mu = static_cast<double>(o.mu);
    if (o.e > 1) o.a = -o.a;
    return o;
}
// relative change of the orbital elements per relative change of the state at mean anomaly M
inline LD sens(const Orb &o, LD M)
{
    M66 b = inverse(basis(o, M));
    SV s = stateM(o, M);
    LD c = 0;
    for (int i = 0; i < 6; ++i) {
        LD q = 0;
        for (int j = 0; j < 6; ++j) q += std::fabs(b[i][j]) * (j < 3 ? norm(s.r) : norm(s.v));
        c = std::max(c, q);
    }
    return c;
}
// relative change of the state per change of the orbital elements
inline LD bsize(const Orb &o, LD M)
{
    M66 b = basis(o, M);
    SV s = stateM(o, M);
    LD c = 0;
    for (int i = 0; i < 6; ++i) {
        LD q = 0;
        for (int j = 0; j < 6; ++j) q += std::fabs(b[i][j]);
        c = std::max(c, q / (i < 3 ? norm(s.r) : norm(s.v)));
    }
    return c;
}
// state described by modified equinoctial elements
inline SV fromEq(const std::array<double, 6> &q, double mu, bool retro)
{
    LD p = q[0], f = q[1], g = q[2], h = q[3], k = q[4], L = q[5];
    // frame of the orbital plane: unit vectors obtained from node and inclination
    LD t = std::sqrt(h * h + k * k), W = t > 0 ? std::atan2(k, h) : 0, i = retro ? PI - 2 * std::atan(t) : 2 * std::atan(t);
    LD s = retro ? -1 : 1;
    LD u = L - s * W, ef = f, eg = g; // argument of latitude; (f,g) has direction varpi = w + sW
    LD cs = std::cos(u), sn = std::sin(u);
    V3 N{std::cos(W), std::sin(W), 0}, T{-std::sin(W) * std::cos(i), std::cos(W) * std::cos(i), std::sin(i)};
    // eccentricity vector components along N and T: rotate (f,g) by -sW
    LD ex = std::cos(s * W) * ef + std::sin(s * W) * eg, ey = -std::sin(s * W) * ef + std::cos(s * W) * eg;
    LD R = p / (1 + ex * cs + ey * sn), vh = std::sqrt(mu / p);
    return {(R * cs) * N + (R * sn) * T, (-vh * (ey + sn)) * N + (vh * (ex + cs)) * T};
}
// Cancellation inherent in writing the outcome as a combination of initial position and velocity.
inline LD lagrange(const SV &a, const SV &b)
{
    LD h = norm(cross(a.r, a.v)), R0 = norm(a.r), V0 = norm(a.v);
    LD x = (norm(cross(b.r, a.v)) * R0 + norm(cross(a.r, b.r)) * V0) / h / norm(b.r);
    LD y = (norm(cross(b.v, a.v)) * R0 + norm(cross(a.r, b.v)) * V0) / h / norm(b.v);
    return std::max(x, y);
}
// Condition number of the exact Kepler map: relative change of the outcome per relative change of state and time.
inline LD cond(const RV &in, const SV &out, LD dt, LD mu)
{
    M66 m = stmRef(in, dt, mu);
    LD R0 = norm(V3(in[0])), V0 = norm(V3(in[1])), Rf = norm(out.r), Vf = norm(out.v), t = std::fabs(dt);
    LD c = 0;
    for (int i = 0; i < 6; ++i) {
        LD s = 0;
        for (int j = 0; j < 6; ++j) s += std::fabs(m[i][j]) * (j < 3 ? R0 : V0) / (i < 3 ? Rf : Vf);
        c = std::max(c, s);
    }
    return 1 + c + lagrange(sv(in), out) + t * Vf / Rf + t * mu / (Rf * Rf * Vf);
}
} // namespace orc
