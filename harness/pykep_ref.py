"""Astrodynamics written independently of the library, for the Python harnesses."""
import math
import numpy as np


def attempt(f):
    try:
        return "ok", f()
    except Exception as ex:
        return type(ex).__name__, None


def kepler(r, v, dt, mu):
    """universal variables, in extended precision"""
    L = np.longdouble
    r, v, dt, mu = np.array(r, dtype=L), np.array(v, dtype=L), L(dt), L(mu)
    R, V2, s = np.sqrt(r @ r), v @ v, (r @ v) / np.sqrt(mu)
    al = 2 / R - V2 / mu

    def CS(z):
        if abs(z) < 1e-3:
            c = s_ = L(0)
            tc, ts = L(1) / 2, L(1) / 6
            for k in range(1, 9):
                c, s_ = c + tc, s_ + ts
                tc, ts = -tc * z / ((2 * k + 1) * (2 * k + 2)), -ts * z / ((2 * k + 2) * (2 * k + 3))
            return c, s_
        if z > 0:
            q = np.sqrt(z)
            return (1 - np.cos(q)) / z, (q - np.sin(q)) / q ** 3
        q = np.sqrt(-z)
        return (np.cosh(q) - 1) / -z, (np.sinh(q) - q) / q ** 3

    def t(x):
        c, s_ = CS(al * x * x)
        return (x ** 3 * s_ + s * x * x * c + R * x * (1 - al * x * x * s_)) / np.sqrt(mu)
    if al > 0:
        T = 2 * np.pi / np.sqrt(mu * al ** 3)
        dt = dt - np.floor(dt / T) * T
    lo, hi = L(-1), L(1)
    while t(lo) > dt:
        lo *= 2
    while t(hi) < dt:
        hi *= 2
    for _ in range(200):
        x = (lo + hi) / 2
        if t(x) < dt:
            lo = x
        else:
            hi = x
    x = (lo + hi) / 2
    c, s_ = CS(al * x * x)
    f, g = 1 - x * x * c / R, dt - x ** 3 * s_ / np.sqrt(mu)
    r1 = f * r + g * v
    R1 = np.sqrt(r1 @ r1)
    fd, gd = np.sqrt(mu) * x * (al * x * x * s_ - 1) / (R * R1), 1 - x * x * c / R1
    return np.concatenate([r1, fd * r + gd * v])


def rel(a, b, n=3):
    """distance of states, each half relative to its size"""
    a, b = np.array(a, dtype=float).reshape(-1), np.array(b, dtype=float).reshape(-1)
    if a.shape != b.shape:
        return 1e9
    return max([float(np.linalg.norm(a[k:k + n] - b[k:k + n]) / np.linalg.norm(b[k:k + n])) for k in range(0, len(a), n)] or [0.0])


def cs(z):
    if abs(z) < 0.1:
        c, s, tc, ts = 0.0, 0.0, 0.5, 1.0 / 6
        for k in range(1, 12):
            c, s = c + tc, s + ts
            tc, ts = -tc * z / ((2 * k + 1) * (2 * k + 2)), -ts * z / ((2 * k + 2) * (2 * k + 3))
        return c, s
    if z > 0:
        q = math.sqrt(z)
        return (1 - math.cos(q)) / z, (q - math.sin(q)) / q ** 3
    q = math.sqrt(-z)
    return (math.cosh(q) - 1) / -z, (math.sinh(q) - q) / q ** 3


def arc(r, v, dt, mu):
    """Kepler's problem in doubles: [x, y, z, vx, vy, vz]"""
    if dt == 0:
        return np.array(list(r) + list(v), dtype=float)
    R, V2 = math.sqrt(sum(x * x for x in r)), sum(x * x for x in v)
    q, al = math.sqrt(mu), 2 / math.sqrt(sum(x * x for x in r)) - sum(x * x for x in v) / mu
    s = sum(x * y for x, y in zip(r, v)) / q
    if al > 0:
        T = 2 * math.pi / (q * al ** 1.5)
        dt = math.remainder(dt, T)

    def t(x):
        c, s3 = cs(al * x * x)
        return (x ** 3 * s3 + s * x * x * c + R * x * (1 - al * x * x * s3)) / q, (x * x * c + s * x * (1 - al * x * x * s3) + R * (1 - al * x * x * c)) / q
    x = q * dt / R
    lo, hi = -math.inf, math.inf
    if al < 0:  # beyond this it takes longer than anything
        lo, hi = -60 / math.sqrt(-al), 60 / math.sqrt(-al)
        x = max(lo / 4, min(hi / 4, x))
    for _ in range(300):
        f, d = t(x)
        if f == dt:
            break
        if f < dt:
            lo = x
        else:
            hi = x
        y = x + (dt - f) / d
        if not lo < y < hi:
            y = (lo + hi) / 2 if math.isfinite(lo) and math.isfinite(hi) else 2 * x if abs(x) > 0 else 1.0
            if not lo < y < hi:
                break
        if y == x or abs(y - x) <= 1e-16 * abs(x):
            x = y
            break
        x = y
    c, s3 = cs(al * x * x)
    f, g = 1 - x * x * c / R, dt - x ** 3 * s3 / q
    r1 = [f * a + g * b for a, b in zip(r, v)]
    R1 = math.sqrt(sum(a * a for a in r1))
    fd, gd = q * x * (al * x * x * s3 - 1) / (R * R1), 1 - x * x * c / R1
    return np.array(r1 + [fd * a + gd * b for a, b in zip(r, v)])


def impulses(rv, m, ths, T, c, veff, mu):
    """coast half a segment, push, coast half a segment, for the throttles in the order met (T < 0: back in time)"""
    s, n = np.ravel(np.array(rv, dtype=float)), len(ths)
    for u in ths:
        s = arc(s[:3], s[3:], T / 2, mu)
        dv = c / m * np.array(u, dtype=float)
        s[3:] += dv if T > 0 else -dv
        m *= math.exp((-1 if T > 0 else 1) * np.linalg.norm(dv) / veff)
        s = arc(s[:3], s[3:], T / 2, mu)
    return np.append(s, m)


def mismatch_sf(rvs, ms, th, rvf, mf, tof, thrust, veff, mu, nf):
    th = np.array(th, dtype=float).reshape(-1, 3)
    dt = tof / len(th)
    return impulses(rvs, ms, th[:nf], dt, thrust * dt, veff, mu) - impulses(rvf, mf, th[nf:][::-1], -dt, thrust * dt, veff, mu)


def thrust_arc(rvm, T, t, mu, veff):
    """constant thrust, from scipy"""
    from scipy.integrate import solve_ivp
    T = np.array(T, dtype=float)
    N = math.sqrt(T @ T)

    def f(_, y):
        k = -mu / math.sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]) ** 3
        return [y[3], y[4], y[5], k * y[0] + T[0] / y[6], k * y[1] + T[1] / y[6], k * y[2] + T[2] / y[6], -N / veff]
    if t == 0:
        return np.array(rvm, dtype=float)
    return solve_ivp(f, (0, t), rvm, method="DOP853", rtol=1e-12, atol=1e-13).y[:, -1]


def mismatch_hf(rvs, ms, th, rvf, mf, tof, thrust, veff, mu, nf):
    th = np.array(th, dtype=float).reshape(-1, 3)
    dt = tof / len(th)
    a, b = np.append(np.ravel(rvs), ms), np.append(np.ravel(rvf), mf)
    for u in th[:nf]:
        a = thrust_arc(a, thrust * u, dt, mu, veff)
    for u in th[nf:][::-1]:
        b = thrust_arc(b, thrust * u, -dt, mu, veff)
    return a - b
