"""Replays behaviours of Direct.tla: low-thrust transfers as optimisation problems."""
import contextlib, copy, hashlib, io, math, os, random
import numpy as np
import pykep as pk
import matplotlib.pyplot as plt
import pyhz
from pyhz import quant
from pykep_ref import arc, attempt, mismatch_sf

SEED = os.environ.get("VERIF_SEED", "1")
DAY = 86400.0
G0 = 9.80665


class Body:
    """a planet written in Python"""
    def __init__(self, t, r, v, mu, name):
        self.t, self.r, self.v, self.mu, self.name = t, r, v, mu, name

    def eph(self, mjd2000):
        y = arc(self.r, self.v, (mjd2000 - self.t) * DAY, self.mu)
        return [list(y[:3]), list(y[3:])]

    def get_name(self):
        return self.name

    def get_mu_central_body(self):
        return self.mu


class Set:
    """settings of a problem"""
    pass


def planet(kind, g, s, k, t):
    name = "%s%d-%d" % (kind, s.id, k)
    if kind == "jpl":
        pl = pk.planet(pk.udpla.jpl_lp(g.choice(["earth", "venus", "mars"])))
        return pl, pl.eph
    a, b, i = s.L * g.uniform(0.8, 1.5), g.uniform(0, 2 * math.pi), g.uniform(-0.2, 0.2)
    w = math.sqrt(s.mu / a) * g.uniform(0.9, 1.1)
    r = [a * math.cos(b), a * math.sin(b), a * 0.05 * i]
    v = [-w * math.sin(b) * math.cos(i), w * math.cos(b) * math.cos(i), w * math.sin(i)]
    if kind == "kep":
        pl = pk.planet(pk.udpla.keplerian(when=pk.epoch(t), posvel=[r, v], mu_central_body=s.mu, name=name))
    else:
        pl = pk.planet(Body(t, r, v, s.mu, name))

    def eph(w):
        y = arc(r, v, (w - t) * DAY, s.mu)
        return y[:3], y[3:]
    return pl, eph


def settings(id, kind, nseg, t0, tof, mf, vinf, grad, cut8, sys, body, how):
    s, g = Set(), random.Random("%s-%d" % (SEED, id))
    s.id, s.kind, s.nseg, s.t0, s.tof, s.mf, s.vinf, s.grad, s.how = id, kind, nseg, t0, tof, mf, vinf, grad, how
    s.cut = cut8 / 8
    if sys == "sun":
        s.mu, s.L = pk.MU_SUN, pk.AU
    else:
        T, V = g.uniform(20, 80) * DAY, math.exp(g.uniform(5, 12))
        s.L, s.mu = V * T, V**3 * T
        body = "kep" if body == "jpl" else body
    s.body = body
    s.V = math.sqrt(s.mu / s.L)
    s.ms = g.uniform(300, 1500)
    s.thrust = s.ms * s.mu / s.L**2 * g.uniform(0.01, 0.3)
    s.isp = g.uniform(0.5, 3) * s.V / G0
    s.scal = [g.uniform(200, 2000), s.L * g.uniform(0.3, 3), s.V * g.uniform(0.3, 3)]
    if kind == "planets":
        t = t0[0] + g.uniform(-100, 100)
        (s.pls, s.ephs), (s.plf, s.ephf) = planet(body, g, s, 1, t), planet(g.choice([body, body, "kep"]), g, s, 2, t + 30)
    else:
        s.rvs, s.rvf = [[[s.L * g.uniform(0.6, 1.4) * g.choice([-1, 1]), s.L * g.uniform(-1, 1), s.L * g.uniform(-0.3, 0.3)],
                         [s.V * g.uniform(-0.4, 0.4), s.V * g.uniform(0.6, 1) * g.choice([-1, 1]), s.V * g.uniform(-0.2, 0.2)]] for _ in (0, 1)]
    return s


def default(kind):
    s = Set()
    s.id, s.kind, s.nseg, s.grad, s.how, s.cut, s.mu, s.L, s.thrust, s.isp = 0, kind, 10, True, "none", 0.6, pk.MU_SUN, pk.AU, 0.12, 3000.0
    s.V = pk.EARTH_VELOCITY
    if kind == "points":
        s.ms, s.mf, s.tof, s.vinf, s.scal, s.body = 1000.0, [200, 1000], [80, 400], [], [1000.0, pk.AU, pk.EARTH_VELOCITY], "none"
        s.rvs = [list(np.array([1, 0.1, -0.1]) * pk.AU), list(np.array([0.2, 1, -0.2]) * pk.EARTH_VELOCITY)]
        s.rvf = [list(np.array([-1.2, -0.1, 0.1]) * pk.AU), list(np.array([0.2, -1.023, 0.44]) * pk.EARTH_VELOCITY)]
    else:
        s.ms, s.mf, s.tof, s.t0, s.vinf, s.scal, s.body = 1500.0, [1300, 1500], [200, 300], [6700, 6800], [24, 0], [1500.0, pk.AU, pk.EARTH_VELOCITY], "jpl"
        s.pls, s.plf = pk.planet(pk.udpla.jpl_lp("earth")), pk.planet(pk.udpla.jpl_lp("mars"))
        s.ephs, s.ephf = s.pls.eph, s.plf.eph
    return s


def make(s):
    if s.kind == "points":
        if s.how == "none":
            return pk.trajopt.direct_point2point()
        a = [("rvs", s.rvs), ("rvf", s.rvf), ("ms", s.ms), ("mu", s.mu), ("max_thrust", s.thrust), ("isp", s.isp), ("tof_bounds", s.tof), ("mf_bounds", s.mf), ("nseg", s.nseg), ("cut", s.cut),
             ("mass_scaling", s.scal[0]), ("r_scaling", s.scal[1]), ("v_scaling", s.scal[2]), ("with_gradient", s.grad)]
        f = pk.trajopt.direct_point2point
    else:
        if s.how == "none":
            return pk.trajopt.direct_pl2pl()
        a = [("pls", s.pls), ("plf", s.plf), ("ms", s.ms), ("mu", s.mu), ("max_thrust", s.thrust), ("isp", s.isp), ("t0_bounds", s.t0), ("tof_bounds", s.tof), ("mf_bounds", s.mf),
             ("vinfs", s.vinf[0] / 8), ("vinff", s.vinf[1] / 8), ("nseg", s.nseg), ("cut", s.cut), ("mass_scaling", s.scal[0]), ("r_scaling", s.scal[1]), ("v_scaling", s.scal[2]), ("with_gradient", s.grad)]
        f = pk.trajopt.direct_pl2pl
    return f(*[v for _, v in a]) if s.how == "pos" else f(**dict(a))


def vector(s, x):
    """decision vectors of these settings: none at the edge of anything"""
    g = random.Random("%s-%d-%s-%d" % (SEED, s.id, s.kind, x))
    mf, tof = s.ms * g.uniform(0.4, 1), g.uniform(40, 300) * (1 if s.mu == pk.MU_SUN else math.sqrt(s.L**3 / s.mu) / DAY / 50)
    th = []
    for _ in range(s.nseg):
        u = np.array([g.gauss(0, 1) for _ in range(3)])
        th += list(u / np.linalg.norm(u) * g.uniform(0.1, 1.2))
    if s.kind == "points":
        return [mf] + th + [tof]
    return [g.uniform(*s.t0) + g.random(), mf] + [s.V * g.uniform(-0.1, 0.1) for _ in range(6)] + th + [tof]


def scales(s, x):
    return ([s.ms] if s.kind == "points" else [x[-1], s.ms] + [s.V] * 6) + [1.0] * (3 * s.nseg) + [x[-1]]


def states(s, x, lib=False):
    if s.kind == "points":
        return [s.rvs, s.rvf]
    (rs, vs), (rf, vf) = (s.pls.eph(x[0]), s.plf.eph(x[0] + x[-1])) if lib else (s.ephs(x[0]), s.ephf(x[0] + x[-1]))
    return [[list(rs), [a + b for a, b in zip(vs, x[2:5])]], [list(rf), [a + b for a, b in zip(vf, x[5:8])]]]


def ends(s, x):
    return (x[0], x[1:-1]) if s.kind == "points" else (x[1], x[8:-1])


def reference(s, x, shake=0):
    mf, th = ends(s, x)
    rvs, rvf = states(s, x)
    if shake:  # how much it matters where exactly one starts
        rvs, rvf = [[[a * (1 + shake * math.cos(3 * k + j)) for j, a in enumerate(b)] for k, b in enumerate(c)] for c in (rvs, rvf)]
    c = mismatch_sf(rvs, s.ms, th, rvf, mf, x[-1] * DAY, s.thrust, s.isp * G0, s.mu, int(s.nseg * s.cut))
    M, R, V = s.scal
    u = np.array(th).reshape(-1, 3)
    out = [-mf / M] + list(c[:3] / R) + list(c[3:6] / V) + [c[6] / M] + list((u * u).sum(axis=1) - 1)
    unit = [s.ms / M] + [s.L / R] * 3 + [s.V / V] * 3 + [s.ms / M] + [1.0] * s.nseg
    if s.kind == "planets":
        out += [(sum(w * w for w in x[2 + 3 * k:5 + 3 * k]) - (125.0 * s.vinf[k])**2) / V**2 for k in (0, 1)]
        unit += [(0.01 * s.V**2 + (125.0 * s.vinf[k])**2) / V**2 for k in (0, 1)]
    return np.array(out), np.array(unit)


def dress(x, form):
    return np.array(x) if form == "array" else tuple(x) if form == "tuple" else list(x)


def digest(a):
    return int.from_bytes(hashlib.sha256(np.array(a, dtype=float).tobytes()).digest()[:4], "big") >> 1


def whole(a):
    return [int(round(v)) if float(v) == round(float(v)) else 10**9 for v in a]


def leg(s, x):
    l = pk.leg.sims_flanagan()
    (l.rvs, l.rvf), (l.mf, l.throttles) = states(s, x, True), ends(s, x)
    l.ms, l.max_thrust, l.isp, l.mu, l.cut, l.tof = s.ms, s.thrust, s.isp, s.mu, s.cut, x[-1] * DAY
    return l


def behaviour(bid, tok):
    P = {}
    for p in range(1, int(os.environ["NPROBS"]) + 1):
        s = default("points")
        P[p] = (make(s), s)
    while tok.more():
        ev = tok.s()
        if ev == "Start":
            pyhz.emit(ev=ev, id=bid)
        elif ev == "Make":
            p, sid, kind, nseg, t0, tof, mf, vinf, grad, cut8, sys, body, how = tok.i(), tok.i(), tok.s(), tok.i(), tok.ints(), tok.ints(), tok.ints(), tok.ints(), tok.b(), tok.i(), tok.s(), tok.s(), tok.s()
            s = settings(sid, kind, nseg, t0, tof, mf, vinf, grad, cut8, sys, body, how)
            out, o = attempt(lambda: make(s))
            P[p] = (o, s)
            pyhz.emit(ev=ev, p=p, sid=sid, kind=kind, nseg=nseg, t0=t0, tof=tof, mf=mf, vinf=vinf, grad=int(grad), out=out)
        elif ev == "Default":
            p, k = tok.i(), tok.s()
            s = default(k)
            out, o = attempt(lambda: make(s))
            P[p] = (o, s)
            pyhz.emit(ev=ev, p=p, k=k, out=out)
        elif ev == "Copy":
            p, q = tok.i(), tok.i()
            out, o = attempt(lambda: copy.copy(P[p][0]) if P[p][1].body in ("kep", "py", "jpl") and P[p][1].kind == "planets" else copy.deepcopy(P[p][0]))
            if p != q:
                P[q] = (o, P[p][1])
            pyhz.emit(ev=ev, p=p, q=q, out=out)
        elif ev in ("Fit", "Grad"):
            p, x, form = tok.i(), tok.i(), tok.s()
            o, s = P[p]
            v = vector(s, x)
            w = dress(v, form)
            out, f = attempt(lambda: (o.fitness if ev == "Fit" else o.gradient)(w))
            kept = int(list(w) == v)
            n, err, outside, h = 0, 10**9, 10**9, 0
            if out == "ok":
                n, h = len(f), digest(f)
                if ev == "Fit":
                    ref, unit = reference(s, v)
                    if n == len(ref):
                        near = np.abs(reference(s, v, 1e-12)[0] - ref)
                        err = max(quant(abs(a - b) / (c + 1e11 * d), 1e-11) for a, b, c, d in zip(f, ref, unit, near))
                else:
                    out, r = attempt(lambda: differences(o, s, v, f))
                    err, outside = r or (err, outside)
            if ev == "Fit":
                pyhz.emit(ev=ev, p=p, x=x, out=out, n=n, err=err, kept=kept, hash=h)
            else:
                pyhz.emit(ev=ev, p=p, x=x, out=out, n=n, err=err, outside=outside, kept=kept, hash=h)
        elif ev == "Bounds":
            p = tok.i()
            out, b = attempt(lambda: P[p][0].get_bounds())
            lo, hi = (whole(b[0]), whole(b[1])) if out == "ok" else ([], [])
            if out == "ok":  # the lists are the caller's
                b[0][0] += 1
                b[1].append(0)
            pyhz.emit(ev=ev, p=p, out=out, lower=lo, upper=hi)
        elif ev == "Counts":
            p = tok.i()
            o = P[p][0]
            out, c = attempt(lambda: [o.get_nec(), o.get_nic(), int(o.has_gradient())])
            c = c or [-1, -1, -1]
            pyhz.emit(ev=ev, p=p, out=out, nec=c[0], nic=c[1], grad=c[2])
        elif ev == "Sparsity":
            p = tok.i()
            out, c = attempt(lambda: [[int(a), int(b)] for a, b in P[p][0].gradient_sparsity()])
            pyhz.emit(ev=ev, p=p, out=out, c=c or [])
        elif ev == "Pretty":
            p, x = tok.i(), tok.i()
            o, s = P[p]
            v = vector(s, x)
            t = io.StringIO()
            with contextlib.redirect_stdout(t):
                out, _ = attempt(lambda: o.pretty(v))
            want = [("leg", str(leg(s, v)))]
            if s.kind == "planets":
                want += [("from", s.pls.get_name()), ("to", s.plf.get_name()), ("launch", "%.5f MJD2000, a.k.a. %s" % (v[0], pk.epoch(v[0]))), ("arrival", "%.5f MJD2000, a.k.a. %s" % (v[0] + v[-1], pk.epoch(v[0] + v[-1]))),
                         ("tof", "%.5f" % v[-1]), ("mass", repr(v[1])), ("vs", "%.8f" % (np.linalg.norm(v[2:5]) / 1000)), ("vf", "%.8f" % (np.linalg.norm(v[5:8]) / 1000))]
            pyhz.emit(ev=ev, p=p, x=x, out=out, missing=[k for k, w in want if w not in t.getvalue()])
        elif ev == "Plot":
            p, x = tok.i(), tok.i()
            o, s = P[p]
            ax = pk.plot.make_3Daxis()
            out, a = attempt(lambda: o.plot(vector(s, x), ax=ax, show_gridpoints=True))
            pyhz.emit(ev=ev, p=p, x=x, out=out if out != "ok" or a is ax else "other")
        else:
            raise RuntimeError(ev)


def differences(o, s, v, g):
    """the gradient, place by place, against differences of the fitness; and what changes where it says nothing does"""
    sp, sc = [tuple(c) for c in o.gradient_sparsity()], scales(s, v)
    if len(sp) != len(g) or len(set(sp)) != len(sp):
        return 10**9, 10**9
    n = len(o.fitness(v))
    D, D2 = np.zeros((n, len(v))), np.zeros((n, len(v)))  # the second with twice the step: it tells how good they are

    def f(j, k):
        y = list(v)
        y[j] += k * 1e-4 * sc[j]
        return np.array(o.fitness(y))
    for j in range(len(v)):
        a, b, c = [f(j, k) - f(j, -k) for k in (1, 2, 4)]
        D[:, j], D2[:, j] = (8 * a - b) / 12 / 1e-4, (8 * b - c) / 24 / 1e-4
    G = np.zeros_like(D)
    for (i, j), y in zip(sp, g):
        if not (0 <= i < n and 0 <= j < len(v)):
            return 10**9, 10**9
        G[i, j] = y * sc[j]
    size = np.array(reference(s, v)[1])
    inside = np.zeros(D.shape, dtype=bool)
    inside[tuple(zip(*sp))] = True
    err = np.maximum(np.abs(D - G) - 3 * np.abs(D - D2), 0) / np.maximum(size, np.abs(D).max(axis=1))[:, None]
    if s.kind == "planets" and s.body == "jpl":  # not quite attracted by the Sun alone: told in the code
        for j in (0, len(v) - 1):
            err[:, j] = np.where(err[:, j] < 0.01, 0, err[:, j])
    return quant(err[inside].max(), 1e-7), quant(err[~inside].max() if (~inside).any() else 0, 1e-7)


if __name__ == "__main__":
    pyhz.run(behaviour)
