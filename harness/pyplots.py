"""Replays behaviours of Plots.tla: draws on recording axes and recognises the curves drawn."""
import copy, math, os, random
import numpy as np
import pykep as pk
import matplotlib.pyplot as plt
import pyhz
from pyhz import quant
from pykep_ref import arc, attempt

SEED = os.environ.get("VERIF_SEED", "1")
DAY, G0 = 86400.0, 9.80665
SUN, PLACE, ORBIT, LAMBERT, ARC, HALF, GRID, MID, PUSH, THRUST, HFPUSH, HFTIPS, HFGRID, END = range(14)
NAMES = ["", "Mercury", "Venus", "Earth", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune"]
SIZES = [15, 2, 3, 3, 2, 8, 8, 5, 5]


class Still:
    """no period can be told"""
    def __init__(self, r, v):
        self.r, self.v = r, v

    def eph(self, t):
        return [[a + b * t * DAY for a, b in zip(self.r, self.v)], self.v]


class Own:
    def __init__(self, r, v, mu):
        self.r, self.v, self.mu = r, v, mu

    def eph(self, t):
        y = arc(self.r, self.v, t * DAY, self.mu)
        return [list(y[:3]), list(y[3:])]

    def get_mu_central_body(self):
        return self.mu


def state(g, L, V):
    b, i = g.uniform(0, 2 * math.pi), g.uniform(-0.5, 0.5)
    a, w = L * g.uniform(0.7, 1.5), V * g.uniform(0.75, 1.05)
    return [a * math.cos(b), a * math.sin(b), a * 0.1 * i], [-w * math.sin(b + 0.1) * math.cos(i), w * math.cos(b + 0.1) * math.cos(i), w * math.sin(i)]


def scale(g):
    V = math.exp(g.uniform(3, 11))
    L, V = (pk.AU, pk.EARTH_VELOCITY) if g.random() < 0.5 else (V * g.uniform(20, 80) * DAY, V)
    return L, V, L * V * V


def planet(k):
    g = random.Random("%s-planet-%d" % (SEED, k))
    if k == 1:
        return pk.planet(pk.udpla.jpl_lp("mars"))
    L, V, mu = scale(g)
    r, v = state(g, L, V)
    if k in (2, 3):
        return pk.planet(Still(r, v))
    if k == 4:
        return pk.planet(pk.udpla.keplerian(pk.epoch(10.0), [r, [2 * x for x in v]], mu))  # gone for good
    if k == 5:
        return pk.planet(Own(r, v, mu))
    return pk.planet(pk.udpla.keplerian(pk.epoch(g.uniform(-500, 500)), [r, v], mu))


def conic(r, v, mu, thetas):
    """states at differences of true anomaly, by the equation of the orbit"""
    r, v = np.array(r, dtype=float), np.array(v, dtype=float)
    h = np.cross(r, v)
    ev = np.cross(v, h) / mu - r / np.linalg.norm(r)
    e, p = np.linalg.norm(ev), h @ h / mu
    P = ev / e
    Q = np.cross(h / np.linalg.norm(h), P)
    n0 = math.atan2(r @ Q, r @ P)
    out = []
    for t in thetas:
        c, s = math.cos(n0 + t), math.sin(n0 + t)
        out.append(np.append(p / (1 + e * c) * (c * P + s * Q), math.sqrt(mu / p) * (-s * P + (e + c) * Q)))
    return np.array(out)


def sweep(r0, v0, r1):
    """the angle from one place to another along the motion"""
    r0, v0, r1 = [np.array(x, dtype=float) for x in (r0, v0, r1)]
    h = np.cross(r0, v0)
    k = h / np.linalg.norm(h)
    return math.atan2(np.cross(r0, r1) @ k, r0 @ r1) % (2 * math.pi)


class Hand:
    """what one request drew"""
    def __init__(self, A):
        self.A = A
        self.before = {a: len(x.calls) for a, x in A.items()}

    def calls(self, a, ax):
        n = self.before[a] if ax is self.A[a] else 0
        return ax.calls[n:], sum(len(x.calls) - self.before[b] for b, x in self.A.items() if x is not ax)


def coords(call):
    a = [np.ravel(np.array(x, dtype=float)) for x in call[1][:6] if not isinstance(x, str)]
    return [x for x in a]


def recognise(calls, cands, tags=None):
    """cands: (item, call, points, arrows); every call is given a name, or none (99)"""
    used, out, bare = set(), [], 0
    for c in calls:
        if c[0] not in ("plot", "scatter", "quiver"):
            continue  # how axes look is their business
        xs = coords(c)
        n = len(xs[0]) if xs else 0
        if n == 0:
            continue
        X = np.array(xs[:3]).T if len(xs) >= 3 and len({len(x) for x in xs}) == 1 else None
        hit = None
        for strict in (True, False):
            for k, (item, call, pts, arrows) in enumerate(cands):
                if k in used or hit is not None or X is None or pts.shape != X.shape:
                    continue
                if (call != c[0]) if strict else (call == "quiver" or c[0] == "quiver"):
                    continue
                size = np.abs(pts).max()
                if min(np.abs(X - pts).max(), np.abs(X[::-1] - pts).max()) > 1e-7 * size:
                    continue
                if call == "quiver":
                    if np.abs(X - pts).max() > 1e-7 * size or len(xs) != 6 or np.abs(np.array(xs[3:]).T - arrows[0]).max() > 1e-12 or c[2].get("length") != arrows[1] or c[2].get("arrow_length_ratio") != arrows[2]:
                        continue
                hit = k
        if hit is None:
            out.append([99, 0, 0, n])
        else:
            used.add(hit)
            item = cands[hit][0]
            out.append(list(item) + [n])
            if tags and item[0] in tags and any(c[2].get(k) != w for k, w in (tags[item[0]](item)).items()):
                bare += 1
    return out, bare


def pt(r, u):
    return np.array(r, dtype=float).reshape(1, 3) / u


def legcands(rvs, ms, th, rvf, mf, tof, thrust, veff, mu, nf, N, u, look):
    """the curves a low-thrust leg may show"""
    th = np.array(th, dtype=float).reshape(-1, 3)
    n = len(th)
    dt = tof / n
    cands = []
    for side, rv, m, segs, T in ((0, rvs, ms, list(range(nf)), dt), (1, rvf, mf, list(range(n - 1, nf - 1, -1)), -dt)):
        s = np.ravel(np.array(rv, dtype=float))
        grid, mid = [s[:3]], []
        for i in segs:
            def curve(h):
                p = np.array([arc(s[:3], s[3:], T / 2 * k / (N - 1), mu)[:3] for k in range(N)]) / u
                cands.append(((HALF, i + 1, h), "plot", p, None))
            curve(1)
            s = arc(s[:3], s[3:], T / 2, mu)
            mid.append(s[:3].copy())
            dv = thrust * dt / m * th[i]
            s[3:] += dv if T > 0 else -dv
            m *= math.exp((-1 if T > 0 else 1) * np.linalg.norm(dv) / veff)
            curve(2)
            s = arc(s[:3], s[3:], T / 2, mu)
            grid.append(s[:3].copy())
        cands.append(((GRID, side, 0), "plot", np.array(grid) / u, None))
        if mid:
            cands.append(((MID, side, 0), "plot", np.array(mid) / u, None))
            cands.append(((PUSH, side, 0), "quiver", np.array(mid) / u, (th[segs], look["length"], look["arrow_length_ratio"])))
    return cands


def throttles(g, n):
    out = []
    for _ in range(n):
        w = np.array([g.gauss(0, 1) for _ in range(3)])
        out += list(w / np.linalg.norm(w) * g.choice([0.0, g.uniform(0.1, 1.0)]))
    return out


def behaviour(bid, tok):
    A = {a: pk.plot.make_3Daxis() for a in range(1, int(os.environ["NAXES"]) + 1)}

    def report(ev, H, a, ax, out, got, cands, tags, args, was, **e):
        where = got if out == "ok" and e.get("fresh") and hasattr(got, "calls") else ax
        cs, other = H.calls(a, where)
        curves, bare = recognise(cs, cands, tags)
        if e.get("fresh"):
            e["fig"] = e.get("fig", 0)
            if hasattr(got, "fig") and got.fig is not None:
                w = got.fig.kw.get("figsize", (0, 0))
                e["fig"] = w[0] if w[0] == w[1] and got.how[1].get("projection") == "3d" else 0
        elif "fig" in e:
            pass
        pyhz.emit(ev=ev, a=a, out=out, curves=curves, elsewhere=other, kept=int(repr(args) == was), bare=bare, same=int(got is where), **e)
        if e.get("fresh") and out == "ok":
            A[a] = got
        elif e.get("fresh"):
            A[a] = pk.plot.make_3Daxis()
    turn = 0
    while tok.more():
        ev = tok.s()
        turn += 1
        al = {"alpha": turn / 64}
        if ev == "Start":
            A.update({a: pk.plot.make_3Daxis() for a in A})
            pyhz.emit(ev=ev, id=bid)
            continue
        if ev == "Theta":
            s, n, stm = tok.i(), tok.i(), tok.b()
            g = random.Random("%s-%d" % (SEED, s))
            L, V, mu = scale(g)
            r, v = state(g, L, V)
            th = [g.uniform(-7, 7) for _ in range(n)]
            args = [[r, v], np.array(th) if s % 2 else th]
            was = repr(args)
            out, y = attempt(lambda: pk.plot.propagate_lagrangian_theta_v(args[0], args[1], mu, stm))
            err = 1e9
            if out == "ok" and np.shape(y) == (n, 6):
                w = conic(r, v, mu, th)
                err = max(np.abs((y - w)[:, :3]).max() / L, np.abs((y - w)[:, 3:]).max() / V)
            pyhz.emit(ev=ev, stm=int(stm), out=out, err=quant(err, 1e-11), kept=int(repr(args) == was))
            continue
        a = tok.i()
        ax = A[a]
        if ev == "Axes":
            w = tok.i()
            out, x = attempt(lambda: pk.plot.make_3Daxis(figsize=(w, w)))
            A[a] = x
            pyhz.emit(ev=ev, a=a, w=w, out=out, fig=x.fig.kw.get("figsize", (0, 0))[0], three=int(x.how[1].get("projection") == "3d"))
            continue
        if ev == "Look":
            cs = [c for c in ax.calls if c[0] in ("plot", "scatter", "quiver") and len(coords(c)[0]) > 0]
            pyhz.emit(ev=ev, a=a, calls=len(cs), points=sum(len(coords(c)[0]) for c in cs))
            continue
        H = Hand(A)
        unit = lambda u, L: (dict(), pk.AU) if u == 0 else (dict(units=1.0), 1.0) if u == 1 else (dict(units=L * 0.37), L * 0.37)  # noqa
        if ev == "Sun":
            kw = tok.b()
            k = dict(c="r", s=3, label="here") if kw else {}
            want = k or dict(c="y", s=30, label="Sun")
            out, got = attempt(lambda: pk.plot.add_sun(ax, **k))
            report(ev, H, a, ax, out, got, [((SUN, 0, 0), "scatter", np.zeros((1, 3)), None)], {SUN: lambda i: want}, [], "[]")
        elif ev == "Place":
            k, t8, form, u = tok.i(), tok.i(), tok.s(), tok.i()
            pl = planet(k)
            t = t8 / 8
            r = pl.eph(t)[0]
            ku, u = unit(u, np.linalg.norm(r))
            w = pk.epoch(t) if form == "epoch" else t
            out, got = attempt(lambda: pk.plot.add_planet(ax, pl, w, **ku, **al))
            report(ev, H, a, ax, out, got, [((PLACE, k, 0), "scatter", pt(r, u), None)], {PLACE: lambda i: al}, [], "[]", g=k)
        elif ev == "Orbit":
            k, rng, t8, d8, N, u = tok.i(), tok.s(), tok.i(), tok.i(), tok.i(), tok.i()
            pl = planet(k)
            has, T = attempt(pl.period)
            ku, u = unit(u, np.linalg.norm(pl.eph(0.0)[0]))
            span = [0.0, (T or 0) / DAY] if rng == "none" else [t8 / 8, t8 / 8 + d8 / 8]
            args = [list(span) if rng == "list" else np.array(span)]
            was = repr(args)
            pts = np.array([pl.eph(span[0] + (span[1] - span[0]) * j / (N - 1))[0] for j in range(N)]) / u
            kw = {} if rng == "none" else dict(plot_range=args[0])
            out, got = attempt(lambda: pk.plot.add_planet_orbit(ax, pl, N=N, **kw, **ku, **al))
            report(ev, H, a, ax, out, got, [((ORBIT, k, 0), "plot", pts, None)], {ORBIT: lambda i: al}, args, was, g=k, n=N, range=rng, period=int(has == "ok"))
        elif ev == "Lambert":
            s, sol, N, u = tok.i(), tok.i(), tok.i(), tok.i()
            g = random.Random("%s-%d" % (SEED, s))
            L, V, mu = scale(g)
            r0, r1 = [state(g, L, V)[0] for _ in (0, 1)]
            lp = pk.lambert_problem(r0, r1, L / V * g.choice([2.0, 12.0, 40.0]) * g.uniform(0.8, 1.2), mu, g.random() < 0.5, g.randint(0, 3))
            ku, u = unit(u, L)
            cands = []
            if sol <= 2 * lp.Nmax:
                v = lp.v0[sol]
                end = sweep(r0, v, r1) if sol == 0 else 2 * math.pi
                cands = [((LAMBERT, sol, 0), "plot", conic(r0, v, mu, np.linspace(0, end, N))[:, :3] / u, None)]
            was = repr([lp])
            out, got = attempt(lambda: pk.plot.add_lambert(ax, lp, N=N, sol=sol, **ku, **al))
            report(ev, H, a, ax, out, got, cands, {LAMBERT: lambda i: al}, [lp], was, sol=sol, n=N, nmax=lp.Nmax)
        elif ev == "Arc":
            s, N, u, form = tok.i(), tok.i(), tok.i(), tok.s()
            g = random.Random("%s-%d" % (SEED, s))
            L, V, mu = scale(g)
            r, v = state(g, L, V)
            v = [x * g.choice([1.0, 1.7]) for x in v]
            tof = L / V * g.uniform(-6, 6)
            args = [{"list": [list(r), list(v)], "array": [np.array(r), np.array(v)], "tuple": (list(r), list(v))}[form]]
            was = repr(args)
            ku, u = unit(u, L)
            pts = np.array([arc(r, v, tof * j / (N - 1), mu)[:3] for j in range(N)]) / u
            out, got = attempt(lambda: pk.plot.add_ballistic_arc(ax, args[0], tof, mu, N=N, **ku, **al))
            report(ev, H, a, ax, out, got, [((ARC, 0, 0), "plot", pts, None)], {ARC: lambda i: al}, args, was, n=N)
        elif ev in ("Leg", "Hf"):
            s, n, cut8, N, grid, mid, push, u = tok.i(), tok.i(), tok.i(), tok.i(), tok.b(), tok.b(), tok.b(), tok.i()
            g = random.Random("%s-%d" % (SEED, s))
            L, V, mu = scale(g) if ev == "Leg" else (1.0, 1.0, 1.0)
            rvs, rvf = [[list(x) for x in state(g, L, V)] for _ in (0, 1)]
            tof, thrust, ms, mf = L / V * g.uniform(0.5, 3) * (n if ev == "Leg" else 1) / 2, 500 * V * V / L * g.uniform(0.02, 0.2), 500.0, 430.0
            veff, nf = V * g.uniform(0.8, 3), n * cut8 // 8
            th = throttles(g, n)
            cls = pk.leg.sims_flanagan if ev == "Leg" else pk.leg.sims_flanagan_hf
            leg = cls(rvs=rvs, ms=ms, throttles=th, rvf=rvf, mf=mf, tof=tof, max_thrust=thrust, isp=veff / G0, mu=mu, cut=cut8 / 8)
            ku, u = unit(u, L)
            look = dict(length=g.choice([0.1, 0.3]), arrow_length_ratio=g.choice([0.05, 0.2]))
            tl = dict(show_gridpoints=grid, show_throttles=push, N=N, **look, **ku, **al)
            was = repr([leg])
            if ev == "Leg":
                cands = legcands(rvs, ms, th, rvf, mf, tof, thrust, veff, mu, nf, N, u, look)
                out, got = attempt(lambda: pk.plot.add_sf_leg(ax, leg, show_midpoints=mid, **tl))
            else:
                cands, hist, tv = [], leg.get_state_history(N), np.array(th).reshape(-1, 3)
                P = [np.array(h).reshape(N, 7)[:, :3] / u for h in hist]
                for side, segs in ((0, list(range(nf))), (1, list(range(n - 1, nf - 1, -1)))):
                    if segs:
                        allp = np.concatenate([P[i] for i in segs])
                        cands += [((THRUST, side, 0), "plot", allp, None), ((HFGRID, side, 0), "scatter", allp, None)]
                    for i in segs:
                        w = np.repeat(tv[i:i + 1], N, axis=0)
                        cands += [((HFPUSH, i + 1, 0), "quiver", P[i], (w, look["length"], look["arrow_length_ratio"])), ((HFTIPS, i + 1, 0), "plot", P[i] + w * look["length"], None)]
                out, got = attempt(lambda: pk.plot.add_sf_hf_leg(ax, leg, **tl))
            report(ev, H, a, ax, out, got, cands, {HALF: lambda i: al, THRUST: lambda i: al}, [leg], was, nseg=n, cut8=cut8, n=N, grid=int(grid), mid=int(mid), push=int(push))
        elif ev == "Mga":
            s, n, ids, N, u, fresh = tok.i(), tok.i(), tok.ints(), tok.i(), tok.i(), tok.b()
            g = random.Random("%s-%d" % (SEED, s))
            L, V, mu = scale(g)
            T = L / V / DAY
            seq = []
            for i in range(n + 1):
                r, v = state(g, L, V)
                seq.append(pk.planet(pk.udpla.keplerian(pk.epoch(g.uniform(-5, 5) * T), [r, v], mu, "p%d" % i, [mu * 1e-6, L * 1e-4, L * 1.1e-4])))
            x = [g.uniform(0, 10) * T] + [T * g.uniform(0.5, 4) for _ in range(n)]
            prob = pk.trajopt.mga(seq=seq, t0=[0, 10 * T], tof=[[0.5 * T, 4 * T]] * n, vinf=1.0)
            ku, u = unit(u, L)
            ep = [sum(x[:i + 1]) for i in range(n + 1)]
            cands = [((SUN, 0, 0), "scatter", np.zeros((1, 3)), None)]
            for i, pl in enumerate(seq):
                per = pl.period() / DAY
                cands += [((PLACE, i + 1, 0), "scatter", pt(pl.eph(ep[i])[0], u), None), ((ORBIT, i + 1, 0), "plot", np.array([pl.eph(per * j / (N - 1))[0] for j in range(N)]) / u, None)]
            for k in range(2):  # a leg may be asked twice
                for i in range(n):
                    r0, r1 = seq[i].eph(ep[i])[0], seq[i + 1].eph(ep[i + 1])[0]
                    v = pk.lambert_problem(r0, r1, x[i + 1] * DAY, mu, False, 0).v0[0]
                    cands.append(((LAMBERT, i + 1, 0), "plot", conic(r0, v, mu, np.linspace(0, sweep(r0, v, r1), N))[:, :3] / u, None))
            args = [x, [i - 1 for i in ids]]
            was = repr(args)
            w = g.randint(3, 9)
            kw = dict(figsize=(w, w)) if fresh else dict(ax=ax)
            out, got = attempt(lambda: prob.plot(x, N=N, leg_ids=args[1], **kw, **ku, **al))
            report(ev, H, a, ax, out, got, cands, {LAMBERT: lambda i: al}, args, was, legs=n, ids=ids, n=N, w=w, fresh=int(fresh), fig=0)
        elif ev == "Direct":
            s, planets, n, cut8, grid, mid, push, u, fresh = tok.i(), tok.b(), tok.i(), tok.i(), tok.b(), tok.b(), tok.b(), tok.i(), tok.b()
            g = random.Random("%s-%d" % (SEED, s))
            L, V, mu = scale(g)
            T = L / V
            ends = [[list(y) for y in state(g, L, V)] for _ in (0, 1)]
            thrust, ms, mf, veff, th, tof = 500 * V * V / L * g.uniform(0.02, 0.2), 500.0, 430.0, V * g.uniform(0.8, 3), throttles(g, n), T * g.uniform(0.5, 3) / DAY
            ku, u = unit(u, L)
            look = dict(length=g.choice([0.1, 0.3]), arrow_length_ratio=g.choice([0.05, 0.2]))
            com = dict(ms=ms, mu=mu, max_thrust=thrust, isp=veff / G0, nseg=n, cut=cut8 / 8)
            cands = []
            if planets:
                pls = [pk.planet(pk.udpla.keplerian(pk.epoch(g.uniform(-1, 1) * T / DAY), e, mu)) for e in ends]
                prob = pk.trajopt.direct_pl2pl(pls=pls[0], plf=pls[1], **com)
                t0 = g.uniform(-3, 3) * T / DAY
                x = [t0, mf] + [V * g.uniform(-0.1, 0.1) for _ in range(6)] + th + [tof]
                ends = []
                for k, pl in enumerate(pls):
                    r, v = pl.eph(t0 + k * tof)
                    ends.append([list(r), [p + q for p, q in zip(v, x[2 + 3 * k:5 + 3 * k])]])
                    per = pl.period() / DAY
                    cands += [((END, k, 0), "scatter", pt(r, u), None), ((PLACE, k + 1, 0), "scatter", pt(r, u), None), ((ORBIT, k + 1, 0), "plot", np.array([pl.eph(per * j / 59)[0] for j in range(60)]) / u, None)]
            else:
                prob = pk.trajopt.direct_point2point(rvs=ends[0], rvf=ends[1], **com)
                x = [mf] + th + [tof]
                cands += [((END, k, 0), "scatter", pt(e[0], u), None) for k, e in enumerate(ends)]
            cands += legcands(ends[0], ms, th, ends[1], mf, tof * DAY, thrust, veff, mu, n * cut8 // 8, 10, u, look)
            x = np.array(x) if s % 2 else x
            args = [x, ends]
            was = repr(args)
            kw = {} if fresh else dict(ax=ax)
            out, got = attempt(lambda: prob.plot(x, show_gridpoints=grid, show_midpoints=mid, show_throttles=push, **look, **kw, **ku, **al))
            report(ev, H, a, ax, out, got, cands, {HALF: lambda i: al}, args, was, planets=int(planets), nseg=n, cut8=cut8, grid=int(grid), mid=int(mid), push=int(push), fresh=int(fresh), fig=0)
        elif ev == "System":
            bodies, t, sized = tok.ints(), tok.i(), tok.b()
            when = pk.epoch(float(t))
            sizes = [20 + i for i in range(9)] if sized else SIZES
            cands = [((SUN, 0, 0), "scatter", np.zeros((1, 3)), None)]
            for b in range(1, 9):
                pl = pk.planet(pk.udpla.jpl_lp(NAMES[b]))
                r, v = pl.eph(when)
                cands.append(((PLACE, b, 0), "scatter", pt(r, pk.AU), None))
                cands.append(((ORBIT, b, 0), "around", (r, v, pl.get_mu_central_body()), None))
            args = [list(bodies), list(sizes)]
            was = repr(args)
            kw = dict(s=args[1]) if sized else {}
            out, got = attempt(lambda: pk.plot.add_solar_system(ax, bodies=args[0], when=when, **kw))
            cs, _ = H.calls(a, ax)
            # an orbit of the osculating planet: wherever it starts, it goes around once
            full = []
            for it, call, p, ar in cands:
                if call == "around":
                    r, v, mu = p
                    k = next((c for c in cs if c[0] == "plot" and around(np.array(coords(c)[:3]).T * pk.AU, r, v, mu)), None)
                    if k is not None:
                        full.append((it, "plot", np.array(coords(k)[:3]).T, None))
                else:
                    full.append((it, call, p, ar))
            tags = {PLACE: lambda i: dict(s=sizes[i[1]], label=NAMES[i[1]]), SUN: lambda i: dict(s=sizes[0])}
            report(ev, H, a, ax, out, got, full, tags, args, was, bodies=bodies)
        else:
            raise RuntimeError(ev)


def around(X, r, v, mu):
    if len(X) < 10:
        return False
    r, v = np.array(r), np.array(v)
    h = np.cross(r, v)
    ev = np.cross(v, h) / mu - r / np.linalg.norm(r)
    p = h @ h / mu
    R = np.linalg.norm(X, axis=1)
    if np.abs(R + X @ ev - p).max() > 1e-7 * p or np.abs(X @ h).max() > 1e-7 * p * np.linalg.norm(h):
        return False
    k = h / np.linalg.norm(h)
    total = sum(math.atan2(np.cross(a, b) @ k, a @ b) for a, b in zip(X, X[1:]))
    return abs(total / (2 * math.pi) - 1) < 0.02


if __name__ == "__main__":
    pyhz.run(behaviour)
