"""Replays behaviours of PyFace.tla: legs, Stark and Lambert problems, epochs and functions through pykep."""
import copy, datetime, inspect, math, os, pickle, random
import numpy as np
import pykep as pk
import pyhz
from pyhz import quant
from pykep_ref import kepler, rel, attempt, mismatch_sf, mismatch_hf, thrust_arc

LEG = ["rvs", "ms", "throttles", "rvf", "mf", "tof", "max_thrust", "isp", "mu", "cut"]
FIELDS = dict(sf=LEG, hf=LEG + ["tol"], stark=["mu", "veff", "tol"], lambert=["r0", "r1", "tof", "mu", "cw", "revs"])
CTOR = dict(sf=lambda: pk.leg.sims_flanagan, hf=lambda: pk.leg.sims_flanagan_hf, stark=lambda: pk.stark_problem, lambert=lambda: pk.lambert_problem)
NAME = {"revs": "multi_revs"}
G0 = 9.80665


def throttles(c):
    n, k = c // 10, c % 10
    return [round(math.sin(1.0 + 3 * i + 7 * k) * (0.3 + 0.05 * k), 6) for i in range(3 * n)]


def value(kind, f, c):
    """what a number of a setting stands for"""
    if f in ("rvs", "rvms"):
        return [[1 + c / 16, 0.05 * c, -0.02 * c], [0.01 * c, 1 - c / 64, 0.04 * c]]
    if f in ("rvf", "rvmf"):
        return [[0.03 * c, 1.1 + c / 16, 0.02 * c], [-0.9 + 0.02 * c, 0.01 * c, 0.03 * c]]
    if kind == "lambert" and f in ("r0", "r1"):
        return [1 + c / 8, 0.1 * c, -0.05 * c] if f == "r0" else [-0.2 - 0.1 * c, 1 + 0.1 * c, 0.3]
    return {"ms": 1 + c / 16, "mf": 0.5 + c / 32, "throttles": throttles(c), "tof": (2.0 * c + 1 if kind == "lambert" else 0.5 + c / 4), "max_thrust": 0.05 * c, "isp": 0.1 + 0.05 * c, "mu": 0.8 + c / 32,
            "cut": (c - 1) / 8, "tol": c * 1e-16 + 2e-16, "veff": 1 + c / 2, "cw": bool(c), "revs": c - 1}[f]


def default(kind, f):
    return {"rvs": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], "rvf": [[0.0, 1.0, 0.0], [-1.0, 0.0, 0.0]], "ms": 1.0, "mf": 1.0, "throttles": [0.0] * 6, "tof": math.pi / 2, "max_thrust": 1.0, "isp": 1.0,
            "mu": 1.0, "cut": 0.5, "tol": 1e-16, "veff": 1.0, "r0": [1.0, 0.0, 0.0], "r1": [0.0, 1.0, 0.0], "cw": False, "revs": 1}[f]


def plain(x):
    """what was read, as lists and floats of our own"""
    return [plain(y) for y in x] if hasattr(x, "__len__") else float(x)


def codes(f):
    return {"throttles": [10 * n + k for n in range(1, 6) for k in range(10)], "cw": [1]}.get(f, range(1, 10))


def decode(kind, f, x):
    x = plain(x)
    if x == plain(default(kind, f)):
        return 0
    for c in codes(f):
        if x == plain(value(kind, f, c)):
            return c
    return -1


def dress(x, how):
    if how == "array":
        return np.array(x) if hasattr(x, "__len__") else np.float64(x) if type(x) is float else x
    if how == "tuple":
        return tuple(dress(y, how) for y in x) if hasattr(x, "__len__") else x
    return copy.deepcopy(x)


def spoil(x):
    """a list somebody goes on using"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 77.0
    elif isinstance(x, list):
        for k in range(len(x)):
            if isinstance(x[k], list):
                spoil(x[k])
            else:
                x[k] = 77.0


def leg_of(kind, o):
    return [plain(getattr(o, f)) for f in FIELDS[kind]]


def pushed(L):
    """the mass is no differentiable function of a throttle at zero"""
    return np.linalg.norm(np.reshape(L["throttles"], (-1, 3)), axis=1).min() > 0.01


def evaluate(kind, o, rnd):
    """(shape, relative errors) of everything a value computes"""
    errs, shape = [], 1
    if kind in ("sf", "hf"):
        L = dict(zip(FIELDS[kind], leg_of(kind, o)))
        n, nf = len(L["throttles"]) // 3, o.nseg_fwd
        ref = (mismatch_sf if kind == "sf" else mismatch_hf)
        args = (L["rvs"], L["ms"], L["throttles"], L["rvf"], L["mf"], L["tof"], L["max_thrust"], L["isp"] * G0, L["mu"], nf)
        m = o.compute_mismatch_constraints()
        size = np.abs(np.concatenate([np.ravel(L["rvs"]), np.ravel(L["rvf"]), [L["ms"], L["mf"], 1.0]])).max()
        errs.append(np.abs(np.array(m) - ref(*args)).max() / size / 1e-8)
        tc = o.compute_throttle_constraints()
        shape &= int(len(m) == 7 and len(tc) == n)
        th = np.array(L["throttles"]).reshape(-1, 3)
        errs.append(np.abs(np.array(tc) - (np.sum(th * th, axis=1) - 1)).max() / 1e-12)
        spoil(m), spoil(tc)
        A, B, C = o.compute_mc_grad() if pushed(L) else (np.zeros((7, 7)), np.zeros((7, 7)), np.zeros((7, 3 * n + 1)))
        T = o.compute_tc_grad()
        shape &= int(all(isinstance(x, np.ndarray) and x.dtype == np.float64 and x.flags.c_contiguous for x in (A, B, C, T)) and A.shape == (7, 7) and B.shape == (7, 7) and C.shape == (7, 3 * n + 1) and T.shape == (n, 3 * n))
        if not shape:
            return shape, errs
        want = np.zeros((n, 3 * n))
        for i in range(n):
            want[i, 3 * i:3 * i + 3] = 2 * th[i]
        errs.append(np.abs(T - want).max() / 1e-12)
        # one column of each by differences of the library's own mismatches
        fresh = CTOR[kind]()

        def at(rvs, ms, ths, rvf, mf, tof):
            leg = fresh(rvs, ms, ths, rvf, mf, tof, L["max_thrust"], L["isp"], L["mu"], L["cut"])
            return np.array(leg.compute_mismatch_constraints())

        def column(G, j, which):
            h = 2e-4

            def f(k):
                rvs, rvf, ms, mf, ths, tof = np.array(L["rvs"]), np.array(L["rvf"]), L["ms"], L["mf"], list(L["throttles"]), L["tof"]
                d = k * h
                if which == "s":
                    rvs, ms = (rvs, ms + d) if j == 6 else (rvs + d * np.eye(6)[j].reshape(2, 3), ms)
                elif which == "f":
                    rvf, mf = (rvf, mf + d) if j == 6 else (rvf + d * np.eye(6)[j].reshape(2, 3), mf)
                elif j == 3 * n:
                    tof += d
                else:
                    ths[j] += d
                return at(rvs.tolist(), ms, ths, rvf.tolist(), mf, tof)
            fd = (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)
            errs.append(np.abs(G[:, j] - fd).max() / max(1.0, np.abs(fd).max()) / 1e-6)
        if pushed(L):
            column(A, rnd.randrange(7), "s")
            column(B, rnd.randrange(7), "f")
            column(C, rnd.choice([3 * n, rnd.randrange(3 * n)]), "t")
        if kind == "hf" and nf in range(n + 1):
            h = o.get_state_history(rnd.choice([2, 3]))
            shape &= int(len(h) == n)
    elif kind == "stark":
        rvm = [1.1, 0.1, -0.2, 0.1, 0.9, 0.3, rnd.uniform(1, 3)]
        u, tof = [rnd.uniform(-0.1, 0.1) for _ in range(3)], rnd.choice([-1, 1]) * rnd.uniform(0.3, 3)
        form = rnd.choice(["list", "array", "tuple"])
        a, b = dress(rvm, form), dress(u, form)
        x = o.propagate(a, b, tof) if rnd.random() < 0.5 else o.propagate(thrust=b, tof=tof, rvm_state=a)
        spoil(a), spoil(b)
        want = thrust_arc(rvm, u, tof, o.mu, o.veff)
        shape &= int(len(x) == 7)
        errs.append(np.abs(np.array(x) - want).max() / np.abs(want).max() / 1e-9)
        y, P, U = o.propagate_var(rvm, u, tof) if rnd.random() < 0.5 else o.propagate_var(tof=tof, rvm_state=rvm, thrust=u)
        shape &= int(isinstance(P, np.ndarray) and P.shape == (7, 7) and U.shape == (7, 3))
        errs.append(np.abs(np.array(y) - want).max() / np.abs(want).max() / 1e-9)
        if shape:
            h = 1e-4
            for j in rnd.sample(range(10), 2):
                f = lambda k: np.array(o.propagate([q + (k * h if i == j else 0) for i, q in enumerate(rvm)], [q + (k * h if i == j - 7 else 0) for i, q in enumerate(u)], tof))
                fd = (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)
                G = P[:, j] if j < 7 else U[:, j - 7]
                errs.append(np.abs(G - fd).max() / max(1.0, np.abs(fd).max()) / 1e-6)
    else:
        v0, v1, x, it, r0, r1 = o.v0, o.v1, o.x, o.iters, o.r0, o.r1
        shape &= int(len(v0) == len(v1) == len(x) == len(it) and all(len(v) == 3 for v in v0 + v1))
        for a, b in zip(v0, v1):
            s = kepler(r0, a, o.tof, o.mu)
            errs.append(rel(s, list(r1) + list(b)) / 1e-7)
        if o.v0:
            spoil(v0), spoil(v1), spoil(r0)
    return shape, errs


ELL = {"m2e", "e2m", "m2f", "f2m", "e2f", "f2e"}


def formula(f, x, e):
    """the anomalies, from their definitions (numbers only)"""
    if f in ("m2e", "m2f"):
        E = x
        for _ in range(200):
            E = E - (E - e * math.sin(E) - x) / (1 - e * math.cos(E)) * (0.5 if e > 0.9 else 1.0)
        return E if f == "m2e" else formula("e2f", E, e)
    if f in ("n2h", "n2f"):
        H = math.asinh(x / e)
        for _ in range(200):
            H = H - (e * math.sinh(H) - H - x) / (e * math.cosh(H) - 1)
        return H if f == "n2h" else formula("h2f", H, e)
    if f == "f2m":
        return formula("e2m", formula("f2e", x, e), e)
    if f == "f2n":
        return formula("h2n", formula("f2h", x, e), e)
    q = math.sqrt(abs(1 - e) / (1 + e))
    return {"e2m": lambda: x - e * math.sin(x), "h2n": lambda: e * math.sinh(x) - x,
            "e2f": lambda: 2 * math.atan(math.tan(x / 2) / q), "f2e": lambda: 2 * math.atan(math.tan(x / 2) * q),
            "zeta2f": lambda: 2 * math.atan(math.tan(x / 2) / q), "f2zeta": lambda: 2 * math.atan(math.tan(x / 2) * q),
            "h2f": lambda: 2 * math.atan(math.tanh(x / 2) / q), "f2h": lambda: 2 * math.atanh(math.tan(x / 2) * q)}[f]()


def draw(f, e, rnd):
    if f == "f2h" or f == "f2n":
        return rnd.uniform(-0.9, 0.9) * math.acos(-1 / e)
    return rnd.uniform(-2.9, 2.9)


def function(f, shape, rnd):
    ec = lambda: rnd.uniform(0.01, 0.85) if f in ELL else rnd.uniform(1.1, 4.0)
    g, gv = getattr(pk, f), getattr(pk, f + "_v")
    e = ec()
    if shape == "scalar":
        x = draw(f, e, rnd)
        a, b = g(x, e), gv(x, e)
        return int(type(a) is float and np.ndim(b) == 0), [abs(a - formula(f, x, e)), abs(float(b) - formula(f, x, e))]
    n, m = rnd.randint(1, 5), rnd.randint(1, 4)
    if shape == "empty":
        b = gv(np.array([]), e)
        return int(isinstance(b, np.ndarray) and b.shape == (0,)), []
    if shape in ("list", "array"):
        X = [draw(f, e, rnd) for _ in range(n)]
        b = gv(X if shape == "list" else np.array(X), e)
        return int(b.shape == (n,)), list(np.abs(b - [formula(f, x, e) for x in X]))
    if shape == "ecc":
        E = [ec() for _ in range(n)]
        x = draw(f, min(E), rnd) if f not in ("f2h", "f2n") else rnd.uniform(-1.5, 1.5)
        b = gv(x, E)
        return int(b.shape == (n,)), list(np.abs(b - [formula(f, x, q) for q in E]))
    E = np.array([ec() for _ in range(m)])
    if shape == "both":
        X = np.array([draw(f, q, rnd) for q in E])
        b = gv(X, E)
        return int(b.shape == (m,)), list(np.abs(b - [formula(f, x, q) for x, q in zip(X, E)]))
    X = np.array([rnd.uniform(-1.5, 1.5) for _ in range(n)]).reshape(n, 1)  # a grid; slices with gaps too
    if rnd.random() < 0.5:
        X = np.repeat(np.repeat(X, 2, axis=0), 3, axis=1)[::2, ::3]
    b = gv(X, E)
    return int(b.shape == (n, m)), [abs(b[i, j] - formula(f, float(X[i, 0]), float(E[j]))) for i in range(n) for j in range(m)]


CONST = dict(AU=149597870700.0, CAVENDISH=6.67430e-11, MU_SUN=1.32712440041279419e20, MU_EARTH=398600435507000.0, EARTH_VELOCITY=29784.69183430911, EARTH_J2=1.08262668e-3, EARTH_RADIUS=6378137.0,
             RAD2DEG=180 / math.pi, DEG2RAD=math.pi / 180, DAY2SEC=86400.0, SEC2DAY=1 / 86400, DAY2YEAR=1 / 365.25, G0=9.80665, CR3BP_EARTH_MOON=0.01215058439470971)
T2000 = datetime.datetime(2000, 1, 1)


def behaviour(bid, tok):
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 1000003 + bid)
    NV, NE = int(os.environ["NVALS"]), int(os.environ["NEPOCHS"])
    vals = {p: ("sf", pk.leg.sims_flanagan()) for p in range(1, NV + 1)}
    eps = {k: pk.epoch(0.0) for k in range(1, NE + 1)}
    kept = {}
    while tok.more():
        ev = tok.s()
        if ev == "Start":
            pyhz.emit(ev=ev, id=bid)
        elif ev == "Make":
            p, kind, how, v = tok.i(), tok.s(), tok.s(), tok.ints()
            fs = FIELDS[kind]
            cs = dict(zip(fs, v))
            names = [f for f in fs if not (kind == "hf" and f == "tol")]
            args = {f: dress(value(kind, f, cs[f]) if cs[f] or f == "cw" else default(kind, f), rnd.choice(["list", "array", "tuple"])) for f in names}
            if how == "pos":
                k = len(names)
                while k and cs[names[k - 1]] == 0 and rnd.random() < 0.5:
                    k -= 1
                call = lambda: CTOR[kind]()(*[args[f] for f in names[:k]])
            else:
                given = [f for f in names if cs[f] or (how == "kw" and rnd.random() < 0.7)]
                rnd.shuffle(given)
                call = lambda: CTOR[kind]()(**{NAME.get(f, f): args[f] for f in given})
            out, o = attempt(call)
            for x in args.values():
                spoil(x)
            if out == "ok":
                vals[p] = (kind, o)
            o = None
            pyhz.emit(ev=ev, p=p, kind=kind, how=how, v=v, out=out)
        elif ev == "Set":
            p, f, c, how = tok.i(), tok.s(), tok.i(), tok.s()
            kind, o = vals[p]
            x = value(kind, f, c)
            if f in ("rvms", "rvmf"):
                x = x[0] + x[1] + [value(kind, f[:2] == "rv" and {"rvms": "ms", "rvmf": "mf"}[f], c)]
            x = dress(x, how)
            out, _ = attempt(lambda: setattr(o, NAME.get(f, f), x))
            spoil(x)
            pyhz.emit(ev=ev, p=p, f=f, c=c, how=how, out=out)
        elif ev == "Bad":
            p, b = tok.i(), tok.s()
            kind, o = vals[p]
            what = {"throttles_two": ("throttles", [0.1, 0.2, 0.3, 0.4, 0.5]), "throttles_none": ("throttles", []), "tof": ("tof", -rnd.random()), "max_thrust": ("max_thrust", -0.1), "isp": ("isp", -1.0), "mu": ("mu", -0.5),
                    "cut_low": ("cut", -0.01), "cut_high": ("cut", 1.01), "rvs_short": ("rvs", [[1.0, 2.0, 3.0], [1.0, 2.0]]), "text": (rnd.choice(["ms", "tof", "throttles", "rvf"]), rnd.choice(["one", None, {}]))}[b]
            if rnd.random() < 0.5:
                out, _ = attempt(lambda: setattr(o, what[0], what[1]))
            else:
                out, _ = attempt(lambda: CTOR[kind]()(**{what[0]: what[1]}))
            pyhz.emit(ev=ev, p=p, b=b, out=out)
        elif ev == "Copy":
            p, q, how = tok.i(), tok.i(), tok.s()
            f = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[how]
            out, o = attempt(lambda: f(vals[p][1]))
            if out == "ok":
                out = "ok" if type(o) is type(vals[p][1]) and o is not vals[p][1] else "other"
                vals[q] = (vals[p][0], o)
            o = None
            pyhz.emit(ev=ev, p=p, q=q, how=how, out=out)
        elif ev == "Read":
            p = tok.i()
            kind, o = vals[p]
            n = []
            if kind == "lambert":
                v = [decode(kind, f, getattr(o, f)) for f in ("r0", "r1", "tof", "mu")]
                h = np.cross(o.r0, o.v0[0])
                full = pk.lambert_problem(o.r0, o.r1, o.tof, o.mu, bool(h[2] < 0), 50)
                v += [int(h[2] < 0), 0]
                n = [o.Nmax, len(o.v0), full.Nmax]
            else:
                v = []
                for f in FIELDS[kind]:
                    x = getattr(o, f)
                    v.append(decode(kind, f, x))
                    spoil(x)
                if kind != "stark":
                    n = [o.nseg, o.nseg_fwd, o.nseg_bck]
                if kind == "hf":
                    for rvm, rv, m in (("rvms", o.rvs, o.ms), ("rvmf", o.rvf, o.mf)):
                        if plain(getattr(o, rvm)) != plain(list(rv[0]) + list(rv[1]) + [m]):
                            v[0] = -2
            if type(repr(o)) is not str or repr(o) != repr(copy.copy(o)):
                kind = "repr"
            pyhz.emit(ev=ev, p=p, kind=kind, v=v, n=n)
        elif ev == "Eval":
            p = tok.i()
            kind, o = vals[p]
            out, x = attempt(lambda: evaluate(kind, o, rnd))
            pyhz.emit(ev=ev, p=p, out=out, shape=x[0] if x else 0, err=quant(max(x[1]), 0.1) if x and x[1] and np.isfinite(x[1]).all() else 0 if x and not x[1] else 10**9)
        elif ev == "Keep":
            p = tok.i()
            o = vals[p][1]
            out, g = attempt(lambda: (list(o.compute_mc_grad()) if pushed(dict(throttles=o.throttles)) else []) + [o.compute_tc_grad()])
            kept[p] = (g, copy.deepcopy(g))
            g = None
            pyhz.emit(ev=ev, p=p, out=out)
        elif ev == "Look":
            p = tok.i()
            a, b = kept.get(p, ([], []))
            pyhz.emit(ev=ev, p=p, same=int(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))))
        elif ev == "Epoch":
            k, how, d, s, us = tok.i(), tok.s(), tok.i(), tok.i(), tok.i()
            x = d + s / 86400.0
            dt = T2000 + datetime.timedelta(days=d, seconds=s, microseconds=us)
            J = pk.epoch.julian_type
            F = pk.epoch.string_format
            call = {"mjd2000": lambda: rnd.choice([lambda: pk.epoch(x), lambda: pk.epoch(x, J.MJD2000), lambda: pk.epoch(when=x), lambda: pk.epoch(julian_type=J.MJD2000, when=x)])(),
                    "mjd": lambda: pk.epoch(x + 51544, J.MJD), "jd": lambda: pk.epoch(when=x + 2451544.5, julian_type=J.JD),
                    "int": lambda: rnd.choice([lambda: pk.epoch(d), lambda: pk.epoch(d + 51544, J.MJD)])(),
                    "string": lambda: rnd.choice([lambda q: pk.epoch(q), lambda q: pk.epoch(q, F.ISO), lambda q: pk.epoch(when=q)])(dt.isoformat(timespec="microseconds")),
                    "datetime": lambda: pk.epoch(dt), "tz": lambda: pk.epoch(dt.replace(tzinfo=datetime.timezone.utc))}[how]
            out, e = attempt(call)
            if out == "ok":
                eps[k] = e
            pyhz.emit(ev=ev, k=k, how=how, d=d, s=s, us=us, out=out)
        elif ev == "Move":
            a, b, how, sign, d, s, us = tok.i(), tok.i(), tok.s(), tok.i(), tok.i(), tok.i(), tok.i()
            step = {"float": d + s / 86400.0, "int": d, "delta": datetime.timedelta(days=d, seconds=s, microseconds=us)}[how]
            out, e = attempt(lambda: eps[a] + step if sign > 0 else eps[a] - step)
            if out == "ok":
                eps[b] = e
            pyhz.emit(ev=ev, a=a, b=b, how=how, sign=sign, d=d, s=s, us=us, out=out)
        elif ev == "CopyEpoch":
            a, b, how = tok.i(), tok.i(), tok.s()
            f = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[how]
            out, e = attempt(lambda: f(eps[a]))
            if out == "ok":
                eps[b] = e
            pyhz.emit(ev=ev, a=a, b=b, how=how, out=out)
        elif ev == "Compare":
            a, b = tok.i(), tok.i()
            x, y = eps[a], eps[b]
            pyhz.emit(ev=ev, a=a, b=b, c=[int(q) for q in (x < y, x > y, x <= y, x >= y, x == y, x != y)])
        elif ev == "Tell":
            k = tok.i()
            e = eps[k]
            try:
                t = datetime.datetime.fromisoformat(repr(e)) - T2000
            except Exception:
                t = datetime.timedelta(days=-10**6)
            x = t / datetime.timedelta(days=1)
            err = max(abs(e.mjd2000 - x) / 1e-10, abs(e.mjd - x - 51544) / 2e-10, abs(e.jd - x - 2451544.5) / 2e-9)
            pyhz.emit(ev=ev, k=k, d=t.days, s=t.seconds, us=t.microseconds, err=quant(err, 1.0))
        elif ev == "Fun":
            f, shape = tok.s(), tok.s()
            out, x = attempt(lambda: function(f, shape, rnd))
            pyhz.emit(ev=ev, f=f, shape=shape, out=out, shaped=x[0] if x else 0, err=quant(max(x[1] or [0.0]), 1e-11) if x and np.isfinite(x[1]).all() else 10**9)
        elif ev == "Map":
            f, form = tok.s(), tok.s()
            mu, retro = rnd.uniform(0.5, 2), rnd.random() < 0.5
            par = [rnd.uniform(1, 3), rnd.uniform(0.01, 0.6), rnd.uniform(0.2, 1.4) + (1.4 if retro else 0.0), rnd.uniform(0.1, 6), rnd.uniform(0.1, 6), rnd.uniform(-3, 3)]
            rv = from_elements(par, mu)
            a, e, i, W, w, th = par
            I = -1 if retro else 1
            ti = math.tan(i / 2) ** I
            eq = [a * (1 - e * e), e * math.cos(w + I * W), e * math.sin(w + I * W), ti * math.cos(W), ti * math.sin(W), w + th + I * W]
            D = lambda x: dress(x, form)
            call = {"ic2par": lambda: (pk.ic2par(D(rv), mu), par), "par2ic": lambda: (pk.par2ic(D(par), mu), rv), "ic2eq": lambda: (pk.ic2eq(D(rv), mu, retro), eq), "eq2ic": lambda: (pk.eq2ic(D(eq), mu, retro), rv),
                    "par2eq": lambda: (pk.par2eq(D(par), retro), eq), "eq2par": lambda: (pk.eq2par(D(eq), retro), par)}[f]
            out, x = attempt(call)
            shaped, err = 0, 10**9
            if out == "ok":
                got, want = x
                shaped = int(type(got) in (list, tuple) and np.shape(got) == np.shape(want))
                if shaped:
                    d = np.abs(np.ravel(got) - np.ravel(want))
                    for k in {"par": (3, 4, 5), "eq": (5,)}.get(f.split("2")[1], ()):
                        d[k] = abs(math.remainder(d[k], 2 * math.pi))
                    err = quant(d.max(), 1e-10)
            pyhz.emit(ev=ev, f=f, form=form, out=out, shaped=shaped, err=err)
        elif ev == "Kepler":
            how, stm, n = tok.s(), tok.b(), tok.i()
            r, v = [rnd.uniform(0.8, 1.5), rnd.uniform(-0.3, 0.3), rnd.uniform(-0.3, 0.3)], [rnd.uniform(-0.2, 0.2), rnd.uniform(0.7, 1.2), rnd.uniform(-0.2, 0.2)]
            mu, tofs = rnd.choice([1.0, rnd.uniform(0.8, 2)]), [rnd.choice([-1, 1]) * rnd.uniform(0.1, 6) for _ in range(max(n, 1))]
            if how == "default":
                r, v, mu, tofs = [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], 1.0, [math.pi / 2]
            rv = dress([r, v], rnd.choice(["list", "array", "tuple"]))
            t1 = tofs[0]
            one = {"pos": lambda: pk.propagate_lagrangian(rv, t1, mu, stm), "kw": lambda: pk.propagate_lagrangian(stm=stm, mu=mu, tof=t1, rv=rv), "default": lambda: pk.propagate_lagrangian(stm=stm)}[how]
            grid = [] if n == 0 and how != "default" else tofs
            arr = dress(grid, rnd.choice(["list", "array", "tuple"]))
            many = {"pos": lambda: pk.propagate_lagrangian_v(rv, arr, mu, stm), "kw": lambda: pk.propagate_lagrangian_v(tofs=arr, rv=rv, stm=stm, mu=mu), "default": lambda: pk.propagate_lagrangian_v(stm=stm)}[how]
            out, x = attempt(lambda: (one(), many()))
            shaped, errs = 0, [1e9]
            if out == "ok":
                a, b = x
                st, M = (a[0], a[1]) if stm else (a, None)
                shaped = int(len(a) == 2 and np.shape(st) == (2, 3) and (not stm or (isinstance(M, np.ndarray) and M.shape == (6, 6))) and len(b) == len(grid))
                errs = [rel(st, kepler(r, v, t1, mu)) / 1e-11]
                if stm and shaped:
                    h, j = 1e-4, rnd.randrange(6)
                    f = lambda k: kepler([q + k * h * (i == j) for i, q in enumerate(r)], [q + k * h * (i == j - 3) for i, q in enumerate(v)], t1, mu)
                    fd = np.array((45 * (f(1) - f(-1)) - 9 * (f(2) - f(-2)) + (f(3) - f(-3))) / (60 * h), dtype=float)
                    errs.append(np.abs(M[:, j] - fd).max() / max(1.0, np.abs(fd).max()) / 1e-7)
                for t, y in zip(grid, b):
                    errs.append(rel(y[0], kepler(r, v, t, mu)) / 1e-11)
                    if stm:
                        Q = y[1]
                        shaped &= int(Q is not None and np.size(Q) == 36)
                        if shaped:
                            errs.append(np.abs(np.ravel(Q) - np.ravel(pk.propagate_lagrangian([r, v], t, mu, True)[1])).max() / 1e-12)
                    else:
                        shaped &= int(y[1] is None)
            pyhz.emit(ev=ev, how=how, stm=stm, n=n, out=out, shaped=shaped, err=quant(max(errs), 1.0))
        elif ev == "Fly":
            f, how = tok.s(), tok.s()
            mu, rs = rnd.uniform(0.5, 3), rnd.uniform(0.5, 3)
            a = [rnd.uniform(-1, 1) for _ in range(3)]
            b = [rnd.uniform(-1, 1) for _ in range(3)] if rnd.random() < 0.7 else [q * 0.98 + 0.02 for q in a]
            A, B = np.array(a), np.array(b)
            ia, ib = np.linalg.norm(A), np.linalg.norm(B)
            alpha = math.atan2(np.linalg.norm(np.cross(A, B)), A @ B)
            delta = 2 * math.asin(1 / (1 + rs / mu * ia * ia))
            pl = pk.planet(pk.udpla.keplerian(pk.epoch(0.0), [1.0, 0.0, 0.0, 0.0, 0.0, 0.0], 1.0, "x", [mu, rs / 2, rs]))
            if f == "vout":
                beta = rnd.uniform(-4, 4)
                call = lambda: pk.fb_vout(a, b, rs, beta, mu) if how != "kw" else pk.fb_vout(mu=mu, beta=beta, rp=rs, v_pla=b, v_in=a)
                q = A - B
                v = np.linalg.norm(q)
                dl = 2 * math.asin(1 / (1 + rs / mu * v * v))
                i = q / v
                j = np.cross(i, B)
                j /= np.linalg.norm(j)
                k = np.cross(i, j)
                want = B + v * (math.cos(dl) * i + math.sin(dl) * (math.cos(beta) * j + math.sin(beta) * k))
            else:
                fn = pk.fb_con if f == "con" else pk.fb_dv
                call = {"planet": lambda: fn(a, b, pl), "numbers": lambda: fn(a, b, mu, rs), "kw": lambda: fn(v_rel_out=b, v_rel_in=a, planet=pl) if rnd.random() < 0.5 else fn(safe_radius=rs, mu=mu, v_rel_out=b, v_rel_in=a)}[how]
                want = [ia * ia - ib * ib, alpha - delta] if f == "con" else [abs(ia - ib) if alpha <= delta else math.sqrt((ia - ib) ** 2 + 4 * ia * ib * math.sin((alpha - delta) / 2) ** 2)]
            out, x = attempt(call)
            err = 1e9
            if out == "ok" and np.size(x) == np.size(want):
                err = np.abs(np.ravel(x) - np.ravel(want)).max() / 1e-7
            pyhz.emit(ev=ev, f=f, how=how, out=out, err=quant(err, 0.1))
        elif ev == "Consts":
            bad = [k for k, x in CONST.items() if type(getattr(pk, k, None)) is not float or abs(getattr(pk, k) / x - 1) > 4e-16]
            pyhz.emit(ev=ev, bad=bad)


def from_elements(par, mu):
    a, e, i, W, w, th = par
    p = a * (1 - e * e)
    r = p / (1 + e * math.cos(th))
    P = np.array([math.cos(W) * math.cos(w) - math.sin(W) * math.sin(w) * math.cos(i), math.sin(W) * math.cos(w) + math.cos(W) * math.sin(w) * math.cos(i), math.sin(w) * math.sin(i)])
    Q = np.array([-math.cos(W) * math.sin(w) - math.sin(W) * math.cos(w) * math.cos(i), -math.sin(W) * math.sin(w) + math.cos(W) * math.cos(w) * math.cos(i), math.cos(w) * math.sin(i)])
    return [(r * (math.cos(th) * P + math.sin(th) * Q)).tolist(), (math.sqrt(mu / p) * (-math.sin(th) * P + (e + math.cos(th)) * Q)).tolist()]


if __name__ == "__main__":
    pyhz.run(behaviour)
