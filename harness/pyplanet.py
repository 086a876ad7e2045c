"""Replays behaviours of PyPlanet.tla: planets whose ephemerides are Python objects."""
import copy, gc, math, os, pickle, random, weakref
import numpy as np
import pykep as pk
import pyhz
from pyhz import quant
from pykep_ref import attempt, kepler, rel

METHODS = ["eph", "eph_v", "name", "info", "muc", "mus", "radius", "safe", "period", "elements"]
CALLED = dict(eph="eph", eph_v="eph_v", name="get_name", info="get_extra_info", muc="get_mu_central_body", mus="get_mu_self", radius="get_radius", safe="get_safe_radius", period="period", elements="elements")
EL = pk.el_type
FORMS = {"KEP_F": EL.KEP_F, "KEP_M": EL.KEP_M, "MEE": EL.MEQ, "MEE_R": EL.MEQ_R, "POSVEL": EL.POSVEL} if hasattr(EL, "MEQ") else {"KEP_F": EL.KEP_F, "KEP_M": EL.KEP_M, "MEE": EL.MEE, "MEE_R": EL.MEE_R, "POSVEL": EL.POSVEL}
NUMBER = {v: i + 1 for i, v in enumerate([FORMS[x] for x in ("KEP_F", "KEP_M", "MEE", "MEE_R", "POSVEL")])}
L1 = "1 33773U 97051L   23290.57931959  .00002095  00000+0  65841-3 0  9991"
L2 = "2 33773  86.4068  33.1145 0009956 224.5064 135.5336 14.40043565770064"
LIBT = dict(kepler=pk.udpla.keplerian, jpl=pk.udpla.jpl_lp, null=pk.udpla.null_udpla, vsop=pk.udpla.vsop2013, tle=pk.udpla.tle, spice=pk.udpla.spice, de440s=pk.udpla.de440s)
SEEN = []


def pos(g):
    return [2 * (g + 1), 3 * (g + 1), 6 * (g + 1)]


def vel(g, t8):
    return [-3, 2 + (t8 % 5), 1 + (g % 4)]


def t8of(t):
    assert type(t) is float and float(t * 8).is_integer()
    SEEN.append(int(t * 8))
    return int(t * 8)


class Base:
    def __init__(self, g):
        self.g = g


def method(m, s, rnd):
    """the function a class has for a method, given its status"""
    if s == "data":
        return rnd.choice([5, "text", None, [1.0]])

    def seen(ts):
        if m in ("eph", "period", "elements"):
            t8of(ts)
        elif m == "eph_v":
            for t in ts:
                t8of(t)

    def boom(self, *a):
        raise KeyError("no " + m)
    if s == "boom":
        return boom
    form = rnd.randrange(3)
    num = {"mus": 2, "radius": 3, "safe": 4, "name": 5, "info": 6}
    if m == "eph":
        def f(self, t):
            r, v = pos(self.g), vel(self.g, t8of(t))
            if s == "bad":
                return [[r, v, v], [r], [r[:2], v], 5.0, None][form]
            return [[r, v], (tuple(r), tuple(v)), [np.array(r, dtype=float), np.array(v, dtype=float)]][form]
    elif m == "eph_v":
        def f(self, ts):
            rows = [[float(self.g), float(t8of(t)), 7.0, 7.0, 7.0, 7.0] for t in ts]
            flat = [x for r in rows for x in r]
            if s == "bad":
                flat = [flat[:-1] if flat else [1.0], flat + [0.0], flat + [7.0] * 6][form]
                return flat if rnd.random() < 0.5 else np.array(flat)
            return [flat, np.array(flat), np.array(rows).reshape(-1, 6)][form]
    elif m == "period":
        def f(self, t):
            k = t8of(t)
            return [None, "x", [1, 2]][form] if s == "bad" else 1000.0 * self.g + k
    elif m == "elements":
        def f(self, t, el):
            k = t8of(t)
            return [None, [1.0, 2.0, 3.0], 4.0][form] if s == "bad" else [[self.g, k, NUMBER[el], 1, 2, 3], np.array([self.g, k, NUMBER[el], 1.0, 2, 3]), (self.g, k, NUMBER[el], 1, 2, 3)][form]
    elif m == "muc":
        def f(self):
            return 50.0 * (self.g + 1) * (1 + self.g % 4)
    elif m in ("name", "info"):
        def f(self):
            return "n%d" % (10 * self.g + num[m])
    else:
        def f(self):
            return 10.0 * self.g + num[m]
    return f


def loose(r, v, mu, dt):
    """what rounding the phase does to a state after dt"""
    r, v = np.array(r, dtype=float), np.array(v, dtype=float)
    al = 2 / np.linalg.norm(r) - v @ v / mu
    ecc = np.linalg.norm(((v @ v - mu / np.linalg.norm(r)) * r - (r @ v) * v) / mu)
    return 1e-11 + 1e-14 * math.sqrt(mu * abs(al) ** 3) * abs(dt) / max(abs(1 - ecc), 1e-3) ** 2 if al > 0 else 1e-9 / max(abs(1 - ecc), 1e-3) ** 2


def elements_of(r, v, mu, f):
    k = pk.ic2par([r, v], mu)
    if f == "KEP_F":
        return k
    if f == "KEP_M":
        return list(k[:5]) + [pk.f2m(k[5], k[1])]
    return pk.ic2mee([r, v], mu, f == "MEE_R") if hasattr(pk, "ic2mee") else pk.ic2eq([r, v], mu, f == "MEE_R")


def angles(a, b, f):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    if a.shape != (6,) or b.shape != (6,):
        return 1e9
    d = np.abs(a - b) / np.maximum(np.abs(b), 1.0)
    for k in ((3, 4, 5) if f.startswith("KEP") else (5,)):
        if f == "KEP_M" and k == 5 and b[1] > 1:
            continue
        d[k] = abs(math.remainder(a[k] - b[k], 2 * math.pi))
    return float(d.max()) if np.isfinite(d).all() else 1e9


def behaviour(bid, tok):
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 1000003 + bid)
    NC, NP = int(os.environ["NCLASSES"]), int(os.environ["NSLOTS"])
    classes, st = {}, {}

    def fresh(c, stats):
        classes[c] = type("Own%d" % c, (Base,), {CALLED[m]: method(m, s, rnd) for m, s in stats.items() if s != "no"})
        st[c] = dict(stats)
    for c in range(1, NC + 1):
        fresh(c, {m: "yes" if m == "eph" else "no" for m in METHODS})
    held, weak = {}, {}

    def lib(k, t8):
        """a library planet, with the functions its answers are compared with"""
        if k == "kepler":
            el, mu = [rnd.uniform(1, 3), rnd.uniform(0, 0.5), rnd.uniform(0.1, 2), rnd.uniform(0, 6), rnd.uniform(0, 6), rnd.uniform(0, 6)], rnd.uniform(0.5, 2)
            par = [float(rnd.randint(1, 9)) for _ in range(3)]
            u = pk.udpla.keplerian(pk.epoch(t8 / 8.0), el, mu, "kk", par)
            rv = pk.par2ic(el, mu)
            return u, dict(eph=lambda t: kepler(rv[0], rv[1], (t - t8 / 8.0) * 86400.0, mu), name="kk", muc=mu, mus=par[0], radius=par[1], safe=par[2], mu=mu, ref=t8 / 8.0, loose=lambda t: loose(rv[0], rv[1], mu, (t - t8 / 8.0) * 86400.0))
        if k in ("jpl", "vsop", "null"):
            which = rnd.choice(["earth", "mars", "jupiter", "mercury"] if k == "jpl" else ["mercury", "venus", "mars"])
            u = pk.udpla.jpl_lp(which) if k == "jpl" else pk.udpla.vsop2013(which, 1e-4) if k == "vsop" else pk.udpla.null_udpla()
            p2 = pk.planet(u)  # (their ephemerides have checks of their own)
            got = {m: getattr(p2, CALLED[m])() for m in METHODS if m not in ("eph", "eph_v", "period", "elements")}
            return u, dict(got, eph=lambda t: np.array(p2.eph(float(t))).reshape(-1), mu=got["muc"])
        if k == "tle":
            from sgp4.api import Satrec
            l2 = L2[:8] + "%8.4f" % rnd.uniform(10, 90) + L2[16:]
            sat = Satrec.twoline2rv(L1, l2)
            u = pk.udpla.tle(L1, l2)

            def eph(t):
                _, r, v = sat.sgp4(2451544.5, t)
                return 1000.0 * np.array(list(r) + list(v))
            return u, dict(eph=eph, name="33773 - SGP4", info="TLE line1: " + L1 + "\nTLE line2: " + l2, muc=pk.MU_EARTH, mus=-1, radius=-1, safe=-1, mu=pk.MU_EARTH)
        import spiceypy
        body, obs, fr = rnd.choice(["MARS", "MOON", "EARTH BARYCENTER"]), rnd.choice(["SSB", "SUN"]), rnd.choice(["J2000", "ECLIPJ2000"])
        u = (pk.udpla.spice if k == "spice" else pk.udpla.de440s)(body, fr, obs)
        return u, dict(eph=lambda t: spiceypy.curve(body, (t - 0.5) * 86400.0, fr, obs) * 1000.0, name=body + (" - SPICE" if k == "spice" else " - de440s"),
                       info="Body: %s\nObserver: %s\nReference Frame: %s" % (body, obs, fr), muc=-1, mus=-1, radius=-1, safe=-1)

    pls, info = {}, {}
    for p in range(1, NP + 1):
        ul = lib("null", 0)
        pls[p], info[p] = pk.planet(ul[0]), dict(ul[1], kind="null", u=None)

    def put(q, pla, what):
        pls[q], info[q] = pla, what
        del pla

    while tok.more():
        ev = tok.s()
        if ev == "Start":
            pyhz.emit(ev=ev, id=bid)
        elif ev == "Class":
            c, stats = tok.i(), tok.strs()
            fresh(c, dict(zip(METHODS, stats)))
            pyhz.emit(ev=ev, c=c, st=stats)
        elif ev == "Change":
            c, m, s = tok.i(), tok.s(), tok.s()
            if CALLED[m] in classes[c].__dict__:
                delattr(classes[c], CALLED[m])
            if s != "no":
                setattr(classes[c], CALLED[m], method(m, s, rnd))
            pyhz.emit(ev=ev, c=c, m=m, s=s)
        elif ev == "New":
            u, c, g = tok.i(), tok.i(), tok.i()
            held[u] = classes[c](g)
            weak[u] = weakref.ref(held[u])
            pyhz.emit(ev=ev, u=u, c=c, g=g)
        elif ev == "Drop":
            u = tok.i()
            del held[u]
            pyhz.emit(ev=ev, u=u)
        elif ev == "Poke":
            u, g = tok.i(), tok.i()
            held[u].g = g
            pyhz.emit(ev=ev, u=u, g=g)
        elif ev == "Wrap":
            p, u = tok.i(), tok.i()
            out, pla = attempt(lambda: pk.planet(held[u]) if rnd.random() < 0.5 else pk.planet(udpla=held[u]))
            if out == "ok":
                put(p, pla, dict(kind="py"))
            pla = None
            pyhz.emit(ev=ev, p=p, u=u, out=out)
        elif ev == "Lib":
            p, k, t8 = tok.i(), tok.s(), tok.i()
            out, ul = attempt(lambda: lib(k, t8))
            if out == "ok":
                put(p, pk.planet(ul[0]), dict(ul[1], kind=k, u=ul[0] if k in ("tle", "spice", "de440s") else None))
            ul = None
            pyhz.emit(ev=ev, p=p, k=k, t8=t8, out=out)
        elif ev == "Misuse":
            what = tok.s()

            class odd:
                eph = 5
            arg = {"type": classes[1] if rnd.random() < 0.5 else int, "planet": rnd.choice([x for x in pls.values() if x is not None] or [pk.planet(pk.udpla.null_udpla())]), "number": rnd.choice([5, "mars", None, [1]]), "eph_data": odd()}[what]
            pyhz.emit(ev=ev, what=what, out=attempt(lambda: pk.planet(arg))[0])
            arg = None
        elif ev == "Copy":
            p, q, how = tok.i(), tok.i(), tok.s()
            f = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[how]
            out, pla = attempt(lambda: f(pls[p]))
            w = dict(info[p])
            if how == "deepcopy" and w["kind"] in ("tle", "spice", "de440s"):
                w["u"] = pla.extract(object) if out == "ok" and pla.extract(object) is not info[p]["u"] else None
            put(q, pla, w)
            pla = None
            pyhz.emit(ev=ev, p=p, q=q, how=how, out=out)
        elif ev == "Deep":
            p, q, u = tok.i(), tok.i(), tok.i()
            out, pla = attempt(lambda: copy.deepcopy(pls[p]))
            if out == "ok":
                weak[u] = weakref.ref(pla.extract(object))
                put(q, pla, dict(info[p]))
            pla = None
            pyhz.emit(ev=ev, p=p, q=q, u=u, out=out)
        elif ev == "Pair":
            p, q, a, b, u, w = (tok.i() for _ in range(6))
            out, two = attempt(lambda: copy.deepcopy([pls[p], pls[q]]))
            shared = -1
            if out == "ok":
                x, y = two[0].extract(object), two[1].extract(object)
                shared = int(x is y)
                weak[u], weak[w] = weakref.ref(x), weakref.ref(y)
                ia, ib = dict(info[p]), dict(info[q])
                put(a, two[0], ia)
                put(b, two[1], ib)
                x = y = None
            two = None
            pyhz.emit(ev=ev, p=p, q=q, a=a, b=b, u=u, w=w, out=out, shared=shared)
        elif ev == "Grab":
            p = tok.i()
            o = pls[p].extract(object)
            for u, r in weak.items():
                if o is not None and r() is o:
                    held[u] = o
            o = None
            pyhz.emit(ev=ev, p=p)
        elif ev == "Clear":
            p = tok.i()
            pls[p], info[p] = None, None
            pyhz.emit(ev=ev, p=p)
        elif ev == "Ask":
            p, what, t8, ts, f, how = tok.i(), tok.s(), tok.i(), tok.ints(), tok.s(), tok.s()
            pla, w = pls[p], info[p]
            t = t8 / 8.0
            arg = {"float": t, "epoch": pk.epoch(t), "int": int(t), "default": t}[how]
            del SEEN[:]
            tol = w.get("loose", lambda t: 1e-11)
            if what == "eph":
                call = lambda: pla.eph(when=arg) if rnd.random() < 0.5 else pla.eph(arg)
            elif what == "eph_v":
                arr = [k / 8.0 for k in ts]
                arr = rnd.choice([arr, tuple(arr), np.array(arr)])
                call = lambda: pla.eph_v(arr)
            elif what == "period":
                call = lambda: pla.period() if how == "default" else pla.period(arg)
            elif what == "elements":
                call = lambda: pla.elements(el_type=FORMS[f]) if how == "default" else pla.elements(arg, FORMS[f])
            else:
                call = lambda: getattr(pla, CALLED[what])()
            out, x = attempt(call)
            seen = sorted(set(SEEN))
            val, err, nan, shape = [], 10**9, 0, 1
            if out == "ok":
                if what in ("eph", "eph_v"):
                    shape = int((len(x) == 2 and len(x[0]) == len(x[1]) == 3) if what == "eph" else (isinstance(x, np.ndarray) and x.dtype == np.float64 and x.shape == (len(ts), 6)))
                    flat = [float(a) for row in x for a in row]
                elif what == "elements":
                    shape, flat = int(len(x) == 6), [float(a) for a in x]
                elif what in ("name", "info"):
                    flat, shape = [], int(type(x) is str)
                    if w["kind"] == "py":
                        cls_txt = str(type(pla.extract(object)))
                        val = [int(x[1:])] if x[:1] == "n" else [-1] if x == (cls_txt if what == "name" else "") else [-2]
                    else:
                        err = int(x != w.get(what, x))
                else:
                    flat = [float(x)]
                    nan = int(math.isnan(flat[0]))
                    shape = int(type(x) is float)
                if what not in ("name", "info"):
                    val = [int(a) if math.isfinite(a) and float(a).is_integer() and abs(a) < 2**31 else -777 for a in flat]
                if w["kind"] == "py":
                    # computations from the object: it is asked directly
                    o = pla.extract(object)
                    r, v = pos(o.g), vel(o.g, t8)
                    mu = 50.0 * (o.g + 1) * (1 + o.g % 4)
                    o = None
                elif what in ("period", "elements"):
                    s = w["eph"](w.get("ref", t))
                    r, v, mu = [float(a) for a in s[:3]], [float(a) for a in s[3:]], w.get("mu", -1)
                if what == "period":
                    en = sum(a * a for a in v) / 2 - mu / math.sqrt(sum(a * a for a in r))
                    if en < 0:
                        ref = 2 * math.pi * math.sqrt((-mu / 2 / en) ** 3 / mu)
                        err = quant(abs(flat[0] - ref) / ref, 1e-2 if w["kind"] in ("jpl",) else 1e-11)  # (jpl_lp has its own period: C20)
                elif what == "elements":
                    err = 0 if f == "POSVEL" and rel(flat, list(r) + list(v)) < 1e-11 else quant(angles(flat, elements_of(r, v, mu, f), f), 1e-9)
                    if w["kind"] == "jpl":  # (its elements are those of its own tables: C20)
                        ref = elements_of(r, v, mu, f)
                        err = quant(max(abs(flat[0] / ref[0] - 1), abs(flat[1] - ref[1]) if f.startswith("KEP") else 0.0), 1e-2)
                elif w["kind"] != "py":
                    if what == "eph":
                        err = quant(rel(flat, w["eph"](t)), tol(t))
                    elif what == "eph_v":
                        err = quant(rel(flat, [a for k in ts for a in w["eph"](k / 8.0)]), max([tol(k / 8.0) for k in ts] or [1.0]))
                    elif what not in ("name", "info"):
                        err = quant(abs(flat[0] - w.get(what, flat[0])), max(abs(w.get(what, 1.0)), 1.0) * 1e-15)
            pyhz.emit(ev=ev, p=p, what=what, t8=t8, ts=ts, f=f, out=out, val=val, err=err, nan=nan, shape=shape, seen=seen)
            x = pla = w = call = None
        elif ev == "Extract":
            p, asked, c = tok.i(), tok.s(), tok.i()
            ty = {"value": rnd.choice([5, None, "object", pls[p]]), "class": classes[c], "base": rnd.choice([Base, int, pk.planet]), "object": object}.get(asked) if asked not in LIBT else LIBT[asked]
            out, o = attempt(lambda: pls[p].extract(ty))
            out2, yes = attempt(lambda: pls[p].is_(ty))
            if out == "ok":
                if o is None:
                    got = "none"
                elif asked in ("class", "object") and info[p]["kind"] == "py":
                    got = "it" if any(r() is o for r in weak.values()) and (asked == "object" or type(o) is ty) else "other"
                elif info[p].get("u") is not None:
                    got = "it" if o is info[p]["u"] else "other"
                else:
                    got = "it" if asked == "object" or type(o) is ty else "other"
            else:
                got = out
            o = None
            o = ty = None
            pyhz.emit(ev=ev, p=p, asked=asked, c=c, got=got, **{"is": {True: "yes", False: "no"}.get(yes, out2)})
        elif ev == "Osc":
            p, q, t8, mu = tok.i(), tok.i(), tok.i(), tok.i()
            when = pk.epoch(t8 / 8.0)
            src = pls[p]
            out, pla = attempt(lambda: pk.utils.planet_to_keplerian(src, when) if mu == 0 else pk.utils.planet_to_keplerian(src, when, float(mu)) if rnd.random() < 0.5 else pk.utils.planet_to_keplerian(src, when=when, mu=mu))
            if out == "ok":
                w = dict(kind="osc")
                if info[p]["kind"] == "py":
                    o = src.extract(object)
                    r, v = pos(o.g), vel(o.g, t8)
                    m = float(mu) if mu else 50.0 * (o.g + 1) * (1 + o.g % 4)
                    o = None
                    w.update(r=r, v=v)
                else:
                    r, v, m = info[p]["r"], info[p]["v"], float(mu) if mu else info[p]["mu"]
                    w.update(r=r, v=v)
                w.update(mu=m, ref=t8 / 8.0, name=src.get_name() + "(K)", eph=lambda t, r=r, v=v, m=m, t8=t8: kepler(r, v, (t - t8 / 8.0) * 86400.0, m), loose=lambda t, r=r, v=v, m=m, t8=t8: loose(r, v, m, (t - t8 / 8.0) * 86400.0))
                put(q, pla, w)
            pla = src = None
            pyhz.emit(ev=ev, p=p, q=q, t8=t8, mu=mu, out=out)
        elif ev == "Census":
            gc.collect()
            pyhz.emit(ev=ev, alive=sorted(u for u, r in weak.items() if r() is not None))


pyhz.run(behaviour)
