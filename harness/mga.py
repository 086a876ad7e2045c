"""Replays behaviours of MGA.tla in pykep.trajopt.mga."""
import copy, io, math, os, pickle, random, sys
import numpy as np
import pykep as pk
import pyhz
from pyhz import quant

DAY = 86400.0
AU = 149597870700.0
# central body, distances of the bodies
SYS = {1: (1.32712440018e20, 0.4, 1.6, AU), 2: (1.32712440018e20, 0.7, 5.0, AU), 3: (1.32712440018e20, 0.9, 1.1, AU),
       4: (1.0e15, 1.0, 3.0, 3e9), 5: (7.0e18, 1.0, 2.0, AU), 6: (3.0e21, 2.0, 9.0, AU)}
STOCK = ["earth", "venus", "earth"]
GYM = ["earth", "venus", "venus", "earth", "jupiter", "saturn"]


def body(rnd, sys, mu=None):
    m, lo, hi, unit = SYS[sys]
    m = mu or m
    a = unit * rnd.uniform(lo, hi)
    el = [a, rnd.uniform(0, 0.3), rnd.uniform(0.01, 0.4), rnd.uniform(0, 6.2), rnd.uniform(0, 6.2), rnd.uniform(0, 6.2)]
    vc = math.sqrt(m / a)
    radius = 10 ** rnd.uniform(-5, -3) * a
    mu_self = radius * (vc * rnd.uniform(0.1, 2.0)) ** 2
    if rnd.random() < 0.5:
        return pk.planet(pk.udpla.keplerian(pk.epoch(rnd.randint(-2000, 2000)), el, m, "body%d" % rnd.randint(1, 9), [mu_self, radius, radius * rnd.uniform(1.0, 1.5)]))

    class own:  # a planet written in Python
        def __init__(self):
            self.p = pk.planet(pk.udpla.keplerian(pk.epoch(0), el, m, "x", [1, 1, 1]))

        def eph(self, t):
            return self.p.eph(t)

        def get_name(self):
            return "own"

        def get_mu_central_body(self):
            return m

        def get_mu_self(self):
            return mu_self

        def get_radius(self):
            return radius

        def get_safe_radius(self):
            return 1.2 * radius
    own.__qualname__ = own.__name__ = "own_%d" % id(own)
    setattr(sys_modules_main(), own.__name__, own)
    own.__module__ = "__main__"
    return pk.planet(own())


def sys_modules_main():
    return sys.modules["__main__"]


def norm(a):
    return math.sqrt(sum(float(x) * float(x) for x in a))


def sub(a, b):
    return [float(x) - float(y) for x, y in zip(a, b)]


def legs_of(seq, ep):
    """the legs between bodies at epochs, from the Lambert solver and checked by propagation"""
    mu = seq[0].get_mu_central_body()
    rv = [p.eph(t) for p, t in zip(seq, ep)]
    legs = []
    for i in range(len(seq) - 1):
        lp = pk.lambert_problem(rv[i][0], rv[i + 1][0], (ep[i + 1] - ep[i]) * DAY, mu, False, 0)
        legs.append((rv[i][0], lp.v0[0], lp.v1[0]))
    return rv, legs


def reference(P, ep):
    seq = P["seq"]
    rv, legs = legs_of(seq, ep)
    launch = norm(sub(legs[0][1], rv[0][1]))
    cost = [launch, max(0.0, launch - P["vinf"] * 1000.0)]
    dvs = []
    for i in range(1, len(seq) - 1):
        a, b = sub(legs[i - 1][2], rv[i][1]), sub(legs[i][1], rv[i][1])
        dvs.append(pk.fb_dv(a, b, seq[i].get_mu_self(), seq[i].get_safe_radius()))
    arrive = norm(sub(legs[-1][2], rv[-1][1]))
    if P["insert"]:
        mu, rp, e = seq[-1].get_mu_self(), P["rp"], P["e"]
        arrive = abs(math.sqrt(arrive ** 2 + 2 * mu / rp) - math.sqrt(mu * (1 + e) / rp))
    return sum(dvs) + cost[1] + arrive, launch, cost[1], dvs, arrive, legs


def scale(P, ep):
    r, v = P["seq"][0].eph(ep[0])
    return norm(v)


def off(got, P, ep):
    """difference of a cost from the reference, in units of what rounding the epochs would do"""
    ref = reference(P, ep)[0]
    sens = 0.0
    for s in (1, -1):
        q = [t + s * (-1) ** i * 1e-9 for i, t in enumerate(ep)]
        d = abs(reference(P, q)[0] - ref)
        sens = max(sens, d)
    tol = 1e-10 * (scale(P, ep) + abs(ref)) + 4 * sens
    return abs(float(got) - ref) / tol if math.isfinite(float(got)) else 1e9


def gene(enc, t8, g, q, total):
    t0 = t8 / 8.0
    if enc == "direct":
        return [t0] + [float(x) for x in g]
    if enc == "alpha":
        return [t0, float(total)] + [math.exp(-a / b) for a, b in zip(g, q)]
    return [t0] + [a / b for a, b in zip(g, q)]


def shaped(x, form, enc):
    if form in ("array", "reused"):
        return np.array(x)
    if form == "tuple":
        return tuple(x)
    if form == "list":
        return list(x)
    k = 1 if enc == "direct" else None
    if enc == "direct":
        if form == "mixed":
            return [x[0]] + [int(v) for v in x[1:]]
        if form == "ints":
            return [int(v) for v in x]
        return np.array([int(v) for v in x])
    if enc == "alpha":
        y = [x[0] if form == "mixed" else int(x[0]), int(x[1])] + x[2:]
    else:
        y = [x[0] if form == "mixed" else int(x[0])] + x[1:]
    return np.array(y) if form == "intarray" else y


def same(a, b):
    return type(a) is type(b) and len(a) == len(b) and all(type(u) is type(v) and u == v for u, v in zip(a, b))


def launch_list(lo, hi, kind):
    if kind == "int":
        return [lo, hi]
    if kind == "float":
        return [float(lo), float(hi)]
    if kind == "epoch":
        return [pk.epoch(float(lo)), pk.epoch(float(hi))]
    if kind == "mixed":
        return [pk.epoch(float(lo)), hi]
    return [float(lo), pk.epoch(float(hi))]


KINDS = {"int": (int, int), "float": (float, float), "epoch": (pk.epoch, pk.epoch), "mixed": (pk.epoch, int), "half": (float, pk.epoch)}


def behaviour(bid, tok):
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 1000003 + bid)
    NL = int(os.environ.get("NLISTS", "2"))
    t0s = {l: ([0.0, 1.0], (0, 1, "float")) for l in range(1, NL + 1)}
    seqs = {l: [body(rnd, 1), body(rnd, 1)] for l in range(1, NL + 1)}
    kept = {l: list(s) for l, s in seqs.items()}
    tofs = {l: [] for l in range(1, NL + 1)}   # lists given to constructors, with what they held
    stock = lambda: dict(enc="direct", seq=[pk.planet(pk.udpla.jpl_lp(x)) for x in STOCK], vinf=2.5, insert=False, multi=False, rp=None, e=None, u=pk.trajopt.mga())
    probs, ships = {p: stock() for p in range(1, 1 + int(os.environ.get("NPROBS", "3")))}, {}

    def attempt(f):
        try:
            return "ok", f()
        except Exception as ex:
            return type(ex).__name__, None

    def encounter(p, t8, T):
        ep = [t8 / 8.0]
        for t in T:
            ep.append(ep[-1] + t)
        return ep

    while tok.more():
        ev = tok.s()
        if ev == "Start":
            pyhz.emit(ev=ev, id=bid)
        elif ev == "T0":
            l, lo, hi, kind = tok.i(), tok.i(), tok.i(), tok.s()
            t0s[l] = (launch_list(lo, hi, kind), (lo, hi, kind))
            pyhz.emit(ev=ev, l=l, lo=lo, hi=hi, kind=kind)
        elif ev == "Seq":
            l, n, sy = tok.i(), tok.i(), tok.i()
            q = [body(rnd, sy) for _ in range(n + 1)]
            for i in range(1, n + 1):  # the same body twice
                if i > 0 and rnd.random() < 0.2:
                    q[i] = q[rnd.randrange(i)]
            seqs[l], kept[l] = q, list(q)
            pyhz.emit(ev=ev, l=l, n=n, sys=sy)
        elif ev == "Make":
            p, enc, lt, ls, lo, hi, multi, ins, vinf, rp, ecc = tok.i(), tok.s(), tok.i(), tok.i(), tok.ints(), tok.ints(), tok.b(), tok.b(), tok.i(), tok.i(), tok.i()
            seq = seqs[ls]
            if enc == "direct":
                tof = [[a, b] for a, b in zip(lo, hi)]
            elif enc == "alpha":
                tof = [lo[0], hi[0]]
            else:
                tof = hi[0] if rnd.random() < 0.5 else float(hi[0])
            tofs[lt].append((tof, copy.deepcopy(tof)))
            P = dict(enc=enc, seq=list(seq), vinf=vinf / 2.0 * (0.001 if seq[0].get_mu_central_body() < 1e16 else 1.0), insert=ins, multi=multi)
            P["rp"], P["e"] = rp * seq[-1].get_safe_radius() if ins else None, ecc / 100.0 if ins else None
            kw = dict(seq=seq, t0=t0s[lt][0], tof=tof, vinf=P["vinf"], multi_objective=multi, tof_encoding=enc, orbit_insertion=ins, e_target=P["e"], rp_target=P["rp"])
            if rnd.random() < 0.5:
                out, u = attempt(lambda: pk.trajopt.mga(**kw))
            else:
                out, u = attempt(lambda: pk.trajopt.mga(seq, t0s[lt][0], tof, P["vinf"], multi, enc, ins, P["e"], P["rp"]))
            P["u"] = u
            probs[p] = P
            pyhz.emit(ev=ev, p=p, enc=enc, lt=lt, ls=ls, tofl=lo, tofu=hi, multi=int(multi), insert=int(ins), out=out)
        elif ev == "Ready":
            p, which = tok.i(), tok.s()
            told = 1
            if which == "stock":
                out, u = attempt(lambda: pk.trajopt.mga())
                names, vinf = STOCK, 2.5
            else:
                u = {"direct": pk.trajopt.gym.cassini1, "alpha": pk.trajopt.gym.cassini1_a, "eta": pk.trajopt.gym.cassini1_n}[which]
                names, vinf, out = GYM, 3.0, "ok"
                o2, txt = attempt(lambda: u.get_name() + "|" + repr(u) + "|" + u.get_extra_info())
                told = int(o2 == "ok" and txt.count("jupiter") + txt.count("Jupiter") >= 1 and which in txt.split("|")[2] and which in txt.split("|")[0] and all(txt.lower().count(x) >= names.count(x) for x in names))
            probs[p] = dict(enc="direct" if which == "stock" else which, seq=[pk.planet(pk.udpla.jpl_lp(x)) for x in names], vinf=vinf, insert=which != "stock", multi=False, rp=108950000.0, e=0.98, u=u)
            pyhz.emit(ev=ev, p=p, which=which, out=out, told=told)
        elif ev == "Fault":
            what, lt, ls = tok.s(), tok.i(), tok.i()
            seq, n = seqs[ls], len(seqs[ls]) - 1
            kw = dict(seq=seq, t0=t0s[lt][0], tof=[[10, 100]] * n, vinf=1.0)
            if what == "mu":
                kw["seq"] = seq + [body(rnd, 1, mu=SYS[1][0] * (1 + 1e-9) if rnd.random() < 0.5 else 1e12)]
                kw["tof"] = [[10, 100]] * (n + 1)
            elif what == "encoding":
                kw["tof_encoding"] = rnd.choice(["Direct", "", "beta", "etaa"])
            elif what == "no_rp":
                kw.update(orbit_insertion=True, e_target=0.5)
            elif what == "no_e":
                kw.update(orbit_insertion=True, rp_target=1e7)
            elif what.startswith("alpha"):
                kw["tof_encoding"] = "alpha"
                kw["tof"] = {"alpha_float": 100.0, "alpha_one": [100.0], "alpha_three": [1.0, 2.0, 3.0]}[what]
            elif what == "direct_float":
                kw["tof"] = 100.0
            elif what == "direct_few":
                kw["tof"] = [[10, 100]] * (n - 1 if rnd.random() < 0.5 else n + 1)
            elif what == "direct_flat":
                kw["tof"] = [[10, 100]] * (n - 1) + [rnd.choice([100, [100], [1, 2, 3], "ab"])]
            elif what == "direct_crossed":
                kw["tof"] = [[10, 100]] * (n - 1) + [[100, 99]]
            else:
                kw.update(tof_encoding="eta", tof=[10, 100])
            pyhz.emit(ev=ev, what=what, lt=lt, ls=ls, out=attempt(lambda: pk.trajopt.mga(**kw))[0])
        elif ev == "Copy":
            p, q, how = tok.i(), tok.i(), tok.s()
            f = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda u: pickle.loads(pickle.dumps(u))}[how]
            if any(b.is_(object) or "own" in b.get_name() for b in probs[p]["seq"]):
                f = copy.deepcopy  # (planets written in Python cannot be pickled)
            out, u = attempt(lambda: f(probs[p]["u"]))
            probs[q] = dict(probs[p], u=u)
            probs[q].pop("buf", None)
            pyhz.emit(ev=ev, p=p, q=q, how=how, out=out)
        elif ev == "Look":
            l = tok.i()
            x, (lo, hi, kind) = t0s[l]
            types = int(len(x) == 2 and all(type(a) is b for a, b in zip(x, KINDS[kind])))
            val = [a.mjd2000 if isinstance(a, pk.epoch) else a for a in x]
            types = types and int(all(float(v).is_integer() for v in val))
            pyhz.emit(ev=ev, l=l, t0=dict(lo=int(val[0]), hi=int(val[1]), kind=kind), n=len(seqs[l]) - 1, types=int(types and len(kept[l]) == len(seqs[l]) and all(a is b for a, b in zip(kept[l], seqs[l]))),
                      tofs=int(all(repr(a) == repr(b) for a, b in tofs[l])))
        elif ev == "Box":
            p = tok.i()
            lb, ub = probs[p]["u"].get_bounds()
            milli = lambda v: [int(round(float(x) * 1000)) if abs(float(x) * 1000 - round(float(x) * 1000)) < 1e-6 else -999999999 for x in v]
            pyhz.emit(ev=ev, p=p, lb=milli(lb), ub=milli(ub), nobj=int(probs[p]["u"].get_nobj()))
        elif ev in ("Cost", "Ship", "Tell"):
            p = tok.i()
            s = tok.i() if ev == "Ship" else 0
            t8, T, g, q, total = tok.i(), tok.ints(), tok.ints(), tok.ints(), tok.i()
            form = tok.s() if ev != "Tell" else "array"
            P = probs[p]
            ep = encounter(P, t8, T)
            x = shaped(gene(P["enc"], t8, g, q, total), form, P["enc"])
            if form == "reused":  # one array, filled anew each time
                buf = P.setdefault("buf", np.zeros(len(x)))
                buf[:] = x
                x = buf
            keep = copy.deepcopy(x)
            base = dict(ev=ev, p=p, t8=t8, T=T, g=g, q=q, total=total)
            if ev == "Cost":
                out, f = attempt(lambda: P["u"].fitness(x))
                err = terr = 10**9
                if out == "ok":
                    err = quant(off(f[0], P, ep), 1)
                    terr = quant(abs(float(f[1]) - sum(T)) / sum(T), 1e-13) if P["multi"] and len(f) > 1 else 0
                pyhz.emit(form=form, out=out, n=len(f) if out == "ok" else 0, err=err, terr=terr, kept=int(same(list(keep), list(x)) and type(keep) is type(x)), **base)
            elif ev == "Ship":
                out, u = attempt(lambda: P["u"].to_planet(x))
                ships[s] = (u, P, ep)
                pyhz.emit(form=form, s=s, out=out, kept=int(same(list(keep), list(x)) and type(keep) is type(x)), **base)
            else:
                was, sys.stdout = sys.stdout, io.StringIO()
                out, _ = attempt(lambda: P["u"].pretty(x))
                txt, sys.stdout = sys.stdout.getvalue(), was
                err = 10**9
                if out == "ok":
                    num = lambda line: float(line.split(":")[1].replace("np.float64(", "").replace(")", "").split("[")[0])
                    rows = txt.splitlines()
                    pick = lambda k: [num(r) for r in rows if r.strip().startswith(k)]
                    ref, launch, free, dvs, arrive, _l = reference(P, ep)
                    got = pick("Total DV"), pick("Epoch"), pick("DV"), pick("Hyperbolic velocity"), pick("Initial DV"), pick("Arrival DV")
                    tol = 1e-10 * (scale(P, ep) + ref)
                    for sg in (1, -1):
                        r2 = reference(P, [t + sg * (-1) ** i * 1e-9 for i, t in enumerate(ep)])
                        tol += 4 * (abs(r2[0] - ref) + abs(r2[1] - launch) + sum(abs(a - b) for a, b in zip(r2[3], dvs)) + abs(r2[4] - arrive))
                    want = [ref], ep, dvs, [launch], [free], [arrive]
                    e = 0.0
                    for k, (a, b) in enumerate(zip(got, want)):
                        if len(a) != len(b):
                            e = 1e9
                        for u, v in zip(a, b):
                            d = abs(u - v) / (1e-9 if k == 1 else tol)
                            e = d if not d <= e else e
                    err = quant(e, 1)
                pyhz.emit(out=out, err=err, **base)
        elif ev == "Short":
            p, d = tok.i(), tok.i()
            P = probs[p]
            n = len(P["u"].get_bounds()[0]) + d
            pyhz.emit(ev=ev, p=p, d=d, out=attempt(lambda: P["u"].to_planet([1.0] + [0.5] * (n - 1)))[0])
        elif ev == "Ask":
            s, t8, how = tok.i(), tok.i(), tok.s()
            u, P, ep = ships[s]
            t = t8 / 8.0
            ask = {"float": lambda: u.eph(t), "epoch": lambda: u.eph(pk.epoch(t)), "v": lambda: (lambda m: (m[0][:3], m[0][3:]))(u.eph_v([t]))}[how]
            err = 0
            try:
                r, v = ask()
                out = "ok"
            except Exception as ex:
                m = str(ex)
                out = type(ex).__name__
                if isinstance(ex, ValueError) or "ValueError" in m:
                    nums = [float(w.replace("np.float64(", "").rstrip(")")) for w in m.replace("\n", " ").split() if w.replace("np.float64(", "").rstrip(")").replace(".", "").replace("-", "").replace("e", "").isdigit()]
                    near = lambda y: any(abs(y - z) < 1e-6 for z in nums)
                    out = "early" if "launch" in m and near(ep[0]) and near(t) else "late" if "arrival" in m and near(ep[-1]) and near(t) else "ValueError:" + m.replace('"', "'")
            if out == "ok":
                def states(e):
                    rv, legs = legs_of(P["seq"], e)
                    i = max(k for k in range(len(e)) if e[k] <= t) if t >= e[0] else 0
                    res = []
                    for k in {min(i, len(legs) - 1), max(0, i - 1) if abs(t - e[i]) < 1e-6 else min(i, len(legs) - 1)}:
                        res.append(pk.propagate_lagrangian([legs[k][0], legs[k][1]], (t - e[k]) * DAY, P["seq"][0].get_mu_central_body(), False))
                    return res
                best = 1e9
                cand = states(ep)
                R, V = norm(P["seq"][0].eph(ep[0])[0]), norm(P["seq"][0].eph(ep[0])[1])
                alt = [states([z + sg * (-1) ** i * 1e-9 for i, z in enumerate(ep)]) for sg in (1, -1)]
                for k, (a, b) in enumerate(cand):
                    sr = sv = 0.0
                    for c in alt:
                        if k < len(c):
                            sr, sv = max(sr, norm(sub(c[k][0], a))), max(sv, norm(sub(c[k][1], b)))
                    d = max(norm(sub(r, a)) / (1e-10 * (R + norm(a)) + 4 * sr), norm(sub(v, b)) / (1e-10 * (V + norm(b)) + 4 * sv))
                    best = min(best, d)
                err = quant(best, 1)
            pyhz.emit(ev=ev, s=s, t8=t8, how=how, out=out, err=err)
        else:  # Conv
            p, to, form, t, T, q = tok.i(), tok.s(), tok.s(), tok.i(), tok.ints(), tok.ints()
            U = probs[p]["u"]
            ints = form in ("ints", "intarray")
            t0 = t if ints else t / 8.0
            direct = [t0] + [x if ints else float(x) for x in T]
            tot = sum(T)
            alpha = [t0, tot if ints else float(tot)] + [math.exp(-a / (abs(b) or 1)) for a, b in zip(T, q)]
            eta = [t0] + [a / (b or 1) for a, b in zip(T, q)]
            x = {"d2a": direct, "a2d": alpha, "d2e": direct, "e2d": eta}[to]
            want = {"d2a": alpha, "a2d": direct, "d2e": eta, "e2d": direct}[to]
            if form in ("array", "intarray"):
                x = np.array(x)
            keep = copy.deepcopy(x)
            f = {"d2a": U.direct2alpha, "a2d": U.alpha2direct, "d2e": U.direct2eta, "e2d": U.eta2direct}[to]
            if to in ("d2a", "a2d") and bid % 2:
                f = {"d2a": pk.trajopt.mga.direct2alpha, "a2d": pk.trajopt.mga.alpha2direct}[to]
            out, y = attempt(lambda: f(x))
            err, shape = 0, 1
            if out == "ok":
                shape = int(isinstance(y, np.ndarray) and y.shape == (len(want),) and y.dtype == np.float64)
                err = quant(max([abs(float(a) - b) / max(1.0, abs(b)) for a, b in zip(y, want)], default=1e9), 1e-12) if len(y) == len(want) else 10**9
            pyhz.emit(ev=ev, p=p, to=to, form=form, t=t, T=T, q=q, out=out, err=err, shape=shape, kept=int(same(list(keep), list(x)) and type(keep) is type(x)))


pyhz.run(behaviour)
