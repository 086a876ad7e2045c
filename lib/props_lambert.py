"""C07-C09: Lambert's problem."""
from vf import *

ORDER = {"Start": ["th", "dir", "turns", "frac", "ratio", "plane", "unit"], "Solve": ["m"], "Other": ["m"], "Reverse": [], "Spin": [], "Rescale": ["unit"]}
SRC = ["src/lambert_problem.cpp"]
LIBS = ["-lfmt", "-lopenblas", "-llapack", "-lboost_serialization"]
ASSUME = ["transfer angles at least 3 degrees away from 0, 180 and 360 degrees; radius ratios 0.02..50; flight times from 2% of the parabolic one to several turns",
          "flight times are kept 1e-7 (relative) away from the bifurcation times at which the number of solutions changes",
          "concrete geometries of each abstract class are sampled (seeded)", "the abstraction function (chordal-velocity family, universal variables, long double) is trusted"]


def lam(c, focus):
    base = {"N": 72, "MaxTurns": 6}
    reps = c.n(8, 24)
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("lambert", ["lambert.cpp"], SRC, libs=LIBS),
            lambda: dedup(generate("LambertGen", base, c.work, c.n(2400, 16000), 7, c.seed, procs=2)),
            lambda: c.design("LambertMC", cfg({"N": c.n(6, 12), "MaxTurns": c.n(3, 5)}, spec="MCSpec", invs=["TypeOK", "Truncation", "Complete"], props=["Monotone"]), workers=3))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER, "LambertTrace", dict(base, Focus=focus), env={"REPS": str(reps), "VERIF_SEED": str(c.seed)}, procs=6, evals_per_event=reps)
    return c.finish(ASSUME)


OORDER = {"Start": [], "Build": ["s", "tof", "mu", "geo", "cw", "m"], "Copy": ["s", "t", "how"], "Move": ["s", "t", "how"], "Save": ["s", "f", "how"],
          "Load": ["f", "t", "how"], "Look": ["s"]}


def c09(c):
    base = {"NSlots": 4, "NFiles": 2, "MaxId": 100}
    depth = 16
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("lambertobj", ["lambertobj.cpp"], SRC, libs=LIBS),
            lambda: dedup(generate("LambertObjGen", base, c.work, c.n(600, 6000), depth, c.seed, procs=2)),
            lambda: c.design("LambertObjMC", cfg({"NSlots": c.n(2, 3), "NFiles": c.n(1, 2), "MaxId": c.n(3, 4)}, spec="MCSpec", invs=["TypeOK", "Provenance"], props=["OneTarget"]), workers=3))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, OORDER, "LambertObjTrace", base, env={"VERIF_SEED": str(c.seed), "NSLOTS": "4", "NFILES": "2"}, procs=6)
    return c.finish(["collinear data: exactly parallel positions (bitwise multiples)", "observables: every getter and the printed form"])


CHECKS = {"C07": lambda c: lam(c, "sound"), "C08": lambda c: lam(c, "complete"), "C09": c09}
