"""C10-C13: Sims-Flanagan legs."""
from vf import *

SRC = ["src/leg/sims_flanagan.cpp", "src/leg/sf_checks.cpp", "src/linalg.cpp", "src/core_astro/propagate_lagrangian.cpp", "src/core_astro/stm.cpp", "src/core_astro/ic2par2ic.cpp"]
LIBS = ["-lfmt", "-lopenblas", "-llapack", "-lboost_serialization"]
ORDER = {"Start": ["unit"], "Build": ["s", "c", "thr", "extra"], "SetAll": ["s", "c", "thr", "extra"], "Default": ["s"], "Scalar": ["s", "f", "x"], "Free": ["s", "f", "x"],
         "Cut": ["s", "x"], "Thr": ["s", "thr", "extra", "how"], "Rev": ["s", "thr"], "Self": ["s"], "Fly": ["s", "ops"], "Copy": ["s", "t", "how"], "Move": ["s", "t", "how"],
         "Save": ["s", "f", "how"], "Load": ["f", "t", "how"], "Look": ["s", "phys", "fw", "bw"]}
ASSUME = ["cuts are multiples of 1/64, so that floor(total*cut) is exact", "orbits with e in 0..0.4 and 1.3..2.5, total velocity changes up to about 0.3 of the circular velocity, up to 9 time units of flight",
          "the constraint and gradient values are only judged for legs with positive specific impulse, gravitational parameter and masses",
          "the derivative of the norm of a zero throttle is taken as zero (it is not differentiable there)"]


def sf(c, focus):
    small = focus in ("valid", "history")
    base = {"NSlots": 3, "NFiles": 2}
    gen = dict(base, MaxLen=6 if focus != "mismatch" else 14, Wild=1 if small else 0)
    depth = 18 if small else 22
    num = {"valid": c.n(900, 12000), "history": c.n(260, 3000), "mismatch": c.n(900, 9000), "grad": c.n(420, 5000)}[focus]
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("sf", ["sf.cpp"], SRC, libs=LIBS),
            lambda: dedup(generate("SFGen", gen, c.work, num, depth, c.seed, procs=2)),
            lambda: c.design("SFMC", cfg({"NSlots": 1 if c.quick else 2, "NFiles": 1}, spec="MCSpec", invs=["Sound", "Counts"], props=["OneTarget", "FlownCut"], constraint="Small"), workers=3),
            lambda: c.design("SFTimeline", cfg({"MaxN": c.n(6, 16)}, spec="Spec", invs=["MidSegment", "Once", "Meet"]), workers=2))]
        exe, bs, _, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER, "SFTrace", dict(base, Focus=focus, Tol=TOL[focus]), env={"VERIF_SEED": str(c.seed), "NSLOTS": "3", "NFILES": "2", "FOCUS": focus}, procs=6)
    return c.finish(ASSUME)


TOL = {"valid": 0, "history": 0, "mismatch": 16, "grad": 8}
CHECKS = {"C10": lambda c: sf(c, "valid"), "C11": lambda c: sf(c, "mismatch"), "C12": lambda c: sf(c, "grad"), "C13": lambda c: sf(c, "history")}
