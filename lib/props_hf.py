"""C23, C25, C26: high-fidelity Sims-Flanagan legs, on the stand-in for heyoka."""
from vf import *

SRC = ["src/leg/sims_flanagan_hf.cpp", "src/leg/sf_checks.cpp", "src/linalg.cpp", "src/ta/stark.cpp"]
LIBS = ["-lfmt", "-lopenblas", "-llapack", "-lboost_serialization", "-pthread"]
ORDER = {"Start": ["unit"], "Build": ["s", "c", "thr", "extra", "how"], "SetAll": ["s", "c", "thr", "extra", "how"], "Part": ["s", "p", "thr", "extra"], "Chrom": ["s", "p", "thr"],
         "Default": ["s"], "Scalar": ["s", "f", "x"], "Free": ["s", "f", "x"], "End": ["s", "start", "x", "m"], "Cut": ["s", "x"], "Thr": ["s", "thr", "extra", "how"], "Rev": ["s", "thr"],
         "Self": ["s"], "Fly": ["s", "fw"], "Copy": ["s", "t", "how"], "Move": ["s", "t", "how"], "Save": ["s", "f", "how"], "Load": ["f", "t", "how"],
         "Look": ["s", "phys", "smooth", "k", "fw", "bw", "rows"]}
ASSUME = ["heyoka is not installed: the integrators are a stand-in written for this check (Taylor series, same interface), so an error of heyoka itself is not seen",
          "cuts are multiples of 1/64, so that floor(total*cut) is exact",
          "orbits with e in 0..0.4 and 1.3..2.5, total velocity changes up to about 0.15 of the circular velocity, up to 7 time units of flight",
          "values are only judged for legs with positive specific impulse, gravitational parameter and masses, tolerances of 1e-6 and less",
          "gradients are only judged when no segment has zero thrust (the thrust magnitude is not differentiable there)"]
TOL = {"value": 0, "mismatch": 16, "grad": 12}


def hf(c, focus):
    base = {"NSlots": 3, "NFiles": 2}
    gen = dict(base, MaxLen=5 if focus == "value" else 10, Wild=1 if focus == "value" else 0, Tols=frozenset([1, 2, 3, 4]) if focus != "grad" else frozenset([1, 2]), Smoothly=focus == "grad")
    depth = 18
    num = {"value": c.n(260, 2600), "mismatch": c.n(420, 4200), "grad": c.n(240, 2400)}[focus]
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("hf", ["hf.cpp"], SRC, shim=True, libs=LIBS),
            lambda: dedup(generate("HFGen", gen, c.work, num, depth, c.seed, procs=2)),
            lambda: c.design("HFMC", cfg({"NSlots": 1 if c.quick else 2, "NFiles": 1}, spec="MCSpec", invs=["Sound", "Counts"], props=["OneTarget", "FlownKept"], constraint="Small"), workers=3),
            lambda: c.design("HFTimeline", cfg({"MaxN": c.n(4, 9), "MaxK": c.n(4, 6)}, spec="Spec", invs=["Enabled", "Once", "Meet", "Spread"]), workers=2))]
        exe, bs, _, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER, "HFTrace", dict(base, Focus=focus, Tol=TOL[focus]), env={"VERIF_SEED": str(c.seed), "NSLOTS": "3", "NFILES": "2", "FOCUS": focus}, procs=6)
    return c.finish(ASSUME)


CHECKS = {"C23": lambda c: hf(c, "mismatch"), "C25": lambda c: hf(c, "grad"), "C26": lambda c: hf(c, "value")}
