"""C06: anomaly conversions."""
from vf import *

ORDER = {"Start": ["cls", "kind", "pos"], "Convert": ["to"], "Domain": ["cls", "from", "to"], "Run": ["cls", "from", "to"]}
ASSUME = ["eccentricities sampled (seeded) in [0,0.999] and [1.001,20]; points on a grid of eccentric anomaly (7.5 degrees) or hyperbolic anomaly",
          "the abstraction function (long double Kepler equation) is trusted"]


def c06(c):
    reps = c.n(16, 48)
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("anomaly", ["anomaly.cpp"], []),
            lambda: dedup(generate("AnomalyGen", {"N": 48}, c.work, c.n(5000, 40000), 8, c.seed, procs=2)),
            lambda: c.design("AnomalyMC", cfg({"N": c.n(16, 48)}, spec="MCSpec", invs=["TypeOK", "SamePoint"], props=["PointKept", "HalfKept"]), workers=3))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER, "AnomalyTrace", {"N": 48}, env={"REPS": str(reps), "VERIF_SEED": str(c.seed)}, procs=6, evals_per_event=reps)
    return c.finish(ASSUME)


CHECKS = {"C06": c06}
