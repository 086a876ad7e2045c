"""C14: fly-bys."""
from vf import *

ORDER = {"Start": ["unit"], "Arrive": ["s", "th", "k"], "Fly": ["s", "t", "D", "away"], "Spin": ["s", "D", "B"], "Con": ["i", "o", "X"],
         "Reach": ["i", "o", "X", "D", "B", "bd", "ba"]}
SRC = ["src/core_astro/flyby.cpp", "src/planet.cpp", "src/epoch.cpp", "src/linalg.cpp", "src/udpla/keplerian.cpp", "src/core_astro/ic2par2ic.cpp",
       "src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp", "src/core_astro/propagate_lagrangian.cpp", "src/core_astro/stm.cpp"]
LIBS = ["-lfmt", "-lboost_serialization", "-lopenblas", "-llapack"]


def c14(c):
    reps = c.n(8, 24)
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("flyby", ["flyby.cpp"], SRC, shim=True, libs=LIBS),
            lambda: dedup(generate("FlybyGen", {"NSlots": 3}, c.work, c.n(1500, 30000), 20, c.seed, procs=2)),
            lambda: c.design("FlybyMC", cfg({"NSlots": c.n(2, 3), "Step": c.n(15, 45)}, spec="MCSpec", invs=["TypeOK", "Exactly", "Closest", "Symmetric", "Undo", "Triangle"]), workers=4))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER, "FlybyTrace", {"NSlots": 3}, env={"VERIF_SEED": str(c.seed), "NSLOTS": "3", "REPS": str(reps)}, procs=6, evals_per_event=reps)
    return c.finish(["angles on a grid of whole degrees, three speed classes; units and orientations sampled (seeded)",
                     "relative velocities aligned with the planet's velocity leave the plane angle without meaning and are not turned",
                     "kep3::planet is compiled against a stand-in for heyoka's type-erasure header (shim/)"])


CHECKS = {"C14": c14}
