"""C04, C05: conversions between representations of an orbit."""
from vf import *

ORDER = {"Start": ["cls", "unit", "i", "W", "w", "f", "off", "rep"], "Convert": ["to", "wind"], "Make": ["cls", "sgn", "f"]}
SRC = ["src/core_astro/ic2par2ic.cpp", "src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp"]
LIBS = ["-lfmt", "-lopenblas", "-llapack"]
ASSUME = ["angles on a grid of whole degrees (all multiples of 90 degrees included); shapes 0<=e<=0.999, 1.001<=e<=20 sampled per class (seeded)",
          "equinoctial elements used at least 5 degrees away from their singular inclination",
          "the abstraction function (long double geometry) is trusted"]


def elements(c, through, bad, num, depth, reps):
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("elements", ["elements.cpp"], SRC, libs=LIBS),
            lambda: dedup(generate("ElementsGen", {"Through": through, "Bad": bad}, c.work, num, depth, c.seed, procs=2)),
            lambda: c.design("ElementsMC", cfg({"Angles": {0, 30, 90, 180, 200, 270, 345} if c.quick else set(range(0, 360, 15)),
                                                "Incs": {0, 45, 90, 135, 180}}, spec="MCSpec", invs=["TypeOK", "Commutes"]), workers=3))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER, "ElementsTrace", {}, env={"REPS": str(reps), "VERIF_SEED": str(c.seed)}, procs=6, evals_per_event=reps)
    return c.finish(ASSUME)


def c04(c):
    return elements(c, {"ic", "par"}, True, c.n(6000, 60000), 8, c.n(12, 24))


def c05(c):
    return elements(c, {"ic", "par", "eq", "eqr"}, False, c.n(6000, 60000), 9, c.n(10, 24))


CHECKS = {"C04": c04, "C05": c05}
