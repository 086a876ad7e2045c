"""C01-C03: motion, agreement of propagators, tangent maps."""
from vf import *

ORDER = {"Start": ["cls", "ori", "unit", "off", "tick", "k"], "Prop": ["m", "dk"], "Vec": ["ds", "stm"], "Stm": ["a", "dk"]}
SRC = ["src/core_astro/propagate_lagrangian.cpp", "src/core_astro/stm.cpp", "src/core_astro/ic2par2ic.cpp", "src/linalg.cpp"]
LIBS = ["-lfmt", "-lopenblas", "-llapack"]
ASSUME = ["bounded shape classes 0<=e<=0.999 and 1.001<=e<=20; parabolic and rectilinear states excluded",
          "concrete orbits of each abstract class are sampled (seeded); phases, arcs and histories come from the specification",
          "the abstraction function (long double closed forms) is trusted"]


def kepler(c, methods, algos, num, depth, reps):
    base = {"N": 48, "KH": 40, "Methods": methods, "Algos": algos}
    exe_f = lambda: build("kepler", ["kepler.cpp"], SRC, libs=LIBS)
    gen_f = lambda: dedup(generate("KeplerGen", dict(base, Grids=0), c.work, num, depth, c.seed, procs=2))
    mc_f = lambda: c.design("KeplerMC", cfg(dict(base, N=8, KH=20, Depth=c.n(2, 3)), spec="MCSpec",
                                            invs=["TypeOK", "TangentIsNetShear", "TangentMatchesNet", "Symplectic", "CropSound"]), workers=3)
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (exe_f, gen_f, mc_f)]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER, "KeplerTrace", base, env={"REPS": str(reps), "VERIF_SEED": str(c.seed)}, procs=6, evals_per_event=reps)
    return c.finish(ASSUME)


def c01(c):
    return kepler(c, {"lag"}, set(), c.n(2400, 20000), 10, c.n(24, 64))


def c02(c):
    return kepler(c, {"lag", "uni", "kep", "vec"}, set(), c.n(2400, 16000), 9, c.n(20, 48))


def c03(c):
    return kepler(c, {"lag"}, {"lagr", "reyn"}, c.n(1500, 10000), 7, c.n(12, 32))


CHECKS = {"C01": c01, "C02": c02, "C03": c03}
