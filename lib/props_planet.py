"""C17-C20: planets."""
from vf import *

CORE = ["src/planet.cpp", "src/epoch.cpp", "src/linalg.cpp", "src/core_astro/ic2par2ic.cpp", "src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp",
        "src/core_astro/propagate_lagrangian.cpp", "src/core_astro/stm.cpp"]
LIBS = ["-lfmt", "-lboost_serialization", "-lopenblas", "-llapack"]
SHIM = "kep3::planet is compiled against a stand-in for heyoka's type-erasure header (shim/)"
ORDER17 = {"Start": [], "Make": ["s", "type", "cls", "ori", "unit"], "Assign": ["s", "t"], "Params": ["s"], "Eph": ["s", "k", "form"], "EphV": ["s", "ks"],
           "Period": ["s", "k", "form"], "Elements": ["s", "k", "form", "el"]}


def c17(c):
    reps = c.n(4, 12)
    types = set(range(530))
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("planet", ["planet.cpp"] + ["planet_t%d.cpp" % i for i in range(8)], CORE, shim=True, libs=LIBS),
            lambda: dedup(generate("PlanetDispatchGen", {"NSlots": 2, "Types": types}, c.work, c.n(1500, 30000), 24, c.seed, procs=2)),
            lambda: c.design("PlanetDispatchMC", cfg({"NSlots": 1, "Types": types}, spec="MCSpec", invs=["Answerable", "Monotone", "LookAlike"]), workers=2))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER17, "PlanetDispatchTrace", {"NSlots": 2, "Types": types}, env={"VERIF_SEED": str(c.seed), "NSLOTS": "2", "REPS": str(reps)}, procs=6, evals_per_event=reps)
    return c.finish(["all 512 sets of optional capabilities and 18 look-alikes; orbits sampled per class (seeded)", SHIM])


ORDER18 = {"Start": [], "Make": ["s", "kind", "tag", "how"], "Copy": ["s", "t", "how"], "Move": ["s", "t", "how"], "Swap": ["s", "t"], "Mutate": ["s", "tag"],
           "Extract": ["s", "kind"], "Save": ["s", "f", "how"], "Load": ["f", "t"]}


def c18(c):
    big = {"NSlots": 3, "NFiles": 2, "Tags": set(range(1, 9))}
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("planetval", ["planetval.cpp"], CORE + ["src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp"], shim=True, libs=LIBS),
            lambda: dedup(generate("PlanetValueGen", big, c.work, c.n(1000, 20000), 24, c.seed, procs=2)),
            lambda: c.design("PlanetValueMC", cfg({"NSlots": c.n(2, 3), "NFiles": 1, "Tags": {1, 2} if c.quick else {1}}, spec="MCSpec", invs=["TypeOK", "FilesOK"], props=["Frame", "Kept"]), workers=3))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER18, "PlanetValueTrace", big, env={"VERIF_SEED": str(c.seed), "NSLOTS": "3", "NFILES": "2", "NTAGS": "8"}, procs=6, evals_per_event=3)
    return c.finish(["the objects held are two user types, the library's two own and the default; 8 variants each, differing in one constituent at a time",
                     SHIM + ": copying and moving are the stand-in's, what they copy, the archives, extraction and every answer are kep3's"])


ORDER19 = {"Start": [], "Make": ["s", "via", "cls", "unit", "i", "W", "w", "pos", "ref", "turn"], "Bad": ["kind", "via", "cls", "i", "f"], "Assign": ["s", "t"],
           "Eph": ["s", "k", "form"], "EphV": ["s", "ks"], "Period": ["s", "k", "form"], "Elements": ["s", "k", "form", "el"], "Get": ["s"]}


def c19(c):
    reps = c.n(6, 16)
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("kepplanet", ["kepplanet.cpp"], CORE + ["src/udpla/keplerian.cpp"], shim=True, libs=LIBS),
            lambda: dedup(generate("KepPlanetGen", {"NSlots": 2}, c.work, c.n(2500, 40000), 20, c.seed, procs=2)),
            lambda: c.design("KepPlanetMC", cfg({"NSlots": 1, "Angles": {0, 30, 90, 345} if c.quick else {0, 30, 90, 180, 200, 270, 345}, "Incs": {0, 45, 135, 180}, "Turns": {3, 5}, "Refs": {0, 2}},
                                                spec="MCSpec", invs=["TypeOK", "Periodic", "Flow", "Consistent"]), workers=1))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER19, "KepPlanetTrace", {"NSlots": 2}, env={"VERIF_SEED": str(c.seed), "NSLOTS": "2", "REPS": str(reps)}, procs=6, evals_per_event=reps)
    return c.finish(["angles in whole degrees, times in multiples of 3/128 day; shapes and units sampled per class (seeded)", SHIM])


ORDER20 = {"Start": ["row"], "Make": ["s", "p", "name", "caps", "row"], "Bad": ["name", "caps"], "Assign": ["s", "t"], "Eph": ["s", "d", "j", "form"], "EphV": ["s", "ds"],
           "Elements": ["s", "d", "j", "form", "el"], "Period": ["s", "d", "form"], "Get": ["s"]}


def c20(c):
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("jpllp", ["jpllp.cpp"], CORE + ["src/udpla/jpl_lp.cpp"], shim=True, libs=LIBS),
            lambda: dedup(generate("JplLpGen", {"NSlots": 2}, c.work, c.n(1500, 40000), 24, c.seed, procs=2)),
            lambda: c.design("JplLpMC", cfg({"NSlots": 2}, spec="MCSpec", invs=["TypeOK", "Table", "Third", "Bounded"]), workers=1))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER20, "JplLpTrace", {"NSlots": 2}, env={"VERIF_SEED": str(c.seed), "NSLOTS": "2"}, procs=6)
    return c.finish(["the table in the specification is JPL's (Keplerian elements for approximate positions, 1800-2050)", "times in multiples of 1/128 day", SHIM])


CHECKS = {"C20": c20, "C19": c19, "C17": c17, "C18": c18}
