"""C24, C29-C32: what pykep adds in Python."""
from vf import *

PYB = "pybind11 is not installed: pykep's extension module is compiled against a stand-in for it written for this check (shim/pybind11), so an error of pybind11 itself is not seen"
PYS = "matplotlib, sgp4, spiceypy are Python stand-ins (pystubs/)"
GENES = ["g", "q", "total"]
MORDER = {"Start": [], "T0": ["l", "lo", "hi", "kind"], "Seq": ["l", "n", "sys"], "Make": ["p", "enc", "lt", "ls", "tofl", "tofu", "multi", "insert", "vinf", "rp", "e"], "Ready": ["p", "which"],
          "Fault": ["what", "lt", "ls"], "Copy": ["p", "q", "how"], "Look": ["l"], "Box": ["p"], "Cost": ["p", "t8", "T"] + GENES + ["form"], "Ship": ["p", "s", "t8", "T"] + GENES + ["form"],
          "Tell": ["p", "t8", "T"] + GENES, "Short": ["p", "d"], "Ask": ["s", "t8", "how"], "Conv": ["p", "to", "form", "t", "T", "q"]}


def c24(c):
    base = {"NLists": 2, "NProbs": 3, "NShips": 2}
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: pykep("mga.py"),
            lambda: dedup(generate("MGAGen", base, c.work, c.n(1200, 12000), 22, c.seed, procs=2)),
            lambda: c.design("MGAMC", cfg({"NLists": 1, "NProbs": c.n(1, 2), "NShips": 1, "MaxT": c.n(4, 6), "MaxLegs": 3, "Slack": 2}, spec="MCSpec",
                                          invs=["Same", "Total", "InBox", "Scale", "Ordered", "BoxLen", "BoxOrder"], props=["Mine", "Kept"]), workers=3))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, MORDER, "MGATrace", dict(base, Tol=MTOL), env={"VERIF_SEED": str(c.seed), "NLISTS": "2"}, procs=8)
    return c.finish([PYB, PYS, "1 to 5 legs; bodies in six gravity fields, some written in Python; whole days per leg, launch epochs in eighths of a day",
                     "costs are compared within what moving the encounters by a nanoday does to them"])


PORDER = {"Start": [], "Class": ["c", "st"], "Change": ["c", "m", "s"], "New": ["u", "c", "g"], "Drop": ["u"], "Poke": ["u", "g"], "Wrap": ["p", "u"], "Lib": ["p", "k", "t8"], "Misuse": ["what"],
          "Copy": ["p", "q", "how"], "Deep": ["p", "q", "u"], "Pair": ["p", "q", "a", "b", "u", "w"], "Grab": ["p"], "Clear": ["p"], "Ask": ["p", "what", "t8", "ts", "f", "how"],
          "Extract": ["p", "asked", "c"], "Osc": ["p", "q", "t8", "mu"], "Census": []}


def c30(c):
    base = {"NObjs": 5, "NSlots": 4, "NClasses": 3}
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: pykep("pyplanet.py"),
            lambda: dedup(generate("PyPlanetGen", base, c.work, c.n(1200, 12000), 40, c.seed, procs=2)),
            lambda: c.design("PyPlanetMC", cfg({"NObjs": 2, "NSlots": 2, "NClasses": 1, "MaxG": 1, "Deeper": c.n(False, True)}, spec="MCSpec",
                                               invs=["Living", "Total", "Ladder"], props=["Isolation", "Separate"], constraint="Few"), workers=3))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, PORDER, "PyPlanetTrace", dict(base, Tol=10), env={"VERIF_SEED": str(c.seed), "NCLASSES": "3", "NSLOTS": "4"}, procs=8)
    return c.finish([PYB, PYS, "the ephemerides of the library's own planets are compared with themselves here (C17-C20, C28 are about them)"])


FORDER = {"Start": [], "Make": ["p", "kind", "how", "v"], "Set": ["p", "f", "c", "how"], "Bad": ["p", "b"], "Copy": ["p", "q", "how"], "Read": ["p"], "Eval": ["p"], "Keep": ["p"], "Look": ["p"],
          "Epoch": ["k", "how", "d", "s", "us"], "Move": ["a", "b", "how", "sign", "d", "s", "us"], "CopyEpoch": ["a", "b", "how"], "Compare": ["a", "b"], "Tell": ["k"], "Fun": ["f", "shape"],
          "Map": ["f", "form"], "Kepler": ["how", "stm", "n"], "Fly": ["f", "how"], "Consts": []}


def c31(c):
    base = {"NVals": 4, "NEpochs": 3}
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(f) for f in (
            lambda: pykep("pyface.py"),
            lambda: dedup(generate("PyFaceGen", base, c.work, c.n(1200, 12000), 40, c.seed, procs=2)),
            lambda: c.design("PyFaceMC", cfg({"NVals": 2, "NEpochs": 1}, spec="MCSpec", invs=["Typed", "Segments"], props=["Apart", "Fixed", "Kept"]), workers=2, tag="values"),
            lambda: c.design("PyFaceMC", cfg({"NVals": 1, "NEpochs": c.n(2, 3)}, spec="MCEpochSpec", invs=["Ordered", "Back", "Forward"]), workers=2, tag="epochs"))]
        exe, bs = [f.result() for f in fs][:2]
    c.conform(exe, bs, FORDER, "PyFaceTrace", dict(base, Tol=10), env={"VERIF_SEED": str(c.seed), "NVALS": "4", "NEPOCHS": "3"}, procs=8)
    return c.finish([PYB, PYS, "functions and maps are asked within the usual ranges of their arguments (C01-C09, C14 go to the edges)",
                     "the Taylor integrators handed to Python are not examined: the conversion of their type is heyoka's"])


DORDER = {"Start": [], "Make": ["p", "sid", "kind", "nseg", "t0", "tof", "mf", "vinf", "grad", "cut8", "sys", "body", "how"], "Default": ["p", "k"], "Copy": ["p", "q"],
          "Fit": ["p", "x", "form"], "Grad": ["p", "x", "form"], "Bounds": ["p"], "Counts": ["p"], "Sparsity": ["p"], "Pretty": ["p", "x"], "Plot": ["p", "x"]}


def c29(c):
    base = {"NProbs": 3, "MaxSeg": 5}
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: pykep("pydirect.py"),
            lambda: dedup(generate("DirectGen", base, c.work, c.n(600, 6000), 30, c.seed, procs=2)),
            lambda: c.design("DirectMC", cfg({"NProbs": c.n(1, 2), "MaxSeg": c.n(3, 4)}, spec="MCSpec", invs=["Sound", "Inside", "Box", "Functional"], props=["Mine"]), workers=2))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, DORDER, "DirectTrace", dict(base, Tol=10), env={"VERIF_SEED": str(c.seed), "NPROBS": "3"}, procs=8)
    return c.finish([PYB, PYS, "1 to 5 segments (10 with the settings of the defaults), any cut in eighths; planets that are Keplerian, of the low-precision ephemerides, or written in Python",
                     "gradients are compared with differences, away from throttles of nothing; those with respect to times are exact for Keplerian bodies only, as the code says"])


LORDER = {"Start": [], "Axes": ["a", "w"], "Sun": ["a", "kw"], "Place": ["a", "g", "t8", "form", "u"], "Orbit": ["a", "g", "range", "t8", "d8", "n", "u"], "Lambert": ["a", "g", "sol", "n", "u"],
          "Arc": ["a", "g", "n", "u", "form"], "Leg": ["a", "g", "nseg", "cut8", "n", "grid", "mid", "push", "u"], "Hf": ["a", "g", "nseg", "cut8", "n", "grid", "mid", "push", "u"],
          "Mga": ["a", "g", "legs", "ids", "n", "u", "fresh"], "Direct": ["a", "g", "planets", "nseg", "cut8", "grid", "mid", "push", "u", "fresh"], "System": ["a", "bodies", "t", "sizes"],
          "Theta": ["g", "n", "stm"], "Look": ["a"]}


def c32(c):
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: pykep("pyplots.py"),
            lambda: dedup(generate("PlotsGen", {"NAxes": 2, "MaxSeg": 5}, c.work, c.n(600, 6000), 24, c.seed, procs=2)),
            lambda: c.design("PlotsMC", cfg({"NAxes": c.n(1, 2), "MaxSeg": c.n(3, 4), "MaxPoints": 3}, spec="MCSpec", invs=["Shown"], props=["Grow", "Alone"]), workers=2))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, LORDER, "PlotsTrace", {"NAxes": 2, "Tol": 10}, env={"VERIF_SEED": str(c.seed), "NAXES": "2"}, procs=8)
    return c.finish([PYB, PYS, "axes record what they are given; what matplotlib makes of it is not examined, nor colours and markers",
                     "curves have 2 to 9 points, legs 1 to 5 segments, any cut in eighths; curves through other points than the documented grids are reported"])


MTOL = 10
CHECKS = {"C32": c32, "C29": c29, "C24": c24, "C30": c30, "C31": c31}
