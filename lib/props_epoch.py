"""C15, C16: epochs."""
from vf import *

SRC = ["src/epoch.cpp"]
LIBS = ["-lfmt", "-lboost_serialization"]
ORDER = {"Start": [], "Cal": ["s", "f"], "Count": ["s", "type", "d", "k"], "Since": ["s", "kind", "x"], "Shift": ["s", "kind", "x", "sign"], "ShiftTo": ["s", "t", "kind", "x", "sign"],
         "Copy": ["s", "t", "how"], "Save": ["s", "f", "how"], "Load": ["f", "t"], "Query": ["s", "t"], "Parse": ["s", "f", "k", "nd", "hurt", "at", "str"], "Print": ["s"], "Reparse": ["s", "t"]}


def epochs(c, strings):
    base = {"NSlots": 3, "NFiles": 1}
    lo, hi = (1890, 2010) if c.quick else (-410, 810)
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("epoch", ["epoch.cpp"], SRC, shim=True, libs=LIBS),
            lambda: dedup(generate("EpochGen", dict(base, Strings=int(strings)), c.work, c.n(800, 20000), 20, c.seed, procs=2)),
            lambda: c.design("EpochMC", cfg(dict(base, From=5000 + lo, To=5000 + hi), spec="MCSpec", invs=["Calendar", "Origin", "Overflow", "Algebra"]), workers=2))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, ORDER, "EpochTrace", base, env={"VERIF_SEED": str(c.seed), "NSLOTS": "3", "NFILES": "1"}, procs=6)
    return c.finish(["day counts are built from multiples of 1/128 day (exact in microseconds); years -32767..32767",
                     "printing is checked in years 0..9999, with time-point formatting delegated to std::format (fmt >= 10 is not installed)"])


CHECKS = {"C15": lambda c: epochs(c, False), "C16": lambda c: epochs(c, True)}
