"""C21, C22, C27: Taylor integrators, their caches, Stark problems, the circular restricted three-body problem."""
from props_planet import CORE, LIBS as PLIBS
from vf import *

LIBS = ["-lfmt", "-lboost_serialization", "-pthread"]
STAND_IN = "heyoka is not installed: the integrators are a stand-in written for this check (Taylor series, same interface), so an error of heyoka itself is not seen"
SORDER = {"Start": ["unit"], "Build": ["s", "c"], "SetMu": ["s", "x"], "SetVeff": ["s", "x"], "Copy": ["s", "t", "how"], "Move": ["s", "t", "how"], "Save": ["s", "f", "how"],
          "Load": ["f", "t", "how"], "Tamper": ["s"], "Place": ["k", "o"], "Fly": ["s", "k", "j", "u", "dt", "var", "rest"], "Doomed": ["s", "why", "var"], "Look": ["s"]}


def c22(c):
    base = {"NSlots": 3, "NFiles": 2, "NRegs": 3, "MaxTick": 24}
    small = {"NSlots": 1 if c.quick else 2, "NFiles": 1, "NRegs": 1 if c.quick else 2, "MaxTick": c.n(3, 2)}
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("stark", ["stark.cpp"], ["src/stark_problem.cpp", "src/ta/stark.cpp"], shim=True, libs=LIBS),
            lambda: dedup(generate("StarkGen", base, c.work, c.n(600, 6000), 30, c.seed, procs=2)),
            lambda: c.design("StarkMC", cfg(small, spec="MCSpec", invs=["Bounded", "Returns"], props=["OneTarget", "Apart"]), workers=3))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, SORDER, "StarkTrace", dict(base, Tol=STOL), env={"VERIF_SEED": str(c.seed), "NSLOTS": "3", "NFILES": "2", "NREGS": "3"}, procs=6)
    return c.finish([STAND_IN, "orbits with e in 0..0.45 and 1.3..2.5, thrusts up to 0.02 of gravity, up to 7 time units of flight",
                     "variations are only asked for with nonzero thrust (the thrust magnitude is not differentiable at zero)"])


RORDER = {"Start": [], "Get": ["s", "kind", "tol"], "Copy": ["s", "t", "how"], "SetMu": ["s", "m"], "Place": ["s", "o", "c"], "Fly": ["s", "dt", "how"], "Look": ["kind", "tol"]}


def c27(c):
    base = {"NSlots": 2, "MaxTick": 40, "NOrigins": 6, "NMus": 5, "NTols": 4}
    small = {"NSlots": 2, "MaxTick": c.n(2, 3), "NOrigins": 2, "NMus": 1, "NTols": c.n(1, 2)}
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (
            lambda: build("cr3bp", ["cr3bp.cpp"], ["src/ta/cr3bp.cpp"], shim=True, libs=LIBS),
            lambda: dedup(generate("CR3BPGen", base, c.work, c.n(600, 6000), 25, c.seed, procs=2)),
            lambda: c.design("CR3BPMC", cfg(small, spec="MCSpec", invs=["Bounded", "Back"], props=["Alone"]), workers=3))]
        exe, bs, _ = [f.result() for f in fs]
    c.conform(exe, bs, RORDER, "CR3BPTrace", dict(base, Tol=STOL), env={"VERIF_SEED": str(c.seed), "NSLOTS": "2", "NORIGINS": "6", "NMUS": "5"}, procs=6)
    return c.finish([STAND_IN, "mass parameters 0, 1e-6, 0.012, 0.3, 0.5 and one at random; up to 5 time units of flight",
                     "flights whose derivative grows beyond a million (close passages) are only compared bitwise with the twin integrator"])


QORDER = {"Start": ["gap"], "Ask": ["th", "op", "c", "t", "bad", "w", "b"]}


def c21(c):
    base = {"Caches": {1, 2, 3, 4}, "Tols": {1, 2, 3}}

    def lock(tag, th, n, caches, tols, mutex="Own", props=()):
        t = cfg({"Threads": set(th), "NOps": n, "Caches": set(caches), "Tols": set(tols)}, spec="Spec", invs=["RaceFree", "Exclusive", "Counts"], props=props, deadlock=True) + "CONSTANT DimMutex <- %s\n" % mutex
        if mutex == "Own":
            return c.design("TACacheMC", t, tag=tag, workers=3)
        # the model tells the protocol with the crossed mutex apart
        rc, out = tlc("TACacheMC", t, c.work, tag)
        if "Invariant RaceFree is violated" not in out:
            raise Failure("TACacheMC does not see the race of a size query under the wrong mutex")

    def builds():
        src = ["src/ta/stark.cpp", "src/ta/cr3bp.cpp"]
        ex = build("tacache-tsan", ["tacache.cpp"], src, shim=True, libs=LIBS, extra=["-fsanitize=thread", "-g1"])
        for cmd in ([ex], ["setarch", os.uname().machine, "-R", ex]):
            r = run(cmd, timeout=120, stdin=subprocess.DEVNULL, env=TSAN)
            if r.returncode == 0:
                return cmd, "data races are those ThreadSanitizer reports"
        return [build("tacache", ["tacache.cpp"], src, shim=True, libs=LIBS)], "ThreadSanitizer does not run here: only wrong answers show"

    with cf.ThreadPoolExecutor(5) as ex:
        fs = [ex.submit(f) for f in (
            builds,
            lambda: dedup(generate("TACacheGen", dict(base, NThreads=3, MaxOps=10), c.work, c.n(2400, 24000), 11, c.seed, procs=2)),
            lambda: lock("live", "ab", 2, [1, 2], [1, 2], props=["Answered", "Refines"]),
            lambda: lock("three", "abc", c.n(1, 2), [1, 2], [1, 2], props=["Refines"]),
            lambda: lock("crossed", "ab", 2, [1, 2], [1], "Crossed"))]
        (exe, note), bs = [f.result() for f in fs][:2]
    c.conform(exe, bs, QORDER, "TACacheTrace", base, env=dict(TSAN, VERIF_SEED=str(c.seed), NTHREADS="3"), procs=6, schedules=True)
    return c.finish([STAND_IN, note, "three threads, ten questions, the schedules met in the run (with pauses before questions and while integrators are built)",
                     "the lock protocol itself is explored for every schedule of 2 and 3 threads in the model"])


VORDER = {"Start": [], "Make": ["s", "p", "name", "t", "caps"], "BadName": ["name", "t", "caps"], "BadThr": ["what", "name"], "Reset": ["s"], "Assign": ["s", "t"], "Move": ["s", "t"],
          "Archive": ["s", "t"], "Eph": ["s", "d", "j", "form"], "EphV": ["s", "ds"], "Name": ["s"], "Crowd": ["asks"]}


def c28(c):
    src = ["src/udpla/vsop2013.cpp"] + CORE
    libs = PLIBS + ["-pthread"]

    def builds():
        ex = build("vsop-tsan", ["vsop.cpp"], src, shim=True, libs=libs, extra=["-fsanitize=thread", "-g1"])
        for cmd in ([ex], ["setarch", os.uname().machine, "-R", ex]):
            if run(cmd, timeout=120, stdin=subprocess.DEVNULL, env=TSAN).returncode == 0:
                return cmd, "data races are those ThreadSanitizer reports"
        return [build("vsop", ["vsop.cpp"], src, shim=True, libs=libs)], "ThreadSanitizer does not run here: only wrong answers show"

    def shared(tag, keep, th, nops):
        t = cfg({"Threads": set(th), "Keys": {1, 2}, "NOps": nops, "Keep": keep}, spec="Spec", invs=["TypeOK", "Exclusive", "Alive", "Known"])
        if keep == "own":
            return c.design("VsopMC", t, tag=tag, workers=3)
        rc, out = tlc("VsopMC", t, c.work, tag)
        if "Invariant Alive is violated" not in out:
            raise Failure("VsopMC does not see an object pointing into the code of another")

    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(f) for f in (
            builds,
            lambda: dedup(generate("VsopGen", {"NSlots": 3, "NThreads": 3}, c.work, c.n(1200, 12000), 16, c.seed, procs=2)),
            lambda: shared("own", "own", ["a", "b", "c"], c.n(2, 3)),
            lambda: shared("other", "other", ["a", "b"], 3))]
        (exe, note), bs = [f.result() for f in fs][:2]
    c.conform(exe, bs, VORDER, "VsopTrace", {"NSlots": 3}, env=dict(TSAN, VERIF_SEED=str(c.seed), NSLOTS="3", NTHREADS="3"), procs=6, schedules=True)
    return c.finish(["heyoka is not installed: its VSOP2013 series are replaced by polynomials of their own for each body and threshold, its compiled code by an interpreter", note,
                     "three threads, up to twelve constructions and questions at once, the schedules met in the run"])


TSAN = {"TSAN_OPTIONS": "exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 report_signal_unsafe=0 handle_segv=0 handle_abort=0 handle_sigbus=0 handle_sigill=0 handle_sigfpe=0 history_size=3"}
STOL = 16
CHECKS = {"C21": c21, "C22": c22, "C27": c27, "C28": c28}
