"""Planted bugs: python3 tools/mkseeds.py [id ...] writes seeded/<id>/ from tools/seeds/*.py (each defines S, a list of dicts)
and confirms each in a scratch copy: it builds, passes the 24 stable tests, demo.sh is 0 without it and not 0 with it.
--check also runs the property's quick check against the copy. No check reads any of this."""
import sys, os, json, subprocess, shutil, glob, importlib.util, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SRC = {
    "core": "src/core_astro/propagate_lagrangian.cpp src/core_astro/stm.cpp src/core_astro/ic2par2ic.cpp src/core_astro/ic2eq2ic.cpp src/core_astro/eq2par2eq.cpp src/linalg.cpp",
    "lambert": "src/lambert_problem.cpp src/core_astro/propagate_lagrangian.cpp src/core_astro/stm.cpp src/core_astro/ic2par2ic.cpp src/linalg.cpp",
    "sf": "src/leg/sims_flanagan.cpp src/leg/sf_checks.cpp src/core_astro/propagate_lagrangian.cpp src/core_astro/stm.cpp src/core_astro/ic2par2ic.cpp src/linalg.cpp",
    "planet": "src/planet.cpp src/epoch.cpp src/udpla/keplerian.cpp src/udpla/jpl_lp.cpp src/core_astro/flyby.cpp src/core_astro/propagate_lagrangian.cpp src/core_astro/stm.cpp src/core_astro/ic2par2ic.cpp src/core_astro/ic2eq2ic.cpp src/core_astro/eq2par2eq.cpp src/linalg.cpp",
    "epoch": "src/epoch.cpp",
    "none": "",
    "ta": "src/ta/stark.cpp src/ta/cr3bp.cpp src/stark_problem.cpp src/epoch.cpp",
    "vsop": "src/udpla/vsop2013.cpp src/planet.cpp src/epoch.cpp src/core_astro/propagate_lagrangian.cpp src/core_astro/stm.cpp src/core_astro/ic2par2ic.cpp src/core_astro/ic2eq2ic.cpp src/core_astro/eq2par2eq.cpp src/linalg.cpp",
    "hf": "src/leg/sims_flanagan_hf.cpp src/leg/sf_checks.cpp src/ta/stark.cpp src/epoch.cpp src/linalg.cpp",
}
SHIM = ("planet", "epoch", "ta", "hf", "vsop")
SH = """#!/bin/bash
# run in /repo after the build: 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -f "$t/demo"; rmdir "$t"' EXIT
g++ -std=c++20 -O1 -w -DNDEBUG -DBOOST_ALLOW_DEPRECATED_HEADERS %s%s-Iinclude -I_build/include "$d/demo.cpp" %s \\
    -o "$t/demo" -lfmt -lboost_serialization -lopenblas -llapack -pthread || exit 98
OPENBLAS_NUM_THREADS=1 timeout 120 "$t/demo"
"""
PYSH = """#!/bin/bash
# run in /repo after the build: 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/o" && cp -r pykep "$t/pykep" && echo '__version__ = "0"' > "$t/pykep/_version.py" || exit 98
find src pykep -name '*.cpp' | xargs -P 8 -I{} sh -c 'g++ -std=c++20 -O1 -fPIC -w -DNDEBUG -DBOOST_ALLOW_DEPRECATED_HEADERS -I"$1/shim" -Iinclude -I_build/include -I/usr/include/python3.12 -c {} -o "$2/o/$(echo {} | tr / _).o"' sh "$d" "$t" || exit 98
g++ -shared "$t"/o/*.o -o "$t/pykep/core.so" -lfmt -lboost_serialization -lopenblas -llapack -lpthread || exit 98
cd "$t" && PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$t:$d/pystubs" timeout 120 /opt/veriftools/pyvenv/bin/python -W ignore "$d/demo.py"
"""
PRE = """#include <array>
#include <cmath>
#include <cstdio>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
using V3 = std::array<double, 3>;
using PV = std::array<std::array<double, 3>, 2>;
#define BAD(...) do { std::printf(__VA_ARGS__); std::printf("\\n"); return 1; } while (0)
static double dist(const V3 &a, const V3 &b) { return std::hypot(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
static double norm(const V3 &a) { return std::hypot(a[0], a[1], a[2]); }
"""
sh = lambda c, **k: subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(s, check):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = "/tmp/seed-%s" % s["id"]
    shutil.rmtree(w, ignore_errors=True)
    sh(["git", "clone", "-q", REPO, w])
    out = []
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            n = t.count(old)
            if n != s.get("n", 1):
                return "%s: text found %d times in %s" % (s["id"], n, f)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        shim = s["src"] in SHIM
        if shim:
            for f in ("fmt/chrono.h", "heyoka/detail/tanuki.hpp") + (tuple(os.path.relpath(x, V + "/shim") for x in glob.glob(V + "/shim/heyoka/**/*.hpp", recursive=True)) if s["src"] in ("ta", "hf", "vsop") else ()):
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                shutil.copy(os.path.join(V, "shim", f), os.path.join(d, f))
        if s["src"] == "py":
            for k in ("shim", "pystubs"):
                shutil.rmtree(os.path.join(d, k), ignore_errors=True)
                shutil.copytree(os.path.join(V, k), os.path.join(d, k), ignore=shutil.ignore_patterns("__pycache__"))
            open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        else:
            open(os.path.join(d, "demo.cpp"), "w").write(PRE + s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(PYSH if s["src"] == "py" else SH % ('-I"$d" ' if shim else "", s.get("flags", "") + " ", SRC[s["src"]]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        b = sh("CC=gcc CXX=g++ cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DKEP3_ROOT=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null && ninja -C %s/_build -j4" % (w, w, w))
        if b.returncode:
            return s["id"] + ": DOES NOT BUILD\n" + b.stdout[-3000:]
        rc = open("/opt/vp/run_catch.py").read().replace("/repo/_build", w + "/_build")
        t = sh(["python3", "-c", rc, w + "/catch.txt"])
        res = open(w + "/catch.txt").read().splitlines()
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        passed = {l[5:] for l in res if l.startswith("PASS ")}
        if not stable <= passed:
            return s["id"] + ": TESTS FAIL: " + ", ".join(sorted(stable - passed))
        out.append("tests ok")
        # demo: patched, then unpatched
        r1 = sh([d + "/demo.sh"], cwd=w)
        out.append("demo patched rc=%d (%s)" % (r1.returncode, r1.stdout.strip()[-120:]) + ("" if r1.returncode not in (0, 98, 99) else "  <-- WRONG"))
        r0 = sh([d + "/demo.sh"], cwd=REPO)
        out.append("clean rc=%d%s" % (r0.returncode, "" if r0.returncode == 0 else "  <-- WRONG " + r0.stdout[-800:]))
        if check:
            r = sh(["python3", V + "/check.py", s["property"], "--tier", "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED="1"))
            last = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            out.append("check rc=%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 and last else "MISSED " + r.stdout[-300:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return s["id"] + ": " + " | ".join(out)


def main():
    check = "--check" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    S = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        S += m.S
    assert len({s["id"] for s in S}) == len(S)
    S = [s for s in S if not ids or s["id"] in ids or s["property"] in ids]
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda s: one(s, check), S):
            print(r, flush=True)


main()
