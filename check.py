#!/usr/bin/env python3
"""Usage: check.py <property id> [--tier quick|thorough]. Exit 0: held; 1: VIOLATION line printed; else: no answer."""
import argparse, glob, importlib, os, shutil, sys, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vf


def setup():
    os.makedirs(vf.BUILD, exist_ok=True)
    fs = sorted(glob.glob(os.path.join(vf.SPEC, "*.tla")))
    r = vf.run(["java", "-Djava.io.tmpdir=" + vf.BUILD, "-cp", vf.JARS, "tla2sany.SANY"] + fs, cwd=vf.SPEC, timeout=600)
    out = r.stdout.decode(errors="replace")
    if r.returncode != 0 or "*** Errors" in out:
        print("specifications do not parse:\n%s" % out[-1500:], file=sys.stderr)
        sys.exit(2)
    print("%d specification modules parse; the checks build what they need themselves" % len(fs))
    sys.exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?", default="")
    ap.add_argument("--setup", action="store_true", help="check that the tools the checks need are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    table = {}
    for p in sorted(glob.glob(os.path.join(HERE, "lib", "props_*.py"))):
        table.update(importlib.import_module(os.path.basename(p)[:-3]).CHECKS)
    os.makedirs(vf.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="work-%s-" % a.prop, dir=vf.BUILD)
    try:
        rc = table[a.prop](vf.Check(a.prop, a.tier, seed, work))
        sys.exit(rc)
    except vf.Failure as e:
        print("no answer: %s" % e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


main()
