"""Machinery shared by all checks: build /repo's sources, run TLC, replay behaviours, validate traces, report."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = os.environ.get("VERIF_CXX", "g++")
JOBS = max(2, min(8, os.cpu_count() or 4))


class Failure(Exception):
    """The check itself could not do its work: neither a pass nor a violation."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout=900, env=None, cwd=None, stdin=None, stdout=None):
    e = dict(os.environ)
    e.update({"OPENBLAS_NUM_THREADS": "1", "TZ": "UTC", "LC_ALL": "C.UTF-8"})
    if env:
        e.update(env)
    return subprocess.run(cmd, timeout=timeout, env=e, cwd=cwd, stdin=stdin,
                          stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE)


# ------------------------------------------------------------------ building
def _hash_tree(dirs, exts=(".hpp", ".h", ".in")):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def _config_hpp():
    """include/kep3/config.hpp as the build system would generate it."""
    with open(os.path.join(REPO, "config.hpp.in")) as f:
        t = f.read()
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        m = re.search(r"project\(kep3 VERSION ([0-9.]+)", f.read())
    ver = m.group(1) if m else "0.0.1"
    parts = (ver.split(".") + ["0", "0"])[:3]
    for k, v in (("VERSION", ver), ("VERSION_MAJOR", parts[0]), ("VERSION_MINOR", parts[1]), ("VERSION_PATCH", parts[2])):
        t = t.replace("@kep3_%s@" % k, v)
    d = os.path.join(BUILD, "gen", "kep3")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.hpp")
    old = open(p).read() if os.path.exists(p) else None
    if old != t:
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(t)
        os.replace(tmp, p)
    return os.path.join(BUILD, "gen")


def build(name, harness, repo_src, shim=False, libs=(), extra=(), shared=False):
    """Compiles /repo's current sources and a harness into one executable (content-addressed object cache)."""
    gen = _config_hpp()
    inc = []
    if shim:
        inc += ["-I" + os.path.join(VERIF, "shim")]
    inc += ["-I" + os.path.join(REPO, "include"), "-I" + gen, "-I" + os.path.join(VERIF, "harness")]
    flags = ["-w", "-std=c++20", "-O2", "-DNDEBUG", "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-fPIC"] + list(extra)
    tree = _hash_tree([os.path.join(REPO, "include"), os.path.join(VERIF, "harness"), gen]
                      + ([os.path.join(VERIF, "shim")] if shim else []) + ([os.path.join(REPO, "pykep")] if shared else []))
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    jobs, objs = [], []
    for src in [os.path.join(REPO, s) for s in repo_src] + [os.path.join(VERIF, "harness", h) for h in harness]:
        with open(src, "rb") as f:
            key = hashlib.sha256((tree + " ".join(flags + inc) + src).encode() + f.read()).hexdigest()[:32]
        o = os.path.join(BUILD, "obj", key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, o))

    def cc(j):
        src, o = j
        tmp = o + ".%d.tmp.o" % os.getpid()
        r = run([CXX] + flags + inc + ["-c", src, "-o", tmp], timeout=800)
        if r.returncode != 0:
            raise Failure("cannot compile %s:\n%s" % (src, r.stderr.decode(errors="replace")[-4000:]))
        os.replace(tmp, o)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(cc, jobs))
    key = hashlib.sha256("".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, name + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        r = run([CXX] + (["-shared"] if shared else []) + objs + ["-o", tmp] + list(extra) + list(libs), timeout=600)
        if r.returncode != 0:
            raise Failure("cannot link %s:\n%s" % (name, r.stderr.decode(errors="replace")[-4000:]))
        os.replace(tmp, exe)
    return exe


# ----------------------------------------------------------------------- TLC
def tla_val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_val(x) for x in sorted(v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_val(x) for x in v) + ">>"
    raise TypeError(v)


def cfg(consts=None, spec=None, invs=(), props=(), post=None, constraint=None, view=None, deadlock=False, init=None, next=None):
    s = ""
    if spec:
        s += "SPECIFICATION %s\n" % spec
    if init:
        s += "INIT %s\nNEXT %s\n" % (init, next)
    for k, v in (consts or {}).items():
        s += "CONSTANT %s = %s\n" % (k, tla_val(v))
    for i in invs:
        s += "INVARIANT %s\n" % i
    for i in props:
        s += "PROPERTY %s\n" % i
    if constraint:
        s += "CONSTRAINT %s\n" % constraint
    if view:
        s += "VIEW %s\n" % view
    if post:
        s += "POSTCONDITION %s\n" % post
    s += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    return s


def tlc(module, cfgtext, work, tag, args=(), env=None, workers=1, heap="2g", timeout=800, stack="16m", jopts=()):
    cf_path = os.path.join(work, "%s-%s.cfg" % (module, tag))
    with open(cf_path, "w") as f:
        f.write(cfgtext)
    meta = os.path.join(work, "meta-%s-%s" % (module, tag))
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Djava.io.tmpdir=" + work, "-Xmx" + heap, "-Xss" + stack, "-XX:TieredStopAtLevel=%d" % (4 if workers > 1 else 4)] + list(jopts) + \
          ["-cp", JARS, "tlc2.TLC", "-config", cf_path, "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"] + \
          list(args) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = run(cmd, timeout=timeout, env=env, cwd=work)
    except subprocess.TimeoutExpired:
        raise Failure("TLC timed out on %s (%s)" % (module, tag))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode(errors="replace")
    return r.returncode, out


def tlc_stats(out):
    m = re.findall(r"([0-9,]+) states generated, ([0-9,]+) distinct states found", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def model_check(module, cfgtext, work, tag="mc", workers=4, heap="4g", timeout=800, args=(), expect_actions=None):
    rc, out = tlc(module, cfgtext, work, tag, args=tuple(args), workers=workers, heap=heap, timeout=timeout)
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        raise Failure("design model %s (%s) does not check:\n%s" % (module, tag, out[-3500:]))
    g, d = tlc_stats(out)
    if d < 2:
        raise Failure("design model %s (%s) is vacuous: %d states" % (module, tag, d))
    return {"module": module, "config": tag, "states": d, "transitions": g}


def generate(module, consts, work, num, depth, seed, tag="gen", spec="GenSpec", timeout=600, extra_env=None, procs=1):
    """Behaviours of the specification, one JSON list per line."""
    res = []

    def one(i):
        outf = os.path.join(work, "%s-%s-%d.ndjson" % (module, tag, i))
        c = dict(consts)
        c["Depth"] = depth
        c["OutFile"] = outf
        rc, out = tlc(module, cfg(c, spec=spec, invs=["Emit"]), work, "%s%d" % (tag, i),
                      args=["-simulate", "num=%d" % max(1, num // procs), "-depth", str(depth + 2), "-seed", str(seed * 1000 + i)],
                      timeout=timeout, env=extra_env)
        if not os.path.exists(outf) or "Error:" in out:
            raise Failure("cannot generate behaviours from %s:\n%s" % (module, out[-3000:]))
        with open(outf) as f:
            return [json.loads(x) for x in f if x.strip()]

    with cf.ThreadPoolExecutor(procs) as ex:
        for r in ex.map(one, range(procs)):
            res += r
    return res


def dedup(bs):
    seen, out = set(), []
    for b in bs:
        k = json.dumps(b, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(b)
    return out


def tokens(b, order):
    """One behaviour as whitespace tokens: event name, then its fields in the order the harness reads them."""
    t = []
    for e in b:
        t.append(e["ev"])
        for f in order[e["ev"]]:
            v = e[f]
            if isinstance(v, bool):
                t.append("1" if v else "0")
            elif isinstance(v, list):
                t.append(str(len(v)))
                t += [str(x) for x in v]
            else:
                t.append(str(v) if str(v) != "" else "-")
    return " ".join(t)


def replay(exe, lines, work, tag, env=None, timeout=600, procs=1):
    """Feeds behaviours (id, tokens) to the harness; returns the recorded events (list of JSON lines)."""
    def one(i):
        part = lines[i::procs]
        if not part:
            return []
        inp = os.path.join(work, "in-%s-%d.txt" % (tag, i))
        outp = os.path.join(work, "out-%s-%d.ndjson" % (tag, i))
        with open(inp, "w") as f:
            for n, t in part:
                f.write("%d %s\n" % (n, t))
        with open(inp, "rb") as fi, open(outp, "wb") as fo:
            try:
                r = run([exe] if isinstance(exe, str) else list(exe), timeout=timeout, env=env, stdin=fi, stdout=fo, cwd=work)
            except subprocess.TimeoutExpired:
                with open(outp, "ab") as fa:
                    fa.write(b'\n{"ev":"Hang","sig":0}\n')
                r = None
        with open(outp, "rb") as f:
            data = f.read().decode(errors="replace")
        evs = []
        for x in data.split("\n"):
            x = x.strip()
            if not x:
                continue
            if not (x.startswith("{") and x.endswith("}")):
                j = x.rfind('{"ev":"Crash"')
                j = j if j >= 0 else x.rfind('{"ev":"Hang"')
                if j < 0:
                    x = '{"ev":"Garbled"}'
                else:
                    x = x[j:]
            evs.append(x)
        if r is not None and r.returncode != 0:
            err = r.stderr.decode(errors="replace")[-2000:]
            if r.returncode < 0 or evs:
                evs.append(json.dumps({"ev": "Crash", "sig": int(-r.returncode), "msg": ""}))
                log("harness ended with %d: %s" % (r.returncode, err))
            else:
                raise Failure("harness failed (%d): %s" % (r.returncode, err))
        return evs

    with cf.ThreadPoolExecutor(procs) as ex:
        parts = list(ex.map(one, range(procs)))
    return parts


def split_behaviours(evs, opener):
    groups, cur = [], None
    for x in evs:
        e = x[7:x.find('"', 7)]
        if e == opener:
            cur = [x]
            groups.append(cur)
        elif cur is None:
            cur = [x]
            groups.append(cur)
        else:
            cur.append(x)
    return groups


class Trace:
    """Validates recorded behaviours against a trace specification."""

    def __init__(self, prop, module, consts, work, heap="2g", opener="Start", timeout=600):
        self.prop, self.module, self.consts, self.work, self.heap, self.opener, self.timeout = prop, module, consts, work, heap, opener, timeout
        self.states = self.transitions = 0

    def _once(self, groups, tag):
        path = os.path.join(self.work, "trace-%s.ndjson" % tag)
        n = 0
        with open(path, "w") as f:
            for g in groups:
                for x in g:
                    f.write(x + "\n")
                    n += 1
        if n == 0:
            return None
        rc, out = tlc(self.module, cfg(self.consts, spec="TraceSpec", post="TraceAccepted"), self.work, tag,
                      env={"TRACE": path}, heap=self.heap, timeout=self.timeout, jopts=[])
        g_, d_ = tlc_stats(out)
        self.states += d_
        self.transitions += g_
        if rc == 0 and "No error has been found" in out:
            if d_ != n + 1:
                raise Failure("trace of %d events accepted with %d states" % (n, d_))
            return None
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if "Postcondition" in out or "postcondition" in out.lower():
            if not m:
                raise Failure("cannot locate the rejected event:\n" + out[-3000:])
            return int(m.group(1))  # 1-based index of the first event that is not a step of the specification
        raise Failure("trace validation of %s failed:\n%s" % (self.module, out[-4000:]))

    def validate(self, groups, tag, known=None, maxrej=25):
        """Returns (accepted behaviours, [(group, index in group)] rejected). Continues after each rejection."""
        rejected, accepted = [], 0
        pending = list(groups)
        rounds = 0
        while pending:
            bad = self._once(pending, "%s-%d" % (tag, rounds))
            rounds += 1
            if bad is None:
                accepted += len(pending)
                break
            n = 0
            for gi, g in enumerate(pending):
                if n + len(g) >= bad:
                    rejected.append((g, bad - n - 1))
                    accepted += gi
                    pending = pending[gi + 1:]
                    break
                n += len(g)
            else:
                raise Failure("rejected event out of range")
            if known is not None and not known(rejected[-1]):
                break  # a genuine rejection: no need to look further in this chunk
            if rounds > maxrej:
                raise Failure("too many rejections to go through")
        return accepted, rejected


# ------------------------------------------------------------------- known findings
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def match_known(prop, group, idx, findings):
    """A listed finding names the exact event (and, with `start', the exact configuration) that fails."""
    e = json.loads(group[idx])
    s = json.loads(group[0])
    for k in findings:
        if k["property"] != prop or k.get("status") == "fixed":
            continue
        if all(e.get(f) == v for f, v in k.get("event", {}).items()) and all(s.get(f) == v for f, v in k.get("start", {}).items()):
            return k
    return None


class Check:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.t0 = time.time()
        self.mc = []
        self.behaviours = 0
        self.events = 0
        self.evaluations = 0
        self.tstates = self.ttrans = 0
        self.samples = []
        self.kinds = {}
        self.findings = load_known()
        self.known_hit = {}
        self.violations = []
        self.extra = {}

    @property
    def quick(self):
        return self.tier != "thorough"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def design(self, module, cfgtext, **kw):
        self.mc.append(model_check(module, cfgtext, self.work, **kw))

    def conform(self, exe, behaviours, order, module, consts, tag="t", env=None, procs=4, opener="Start", heap="2g", timeout=700, evals_per_event=1, schedules=False):
        """Replay behaviours in the real code, validate what it did, confirm and report rejections."""
        if not behaviours:
            raise Failure("no behaviours to replay")
        lines = [(i, tokens(b, order)) for i, b in enumerate(behaviours)]
        t1 = time.time()
        parts = replay(exe, lines, self.work, tag, env=env, procs=procs, timeout=timeout)
        t2 = time.time()
        tr = Trace(self.prop, module, consts, self.work, opener=opener, heap=heap, timeout=timeout)
        groups = [split_behaviours(p, opener) for p in parts]
        want = len(behaviours)
        got = sum(len(g) for g in groups)
        ended_early = any('"ev":"Crash"' in p[-1] or '"ev":"Hang"' in p[-1] for p in parts if p)
        if got < want and not ended_early:
            raise Failure("harness recorded %d of %d behaviours" % (got, want))

        def known(r):
            return match_known(self.prop, r[0], r[1], self.findings) is not None

        with cf.ThreadPoolExecutor(len(parts)) as ex:
            res = list(ex.map(lambda a: tr.validate(a[1], "%s-%d" % (tag, a[0]), known), enumerate(groups)))
        t3 = time.time()
        log("%s/%s: replay %.1fs, validation %.1fs, %d behaviours, %d events" % (self.prop, tag, t2 - t1, t3 - t2, got, sum(len(p) for p in parts)))
        self.behaviours += sum(a for a, _ in res)
        ne = sum(len(p) for p in parts)
        self.events += ne
        self.evaluations += ne * evals_per_event
        for p in parts:
            for x in p:
                e = x[7:x.find('"', 7)]
                self.kinds[e] = self.kinds.get(e, 0) + 1
        if groups and groups[0]:
            self.samples.append({"behaviour": [json.loads(x) for x in groups[0][0][:6]]})
        for part, (_, rej) in zip(groups, res):
            for g, i in rej:
                k = match_known(self.prop, g, i, self.findings)
                if k:
                    self.known_hit[k["id"]] = k
                    continue
                self._confirm(exe, lines, g, i, order, module, consts, tag, env, opener, heap, timeout, schedules, part)
        self.tstates += tr.states
        self.ttrans += tr.transitions

    def _confirm(self, exe, lines, g, i, order, module, consts, tag, env, opener, heap, timeout, schedules=False, part=()):
        if len(self.violations) >= 3:
            return
        s = json.loads(g[0])
        bid = s.get("id")
        sel = [l for l in lines if l[0] == bid]
        if '"ev":"Crash"' in g[i] or '"ev":"Hang"' in g[i]:
            sel = [l for l in lines if bid is None or l[0] >= bid][:200] if bid is not None else lines[:200]
        tries = [sel] * (5 if schedules else 1)
        if not schedules and bid is not None:  # what was left behind by earlier behaviours may matter
            ids = [json.loads(x[0]).get("id") for x in part]
            if bid in ids:
                ids = set(ids[:ids.index(bid) + 1])
                tries.append([l for l in lines if l[0] in ids])
        for sel in tries:
            parts = replay(exe, sel, self.work, tag + "-confirm", env=env, procs=1, timeout=timeout)
            tr = Trace(self.prop, module, consts, self.work, opener=opener, heap=heap)
            _, rej = tr.validate(split_behaviours(parts[0], opener), tag + "-confirm", known=lambda r: match_known(self.prop, r[0], r[1], self.findings) is not None)
            rej = [r for r in rej if not match_known(self.prop, r[0], r[1], self.findings)]
            if rej:
                break
        if not rej and schedules:
            rej = [(g, i)]  # threads need not meet in the same way again: what was recorded stands
        if not rej:
            raise Failure("a rejected trace was accepted when run again (behaviour %s)" % bid)
        g, i = rej[0]
        n = len(self.violations)
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, n))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "spec": module, "constants": {k: str(v) for k, v in consts.items()},
                       "seed": self.seed, "harness": exe, "env": env, "input": ["%d %s" % l for l in sel][:2000],
                       "rejected_event": json.loads(g[i]), "trace_up_to_rejection": [json.loads(x) for x in g[:i + 1]]}, f, indent=1)
        log("rejected event: " + g[i][:600])
        log("after: " + " ".join(x[:300] for x in g[max(0, i - 1):i]))
        self.violations.append(p)

    def violation(self, info):
        """A violation found by a design-level oracle over recorded data (not by a single trace step)."""
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(p, "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append(p)

    def finish(self, assumptions):
        ev = {"property": self.prop, "tier": "thorough" if not self.quick else "quick", "seed": self.seed, "level": "model_checking",
              "coverage": {"states": sum(m["states"] for m in self.mc) + self.tstates,
                           "transitions": sum(m["transitions"] for m in self.mc) + self.ttrans,
                           "traces_validated_against_impl": self.behaviours,
                           "design_models": self.mc,
                           "trace_spec_states": self.tstates,
                           "events_validated": self.events,
                           "library_evaluations": self.evaluations,
                           "events_by_kind": self.kinds,
                           "samples": self.samples[:3], **self.extra},
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.findings:
            if k["property"] == self.prop and k.get("status") != "fixed" and k["id"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
        for p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        return 1 if self.violations else 0


# ------------------------------------------------------------- the Python package
PY = "/opt/veriftools/pyvenv/bin/python"


def pykep(harness):
    """Compiles pykep's extension module from the current sources and lays the Python package out beside it; returns a script that runs a harness."""
    import glob
    src = [os.path.relpath(p, REPO) for p in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True) + glob.glob(REPO + "/pykep/*.cpp"))]
    so = build("core", [], src, shim=True, shared=True, libs=["-lfmt", "-lboost_serialization", "-lopenblas", "-llapack", "-lpthread"], extra=["-I/usr/include/python3.12", "-O1"])
    files, h = [], hashlib.sha256(so.encode())
    for root, _, fs in sorted(os.walk(os.path.join(REPO, "pykep"))):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                with open(p, "rb") as fh:
                    d = fh.read()
                h.update(p.encode() + d)
                files.append((os.path.relpath(p, REPO), d))
    key = h.hexdigest()[:20]
    top = os.path.join(BUILD, "py-" + key)
    if not os.path.exists(top):
        tmp = top + ".%d" % os.getpid()
        for p, d in files + [("pykep/_version.py", b'__version__ = "0"\n')]:
            q = os.path.join(tmp, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(d)
        shutil.copy(so, os.path.join(tmp, "pykep", "core.so"))
        try:
            os.rename(tmp, top)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    exe = os.path.join(BUILD, "%s-%s.sh" % (harness.replace(".py", ""), key))
    txt = "#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s:%s:%s exec %s -W ignore %s \"$@\"\n" % (top, os.path.join(VERIF, "pystubs"), os.path.join(VERIF, "harness"), PY, os.path.join(VERIF, "harness", harness))
    tmp = exe + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(txt)
    os.chmod(tmp, 0o755)
    os.replace(tmp, exe)
    return exe
