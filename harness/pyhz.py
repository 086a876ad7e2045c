"""Harness plumbing in Python: reads behaviours (one per line: id, tokens), writes ndjson events."""
import json, math, os, signal, sys, traceback

OUT = os.dup(1)
_null = os.open(os.devnull, os.O_WRONLY)


def emit(**e):
    s = (json.dumps(e, separators=(",", ":")) + "\n").encode()
    while s:
        s = s[os.write(OUT, s):]


def quant(x, unit):
    """errors as integers, rounded up; anything that is not a small number is a billion"""
    try:
        x = float(x) / unit
    except Exception:
        return 10**9
    if not x < 1e9:
        return 10**9
    return int(math.ceil(x))


class Tok:
    def __init__(self, line):
        self.t = line.split()
        self.k = 0

    def more(self):
        return self.k < len(self.t)

    def s(self):
        self.k += 1
        return self.t[self.k - 1]

    def i(self):
        return int(self.s())

    def b(self):
        return self.i() == 1

    def ints(self):
        return [self.i() for _ in range(self.i())]

    def strs(self):
        return [self.s() for _ in range(self.i())]


def run(behaviour, seconds=60):
    """behaviour(id, tok) is called for each line, in a child: the parent reports crashes and hangs"""
    pid = os.fork()
    if pid == 0:
        os.dup2(_null, 1)  # what the library prints
        sys.stdout = open(os.devnull, "w")
        for line in os.fdopen(0):
            if not line.strip():
                continue
            tok = Tok(line)
            signal.setitimer(signal.ITIMER_PROF, seconds)
            try:
                behaviour(tok.i(), tok)
            except Exception as ex:  # no specification allows this one
                emit(ev="Uncaught", what=repr(ex)[:300], where=traceback.format_exc()[-600:])
        os._exit(0)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        emit(ev="Hang" if sig == signal.SIGPROF else "Crash", sig=sig)
        os._exit(0)
    os._exit(os.WEXITSTATUS(st))
