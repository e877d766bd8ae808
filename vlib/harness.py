"""Child side: runs the generated-input search of one check in this process."""
import contextlib
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
try:
    import hypothesis
except ImportError:                       # fall back to the offline wheel
    import glob
    for w in sorted(glob.glob("/opt/veriftools/wheels/hypothesis-*.whl") +
                    glob.glob("/opt/veriftools/wheels/sortedcontainers-*.whl") +
                    glob.glob("/opt/veriftools/wheels/attrs-*.whl")):
        sys.path.append(w)
    import hypothesis
from hypothesis import HealthCheck, Phase, given, settings, strategies as st  # noqa: F401

from . import codec


class Violation(Exception):
    """The property does not hold for the current case."""


class StopSearch(BaseException):
    """Leave the generator loop now (shrinking has had its time)."""


FAILED = [False]     # the case before this one failed
BEFORE = []          # called before every case: forget the one before it


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def sut(what):
    """Code under test: it is being used within its contract, so that any
    exception out of it is a failure of the property."""
    try:
        yield
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, e)) from e


def call(what, f, *a, **k):
    with sut(what):
        return f(*a, **k)


def raises_cleanly(f, *a, **k):
    """Run f, allowing it to fail with an ordinary exception; True if it did."""
    try:
        f(*a, **k)
    except Exception:
        return True
    return False


class Rec(object):
    """Per-run statistics and per-case scratch space."""

    def __init__(self, scratch, findings):
        self.scratch = scratch
        self.findings = findings
        self.evals = 0
        self.nt_total = 0
        self.distinct = set()
        self.events = {}
        self.samples = []
        self.subs = {}
        self.excluded = {}
        self._dirs = []
        self._nt = False

    def event(self, name):
        self.events[name] = self.events.get(name, 0) + 1

    def nt(self, flag=True):
        if flag:
            self._nt = True

    def known(self, fid):
        """True if finding fid is listed: the case belongs to its failing
        class and is left out of the search (and counted)."""
        if fid in self.findings:
            self.excluded[fid] = self.excluded.get(fid, 0) + 1
            return True
        return False

    def tmp(self):
        d = tempfile.mkdtemp(prefix="c-", dir=self.scratch)
        self._dirs.append(d)
        return d

    def begin(self):
        self._nt = False
        self.evals += 1

    def end(self, sub, text):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []
        s = self.subs.setdefault(sub, [0, 0])
        s[0] += 1
        if self._nt:
            self.nt_total += 1
            h = hashlib.blake2b((sub + text).encode(), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                s[1] += 1
                k = s[1]
                if (k in (3, 40)) and len(text) < 1500:
                    self.samples.append({"sub": sub, "case": json.loads(text)})
                elif k == 1:
                    self.samples.append({"sub": sub, "case": json.loads(text) if len(text) < 1500 else text[:1500]})


class Sub(object):
    """One generated search: strategy -> case, fn(case, rec) decides it."""

    def __init__(self, name, strategy, fn, quick=200, thorough=None, weight=1.0):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.weight = weight


class NoJournal(object):
    def write(self, sub, text):
        pass


class Journal(object):
    """The case being executed, on disk before it runs, so that a crash or a
    hang of the process can be attributed to it."""

    def __init__(self, path):
        self.fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
        self.n = 0

    def write(self, sub, text):
        self.n += 1
        b = json.dumps({"n": self.n, "sub": sub}).encode() + b"\n" + text.encode()
        os.pwrite(self.fd, b, 0)
        os.ftruncate(self.fd, len(b))


def classify(exc, root):
    """Exception out of a case: a violation if it left the code under test,
    otherwise a fault of the harness (None)."""
    if isinstance(exc, Violation):
        return str(exc)
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    if any(f.filename.startswith(root + "/") for f in frames):
        f = [f for f in frames if f.filename.startswith(root + "/")][-1]
        return "%s: %s (raised in %s:%s)" % (type(exc).__name__, exc, os.path.relpath(f.filename, root), f.name)
    if type(exc) in UNREADABLE:
        f = frames[-1]
        return "what the code returned is not of the form the property needs: %s: %s (at %s:%d)" % (type(exc).__name__, exc, os.path.basename(f.filename), f.lineno)
    return None


# raised in a check while it works on a result: on the unchanged tree no check
# does this, so the result has changed its form (None, another shape, a missing
# key or file).  Anything else (memory, permissions, imports) is a fault here.
UNREADABLE = (TypeError, ValueError, AttributeError, IndexError, KeyError, ZeroDivisionError, OverflowError, FileNotFoundError, UnicodeDecodeError)


def run_one(sub, case, rec, root):
    """Run one case; returns None or the violation message; harness faults raise."""
    import numpy as np
    for f in BEFORE:
        f()
    with np.errstate(all="ignore"):
        try:
            sub.fn(case, rec)
        except Exception as e:
            FAILED[0] = True
            if type(e).__module__.startswith("hypothesis"):
                raise
            m = classify(e, root)
            if m is None:
                raise
            return m
    return None


def run_forked(sub, case, rec, root, limit):
    """As run_one, in a forked process: crashes and hangs become messages."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(limit)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                m = run_one(sub, case, rec, root)
                out = {"m": m, "nt": rec._nt}
            except BaseException:
                out = {"h": traceback.format_exc()}
            os.write(w, json.dumps(out).encode()[:60000])
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        if s == signal.SIGALRM:
            return "the call did not finish within %d s" % limit
        if s == signal.SIGKILL:
            raise RuntimeError("case process was killed (out of memory?)")
        return "the interpreter crashed with signal %d (%s)" % (s, signal.Signals(s).name)
    if not buf:
        return "the interpreter exited abnormally (status %d)" % status
    out = json.loads(buf)
    if "h" in out:
        raise RuntimeError("harness fault in forked case:\n" + out["h"])
    rec._nt = out["nt"]
    return out["m"]


SHRINK_S = 60.0


def explore(sub, n, seed, rec, journal, root, deadline, forked=0):
    """Search n cases of sub; returns None or (case_text, message)."""
    state = {"best": None, "t0": None, "skipped": 0, "harness": None}
    sub_seed = int.from_bytes(hashlib.sha256(("%d/%s" % (seed, sub.name)).encode()).digest()[:6], "big")

    def body(case):
        if state["best"] is None and time.time() > deadline:
            state["skipped"] += 1
            return
        if state["t0"] is not None and time.time() - state["t0"] > SHRINK_S:
            raise StopSearch()
        text = codec.dumps(case)
        case = codec.loads(text)
        journal.write(sub.name, text)
        rec.begin()
        try:
            if forked:
                m = run_forked(sub, case, rec, root, forked)
            else:
                m = run_one(sub, case, rec, root)
        except Exception as e:
            if not type(e).__module__.startswith("hypothesis"):
                state["harness"] = traceback.format_exc() + "\ncase: " + text[:3000]
                raise StopSearch()
            raise
        finally:
            rec.end(sub.name, text)
        if m is not None:
            if state["t0"] is None:
                state["t0"] = time.time()
            if state["best"] is None or len(text) <= len(state["best"][0]):
                state["best"] = (text, m)
            raise Violation(m)

    test = given(sub.strategy)(body)
    test = settings(max_examples=n, deadline=None, database=None, print_blob=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=(Phase.explicit, Phase.generate, Phase.shrink),
                    verbosity=hypothesis.Verbosity.quiet)(test)
    test = hypothesis.seed(sub_seed)(test)
    try:
        test()
    except StopSearch:
        pass
    except Exception:
        if state["best"] is None and state["harness"] is None:
            raise
    if state["harness"]:
        raise RuntimeError("harness fault in %s:\n%s" % (sub.name, state["harness"]))
    if state["skipped"]:
        rec.events["budget-skipped:" + sub.name] = state["skipped"]
    return state["best"]
