"""C10: misuse is reported and harms nothing else."""
import os
import resource

import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen, uvm

VARIANTS = ["plain", "asan"]
TECHNIQUE = "stateful model-based testing: interleaved histories of valid use and misuse over several datasets against a model of their contents; also under AddressSanitizer"
RULE = ("cases: histories of up to 40 operations (open new/old/append, write, read, rewind, close, and 45 kinds of misuse, some of them "
        "repeated up to 40 times) over up to 6 datasets open at once, writing to a full disk (file size limit), and histories of opening up to 40 datasets against the limit of 25; "
        "oracle: a model of the records every dataset holds, checked while reading, after every closing and at the end, and that each misuse "
        "raised an exception; non-trivial: a misuse happens while at least two datasets are open for writing or partly read")

NCH = 5
NP = 6
LIMIT = 25       # datasets that can be open at once


def data(k):
    d = (np.arange(NCH) + 1j * k).astype(np.complex64)
    return np.ma.array(d, mask=(np.arange(NCH) + k) % 3 == 0)


def pre(k):
    return np.array([1., k, -k]), 2455000.5 + k / 8., (k % 3, k % 5)


# misuse of nothing that is open: (name, call, must raise)
def _file(d):
    p = d + "/plainfile"
    if not os.path.exists(p):
        with open(p, "w") as f:
            f.write("x")
    return p


def _dir(d, name, files):
    p = d + "/" + name
    if not os.path.exists(p):
        os.mkdir(p)
        for n in files:
            with open(p + "/" + n, "wb") as f:
                f.write(files[n])
    return p


OPENING = {
    "missing": lambda M, d: M.UV(d + "/nosuch"),
    "missing append": lambda M, d: M.UV(d + "/nosuch", "append"),
    "empty name": lambda M, d: M.UV(""),
    "empty name new": lambda M, d: M.UV("", "new"),
    "long name": lambda M, d: M.UV(d + "/" + "x" * 1500),
    "long name new": lambda M, d: M.UV(d + "/" + "x" * 1100, "new"),
    "plain file": lambda M, d: M.UV(_file(d)),
    "plain file new": lambda M, d: M.UV(_file(d), "new"),
    "empty directory": lambda M, d: M.UV(_dir(d, "emptyd", {})),
    "not a dataset": lambda M, d: M.UV(_dir(d, "other", {"visdata": b"", "notes": b"abc"})),
    "vartable is rubbish": lambda M, d: M.UV(_dir(d, "rub", {"visdata": b"\0" * 64, "vartable": b"\xff" * 64, "header": b""})),
    "no parent": lambda M, d: M.UV(d + "/no/parent", "new"),
    "bad status": lambda M, d: M.UV(d + "/x", "bogus"),
    "bad corrmode": lambda M, d: M.UV(d + "/x", "new", "x"),
    "name not text": lambda M, d: M.UV(5),
    "name with null": lambda M, d: M.UV(d + "/a\0b"),
    "no name": lambda M, d: M.UV(),
    "low level init": lambda M, d: M._miriad.UV(d + "/x", "sideways", "r"),
    "low level corrmode": lambda M, d: M._miriad.UV(d + "/x", "new", "q"),
    "unopened": lambda M, d: M._miriad.UV.__new__(M._miriad.UV).raw_read(3),
    "bad handle type": lambda M, d: M._miriad.hread_init("x"),
}
_c = lambda n: np.zeros(n, np.complex64)
_f = lambda n: np.ones(n, np.int32)
_p = lambda: (np.zeros(3), 1.0, (0, 1))
WRITING = {
    "read": lambda M, u: u.read(),
    "raw 2-d": lambda M, u: u.raw_write(_p(), _c((2, 3)), _f((2, 3))),
    "raw lengths": lambda M, u: u.raw_write(_p(), _c(4), _f(5)),
    "raw type": lambda M, u: u.raw_write(_p(), np.zeros(4), _f(4)),
    "raw c16": lambda M, u: u.raw_write(_p(), np.zeros(4, complex), _f(4)),
    "raw flags type": lambda M, u: u.raw_write(_p(), _c(4), np.ones(4)),
    "raw list": lambda M, u: u.raw_write(_p(), [1, 2], [1, 1]),
    "raw uvw": lambda M, u: u.raw_write((np.zeros(4), 1., (0, 1)), _c(4), _f(4)),
    "raw uvw none": lambda M, u: u.raw_write((np.zeros(0), 1., (0, 1)), _c(4), _f(4)),
    "raw uvw one": lambda M, u: u.raw_write((np.zeros(1), 1., (0, 1)), _c(4), _f(4)),
    "raw uvw two": lambda M, u: u.write((np.zeros(2), 1., (0, 1)), data(0)),
    "raw uvw 2-d": lambda M, u: u.raw_write((np.zeros((3, 3)), 1., (0, 1)), _c(4), _f(4)),
    "raw flags 2-d": lambda M, u: u.raw_write(_p(), _c(4), _f((4, 4))),
    "raw flags short": lambda M, u: u.raw_write(_p(), _c(4), _f(3)),
    "var 2-d": lambda M, u: u.__setitem__("v1", np.zeros((2, 2), np.int32)),
    "raw uvw 0-d": lambda M, u: u.raw_write((np.array(1.), 1., (0, 1)), _c(4), _f(4)),
    "raw uvw type": lambda M, u: u.raw_write((np.zeros(3, np.float32), 1., (0, 1)), _c(4), _f(4)),
    "preamble": lambda M, u: u.raw_write((np.zeros(3), 1.), _c(4), _f(4)),
    "preamble list": lambda M, u: u.write([1, 2, 3], data(0)),
    "antennas": lambda M, u: u.write((np.zeros(3), 1., (0, 5000)), data(0)),
    "negative antenna": lambda M, u: u.write((np.zeros(3), 1., (-1, 2)), data(0)),
    "unknown set": lambda M, u: u.__setitem__("nosuch", 3),
    "unknown get": lambda M, u: u["nosuch"],
    "unset header": lambda M, u: u["leakage"],
    "text into int": lambda M, u: u.__setitem__("v1", "abc"),
    "big int": lambda M, u: u.__setitem__("v1", 2 ** 40),
    "int into text": lambda M, u: u.__setitem__("s1", 17),
    "long name": lambda M, u: (u.add_var("waytoolongname", "i"), u.__setitem__("waytoolongname", 3)),
    "unknown type": lambda M, u: (u.add_var("odd", "q"), u.__setitem__("odd", 3)),
    "header type": lambda M, u: u.__setitem__("history", 5),
    "header text": lambda M, u: u.__setitem__("ngains", "x"),
    "header float": lambda M, u: u.__setitem__("nsols", 1.5),
    "copyvr": lambda M, u: u.copyvr(3),
    "item name": lambda M, u: u.haccess("waytoolongitem", "write"),
    "item mode": lambda M, u: u.haccess("history", "sideways"),
}
READING = {
    "write": lambda M, u: u.write(pre(1), data(1)),
    "set": lambda M, u: u.__setitem__("v1", 10 ** 6),
    "unknown get": lambda M, u: u["nosuch"],
    "unset header": lambda M, u: u["leakage"],
    "raw_read negative": lambda M, u: u.raw_read(-1),
    "raw_read type": lambda M, u: u.raw_read("x"),
    "trackvr": lambda M, u: u.trackvr("nosuch", "u"),
    "trackvr switch": lambda M, u: u.trackvr("v1", "zz"),
    "decimate 0": lambda M, u: u.select("decimate", 0, 0),
    "select type": lambda M, u: u.select("time", "a", 0),
    "rdvr type": lambda M, u: u._rdvr("v1", "q"),
    "rdvr other": lambda M, u: u._rdvr("v1", "a"),
    "item name": lambda M, u: u.haccess("nosuchit", "read"),
    "copyvr": lambda M, u: u.copyvr(None),
}
# reported on some paths and without effect on others
MAY = {"trackvr", "trackvr switch", "long name"}


@st.composite
def history(draw):
    n = draw(st.integers(3, 40))
    ops = []
    for _ in range(n):
        k = draw(st.integers(0, 11))
        s = draw(st.integers(0, NP - 1))
        if k < 2:
            ops.append(("open", s))
        elif k < 5:
            ops.append(("use", s))
        elif k == 5:
            ops.append(("close", s))
        elif k == 6:
            ops.append(("rewind", s))
        elif k < 9:
            ops.append(("badopen", draw(st.sampled_from(sorted(OPENING) + ["existing new", "select missing"])), s, draw(st.sampled_from([1, 1, 1, 2, 40]))))
        else:
            ops.append(("bad", draw(st.sampled_from(sorted(WRITING))), draw(st.sampled_from(sorted(READING))), s, draw(st.sampled_from([1, 1, 2, 30]))))
    return {"ops": ops, "app": draw(st.lists(st.booleans(), min_size=NP, max_size=NP)), "corr": "r"}


class World(object):
    def __init__(self, d):
        self.d = d
        self.disk = {}       # path number -> list of record ids
        self.open = {}       # path number -> [mode, uv, position or None]
        self.next = 0

    def path(self, s):
        return "%s/ds%d" % (self.d, s)

    def close(self, s):
        mode, _, _ = self.open[s]
        self.open[s] = None
        del self.open[s]
        uvm.closed()
        if mode != "old":
            self.check(s)

    def check(self, s):
        with call("opening dataset %d" % s, uvm.Uv, self.path(s)) as uv:
            for k in self.disk[s]:
                self.record(uv, s, k)
            try:
                uv.read()
            except IOError:
                pass
            else:
                raise Violation("dataset %d has more records than were written" % s)
            uv = None

    def record(self, uv, s, k):
        p, d = call("read of dataset %d" % s, uv.read)
        w = pre(k)
        require(np.array_equal(p[0], w[0]) and p[1] == w[1] and tuple(p[2]) == w[2], "dataset %d: record %d has preamble %r", s, k, p)
        x = data(k)
        require(uvm.same(d.data, x.data) and np.array_equal(d.mask, x.mask), "dataset %d: record %d has data %r", s, k, d)
        require(uv["v1"] == k, "dataset %d: record %d has v1 = %r", s, k, uv["v1"])


def one_bad(what, f, must):
    try:
        f()
    except Exception:
        return
    if must:
        raise Violation("%s was not reported" % what)


def fds():
    return len(os.listdir("/proc/self/fd"))


def misuse(c, rec):
    from aipy import miriad as M
    w = World(rec.tmp())
    n0 = fds()
    try:
        for op in c["ops"]:
            step(c, rec, M, w, op)
        for s in sorted(w.open):
            w.close(s)
        for s in sorted(w.disk):
            if w.disk[s]:
                w.check(s)
        require(fds() <= n0, "%d file descriptors were left open", fds() - n0)
    finally:
        w.open.clear()


def step(c, rec, M, w, op):
    s = op[-1] if op[0] in ("open", "use", "close", "rewind") else op[-2]
    o = w.open.get(s)
    if op[0] == "open":
        if o is not None:
            return
        if s not in w.disk:
            u = call("UV(new)", M.UV, w.path(s), "new")
            mode = "new"
            w.disk[s] = []
        else:
            if not w.disk[s]:
                return
            mode = "append" if c["app"][s] else "old"
            u = call("UV(%s)" % mode, M.UV, w.path(s), mode)
        w.open[s] = [mode, u, 0]
        if mode != "old":
            if mode == "append":
                call("_wrhd", u.__setitem__, "history", "again")
            for n, t, v in (("nchan", "i", NCH), ("v1", "i", -1), ("s1", "a", "text")):
                u.add_var(n, t)
                call("setting %s" % n, u.__setitem__, n, v)
            # a dataset always has a record, so that it can be opened again
            self_write(w, s, u)
        u = None
    elif op[0] == "use" and o is not None:
        mode, u, pos = o
        if mode == "old":
            if pos < len(w.disk[s]):
                w.record(u, s, w.disk[s][pos])
                o[2] += 1
            else:
                one_bad("reading past the end", u.read, True)
        else:
            self_write(w, s, u)
        u = None
    elif op[0] == "rewind" and o is not None and o[0] == "old":
        call("rewind", o[1].rewind)
        o[2] = 0
    elif op[0] == "close" and o is not None:
        o = None
        w.close(s)
    elif op[0] == "badopen":
        name, _, reps = op[1:]
        busy(rec, w)
        for _ in range(reps):
            if name == "existing new":
                if s in w.disk:
                    one_bad("creating a dataset that exists", lambda: M.UV(w.path(s), "new"), True)
            elif name == "select missing":
                if w.disk.get(s) and (s not in w.open or w.open[s][0] == "old"):
                    missing(M, w.path(s), reps % 7)
            else:
                one_bad("opening (%s)" % name, lambda: OPENING[name](M, w.d), True)
        rec.event("open:" + name)
        drop()
    elif op[0] == "bad" and o is not None:
        wname, rname, _, reps = op[1:]
        mode, u, pos = o
        tab, name = (READING, rname) if mode == "old" else (WRITING, wname)
        busy(rec, w)
        for _ in range(reps):
            one_bad("%s on a dataset opened as %s" % (name, mode), lambda: tab[name](M, u), name not in MAY)
        rec.event(("r:" if mode == "old" else "w:") + name)
        u = None
        drop()


SELECTIONS = ["dec", "ra", "uvrange", "shadow", "pointing", "on", "uvnrange"]


def missing(M, path, k):
    u = call("UV(old)", M.UV, path)
    call("select", u.select, SELECTIONS[k], 0, 1)
    for _ in range(3):
        one_bad("reading with %r selected, for which a variable is missing" % SELECTIONS[k], u.read, SELECTIONS[k] != "uvnrange")
    u = None


def drop():
    """An exception may keep what it passed through alive."""
    import gc
    gc.collect(0)


def self_write(w, s, u):
    k = w.next
    w.next += 1
    call("setting v1", u.__setitem__, "v1", k)
    call("write", u.write, pre(k), data(k))
    w.disk[s].append(k)


def busy(rec, w):
    n = 0
    for s in w.open:
        mode, _, pos = w.open[s]
        if mode != "old" or 0 < pos < len(w.disk[s]):
            n += 1
    rec.nt(n >= 2)


@st.composite
def slots(draw):
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.integers(0, 4))
        if k < 2:
            ops.append(("open", draw(st.integers(1, 30))))
        elif k == 2:
            ops.append(("close", draw(st.integers(1, 30)), draw(st.integers(0, 29))))
        else:
            ops.append(("fail", draw(st.sampled_from(sorted(OPENING))), draw(st.integers(1, 40))))
    return {"ops": ops, "new": draw(st.booleans())}


def exhaust(c, rec):
    """The limit on open datasets counts only those that are open."""
    from aipy import miriad as M
    w = World(rec.tmp())
    n0 = fds()
    w.disk[0] = []
    with call("UV(new)", uvm.create, w.path(0), "r", NCH) as uv:
        uv.add_var("v1", "i")
        for _ in range(2):
            self_write(w, 0, uv)
        uv = None
    held = []
    cnt = 0
    hit = False
    try:
        for op in c["ops"]:
            if op[0] == "open":
                for _ in range(op[1]):
                    cnt += 1
                    try:
                        u = M.UV("%s/n%d" % (w.d, cnt), "new") if c["new"] else M.UV(w.path(0))
                    except Exception as e:
                        require(len(held) >= LIMIT, "dataset could not be opened with only %d open: %s", len(held), e)
                        hit = True
                    else:
                        held.append(u)
                    u = None
                drop()
                rec.nt(hit)
            elif op[0] == "close":
                for _ in range(min(op[1], len(held))):
                    held.pop(op[2] % len(held))
                uvm.closed()
            else:
                for _ in range(op[2]):
                    one_bad("opening (%s)" % op[1], lambda: OPENING[op[1]](M, w.d), True)
                drop()
            if held and not c["new"]:
                u = held[-1]
                call("rewind", u.rewind)
                w.record(u, 0, w.disk[0][0])
                u = None
        held = []
        uvm.closed()
        w.check(0)
        require(fds() <= n0, "%d file descriptors were left open", fds() - n0)
    finally:
        held = []


@st.composite
def disk(draw):
    return {"limit": draw(st.one_of(st.integers(0, 3000), st.integers(0, 90000))), "n": draw(st.integers(1, 40)), "nchan": draw(st.sampled_from([5, 64, 1024])),
            "hist": draw(st.integers(0, 200)), "other": draw(st.integers(0, 5)), "lift": draw(st.booleans()), "opened": draw(st.booleans()), "seed": draw(gen.seeds)}


def full(c, rec):
    """A dataset that no longer fits its disk (a limit on the size of files):
    an error is reported, or all was written; other datasets are whole."""
    import gc
    from aipy import miriad as M
    w = World(rec.tmp())
    n0 = fds()
    nch = c["nchan"]

    def spec(k):
        return np.ma.array(uvm.spectrum(c["seed"] + k, nch, "normal"), mask=uvm.mask(c["seed"] + k, nch, "runs"))

    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    w.disk[0] = []
    other = call("UV(new)", M.UV, w.path(0), "new")
    told = False
    u = None
    try:
        other.add_var("nchan", "i")
        other["nchan"] = NCH
        other.add_var("v1", "i")
        self_write(w, 0, other)
        path = w.d + "/victim"
        if c["opened"]:
            u = call("UV(new)", M.UV, path, "new")
        resource.setrlimit(resource.RLIMIT_FSIZE, (c["limit"], hard))
        try:
            if u is None:
                u = M.UV(path, "new")
            u["history"] = "h" * c["hist"]
            u.add_var("nchan", "i")
            u["nchan"] = nch
            for k in range(c["n"]):
                u.write(pre(k), spec(k))
        except Exception as e:
            rec.event("write failed: " + type(e).__name__)
            told = True
        if c["lift"]:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        u = None
        gc.collect(0)
        if uvm.errors():
            rec.event("closing failed")
            told = True
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        for _ in range(c["other"]):
            self_write(w, 0, other)
        other = None
        w.open.clear()
        uvm.closed()
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        other = u = None
    w.check(0)
    require(fds() <= n0, "%d file descriptors were left open", fds() - n0)
    if not told:
        with call("UV(old)", uvm.Uv, path) as uv:
            for k in range(c["n"]):
                p, d = call("read", uv.read)
                x = spec(k)
                require(p[1] == pre(k)[1] and uvm.same(d.data, x.data) and np.array_equal(d.mask, x.mask), "nothing was reported, but record %d is not as written", k)
            require(uv["history"] == "h" * c["hist"], "nothing was reported, but the history is not as written")
            uv = None
    rec.nt(told)
    rec.event("told" if told else "fits")


def subs():
    return [Sub("misuse", history(), misuse, quick=2500, thorough=30000, weight=4),
            Sub("slots", slots(), exhaust, quick=500, thorough=6000),
            Sub("full", disk(), full, quick=400, thorough=8000)]
