"""C05: append, rewind and reopen."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen, uvm

TECHNIQUE = "model-based (stateful) testing: generated histories of write, append, partial-read and rewind sessions against the list of records"
RULE = ("cases: histories of sessions on one dataset: create or append 0-6 records with variable changes, partial reads with rewinds "
        "through one or two handles, attempts to create over the dataset; oracle: the concatenated records with the values of the variables in "
        "force; non-trivial: at least one append session that adds records to a non-empty dataset")

VARS = {"v1": "i", "lst": "d", "source": "a", "antpos": "d", "fv": "r", "jv": "j"}
rec1 = st.fixed_dictionaries({"seed": gen.seeds, "mask": st.sampled_from(uvm.MASKS), "t": st.integers(0, 2), "i": st.sampled_from([0, 1, 2, 256, 300]), "j": st.sampled_from([0, 1, 3, 255, 256]),
                              "u": st.integers(0, 2)})
setop = st.sampled_from(sorted(VARS)).flatmap(lambda n: st.tuples(st.just("s"), st.just(n), uvm.value(VARS[n], 4)))
wop = rec1.map(lambda r: ("w", r))
session = st.lists(st.one_of(wop, wop, setop), max_size=9)
readop = st.one_of(st.tuples(st.just("read"), st.integers(1, 4)), st.just(("rewind",)), st.just(("all",)))
hist = st.fixed_dictionaries({
    "mode": st.sampled_from(["r", "r", "j"]), "nchan": st.one_of(st.integers(1, 40), st.sampled_from([31, 62, 3968, 4000])),
    "first": session, "auto": st.booleans(),
    "sessions": st.lists(st.one_of(st.tuples(st.just("append"), session, st.sampled_from(["r", "j"])),
                                   st.tuples(st.just("reads"), st.lists(st.tuples(st.integers(0, 1), readop), max_size=8)),
                                   st.just(("clobber",))), min_size=1, max_size=5)})


def data(c, r):
    d = uvm.spectrum(r["seed"], c["nchan"], "normal")
    return d, uvm.mask(r["seed"], c["nchan"], r["mask"])


def run_session(c, uv, ops, recs, cur):
    for n, t in VARS.items():
        uv.add_var(n, t)
    for op in ops:
        if op[0] == "s":
            obj, want = uvm.realise(VARS[op[1]], op[2])
            call("set", uv.__setitem__, op[1], obj)
            cur[op[1]] = want
        else:
            r = op[1]
            d, m = data(c, r)
            call("write", uv.write, (np.array([1., r["u"], 3.]), 2455000. + r["t"], (r["i"], r["j"])), np.ma.array(d, mask=m))
            recs.append((r, dict(cur)))


def expect(c, got, want, uv, k):
    p, d, f = got
    r, snap = want
    wd, wm = data(c, r)
    require(np.array_equal(p[0], [1., r["u"], 3.]) and p[1] == 2455000. + r["t"] and tuple(p[2]) == (r["i"], r["j"]), "record %d: preamble %r, wrote %r", k, p, r)
    if c["mode"] == "r":
        require(uvm.same(d, wd), "record %d: data differ from those written", k)
    else:
        q = max(np.abs(wd.real).max(), np.abs(wd.imag).max()) / 32767
        require(d.shape == wd.shape and max(np.abs(d.real - wd.real).max(), np.abs(d.imag - wd.imag).max()) <= 1.01 * q, "record %d: data differ by more than a quantum", k)
    require(np.array_equal(f, wm), "record %d: flags differ from those written", k)
    for n in sorted(snap):
        uvm.require_same_value(call("uv[%r]" % n, uv.__getitem__, n), snap[n], "record %d: variable %s" % (k, n))


def next_or_end(c, h, pos, recs):
    try:
        got = h.uv.read(raw=True)
    except IOError:
        require(pos == len(recs), "file ended after %d of %d records", pos, len(recs))
        return pos
    require(pos < len(recs), "record %d read from a file of %d", pos, len(recs))
    expect(c, got, recs[pos], h.uv, pos)
    return pos + 1


def read_all(c, path, recs):
    h = call("UV(old)", uvm.Uv, path)
    autos = {r["i"] == r["j"] for r, _ in recs}
    kind = {(False,): "crosscorrelation", (True,): "autocorrelation", (False, True): "mixed-auto-cross"}[tuple(sorted(autos))]
    require(h.uv["obstype"] == kind, "a dataset of %s records is described as %r", "both kinds of" if len(autos) > 1 else kind, h.uv["obstype"])
    pos = 0
    while True:
        new = next_or_end(c, h, pos, recs)
        if new == pos:
            break
        pos = new
    h.__exit__(None, None, None)


def sessions(c, rec):
    path = rec.tmp() + "/u"
    recs, cur = [], {}
    h = call("UV(new)", uvm.create, path, c["mode"], c["nchan"])
    run_session(c, h.uv, [("w", {"seed": 5, "mask": "alt", "t": 0, "i": 0, "j": 0 if c.get("auto") else 1, "u": 0})] + c["first"], recs, cur)
    h.__exit__(None, None, None)
    nt = False
    for s in c["sessions"]:
        if s[0] == "append":
            n = len(recs)
            h = call("UV(append)", uvm.Uv, path, "append", s[2])
            run_session(c, h.uv, s[1], recs, cur)
            h.__exit__(None, None, None)
            nt = nt or len(recs) > n
            read_all(c, path, recs)
        elif s[0] == "clobber":
            try:
                h = uvm.Uv(path, "new")
            except RuntimeError:
                pass
            else:
                h.__exit__(None, None, None)
                raise Violation("an existing dataset was opened as new")
            read_all(c, path, recs)
        else:
            hs = [call("UV(old)", uvm.Uv, path), call("UV(old)", uvm.Uv, path)]
            pos = [0, 0]
            for w, op in s[1]:
                if op[0] == "rewind":
                    call("rewind", hs[w].uv.rewind)
                    pos[w] = 0
                elif op[0] == "all":
                    while True:
                        new = next_or_end(c, hs[w], pos[w], recs)
                        if new == pos[w]:
                            break
                        pos[w] = new
                else:
                    for _ in range(op[1]):
                        pos[w] = next_or_end(c, hs[w], pos[w], recs)
            for h in hs:
                h.__exit__(None, None, None)
    read_all(c, path, recs)
    rec.nt(nt)


def empty(c, rec):
    """A dataset that was never written to opens for append; reading it fails cleanly."""
    path = rec.tmp() + "/u"
    h = call("UV(new)", uvm.Uv, path, "new", c["mode"])
    h.__exit__(None, None, None)
    try:
        h = uvm.Uv(path)
        h.uv.read()
    except (IOError, RuntimeError):
        pass
    else:
        raise Violation("a record was read from an empty dataset")
    h = None
    uvm.closed()
    n = len(os.listdir("/proc/self/fd"))
    rec.nt()
    require(n < 200, "file descriptors leak")


def subs():
    return [Sub("sessions", hist, sessions, quick=300, weight=3),
            Sub("empty", st.fixed_dictionaries({"mode": st.sampled_from("rj"), "k": st.integers(0, 3)}), empty, quick=8)]
