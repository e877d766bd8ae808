"""C03: variable histories."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen, uvm

TECHNIQUE = "model-based testing: generated histories of variable assignments and record writes, replayed against a dictionary model on reading"
RULE = ("cases: histories of up to 30 operations (assign variable, write record) over up to 8 variables of all six types, scalars and "
        "arrays of varying length and layout, with repeated and reverted values; oracle: a dictionary of the last assigned values, "
        "snapshotted at every record; non-trivial: some variable takes at least two distinct values over the records")


@st.composite
def history(draw, maxvars=8, maxops=30):
    names = draw(st.lists(st.one_of(st.sampled_from(uvm.VNAMES), st.from_regex(r"[a-z][a-z0-9]{1,7}", fullmatch=True)), min_size=1, max_size=maxvars, unique=True))
    from aipy import miriad
    names = [n for n in names if n not in miriad.itemtable and n not in RESERVED] or ["lst"]
    vs = {}
    for n in names:
        t = draw(st.sampled_from("aijrdc"))
        pool = [draw(uvm.value(t)) for _ in range(draw(st.integers(1, 3)))]
        for v in list(pool):
            if v[0] == "l" and draw(st.booleans()):
                # the same value except for one element
                k = draw(st.integers(0, len(v[1]) - 1))
                e = list(v[1])
                e[k] = draw(uvm.SCALAR[t])
                pool.append(("l", e) + tuple(v[2:]))
        vs[n] = {"t": t, "pool": pool}
    ops = []
    for _ in range(draw(st.integers(1, maxops))):
        if draw(st.integers(0, 2)) == 0:
            ops.append(("w", draw(st.integers(0, 3)), draw(st.integers(0, 3))))
        else:
            n = draw(st.sampled_from(names))
            ops.append(("s", n, draw(st.integers(0, len(vs[n]["pool"]) - 1))))
    ops.append(("w", 0, 1))
    return {"vars": vs, "ops": ops, "nchan": draw(st.integers(1, 8)), "reads": draw(st.integers(1, 2))}


RESERVED = {"corr", "wcorr", "coord", "time", "baseline", "tscale", "nchan", "visdata", "flags", "wflags", "vartable", "history", "header"}


def apply(c, uv, snaps):
    cur = {}
    for n, v in c["vars"].items():
        uv.add_var(n, v["t"])
    k = 0
    for op in c["ops"]:
        if op[0] == "s":
            t = c["vars"][op[1]]["t"]
            obj, want = uvm.realise(t, c["vars"][op[1]]["pool"][op[2]])
            with_msg = "uv[%r] = %.80r (type %s)" % (op[1], obj, t)
            call(with_msg, uv.__setitem__, op[1], obj)
            cur[op[1]] = want
            got = call("uv[%r] while writing" % op[1], uv.__getitem__, op[1])
            uvm.require_same_value(got, want, "variable %s right after assignment" % op[1])
        else:
            call("write", uv.write, (np.array([1., op[1], k]), 2455000. + op[2], (op[1], op[2])), np.ma.array(np.full(c["nchan"], k + 1j, np.complex64), mask=False))
            snaps.append(dict(cur))
            k += 1


def vars_history(c, rec):
    path = rec.tmp() + "/u"
    snaps = []
    with call("UV(new)", uvm.create, path, "r", c["nchan"]) as uv:
        apply(c, uv, snaps)
        uv = None
    with call("UV(old)", uvm.Uv, path) as uv:
        types = {n: v["t"] for n, v in c["vars"].items()}
        ever = set()
        for s in snaps:
            ever |= set(s)
        for n in ever:
            require(n in uv.vars() and uv.vartable[n] == types[n], "variable %s of type %s is listed as %r", n, types[n], uv.vartable.get(n))
        for rep in range(c["reads"]):
            for k, s in enumerate(snaps):
                p, d = call("read", uv.read)
                require(p[0][2] == k and d.data[0] == k + 1j, "record %d is not the one written", k)
                for n in sorted(s):
                    got = call("uv[%r] at record %d" % (n, k), uv.__getitem__, n)
                    uvm.require_same_value(got, s[n], "record %d, variable %s of type %s" % (k, n, types[n]))
                if rep == 0:
                    for n in sorted(set(types) - set(s)):
                        try:
                            v = uv[n]
                        except (RuntimeError, KeyError):
                            pass
                        else:
                            raise Violation("record %d: variable %s has value %r before it was ever set" % (k, n, v))
            uv.rewind()
        uv = None
    nt = False
    for n in types:
        vals = [repr(s[n]) for s in snaps if n in s]
        nt = nt or len(set(vals)) > 1
    rec.nt(nt)


@st.composite
def large(draw):
    return {"t": draw(st.sampled_from("aijrdc")), "n": draw(st.integers(1, 40000)), "seed": draw(gen.seeds)}


def big_values(c, rec):
    """Values up to the documented buffer size round trip; larger ones fail cleanly."""
    path = rec.tmp() + "/u"
    r = gen.rng(c["seed"])
    t, n = c["t"], c["n"]
    if t == "a":
        v = "".join(chr(97 + k) for k in r.integers(0, 26, n))
        lim = 32768 - 1
    else:
        a = r.integers(-30000, 30000, n)
        v = {"i": a, "j": a, "r": a.astype("f4"), "d": a * 1.5, "c": a + 1j * a[::-1]}[t]
        lim = {"i": 8192, "j": 8192, "r": 8192, "d": 4096, "c": 4096}[t]
    with call("UV(new)", uvm.create, path, "r", 1) as uv:
        uv.add_var("big", t)
        uv.add_var("after", "i")
        call("set", uv.__setitem__, "big", v)
        call("set", uv.__setitem__, "after", 7)
        call("write", uv.write, (np.zeros(3), 1., (0, 1)), np.ma.array(np.ones(1, np.complex64), mask=False))
        uv = None
    with call("UV(old)", uvm.Uv, path) as uv:
        call("read", uv.read)
        try:
            got = uv["big"]
        except (ValueError, RuntimeError) as e:
            require(n > lim, "a value of %d elements of type %s cannot be read back: %s", n, t, e)
        else:
            if t == "a" or n > 1:
                uvm.require_same_value(got, v, "large variable")
        require(uv["after"] == 7, "variable written after a large one is %r", uv["after"])
        uv = None
    rec.nt(n > 1000)


@st.composite
def refused(draw):
    t = draw(st.sampled_from("aijrdc"))
    bad = {"a": st.sampled_from([5, 1.5]),
           "i": st.one_of(st.integers(2 ** 31, 2 ** 66), st.integers(-2 ** 66, -2 ** 31 - 1), st.sampled_from([1.5, "x", None])),
           "j": st.one_of(st.integers(32768, 2 ** 40), st.integers(-2 ** 40, -32769), st.sampled_from([1.5, "x"])),
           "r": st.sampled_from(["x", None, 1j]), "d": st.sampled_from(["x", None, 1j]), "c": st.sampled_from(["x", None])}[t]
    return {"t": t, "bad": draw(bad), "arr": draw(st.booleans()), "good": draw(uvm.value(t)), "how": draw(st.sampled_from(["value", "dtype", "rank"]))}


def refuse(c, rec):
    """A value that cannot be represented is refused and leaves the variable as it was."""
    t = c["t"]
    path = rec.tmp() + "/u"
    bad = c["bad"]
    if c["how"] == "dtype":
        bad = {"a": np.zeros(3), "i": np.array([1.5, 2]), "j": np.array([1j]), "r": np.array([1, 2]), "d": np.array(["x", "y"]), "c": np.array([1.5, 2.5])}[t]
    elif c["how"] == "rank":
        bad = np.zeros((2, 2), dtype={"a": "f8", "i": "i8", "j": "i8", "r": "f4", "d": "f8", "c": "c16"}[t])
    elif c["arr"] and t in "ij" and isinstance(bad, int) and abs(bad) < 2 ** 62:
        bad = np.array([1, bad])
    with call("UV(new)", uvm.create, path, "r", 1) as uv:
        uv.add_var("v", t)
        obj, want = uvm.realise(t, c["good"])
        call("set", uv.__setitem__, "v", obj)
        try:
            uv["v"] = bad
        except (ValueError, TypeError, RuntimeError, OverflowError):
            pass
        else:
            raise Violation("uv['v'] = %r was accepted for a variable of type %s" % (bad, t))
        call("write", uv.write, (np.zeros(3), 1., (0, 1)), np.ma.array(np.ones(1, np.complex64), mask=False))
        uv = None
    with call("UV(old)", uvm.Uv, path) as uv:
        call("read", uv.read)
        uvm.require_same_value(uv["v"], want, "variable after a refused assignment")
        uv = None
    rec.nt()


def subs():
    return [Sub("history", history(), vars_history, quick=500, weight=4),
            Sub("manyvars", history(60, 120), vars_history, quick=25, weight=1),
            Sub("large", large(), big_values, quick=150),
            Sub("refused", refused(), refuse, quick=300)]
