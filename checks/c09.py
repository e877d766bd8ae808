"""C09: baseline and polarisation codes."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen, uvm

TECHNIQUE = "property-based and exhaustive round-trip testing of the code tables and of the codes stored in datasets"
RULE = ("cases: antenna pairs 0..2046 (whole rows of pairs per case, so that the pairs are enumerated), code values as int, float and numpy "
        "scalars, pairs written to and read from datasets, polarisation names; oracle: decode(encode(x)) = x and injectivity; "
        "non-trivial: a row or list that has pairs in both numberings")
MAXANT = 2046


def row(c, rec):
    """All pairs (i, j) for one i: each decodes to itself, no code twice."""
    from aipy import miriad
    i = c["i"]
    seen = {}
    for j in range(0, MAXANT + 1, c["step"]):
        bl = call("ij2bl", miriad.ij2bl, i, j)
        want = (min(i, j), max(i, j))
        got = call("bl2ij", miriad.bl2ij, bl)
        require(tuple(got) == want, "pair (%d,%d) encodes to %r, which decodes to %r", i, j, bl, got)
        require(bl not in seen, "pairs (%d,%d) and (%d,%d) share code %r", i, j, i, seen.get(bl, -1), bl)
        seen[bl] = j
        require(miriad.ij2bl(j, i) == bl, "code of (%d,%d) depends on the order", i, j)
    rec.nt(i < 300)


codes = st.tuples(uvm.antnum, uvm.antnum)


def distinct(c, rec):
    from aipy import miriad
    seen = {}
    for (i, j) in c["pairs"]:
        p = (min(i, j), max(i, j))
        bl = miriad.ij2bl(i, j)
        require(seen.setdefault(bl, p) == p, "pairs %r and %r share code %r", p, seen[bl], bl)
        for f in (float, np.float32, np.float64, np.int64, np.int32):
            require(tuple(miriad.bl2ij(f(bl))) == p, "code %r as %s decodes to %r, not %r", bl, f.__name__, miriad.bl2ij(f(bl)), p)
    rec.nt(len({max(p) < 255 for p in c["pairs"]}) == 2)


def stored(c, rec):
    """A pair written to a dataset comes back, its stored code is the Python
    code, and selecting the pair finds exactly its records."""
    from aipy import miriad
    path = rec.tmp() + "/u"
    pairs = c["pairs"]
    with call("UV(new)", uvm.create, path, "r", 1) as uv:
        for k, p in enumerate(pairs):
            call("write", uv.write, (np.array([0., 0., k]), 2455000. + k, p), np.ma.array(np.ones(1, np.complex64), mask=False))
        uv = None
    with call("UV(old)", uvm.Uv, path) as uv:
        for k, p in enumerate(pairs):
            q, d = call("read", uv.read)
            require(tuple(q[2]) == p, "pair %r written, %r read", p, q[2])
            code = uv["baseline"]
            if p[0] <= p[1]:
                require(code == miriad.ij2bl(*p), "stored code of %r is %r, ij2bl gives %r", p, code, miriad.ij2bl(*p))
            require(sorted(miriad.bl2ij(code)) == sorted(p), "stored code %r of %r decodes to %r", code, p, miriad.bl2ij(code))
        p = pairs[c["pick"] % len(pairs)]
        call("select", uv.select, "antennae", p[0], p[1])
        uv.rewind()
        got = [int(q[0][2]) for q, d in uv.all()]
        want = [k for k, x in enumerate(pairs) if sorted(x) == sorted(p)]
        require(got == want, "selecting %r keeps %r, expected %r", p, got, want)
        uv = None
    rec.nt(len(set(pairs)) > 1)


def refused(c, rec):
    """Antenna numbers that have no code are refused."""
    path = rec.tmp() + "/u"
    with call("UV(new)", uvm.create, path, "r", 1) as uv:
        try:
            uv.write((np.zeros(3), 2455000., (c["i"], c["j"])), np.ma.array(np.ones(1, np.complex64), mask=False))
        except (ValueError, RuntimeError, OverflowError):
            pass
        else:
            raise Violation("pair (%d,%d) was written" % (c["i"], c["j"]))
        uv.write((np.zeros(3), 2455000., (0, 1)), np.ma.array(np.ones(1, np.complex64), mask=False))
        uv = None
    with call("UV(old)", uvm.Uv, path) as uv:
        require([tuple(p[2]) for p, d in uv.all()] == [(0, 1)], "a refused record left something behind")
        uv = None
    rec.nt()


def pols(c, rec):
    from aipy import miriad
    want = {"I": 1, "Q": 2, "U": 3, "V": 4, "rr": -1, "ll": -2, "rl": -3, "lr": -4, "xx": -5, "yy": -6, "xy": -7, "yx": -8}
    require(miriad.str2pol == want, "polarisation codes are %r", miriad.str2pol)
    require(miriad.pol2str == {v: k for k, v in want.items()}, "polarisation names are %r", miriad.pol2str)
    path = rec.tmp() + "/u"
    with call("UV(new)", uvm.create, path, "r", 1) as uv:
        uv.add_var("pol", "i")
        for k, p in enumerate(c):
            uv["pol"] = miriad.str2pol[p]
            uv.write((np.array([0., 0., k]), 2455000., (0, 1)), np.ma.array(np.ones(1, np.complex64), mask=False))
        uv = None
    with call("UV(old)", uvm.Uv, path) as uv:
        got = [miriad.pol2str[uv["pol"]] for _ in uv.all()]
        require(got == list(c), "polarisations %r written, %r read", c, got)
        uv.select("polarization", miriad.str2pol[c[0]], 0)
        uv.rewind()
        got = [int(p[0][2]) for p, d in uv.all()]
        require(got == [k for k, x in enumerate(c) if x == c[0]], "selecting %s keeps %r", c[0], got)
        uv = None
    rec.nt(len(set(c)) > 1)


def subs():
    bad = st.one_of(st.tuples(st.integers(2047, 2 ** 31 - 1), st.integers(0, 2046)), st.tuples(st.integers(0, 2046), st.integers(2047, 2 ** 31 - 1)), st.tuples(st.integers(-2 ** 31, -1), st.integers(0, 300)),
                    st.tuples(st.integers(0, 300), st.integers(-2 ** 31, -1)), st.tuples(st.integers(2047, 5000), st.integers(-5, 5000)))
    return [Sub("row", st.fixed_dictionaries({"i": st.one_of(st.integers(0, MAXANT), st.sampled_from([0, 1, 253, 254, 255, 256, 2046])), "step": st.sampled_from([1, 1, 3])}), row, quick=150),
            Sub("distinct", st.fixed_dictionaries({"pairs": st.lists(codes, min_size=2, max_size=60)}), distinct, quick=300),
            Sub("stored", st.fixed_dictionaries({"pairs": st.lists(codes, min_size=1, max_size=10), "pick": st.integers(0, 9)}), stored, quick=300),
            Sub("refused", bad.map(lambda t: {"i": t[0], "j": t[1]}), refused, quick=100),
            Sub("pols", st.lists(st.sampled_from(["I", "Q", "U", "V", "rr", "ll", "rl", "lr", "xx", "yy", "xy", "yx"]), min_size=1, max_size=8), pols, quick=80)]
