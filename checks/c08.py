"""C08: multi-file reading and text selections."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen, uvm

TECHNIQUE = "differential testing: generated datasets and selection strings against a reference evaluation of the selection grammar"
RULE = ("cases: 1-3 datasets with generated antenna pairs, polarisations, times; antenna strings built from the grammar (all, auto, cross, single "
        "antennas, pairs, bracketed products, exclusions, polarised antennas), polarisation lists, decimation; oracle: fold of the terms in "
        "order (an inclusion adds, an exclusion removes) over the records; non-trivial: some but not all records are kept")
POL = {"xx": -5, "yy": -6, "xy": -7, "yx": -8, "I": 1, "Q": 2, "U": 3, "V": 4, "rr": -1, "ll": -2, "rl": -3, "lr": -4}
NAME = {v: k for k, v in POL.items()}
NANT = 6


@st.composite
def dataset(draw, lin):
    n = draw(st.integers(2, 25))
    pols = draw(st.lists(st.sampled_from([-5, -6, -7, -8] if lin else sorted(NAME)), min_size=1, max_size=4))
    rev = draw(st.booleans())
    recs = []
    t = draw(st.integers(0, 3))
    for _ in range(n):
        i, j = draw(st.integers(0, NANT - 1)), draw(st.integers(0, NANT - 1))
        if not rev:
            i, j = min(i, j), max(i, j)
        t += draw(st.sampled_from([0, 0, 1]))
        recs.append({"i": i, "j": j, "pol": draw(st.sampled_from(pols)), "t": t})
    return recs


def num(draw):
    return draw(st.integers(0, NANT - 1))


@st.composite
def term(draw):
    """-> (text, [(pair or 'auto'/ant, include, pols or None)])"""
    k = draw(st.sampled_from(["all", "auto", "cross", "ant", "ant", "pair", "pair", "pair", "prod", "prod", "polpair", "halfpol"]))
    if k in ("all", "auto", "cross"):
        return [k]
    sg = lambda: draw(st.sampled_from(["", "", "", "-"]))
    if k == "ant":
        return ["ant", sg(), num(draw)]
    if k == "pair":
        return ["pair", sg(), num(draw), sg(), num(draw)]
    if k == "prod":
        a = [(sg(), num(draw)) for _ in range(draw(st.integers(1, 3)))]
        b = [(sg(), num(draw)) for _ in range(draw(st.integers(1, 3)))]
        return ["prod", a, b]
    i, j = sorted((num(draw), num(draw)))
    return [k, i, draw(st.sampled_from("xy")), j, draw(st.sampled_from(["x", "y"]))]


def text(t):
    if t[0] in ("all", "auto", "cross"):
        return t[0]
    if t[0] == "ant":
        return "%s%d" % (t[1], t[2])
    if t[0] == "pair":
        return "%s%d_%s%d" % (t[1], t[2], t[3], t[4])
    if t[0] == "prod":
        f = lambda l: "(" + ",".join("%s%d" % x for x in l) + ")"
        return f(t[1]) + "_" + f(t[2])
    if t[0] == "polpair":
        return "%d%s_%d%s" % tuple(t[1:])
    return "%d%s_%d" % tuple(t[1:4])


def steps(t):
    """The (test, include, pols) steps a term stands for."""
    p = lambda i, j: ("pair", min(i, j), max(i, j))
    if t[0] == "auto":
        return [(("auto",), 1, None)]
    if t[0] == "cross":
        return [(("auto",), 0, None)]
    if t[0] == "ant":
        return [(p(t[2], j), int(t[1] == ""), None) for j in range(NANT)]
    if t[0] == "pair":
        return [(p(t[2], t[4]), int(t[1] == "" and t[3] == ""), None)]
    if t[0] == "prod":
        return [(p(i, j), int(si == "" and sj == ""), None) for si, i in t[1] for sj, j in t[2]]
    if t[0] == "polpair":
        return [(p(t[1], t[3]), 1, [t[2] + t[4]])]
    return [(p(t[1], t[3]), 1, [t[2] + "x"]), (p(t[1], t[3]), 1, [t[2] + "y"])]


def kept(r, terms, pols):
    seq = []
    for t in terms:
        if t[0] == "all":
            seq = []
        else:
            seq += steps(t)
    if not seq:
        return pols is None or NAME[r["pol"]] in pols
    state = True
    for n, (test, inc, tp) in enumerate(seq):
        if test[0] == "auto":
            hit = r["i"] == r["j"]
        else:
            hit = (min(r["i"], r["j"]), max(r["i"], r["j"])) == test[1:]
        ps = tp if tp is not None else pols
        ok = (hit if inc else not hit) and (ps is None or NAME[r["pol"]] in ps)
        if n == 0:
            state = ok
        elif inc:
            state = state or ok
        else:
            state = state and ok
    return state


def write(c, path, recs, nchan, base):
    h = call("UV(new)", uvm.create, path, "r", nchan)
    uv = h.uv
    for v, t in (("nants", "i"), ("pol", "i"), ("lst", "d"), ("sdf", "d"), ("sfreq", "d"), ("inttime", "r")):
        uv.add_var(v, t)
    uv["nants"], uv["sdf"], uv["sfreq"], uv["inttime"] = NANT, 0.0005, 0.125, 10.
    for k, r in enumerate(recs):
        uv["pol"], uv["lst"] = r["pol"], r["t"] * 0.125
        d = np.full(nchan, base + k, np.complex64) + np.arange(nchan) * 1j
        call("write", uv.write, (np.array([0., 0., k]), 2455000. + r["t"] / 16., (r["i"], r["j"])), np.ma.array(d.astype(np.complex64), mask=uvm.mask(base + k, nchan, "rand")))
    uv = None
    h.__exit__(None, None, None)


@st.composite
def case(draw, files=1):
    lin = draw(st.integers(0, 3)) > 0
    terms = draw(st.lists(term(), min_size=1, max_size=4))
    pols = draw(st.one_of(st.none(), st.lists(st.sampled_from(["xx", "yy", "xy", "yx"] if lin else sorted(POL)), min_size=1, max_size=3, unique=True)))
    return {"files": [draw(dataset(lin)) for _ in range(draw(st.integers(1, files)))], "terms": terms, "pols": pols, "noants": draw(st.integers(0, 5)) == 0, "nchan": draw(st.integers(1, 4)),
            "dec": draw(st.sampled_from([1, 1, 2, 3])), "ph": draw(st.integers(0, 2)), "str": draw(st.booleans()), "recast": draw(st.booleans())}


def decimated(recs, dec, ph):
    out, n, cur = [], -1, None
    for k, r in recs:
        if r["t"] != cur:
            n += 1
            cur = r["t"]
        if dec <= 1 or (n - ph) % dec == 0:
            out.append((k, r))
    return out


def selector(c, rec):
    from aipy import scripting
    path = rec.tmp() + "/u"
    recs = c["files"][0]
    write(c, path, recs, c["nchan"], 0)
    ants = ",".join(text(t) for t in c["terms"])
    h = call("UV(old)", uvm.Uv, path)
    terms = c["terms"]
    if c["noants"]:
        call("uv_selector", scripting.uv_selector, h.uv, -1, -1 if c["pols"] is None else ",".join(c["pols"]))
        terms = [["all"]]
    else:
        call("uv_selector(%r)" % ants, scripting.uv_selector, h.uv, ants, -1 if c["pols"] is None else ",".join(c["pols"]))
    want = [k for k, r in enumerate(recs) if kept(r, terms, c["pols"])]
    got = [int(p[0][2]) for p, d in h.uv.all()]
    require(got == want, "ants %r pols %r: records %r kept, expected %r", ants, c["pols"], got, want)
    h.__exit__(None, None, None)
    rec.nt(0 < len(want) < len(recs))


def multi(c, rec):
    from aipy import miriad
    d0 = rec.tmp()
    names = []
    for n, recs in enumerate(c["files"]):
        names.append("%s/f%d" % (d0, n))
        write(c, names[-1], recs, c["nchan"], 1000 * n)
    ants = ",".join(text(t) for t in c["terms"])
    arg = names[0] if (len(names) == 1 and c["str"]) else names
    pol = -1 if c["pols"] is None else ",".join(c["pols"])
    kw = {"decimate": c["dec"], "decphs": c["ph"], "recast_as_array": c["recast"]}
    if len(ants) % 2:               # what is omitted has its default
        kw = {k: v for k, v in kw.items() if v != {"decimate": 1, "decphs": 0, "recast_as_array": True}[k]}
    info, data, flgs = call("read_files(%r, %r)" % (ants, kw), miriad.read_files, arg, ants, pol, **kw)
    uvm.closed()
    wd, wf, times = {}, {}, []
    total = 0
    for n, recs in enumerate(c["files"]):
        sel = decimated([(k, r) for k, r in enumerate(recs) if kept(r, c["terms"], c["pols"])], c["dec"], c["ph"])
        total += len(recs)
        for k, r in sel:
            key = (r["i"], r["j"], NAME[r["pol"]])
            wd.setdefault(key, []).append(np.full(c["nchan"], 1000 * n + k) + np.arange(c["nchan"]) * 1j)
            wf.setdefault(key, []).append(uvm.mask(1000 * n + k, c["nchan"], "rand"))
            if not times or times[-1] != r["t"]:
                times.append(r["t"])
    require(set(data) == set(wd) and set(flgs) == set(wd), "keys %r, expected %r", sorted(data), sorted(wd))
    for k in wd:
        require(len(data[k]) == len(wd[k]) and np.array_equal(np.array(data[k]), np.array(wd[k])), "data of %r differ: %r expected %r", k, data[k], wd[k])
        require(np.array_equal(np.array(flgs[k]).astype(bool), np.array(wf[k])), "flags of %r differ", k)
        if c["recast"]:
            require(np.shape(data[k]) == (len(wd[k]), c["nchan"]) == np.shape(flgs[k]) and isinstance(data[k], np.ndarray) and isinstance(flgs[k], np.ndarray), "read_files(%r, %r): %r is not an array of integrations and channels: %r", ants, kw, k, data[k])
    require(list(info["times"]) == [2455000. + t / 16. for t in times], "times %r, expected %r", list(info["times"]), times)
    require(list(info["lsts"]) == [t * 0.125 for t in times], "lsts %r for times %r", list(info["lsts"]), times)
    require(np.allclose(info["freqs"], 0.125 + 0.0005 * np.arange(c["nchan"]), rtol=1e-12), "freqs %r", info["freqs"])
    require(not c["recast"] or (isinstance(info["times"], np.ndarray) and isinstance(info["lsts"], np.ndarray)), "read_files(%r): times %r and lsts %r, expected arrays", kw, info["times"], info["lsts"])
    kept_n = sum(len(v) for v in wd.values())
    rec.nt(0 < kept_n < total and len(wd) > 1)


def subs():
    return [Sub("selector", case(), selector, quick=500, weight=2), Sub("read_files", case(files=3), multi, quick=300, weight=2)]
