"""C01: UV records round trip exactly in float mode."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen, uvm

TECHNIQUE = "property-based testing: write/read round trip of generated UV datasets against the list of records written"
RULE = ("cases: datasets of 1-14 records with generated antenna pairs (0..2046), times, uvw, spectra (incl. inf/nan/denormals), flag "
        "patterns, array layouts and ways of calling write/read; oracle: the list of records written; non-trivial: at least two "
        "records that differ in preamble and at least one partially flagged record")


@st.composite
def dataset(draw, nchans=None, maxrec=14):
    nch = draw(nchans if nchans is not None else st.one_of(st.integers(1, 70), st.sampled_from([1, 30, 31, 32, 62, 63, 128, 256])))
    n = draw(st.integers(1, maxrec))
    ants = draw(st.lists(uvm.antnum, min_size=1, max_size=4))
    times = draw(st.lists(uvm.jd, min_size=1, max_size=4))
    near = draw(st.sampled_from([0, 0, 1, 2]))
    if near:
        # times next to one another, down to the last bit
        times = [times[0], float(np.nextafter(times[0], 1e9)), times[0] + 3e-9, times[0] - 2e-6][:1 + near * 2]
    recs = []
    for k in range(n):
        how = draw(st.integers(0, 5)) if k else 0
        uvw = [draw(uvm.f64) for _ in range(3)] if draw(st.integers(0, 3)) else [0.0, 0.0, 0.0]
        if how == 1:
            uvw = list(recs[-1]["uvw"])
        elif how == 2:
            # one coordinate differs from the record before, perhaps only in the last bit
            ax, uvw = draw(st.integers(0, 2)), list(recs[-1]["uvw"])
            uvw[ax] = draw(uvm.f64) if draw(st.booleans()) or not np.isfinite(uvw[ax]) else float(np.nextafter(uvw[ax], 0. if uvw[ax] else 1.))
        recs.append({
            "uvw": uvw,
            "t": draw(st.sampled_from(times)), "i": draw(st.sampled_from(ants)), "j": draw(st.sampled_from(ants)),
            "seed": draw(gen.seeds), "kind": draw(st.sampled_from(["normal", "normal", "special", "bits", "zero", "const"])),
            "mask": draw(st.sampled_from(uvm.MASKS)),
            "short": draw(st.sampled_from([0, 0, 0, 1, 5])) if k else 0,
            "how": draw(st.sampled_from(["ma", "ma", "flags", "flagsint", "nomask", "scalarmask", "c16", "strided"]))})
    return {"nchan": nch, "setn": draw(st.booleans()), "recs": recs, "read": draw(st.sampled_from(["read", "raw", "all", "allraw"])),
            "uvwlist": draw(st.booleans())}


def record(c, r):
    n = max(1, c["nchan"] - r["short"])
    d = uvm.spectrum(r["seed"], n, r["kind"])
    m = uvm.mask(r["seed"], n, r["mask"])
    if r["how"] in ("nomask",):
        m = np.zeros(n, dtype=bool)
    elif r["how"] == "scalarmask":
        m = np.full(n, bool(r["seed"] % 2))
    return np.array(r["uvw"]), r["t"], r["i"], r["j"], d, m


def put(uv, c, r):
    uvw, t, i, j, d, m = record(c, r)
    p = (uvw, t, (i, j))
    how = r["how"]
    d0, m0 = d.copy(), m.copy()
    if how == "ma":
        call("write", uv.write, p, np.ma.array(d, mask=m))
    elif how == "flags":
        call("write", uv.write, p, d, m)
    elif how == "flagsint":
        call("write", uv.write, p, d, m.astype(np.int64))
    elif how == "nomask":
        call("write", uv.write, p, np.ma.array(d))
    elif how == "scalarmask":
        x = np.ma.array(d)
        if m.any():
            x[:] = np.ma.masked
            x = np.ma.array(d, mask=True)
        call("write", uv.write, p, x)
    elif how == "c16":
        call("write", uv.write, p, np.ma.array(d.astype(np.complex128), mask=m))
    else:
        b = np.zeros((len(d), 3), dtype=np.complex64)
        b[:, 1] = d
        u = np.zeros((3, 2))
        u[:, 1] = uvw
        call("raw_write", uv.raw_write, (u[:, 1], t, (i, j)), b[:, 1], np.repeat(np.logical_not(m), 2).astype(np.int32)[::2])
    require(uvm.same(d, d0) and np.array_equal(m, m0), "write modified its arguments")


def take(uv, c):
    if c["read"] == "read":
        out = []
        while True:
            try:
                p, d = uv.read()
            except IOError:
                return out
            out.append((p, d.data, np.ma.getmaskarray(d)))
    if c["read"] == "raw":
        out = []
        while True:
            try:
                p, d, f = uv.read(raw=True)
            except IOError:
                return out
            out.append((p, d, f))
    if c["read"] == "all":
        return [(p, d.data, np.ma.getmaskarray(d)) for p, d in uv.all()]
    return [(p, d, f) for p, d, f in uv.all(raw=True)]


def compare(got, want):
    require(len(got) == len(want), "wrote %d records, read %d", len(want), len(got))
    for k, ((p, d, f), (uvw, t, i, j, wd, wm)) in enumerate(zip(got, want)):
        require(np.array_equal(p[0], uvw), "record %d: uvw %r, wrote %r", k, list(p[0]), list(uvw))
        require(p[1] == t, "record %d: time %r, wrote %r", k, p[1], t)
        require(tuple(p[2]) == (i, j), "record %d: antennas %r, wrote %r", k, p[2], (i, j))
        require(uvm.same(d, wd), "record %d: data %.200r, wrote %.200r", k, d, wd)
        require(np.array_equal(np.asarray(f, bool), wm), "record %d: flags %.300r, wrote %.300r", k, np.asarray(f).astype(int).tolist(), wm.astype(int).tolist())


def roundtrip(c, rec):
    path = rec.tmp() + "/u"
    want = [record(c, r) for r in c["recs"]]
    with call("UV(new)", uvm.create, path, "r", c["nchan"] if c["setn"] else None) as uv:
        for r in c["recs"]:
            put(uv, c, r)
        uv = None
    with call("UV(old)", uvm.Uv, path) as uv:
        got = call("reading", take, uv, c)
        compare(got, want)
        for _ in range(2):
            try:
                uv.read()
            except IOError:
                pass
            else:
                raise Violation("a record was read past the end of the file")
        call("rewind", uv.rewind)
        compare(call("reading again", take, uv, c), want)
        uv = None
    pre = {(tuple(r["uvw"]), r["t"], r["i"], r["j"]) for r in c["recs"]}
    rec.nt(len(pre) > 1 and any(w[5].any() and not w[5].all() for w in want))
    rec.event("how:" + c["read"])


def interleaved(c, rec):
    """Two files written in alternation, then read in alternation."""
    d = rec.tmp()
    hs = [call("UV(new)", uvm.create, d + "/%d" % k, "r", x["nchan"]) for k, x in enumerate(c)]
    for n in range(max(len(x["recs"]) for x in c)):
        for h, x in zip(hs, c):
            if n < len(x["recs"]):
                put(h.uv, x, x["recs"][n])
    for h in hs:
        h.__exit__(None, None, None)
    hs = [call("UV(old)", uvm.Uv, d + "/%d" % k) for k in range(len(c))]
    got = [[] for _ in c]
    live = list(range(len(c)))
    while live:
        for k in list(live):
            try:
                p, dd, f = hs[k].uv.read(raw=True)
            except IOError:
                live.remove(k)
                continue
            got[k].append((p, dd, f))
    for x, g in zip(c, got):
        compare(g, [record(x, r) for r in x["recs"]])
    for h in hs:
        h.__exit__(None, None, None)
    rec.nt(len({len(x["recs"]) for x in c}) > 1)


def subs():
    big = st.one_of(st.integers(1, 3000), st.sampled_from([4064, 4096, 8192, 32767, 32768]))
    return [
        Sub("roundtrip", dataset(), roundtrip, quick=500, weight=4),
        Sub("wide", dataset(big, 4), roundtrip, quick=60, weight=1),
        Sub("interleaved", st.lists(dataset(maxrec=6), min_size=2, max_size=4), interleaved, quick=100, weight=1),
    ]
