"""C02: UV records in scaled-integer mode come back within one quantum."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, Violation
from vlib import gen, uvm

TECHNIQUE = "property-based testing: write/read of generated scaled-integer datasets against the values written, with the quantisation bound"
RULE = ("cases: datasets of 1-10 records written with corrmode='j', amplitudes spanning 1e-20..1e25 between and within records; oracle: the "
        "values written, error bound of one quantum (largest component of the record / 32767); non-trivial: a record whose components "
        "span more than one quantum level, or records of different scale")


@st.composite
def dataset(draw):
    nch = draw(st.one_of(st.integers(1, 60), st.sampled_from([1, 31, 32, 128, 1024])))
    recs = draw(st.lists(st.fixed_dictionaries({
        "seed": gen.seeds, "kind": st.sampled_from(["normal", "normal", "uniform", "wide", "zero", "one", "neg", "ints"]),
        "mask": st.sampled_from(uvm.MASKS), "exp": st.integers(-20, 25), "t": st.integers(0, 3), "i": uvm.antnum, "j": uvm.antnum}), min_size=1, max_size=10))
    return {"nchan": nch, "recs": recs, "masked_loud": draw(st.booleans()), "readmode": draw(st.sampled_from(["r", "j"]))}


def spec(c, r):
    g = np.random.default_rng(r["seed"])
    n = c["nchan"]
    a = 10.0 ** r["exp"]
    k = r["kind"]
    if k == "normal":
        d = g.normal(size=(2, n)) * a
    elif k == "uniform":
        d = g.uniform(-a, a, size=(2, n))
    elif k == "wide":
        d = g.normal(size=(2, n)) * a * 10.0 ** g.uniform(-6, 0, size=(2, n))
    elif k == "zero":
        d = np.zeros((2, n))
    elif k == "one":
        d = np.zeros((2, n))
        d[int(g.integers(2)), int(g.integers(n))] = a
    elif k == "neg":
        d = -np.abs(g.normal(size=(2, n))) * a
    else:
        d = g.integers(-32767, 32768, size=(2, n)).astype(float)
        d[0, 0] = 32767
    d = d.astype(np.float32)
    m = uvm.mask(r["seed"], n, r["mask"])
    return (d[0] + np.complex64(1j) * d[1]).astype(np.complex64), m


def quantised(c, rec):
    path = rec.tmp() + "/u"
    nt = False
    want = []
    with call("UV(new)", uvm.create, path, "j", c["nchan"]) as uv:
        for r in c["recs"]:
            d, m = spec(c, r)
            want.append((d, m))
            call("write", uv.write, (np.array([r["i"] * 1.5, -1.25, r["t"] * 1.]), 2455000.5 + r["t"], (r["i"], r["j"])), np.ma.array(d, mask=m))
        uv = None
    with call("UV(old)", uvm.Uv, path, "old", c["readmode"]) as uv:
        require(uv.vartable.get("corr") == "j", "data variable has type %r, not 'j'", uv.vartable.get("corr"))
        for rep in range(2):
            got = call("read", lambda: [x for x in uv.all(raw=True)])
            require(len(got) == len(want), "wrote %d records, read %d", len(want), len(got))
            for k, (r, (d, m), (p, gd, gf)) in enumerate(zip(c["recs"], want, got)):
                require(np.array_equal(p[0], [r["i"] * 1.5, -1.25, r["t"]]) and p[1] == 2455000.5 + r["t"] and tuple(p[2]) == (r["i"], r["j"]), "record %d: preamble %r", k, p)
                require(gd.shape == d.shape, "record %d has %d channels, wrote %d", k, len(gd), len(d))
                require(np.array_equal(gf, m), "record %d: flags differ from those written", k)
                big = float(max(np.abs(d.real).max(), np.abs(d.imag).max()))
                q = big / 32767.
                err = max(np.abs(gd.real.astype(float) - d.real).max(), np.abs(gd.imag.astype(float) - d.imag).max())
                require(err <= q * 1.001 + 4e-7 * big, "record %d: error %g exceeds the quantum %g (largest component %g)", k, err, q, big)
                if r["kind"] == "zero":
                    require(not gd.any(), "record %d: zeros came back as %r", k, gd[:4])
                nt = nt or (big > 0 and len(d) > 1)
            uv.rewind()
        uv = None
    rec.nt(nt)


def subs():
    return [Sub("quantised", dataset(), quantised, quick=500)]
