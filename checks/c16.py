"""C16: phases toward sources."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import j1
from vlib.harness import Sub, require, call
from vlib import gen, arr

TECHNIQUE = "property-based testing against a written-out phase formula, with round trips and conjugation as metamorphic relations"
RULE = ("cases: arrays with phase polynomials of degree 0-3, channel selections of 1-12, sources as zenith, bodies, vectors and arrays of "
        "vectors, ionospheric offsets and shapes given per source or for all, in lists, tuples or arrays; oracle: exp(-2 pi i (w f + offset_j "
        "- offset_i)) with the refraction and disk terms written out; non-trivial: a source other than the zenith")


@st.composite
def case(draw):
    n = draw(st.integers(2, 4))
    return {"loc": draw(arr.location()), "jd": draw(arr.JD), "n": n, "own": draw(st.booleans()), "seed": draw(gen.seeds), "f": draw(arr.freqs()), "cls": draw(st.sampled_from(["phs", "amp", "fit"])),
            "scale": draw(st.sampled_from([1., 100., 1000.])), "deg": draw(st.integers(1, 4)), "chans": draw(st.one_of(st.none(), st.lists(st.integers(0, 11), min_size=1, max_size=5))),
            "src": draw(st.sampled_from(["z", "body", "vec", "vecs", "vecs", "vecs"])), "nsrc": draw(st.integers(1, 6)),
            "ion": draw(st.sampled_from(["none", "one", "each", "list"])), "shp": draw(st.sampled_from(["none", "one", "each", "zero"])),
            "mf": draw(st.sampled_from(["default", "one", "each"])), "res": draw(st.booleans()), "dseed": draw(gen.seeds)}


def bessel(u, v, a1, a2, th):
    ru = a1 * (u * np.cos(th) - v * np.sin(th))
    rv = a2 * (u * np.sin(th) + v * np.cos(th))
    x = 2 * np.pi * np.hypot(ru, rv)
    return np.where(x == 0, 1., 2 * j1(np.where(x == 0, 1., x)) / np.where(x == 0, 1., x))


def phases(c, rec):
    import aipy
    mod = getattr(aipy, c["cls"])
    r = gen.rng(c["seed"])
    fq = arr.mkfreqs(c["f"])
    beam = mod.Beam(fq)
    pos = r.normal(size=(c["n"], 3)) * c["scale"]
    po = r.normal(size=(c["n"], c["deg"])) * .7
    aa = mod.AntennaArray(arr.loc(c["loc"]), [mod.Antenna(*p, beam=mod.Beam(fq) if c["own"] else beam, phsoff=list(q)) for p, q in zip(pos, po)])
    if c["chans"] is not None:
        ch = np.array([k % len(fq) for k in c["chans"]])
        aa.select_chans(ch)
        fq = fq[ch]
    aa.set_jultime(c["jd"])
    lst = float(aa.sidereal_time())
    N = c["nsrc"] if c["src"] == "vecs" else 1
    one = lambda k: float(r.normal()) * 2e-3
    ion, shp = [np.zeros(N), np.zeros(N)], None
    ionref = None
    if c["ion"] == "one" or (c["ion"] != "none" and c["src"] != "vecs"):
        ionref = (one(0), one(1))
        if r.random() < .3:
            ionref = (np.float64(ionref[0]), np.float64(ionref[1]))
        if r.random() < .3:
            ionref = list(ionref)
        ion = [np.repeat(ionref[0], N), np.repeat(ionref[1], N)]
    elif c["ion"] != "none":
        ion = [r.normal(size=N) * 2e-3 for _ in range(2)]
        ionref = tuple(x.copy() for x in ion)
        if c["ion"] == "list":
            ionref = list(ionref)
    srcshape = None
    if c["shp"] == "one" or (c["shp"] == "each" and c["src"] != "vecs"):
        srcshape = (float(r.uniform(0, 5e-3)), float(r.uniform(0, 5e-3)), float(r.uniform(-3, 3)))
        shp = [np.repeat(x, N) for x in srcshape]
    elif c["shp"] == "each":
        shp = [r.uniform(0, 5e-3, size=N) * (r.random(N) < .8), r.uniform(0, 5e-3, size=N), r.uniform(-3, 3, size=N)]
        srcshape = tuple(x.copy() for x in shp)
    elif c["shp"] == "zero":
        srcshape = (0., 0., 0.)
        shp = [np.zeros(N)] * 3
    mf, mfreq = np.repeat(.150, N), None
    if c["mf"] == "one":
        mfreq = float(r.uniform(.05, .4))
        mf = np.repeat(mfreq, N)
    elif c["mf"] == "each" and c["src"] == "vecs":
        mf = r.uniform(.05, .4, size=N)
        mfreq = mf.copy()
    v = r.normal(size=(3, N))
    v /= np.sqrt((v ** 2).sum(0))
    ra, dec = np.arctan2(v[1], v[0]), np.arctan2(v[2], np.hypot(v[0], v[1]))
    kw = {}
    if mfreq is not None:
        kw["mfreq"] = mfreq
    if c["src"] == "z":
        src, M = "z", [arr.uvw_matrix(0., float(aa.lat))]
    elif c["src"] == "body":
        # up, and with its own refraction and shape
        ra0, dec0 = lst + r.uniform(-.3, .3), float(aa.lat) + r.uniform(-.3, .3)
        if abs(dec0) > 1.55:
            dec0 = np.sign(dec0) * 1.4
        bk = {}
        if c["cls"] != "phs":
            bk["jys"] = 1.
        if ionref is not None and r.random() < .5:
            bk["ionref"] = ionref
        if srcshape is not None and r.random() < .5:
            bk["srcshape"] = srcshape
        src = mod.RadioFixedBody(ra0, dec0, name="s", **bk)
        src.compute(aa)
        require(float(src.alt) > 0, "a source near the zenith is at altitude %r", src.alt)
        if "ionref" in bk:
            ionref = None
        elif ionref is None:
            ion = [np.zeros(1), np.zeros(1)]
        if "srcshape" in bk:
            srcshape = None
        elif srcshape is None:
            shp = None
        M = [arr.uvw_matrix(lst - float(src.ra), float(src.dec))]
    else:
        src = v if c["src"] == "vecs" else v[:, 0]
        M = [arr.uvw_matrix(lst - a, d) for a, d in zip(ra, dec)]
    if ionref is not None:
        kw["ionref"] = ionref
    if srcshape is not None:
        kw["srcshape"] = srcshape
    args = [x for x in list(ionref or ()) + list(srcshape or ()) + [mfreq, src] if isinstance(x, np.ndarray)]
    keep = [x.copy() for x in args]
    data = gen.rng(c["dseed"]).normal(size=(N, len(fq))) + 1j * gen.rng(c["dseed"] + 1).normal(size=(N, len(fq)))
    data = data.squeeze()
    for i in range(c["n"]):
        for j in range(c["n"]):
            bl = pos[j] - pos[i]
            uvw = np.array([m.dot(bl) for m in M])[:, :, None] * fq
            u, vv, w = uvw[:, 0], uvw[:, 1], uvw[:, 2]
            off = np.polyval(po[j], fq) - np.polyval(po[i], fq)
            require(np.allclose(aa.get_phs_offset(i, j), off, rtol=0, atol=1e-9), "phase offset of (%d,%d): %r expected %r", i, j, aa.get_phs_offset(i, j), off)
            dw = (ion[0][:, None] * u + ion[1][:, None] * vv) * mf[:, None] ** 2 / fq ** 2
            plain = np.exp(-2j * np.pi * (w + dw + off))
            want = plain * bessel(u, vv, *[x[:, None] for x in shp]) if c["res"] and shp is not None else plain
            if c["res"] or c["dseed"] % 2:
                got = call("gen_phs(%d,%d)" % (i, j), aa.gen_phs, src, i, j, resolve_src=c["res"], **kw)
            else:
                got = call("gen_phs(%d,%d)" % (i, j), aa.gen_phs, src, i, j, **kw)
            tol = 1e-8 * (1 + c["scale"])
            require(np.shape(got) == want.squeeze().shape, "gen_phs: shape %r expected %r", np.shape(got), want.squeeze().shape)
            require(np.allclose(got, want.squeeze(), rtol=0, atol=tol), "gen_phs(%d,%d) = %r expected %r", i, j, got, want.squeeze())
            if i == j:
                require(np.allclose(got, 1, rtol=0, atol=tol), "the phase of an antenna with itself is %r", got)
            back = call("gen_phs", aa.gen_phs, src, j, i, resolve_src=c["res"], **kw)
            require(np.allclose(back, np.conj(got), rtol=0, atol=tol), "gen_phs(%d,%d) is not the conjugate of (%d,%d)", j, i, i, j)
            d0 = data.copy()
            p = call("phs2src", aa.phs2src, data, src, i, j, **kw)
            require(np.allclose(p, d0 * plain.squeeze(), rtol=0, atol=10 * tol), "phs2src(%d,%d) = %r expected %r", i, j, p, d0 * plain.squeeze())
            q = call("unphs2src", aa.unphs2src, p, src, i, j, **kw)
            require(np.allclose(q, d0, rtol=0, atol=10 * tol), "unphs2src(phs2src(x)) is %r, x is %r", q, d0)
            require(np.array_equal(data, d0), "phs2src changed its data")
    # with nothing given, no offset and no size; and the reference frequency of the offsets
    uu, vv = r.normal(size=(2, 3, len(fq))) * 100
    zero = call("refract", aa.refract, uu.copy(), vv.copy())
    require(np.shape(zero) == uu.shape and not np.any(zero), "refraction by no offset: %r", zero)
    dw = call("refract", aa.refract, uu.copy(), vv.copy(), ionref=(1e-3, -2e-3))
    require(np.allclose(dw, (1e-3 * uu - 2e-3 * vv) * .150 ** 2 / fq ** 2, rtol=1e-10, atol=1e-10), "refraction by offsets at 150 MHz: %r", dw)
    whole = call("resolve_src", aa.resolve_src, uu.copy(), vv.copy())
    require(np.allclose(whole, np.ones(uu.shape).squeeze(), rtol=0, atol=1e-12), "a point is resolved: %r", whole)
    for a, b in zip(args, keep):
        require(a.shape == b.shape and np.array_equal(a, b), "an argument was changed from %r to %r", b, a)
    rec.nt(c["src"] != "z")
    rec.event("%s ion=%s shp=%s res=%s" % (c["src"], c["ion"], c["shp"], c["res"]))


def subs():
    return [Sub("phases", case(), phases, quick=1500, thorough=40000)]
