"""C24: spherical-harmonic coefficients."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, raises_cleanly
from vlib import gen, hpx

TECHNIQUE = "stateful property-based testing of coefficient access against a dictionary, and of transforms against the sum of spherical harmonics"
RULE = ("cases: lmax 0-12, mmax <= lmax; histories of setting, reading, replacing, clearing coefficients (every l, m in and around the range); "
        "maps of nside 1-16 against the harmonic sum at the pixel centres, analysis of band-limited maps, linearity, smoothing; "
        "non-trivial: lmax >= 2 and more than one coefficient set")


@st.composite
def lm(draw):
    l = draw(st.integers(0, 12))
    return l, draw(st.integers(0, l))


@st.composite
def case(draw):
    l, m = draw(lm())
    return {"lmax": l, "mmax": m, "dt": draw(st.sampled_from(["complex128", "complex128", "complex64"])),
            "ops": draw(st.lists(st.tuples(st.sampled_from(["set", "set", "set", "get", "bad", "setdata", "zero", "alias", "badsize"]), st.integers(-2, 14), st.integers(-2, 14), gen.seeds), min_size=1, max_size=15))}


def access(c, rec):
    from aipy import healpix
    L, M = c["lmax"], c["mmax"]
    dt = np.dtype(c["dt"]).type
    a = call("Alm", healpix.Alm, L, M, **({} if c["dt"] == "complex128" else {"dtype": dt}))
    pairs = [(l, m) for m in range(M + 1) for l in range(m, L + 1)]
    require((a.lmax(), a.mmax(), a.size()) == (L, M, len(pairs)), "lmax, mmax, size %r, expected %r", (a.lmax(), a.mmax(), a.size()), (L, M, len(pairs)))
    idx = np.asarray(call("lm_indices", a.lm_indices))
    require(sorted(map(tuple, idx.tolist())) == sorted(pairs), "lm_indices %r of lmax %d, mmax %d", idx, L, M)
    order = list(map(tuple, idx.tolist()))
    d = dict.fromkeys(pairs, dt(0))
    require(raises_cleanly(healpix.Alm, L, L + 1), "mmax beyond lmax was accepted")
    nset = 0
    for kind, l, m, seed in c["ops"]:
        r = gen.rng(seed)
        if kind in ("set", "get", "bad"):
            if kind != "bad":
                l, m = pairs[(l * 31 + m) % len(pairs)]
            v = dt(complex(*r.normal(size=2)))
            if (l, m) in d:
                if kind != "get":
                    call("alm[l, m] = v", a.__setitem__, (l, m), v)
                    d[l, m] = v
                    nset += 1
                require(call("alm[l, m]", a.__getitem__, (l, m)) == d[l, m], "alm[%d, %d] = %r, expected %r", l, m, a[l, m], d[l, m])
            else:
                before = np.array(a.get_data())
                require(raises_cleanly(a.__getitem__, (l, m)), "alm[%d, %d] of lmax %d, mmax %d was read", l, m, L, M)
                require(raises_cleanly(a.__setitem__, (l, m), v), "alm[%d, %d] of lmax %d, mmax %d was set", l, m, L, M)
                require(np.array_equal(before, a.get_data()), "a refused coefficient changed others")
        elif kind == "setdata":
            v = (r.normal(size=len(pairs)) + 1j * r.normal(size=len(pairs))).astype([np.complex128, np.complex64][seed % 2])
            call("set_data", a.set_data, v)
            d = dict(zip(order, v.astype(dt)))
            v[:] = 0
            nset += len(pairs)
        elif kind == "zero":
            call("set_to_zero", a.set_to_zero)
            d = dict.fromkeys(pairs, dt(0))
        elif kind == "alias":
            b = healpix.Alm(L, M)
            call("set_data", b.set_data, a.get_data())
            b[0, 0] = 77
        else:
            require(raises_cleanly(a.set_data, np.zeros(len(pairs) + 1 + seed % 3, complex)), "data of a wrong size were accepted")
        got = np.asarray(call("get_data", a.get_data))
        require(got.dtype == np.dtype(dt) and got.shape == (len(pairs),), "get_data: %s %r", got.dtype, got.shape)
        require(np.array_equal(got, np.array([d[p] for p in order])), "after %s the coefficients are %r, expected %r", kind, got, [d[p] for p in order])
        require(all(a[p] == d[p] for p in pairs), "after %s: coefficients by l, m differ from the data", kind)
    rec.nt(L >= 2 and nset > 1)
    for o in c["ops"]:
        rec.event(o[0])


def synth(d, th, ph):
    """Sum of the harmonics of a real field with coefficients d."""
    from scipy.special import sph_harm_y
    f = np.zeros(th.shape)
    for (l, m), v in d.items():
        y = sph_harm_y(l, m, th, ph)
        f += v.real * y.real if m == 0 else 2 * (v * y).real
    return f


@st.composite
def tcase(draw):
    l, m = draw(lm())
    return {"lmax": l, "mmax": m, "k": draw(st.integers(0, 4)), "seed": draw(gen.seeds), "sparse": draw(st.booleans()), "fwhm": draw(st.sampled_from([0, 0, .1, .5])),
            "scheme": draw(st.sampled_from(["RING", "NEST"])), "c": draw(gen.fl(-5, 5))}


def coeffs(c, L, M, r):
    d = {(l, m): complex(*r.normal(size=2)) for m in range(M + 1) for l in range(m, L + 1)}
    for p in d:
        if p[1] == 0:
            d[p] = complex(d[p].real)
    if c["sparse"]:
        keep = r.integers(0, len(d), 2)
        for i, p in enumerate(d):
            if i not in keep:
                d[p] = 0j
    return d


def mk(healpix, L, M, d):
    a = call("Alm", healpix.Alm, L, M)
    for (l, m), v in d.items():
        call("alm[l, m] = v", a.__setitem__, (l, m), v)
    return a


def transforms(c, rec):
    from aipy import healpix
    L, M = c["lmax"], c["mmax"]
    nside = 1 << c["k"]
    r = gen.rng(c["seed"])
    d, e = coeffs(c, L, M, r), coeffs(c, L, M, r)
    a, b = mk(healpix, L, M, d), mk(healpix, L, M, e)
    th, ph = hpx.centres(nside)
    keep = np.array(a.get_data())
    mp = np.asarray(call("to_map", a.to_map, nside))
    want = synth(d, th, ph)
    scale = 1 + np.abs(want).max()
    require(mp.shape == th.shape and np.allclose(mp, want, rtol=0, atol=1e-6 * scale), "to_map (lmax %d, mmax %d, nside %d): %r, sum of harmonics %r", L, M, nside, mp, want)
    require(np.array_equal(keep, a.get_data()), "to_map changed the coefficients")
    ab = mk(healpix, L, M, {p: d[p] + c["c"] * e[p] for p in d})
    require(np.allclose(call("to_map", ab.to_map, nside), mp + c["c"] * np.asarray(b.to_map(nside)), rtol=0, atol=1e-6 * scale * 10), "to_map is not linear")
    if c["fwhm"]:
        s = c["fwhm"] / np.sqrt(8 * np.log(2))
        sm = call("to_map with smoothing", a.to_map, nside, fwhm=c["fwhm"])
        want = synth({(l, m): v * np.exp(-.5 * l * (l + 1) * s * s) for (l, m), v in d.items()}, th, ph)
        require(np.allclose(sm, want, rtol=0, atol=1e-6 * scale), "smoothed by %r: %r expected %r", c["fwhm"], sm, want)
        require(np.array_equal(keep, a.get_data()), "smoothing changed the coefficients")
    if nside > 1:
        import healpy
        pw = healpy.pixwin(nside)
        sm = call("to_map with the pixel window", a.to_map, nside, pixwin=True)
        want = synth({(l, m): v * (pw[l] if l < len(pw) else 0) for (l, m), v in d.items()}, th, ph)
        require(np.allclose(sm, want, rtol=0, atol=1e-6 * scale), "with the pixel window: %r expected %r", sm, want)
    # into a map
    h = call("HealpixMap", healpix.HealpixMap, nside, c["scheme"])
    call("from_alm", h.from_alm, a)
    got = np.asarray(h.get_map())
    want = synth(d, th, ph)
    if h.scheme() == "NEST":
        want = want[hpx.ring_of_nest(nside)]
    require(h.nside() == nside and np.allclose(got, want, rtol=0, atol=1e-6 * scale), "from_alm at nside %d %s: %r expected %r", nside, h.scheme(), got, want)
    # and back
    if L <= 2 * nside - 1:
        h2 = call("HealpixMap", healpix.HealpixMap, nside)
        call("set_map", h2.set_map, mp)
        for it, tol in ((1, 2e-2), (8, 2e-4)):
            back = call("to_alm", h2.to_alm, L, M, iter=it)
            require((back.lmax(), back.mmax(), back.size()) == (L, M, a.size()), "to_alm: lmax %d, mmax %d", back.lmax(), back.mmax())
            rms = np.sqrt(np.mean(np.abs(keep) ** 2)) + 1e-9
            err = np.abs(np.asarray(back.get_data()) - keep).max() / rms
            rec.event("accuracy 1e%d after %d" % (int(np.floor(np.log10(err + 1e-15))), it))
            require(err < tol * (3 if nside < 4 else 1) * 5, "to_alm(iter=%d) at nside %d, lmax %d: %r from %r (error %g)", it, nside, L, np.asarray(back.get_data()), keep, err)
        f = call("Alm", healpix.Alm, L, M)
        call("from_map", f.from_map, mp)
        require(np.array_equal(mp, np.asarray(h2.get_map())), "analysis changed the map")
        g = call("Alm", healpix.Alm, L, M)
        call("from_map", g.from_map, mp * 3.)
        require(np.allclose(g.get_data(), 3 * np.asarray(f.get_data()), rtol=0, atol=1e-6 * scale), "from_map is not linear")
        flat = call("Alm.from_map of a constant", (lambda: (lambda q: (q.from_map(np.full(12 * nside ** 2, c["c"])), q)[1])(healpix.Alm(L, M))))
        require(abs(flat[0, 0] - c["c"] * np.sqrt(4 * np.pi)) < 1e-3 * (1 + abs(c["c"])), "constant term %r of a constant map of %r", flat[0, 0], c["c"])
    rec.nt(L >= 2 and nside > 1)


def subs():
    return [Sub("access", case(), access, quick=2000, thorough=60000), Sub("transforms", tcase(), transforms, quick=600, thorough=15000)]
