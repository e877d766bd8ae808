"""C17: simulated visibilities."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, arr

TECHNIQUE = "property-based testing: simulated data against the sum written out source by source, plus linearity, order and exchange relations"
RULE = ("cases: arrays of 2-4 antennas with their own or shared beams, passbands, phase polynomials and pointings, 0-8 sources above and below "
        "the horizon with spectra (some zero), refraction and shapes per source or common, all linear polarisations, 1-8 channels; oracle: "
        "sum over the sources up of gain, beams, flux, disk and phase; non-trivial: at least one source above the horizon and one baseline "
        "between different antennas")


@st.composite
def case(draw):
    n = draw(st.integers(2, 4))
    own = draw(st.booleans())
    return {"loc": draw(arr.location()), "jd": draw(arr.JD), "f": draw(arr.freqs(8)), "mod": draw(st.sampled_from(["amp", "fit"])),
            "ants": [draw(arr.ant_spec()) for _ in range(n)], "beams": [draw(arr.beam_spec(("flat", "gauss", "gauss", "poly", "poly", "cplx"))) for _ in range(n if own else 1)],
            "nsrc": draw(st.integers(1, 8)), "seed": draw(gen.seeds), "where": draw(st.sampled_from(["any", "any", "up", "down", "mix"])),
            "ion": draw(st.sampled_from(["none", "none", "one", "each"])), "shp": draw(st.sampled_from(["none", "none", "one", "each"])), "mf": draw(st.sampled_from(["default", "one", "each"])),
            "jys": draw(st.sampled_from(["each", "each", "some0", "default", "cat"])), "pol": draw(st.sampled_from(["xx", "yy", "xy", "yx"])),
            "chans": draw(st.one_of(st.none(), st.lists(st.integers(0, 7), min_size=1, max_size=4)))}


def sources(c, lst, lat, nf):
    r = gen.rng(c["seed"])
    N = c["nsrc"]
    v = r.normal(size=(3, N))
    v /= np.sqrt((v ** 2).sum(0))
    R = arr.uvw_matrix(-lst, lat)           # topocentric = R . equatorial
    top = R.dot(v)
    if c["where"] == "up":
        top[2] = np.abs(top[2])
    elif c["where"] == "down":
        top[2] = -np.abs(top[2])
    elif c["where"] == "mix" and N > 1:
        top[2] = np.abs(top[2])
        top[2, N // 2] *= -1
    # keep clear of the horizon, where rounding decides
    top[2] = np.where(np.abs(top[2]) < 1e-6, 1e-3 * np.sign(top[2] + 1e-30), top[2])
    top /= np.sqrt((top ** 2).sum(0))
    eqs = R.T.dot(top)
    jys = r.uniform(.1, 50., size=(N, nf))
    if c["jys"] == "some0":
        jys[::2] = 0
    kw = {}
    ion = shp = None
    mf = .15
    if c["ion"] == "one":
        kw["ionrefs"] = tuple(float(x) for x in r.normal(size=2) * 1e-3)
        ion = [np.repeat(x, N) for x in kw["ionrefs"]]
    elif c["ion"] == "each":
        ion = list(r.normal(size=(2, N)) * 1e-3)
        kw["ionrefs"] = tuple(x.copy() for x in ion)
    if c["shp"] == "one":
        kw["srcshapes"] = (3e-3, 1e-3, .5)
        shp = [np.repeat(x, N) for x in kw["srcshapes"]]
    elif c["shp"] == "each":
        shp = [r.uniform(0, 4e-3, size=N), r.uniform(0, 4e-3, size=N) * (r.random(N) < .6), r.uniform(-3, 3, size=N)]
        kw["srcshapes"] = tuple(x.copy() for x in shp)
    if c["mf"] == "one":
        mf = kw["mfreqs"] = .2
    elif c["mf"] == "each":
        mf = r.uniform(.05, .4, size=N)
        kw["mfreqs"] = mf.copy()
    return eqs, jys, ion, shp, mf, kw


def sim(c, rec):
    import aipy
    mod = getattr(aipy, c["mod"])
    fq = arr.mkfreqs(c["f"])
    n = len(c["ants"])
    bs = [c["beams"][k % len(c["beams"])] for k in range(n)]
    shared = [arr.mkbeam(mod, b, fq) for b in c["beams"]]
    A = [arr.mkant(a) for a in c["ants"]]
    aa = call("AntennaArray", lambda: mod.AntennaArray(arr.loc(c["loc"]), [arr.antenna(mod, a, shared[k % len(shared)]) for k, a in enumerate(A)]))
    try:
        aa.get_active_pol()
    except RuntimeError:
        pass
    else:
        require(False, "an array without active polarisation has %r", aa.get_active_pol())
    aa.set_active_pol(c["pol"])
    require(aa.get_active_pol() == c["pol"], "active polarisation %r, set to %r", aa.get_active_pol(), c["pol"])
    if c["chans"] is not None:
        ch = np.array([k % len(fq) for k in c["chans"]])
        aa.select_chans(ch)
        fq = fq[ch]
    call("set_jultime", aa.set_jultime, c["jd"])
    lst, lat = float(aa.sidereal_time()), float(aa.lat)
    try:
        aa.sim(0, 1)
        require(False, "sim() before sim_cache() returned data")
    except RuntimeError:
        pass
    eqs, jys, ion, shp, mf, kw = sources(c, lst, lat, len(fq))
    N = c["nsrc"]
    args = [eqs, jys] + [x for v in kw.values() for x in (v if isinstance(v, tuple) else [v]) if isinstance(x, np.ndarray)]
    keep = [x.copy() for x in args]
    if c["jys"] == "default" and N == 1:
        jys = np.ones((1, len(fq)))
        call("sim_cache", aa.sim_cache, eqs, **kw)
    elif c["jys"] == "cat":
        # the flux of each source from the catalog classes
        jys = np.array([mod.RadioFixedBody(0, 0, name=str(k), jys=jys[k, 0], index=float(k) / 3 - 1, mfreq=.12) for k in range(N)])
        cat = mod.SrcCatalog(list(jys))
        j0 = [s._jys for s in jys]
        cat.update_jys(aa.get_afreqs())
        names = [str(k) for k in range(N)]
        jys = call("get_jys", cat.get_jys, srcs=names)
        want = np.array([j0[k] * (fq / .12) ** (k / 3. - 1) for k in range(N)])
        require(jys.shape == want.shape and np.allclose(jys, want, rtol=1e-10), "get_jys %r expected %r", jys, want)
        call("sim_cache", aa.sim_cache, eqs, jys, **kw)
    else:
        call("sim_cache", aa.sim_cache, eqs, jys, **kw)
    up = arr.uvw_matrix(-lst, lat).dot(eqs)[2] > 0
    V = {}
    for i in range(n):
        for j in range(n):
            got = call("sim(%d,%d)" % (i, j), aa.sim, i, j)
            want, size = arr.ref_sim(A[i], A[j], bs[i], bs[j], fq, lst, lat, eqs, jys, c["pol"], ion, shp, mf)
            scale = max(max(np.abs(a["pos"]).max() for a in A), 1)
            tol = size * 1e-7 * scale + 1e-6 * np.abs(jys).max() * np.abs(arr.ref_gain(A[i], fq)) * np.abs(arr.ref_gain(A[j], fq)) * N
            require(np.shape(got) == want.shape, "sim(%d,%d): shape %r for %d channels", i, j, np.shape(got), len(fq))
            require(np.all(np.abs(got - want) <= tol), "sim(%d,%d) %s of %d sources = %r expected %r", i, j, c["pol"], N, got, want)
            V[i, j] = (np.array(got), tol)
    for a, b in zip(args, keep):
        require(a.shape == b.shape and np.array_equal(a, b), "an argument of sim_cache was changed from %r to %r", b, a)
    aa.set_active_pol(c["pol"][::-1])
    for (i, j), (v, tol) in V.items():
        # exchanging the antennas (and their feeds) conjugates
        call("sim_cache", aa.sim_cache, eqs, jys, **kw)
        w = call("sim", aa.sim, j, i)
        require(np.all(np.abs(w - np.conj(v)) <= 2 * tol), "sim(%d,%d) is not the conjugate of sim(%d,%d)", j, i, i, j)
        break
    aa.set_active_pol(c["pol"])
    # order, and sources that are down or have no flux
    perm = gen.rng(c["seed"] + 9).permutation(N)
    pk = {k: (tuple(x[perm] if isinstance(x, np.ndarray) else x for x in v) if isinstance(v, tuple) else v[perm] if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    call("sim_cache", aa.sim_cache, eqs[:, perm], 3 * jys[perm], **pk)
    for (i, j), (v, tol) in V.items():
        require(np.all(np.abs(aa.sim(i, j) - 3 * v) <= 6 * tol), "three times the flux, in another order: %r expected %r", aa.sim(i, j), 3 * v)
    rec.nt(bool(up.any()))
    rec.event("%d up, %s" % (up.sum(), "ion %s shp %s mf %s" % (c["ion"], c["shp"], c["mf"])))


def subs():
    return [Sub("sim", case(), sim, quick=900, thorough=30000)]
