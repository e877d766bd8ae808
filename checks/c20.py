"""C20: beam responses."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, arr, hpx

TECHNIQUE = "property-based testing against written-out beam formulas, over generated coefficients, directions and pointings"
RULE = ("cases: every beam class of amp and fit (with spherical-harmonic maps of 1-4 powers of frequency), coefficients, channel selections, 1-40 directions over the whole sphere (zenith, horizon, "
        "axes, exactly opposite), antenna pointings and twists, both polarisations; oracle: formulas per direction and frequency, in axes "
        "rotated by a separate formula; non-trivial: more than one direction and a beam that is not flat")

SPECIAL = [(0, 0, 1), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, -1), (.6, .8, 0), (.6, 0, .8), (1e-9, 0, 1), (0, 1e-7, 1)]


@st.composite
def dirs(draw):
    return {"n": draw(st.sampled_from([1, 2, 3, 5, 17, 40])), "seed": draw(gen.seeds), "special": draw(st.lists(st.tuples(st.integers(0, 39), st.integers(0, len(SPECIAL) - 1)), max_size=5)),
            "up": draw(st.booleans())}


def mkdirs(c):
    v = gen.rng(c["seed"]).normal(size=(3, c["n"]))
    v /= np.sqrt((v ** 2).sum(0))
    if c["up"]:
        v[2] = np.abs(v[2])
    for k, j in c["special"]:
        v[:, k % c["n"]] = SPECIAL[j]
    return v


@st.composite
def case(draw):
    return {"mod": draw(st.sampled_from(["amp", "fit"])), "beam": draw(arr.beam_spec()), "f": draw(arr.freqs()), "chans": draw(st.one_of(st.none(), st.lists(st.integers(0, 11), min_size=1, max_size=5))),
            "dirs": draw(dirs()), "ptg": draw(st.sampled_from(["zen", "zenint", "rand", "rand"])), "pseed": draw(gen.seeds), "scalar": draw(st.booleans()), "own": draw(st.booleans())}


def beams(c, rec):
    import aipy
    mod = getattr(aipy, c["mod"])
    fq = arr.mkfreqs(c["f"])
    beam = call("building the beam", arr.mkbeam, mod, c["beam"], fq)
    if c["chans"] is not None:
        ch = np.array([k % len(fq) for k in c["chans"]])
        call("select_chans", beam.select_chans, ch)
        fq = fq[ch]
    top = mkdirs(c["dirs"])
    r = gen.rng(c["pseed"])
    ptg = {"zen": (0., np.pi / 2, 0.), "zenint": (0, np.pi / 2, 0), "rand": (float(r.uniform(-7, 7)), float(r.uniform(0, np.pi / 2)), float(r.uniform(-4, 4)))}[c["ptg"]]
    if c["own"]:
        # toward the antenna's own axes, as the rotation of the code and of the formula give them
        a = arr.ant_axes(*ptg)
        top = np.concatenate([top, a.T, -a.T, np.linalg.inv(a)], axis=1)
    n = top.shape[1]
    keep = top.copy()
    got = call("beam.response", beam.response, top if c["pseed"] % 2 else tuple(top))
    want = arr.ref_beam(c["beam"], fq, top)
    ok = np.ones(n, bool)
    if c["beam"]["k"] == "poly":
        # the azimuth of the zenith and of the nadir is arbitrary
        ok = np.hypot(top[0], top[1]) > 1e-6
        ok |= top[2] > .5
    require(np.shape(got) == (len(fq), n), "response: shape %r for %d channels and %d directions", np.shape(got), len(fq), n)
    require(np.allclose(np.asarray(got)[:, ok], want[:, ok], rtol=0, atol=1e-6), "response %r expected %r toward %r", got, want, top)
    require(np.array_equal(top, keep), "response changed the directions")
    # one at a time
    k = c["dirs"]["seed"] % n
    one = call("beam.response of one direction", beam.response, tuple(top[:, k]) if c["scalar"] and c["beam"]["k"] != "flat" else tuple(top[:, k:k + 1]))
    require(np.size(one) == len(fq), "response to one direction has %d values for %d channels", np.size(one), len(fq))
    if ok[k]:
        require(np.allclose(np.reshape(one, -1), np.asarray(got)[:, k], rtol=0, atol=1e-9), "response to one direction %r, among others %r", one, np.asarray(got)[:, k])
    # models made with nothing but frequencies
    f0 = arr.mkfreqs(c["f"])
    zang = np.arctan2(np.hypot(top[0], top[1]), top[2])
    # (the polynomial is [[.5]], of which the constant term counts half: a width of a quarter radian)
    for cls, val in (("Beam", np.ones(n)), ("Beam2DGaussian", np.ones(n)), ("BeamPolynomial", np.exp(-8 * zang ** 2))):
        b0 = call(cls, getattr(mod, cls), f0)
        got0 = call("%s.response" % cls, b0.response, tuple(top))
        require(np.shape(got0) == (len(f0), n) and np.allclose(got0, val, rtol=0, atol=1e-6), "a %s given only frequencies responds %r toward %r", cls, got0, top)
    # and an antenna with nothing but a position and a beam
    plain = mod.Antenna(1., 2., 3., beam=beam)
    if c["pseed"] % 2:
        call("set_pointing", plain.set_pointing, 1., .5, .3)
        call("set_pointing", plain.set_pointing)
    require(np.allclose(plain.passband(), np.ones(len(fq)), rtol=0, atol=1e-12) and np.allclose(plain.phsoff, 0), "an antenna without calibration has passband %r, phase %r", plain.passband(), plain.phsoff)
    g0 = call("bm_response", plain.bm_response, tuple(top))
    w0 = arr.ref_response(c["beam"], (0., np.pi / 2, 0.), fq, top, "x")
    a0 = arr.ant_axes(0., np.pi / 2, 0.).dot(top)
    ok = np.ones(n, bool) if c["beam"]["k"] != "poly" else (np.hypot(a0[0], a0[1]) > 1e-6) | (a0[2] > .5)
    require(np.allclose(np.asarray(g0)[:, ok], w0[:, ok], rtol=0, atol=1e-6), "response of an antenna pointed nowhere in particular %r expected %r toward %r", g0, w0, top)
    # as mounted on an antenna
    if c["ptg"] == "rand" and c["pseed"] % 3 == 0:
        ant = mod.Antenna(1., 2., 3., beam=beam)
        call("set_pointing", ant.set_pointing, *ptg)
    elif c["ptg"] == "zen":
        ant = mod.Antenna(1., 2., 3., beam=beam)
    else:
        ant = mod.Antenna(1., 2., 3., beam=beam, pointing=ptg)
    ax = {}
    for pol in "xy":
        ax[pol] = arr.ant_axes(ptg[0], ptg[1], ptg[2] + (np.pi / 2 if pol == "y" else 0)).dot(top)
        got = call("bm_response", ant.bm_response, top if c["scalar"] else tuple(top), pol=pol)
        want = arr.ref_response(c["beam"], ptg, fq, top, pol)
        # near the zenith and the nadir of the beam, azimuth is ill-conditioned
        ok = np.ones(n, bool) if c["beam"]["k"] != "poly" else (np.hypot(ax[pol][0], ax[pol][1]) > 1e-6) | (ax[pol][2] > .5)
        require(np.shape(got) == (len(fq), n), "bm_response: shape %r", np.shape(got))
        require(np.allclose(np.asarray(got)[:, ok], want[:, ok], rtol=0, atol=1e-6), "bm_response pol %s, pointing %r: %r expected %r toward %r", pol, ptg, got, want, top)
    got = call("bm_response", ant.bm_response, top)
    require(np.array_equal(got, ant.bm_response(top, pol="x"), equal_nan=True), "the default polarisation is not x")
    rec.nt(n > 1 and c["beam"]["k"] != "flat")
    rec.event("%s %s %s" % (c["mod"], c["beam"]["k"], c["ptg"]))


@st.composite
def almcase(draw):
    lmax = draw(st.integers(0, 5))
    return {"mod": draw(st.sampled_from(["amp", "fit"])), "lmax": lmax, "mmax": draw(st.integers(0, lmax)), "deg": draw(st.integers(0, 3)), "k": draw(st.integers(0, 4)), "seed": draw(gen.seeds),
            "terms": draw(st.lists(st.integers(0, 5), max_size=4, unique=True)), "f": draw(arr.freqs()), "chans": draw(st.one_of(st.none(), st.lists(st.integers(0, 11), min_size=1, max_size=5))),
            "dirs": draw(dirs()), "ptg": draw(st.booleans()), "set": draw(st.booleans()), "kind": draw(st.sampled_from(["tuple", "array", "list"]))}


def harm(d, th, ph):
    """The real field with coefficients d, at (th, ph)."""
    from scipy.special import sph_harm_y
    f = np.zeros(np.shape(th))
    for (l, m), v in d.items():
        y = sph_harm_y(l, m, th, ph)
        f += v.real * y.real if m == 0 else 2 * (v * y).real
    return f


def ref_alm(terms, nside, fq, top):
    """Each power of frequency is a field sampled at the pixel centres and
    interpolated between them."""
    n = top.shape[1]
    out = np.zeros((len(fq), n))
    th, ph = hpx.centres(nside)
    th0, ph0 = np.arctan2(np.hypot(top[0], top[1]), top[2]), np.arctan2(top[1], top[0])
    near = [hpx.interpol(nside, th0[k], ph0[k] % (2 * np.pi)) for k in range(n)]
    for c, d in terms.items():
        f = harm(d, th, ph)
        v = np.array([sum(w * f[p] for p, w in zip(*near[k])) for k in range(n)])
        out += (np.asarray(fq) ** c)[:, None] * v
    return out


def alms(c, rec):
    import aipy
    mod = getattr(aipy, c["mod"])
    fq = arr.mkfreqs(c["f"])
    r = gen.rng(c["seed"])
    nside = 1 << c["k"]
    # in the order the coefficients are kept: by m, then by l
    idx = [(l, m) for m in range(c["mmax"] + 1) for l in range(m, c["lmax"] + 1)]
    terms = {}
    for t in c["terms"]:
        terms[t] = {p: complex(r.normal(), 0 if p[1] == 0 else r.normal()) for p in idx}
    first = {t: np.array([d[p] for p in idx]) for t, d in terms.items()}
    kw = dict(lmax=c["lmax"], mmax=c["mmax"], deg=c["deg"], nside=nside)
    if c["set"] and c["mod"] == "fit":
        beam = call("BeamAlm", mod.BeamAlm, fq, **kw)
        call("set_params", beam.set_params, {"alm%d" % t: [x for z in v for x in (z.real, z.imag)] for t, v in first.items()})
    else:
        beam = call("BeamAlm", mod.BeamAlm, fq, coeffs=first, **kw)
    terms = {t: d for t, d in terms.items() if t <= c["deg"]}
    if c["chans"] is not None:
        ch = np.array([k % len(fq) for k in c["chans"]])
        call("select_chans", beam.select_chans, ch)
        fq = fq[ch]
    top = mkdirs(c["dirs"])
    n = top.shape[1]
    scale = 1 + sum(np.abs(v).sum() for v in first.values())

    def compare(got, top, what):
        want = ref_alm(terms, nside, fq, top)
        require(np.shape(got) == want.shape, "%s: shape %r for %d channels and %d directions", what, np.shape(got), len(fq), n)
        require(np.allclose(got, want, rtol=0, atol=1e-6 * scale), "%s: %r expected %r toward %r", what, got, want, top)
    given = {"tuple": tuple(top), "array": top, "list": list(top)}[c["kind"]]
    compare(call("beam.response", beam.response, given), top, "response")
    one = top[:, c["dirs"]["seed"] % n]
    compare(call("beam.response of one direction", beam.response, tuple(one)), one[:, None], "response to one direction")
    ptg = (float(r.uniform(-7, 7)), float(r.uniform(0, np.pi / 2)), float(r.uniform(-4, 4))) if c["ptg"] else (0., np.pi / 2, 0.)
    ant = mod.Antenna(1., 2., 3., beam=beam, pointing=ptg)
    for pol in "xy":
        ax = arr.ant_axes(ptg[0], ptg[1], ptg[2] + (np.pi / 2 if pol == "y" else 0)).dot(top)
        compare(call("bm_response", ant.bm_response, top, pol=pol), ax, "bm_response pol %s, pointing %r" % (pol, ptg))
    rec.nt(len(terms) > 0 and c["lmax"] > 0)


def subs():
    return [Sub("alms", almcase(), alms, quick=300, thorough=6000), Sub("beams", case(), beams, quick=2500, thorough=60000)]
