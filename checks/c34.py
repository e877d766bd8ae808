"""C34: interpolation, windows and Gaussians."""
import warnings
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen

TECHNIQUE = "property-based testing against direct sums, the standard window definitions and round trips between a Gaussian image and its parameters"
RULE = ("cases: sequences of 3 to 40 real or complex samples, factors 1 to 60, filter orders 3 to 12, the default and several interpolating filters; every "
        "window for lengths 1 to 3000; elliptical Gaussians anywhere in images of up to 60x60 pixels; non-trivial: factor above 1, length above 2, unequal widths")


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ---- interpolation
FILTERS = {"linear": lambda x: np.clip(1 - np.abs(x), 0, None),
           "nearest": lambda x: ((x > -.5 - 1e-9) & (x < .5 - 1e-9)).astype(float),
           "gauss": lambda x: np.exp(-x ** 2 / 4.),
           "sinc": lambda x: np.sinc(x) * np.exp(-x ** 2 / 10.),
           "skew": lambda x: np.exp(-(x - .3) ** 2 / 3.),
           "flat": lambda x: np.ones(np.shape(x))}


@st.composite
def icase(draw):
    return {"seed": draw(gen.seeds), "n": draw(st.integers(3, 40)), "factor": draw(st.one_of(st.integers(1, 12), st.integers(1, 60))), "order": draw(st.one_of(st.none(), st.none(), st.integers(3, 12))),
            "filter": draw(st.sampled_from(["default", "default", None, None] + sorted(FILTERS))), "kind": draw(st.sampled_from(["noise", "noise", "const", "line", "quad", "imp"])),
            "dt": draw(st.sampled_from(["f", "f", "c", "i"]))}


def sequence(c, n):
    r = gen.rng(c["seed"])
    k = np.arange(n)
    a = r.integers(-9, 10, size=(2, 3)) / (1 if c["dt"] == "i" else 4.)
    y = []
    for p in a:
        y.append({"noise": np.round(r.normal(size=n) * 20) if c["dt"] == "i" else r.normal(size=n), "const": np.full(n, p[0]), "line": p[0] + p[1] * k,
                  "quad": p[0] + p[1] * k + p[2] * k * k, "imp": 7. * (k == int(r.integers(n)))}[c["kind"]])
    if c["dt"] == "c":
        return y[0] + 1j * y[1]
    return y[0].astype(int) if c["dt"] == "i" else y[0].astype(float)


def hann_sinc(x, order, freq=.25):
    return (1 + np.cos(np.pi * x / order)) * np.sinc(freq * x)


def extension(y, order, at):
    """Value at position `at`: a sample, or the quadratic through the samples at that end."""
    n = len(y)
    if 0 <= at < n:
        return y[at]
    lo = 0 if at < 0 else n - order
    t = np.arange(order, dtype=float)
    A = np.vander(t - t.mean(), 3)
    p = np.linalg.lstsq(A, np.asarray(y[lo:lo + order]).astype(complex), rcond=None)[0]
    return (np.vander([at - lo - t.mean()], 3) @ p)[0]


def t_interp(c, rec):
    import aipy.interp as I
    order = c["order"] or 4
    n = max(c["n"], order)
    y = sequence(c, n)
    f = c["factor"]
    kw = {}
    if c["order"] is not None:
        kw["order"] = order
    if c["filter"] == "default":
        kw["filter"] = I.default_filter
    elif c["filter"] is not None:
        kw["filter"] = FILTERS[c["filter"]]
    F = FILTERS.get(c["filter"], lambda x: hann_sinc(x, order))
    keep = y.copy()
    got = call("interpolate", quiet, I.interpolate, y, f, **kw)
    rec.nt(f > 1)
    rec.event("%s/%s" % (c["filter"], c["kind"]))
    require(np.array_equal(keep, y), "interpolate changed its samples")
    require(np.shape(got) == (n * f,), "%d samples, factor %d, order %d: result has shape %r", n, f, order, np.shape(got))
    require((np.asarray(got).dtype.kind == "c") == (c["dt"] == "c"), "%s samples give %s", y.dtype, np.asarray(got).dtype)
    # every sample is the average of its neighbours within `order`, weighted by the filter
    ext = np.array([extension(y, order, k) for k in range(-order, n + order)])
    scale = np.abs(ext).max() + 1e-300
    r = gen.rng(c["seed"] + 1)
    pick = range(n * f) if n * f <= 120 else sorted(set([0, 1, f, n * f - 1, n * f - 2] + list(r.integers(0, n * f, size=40))))
    for m in pick:
        x = m / float(f)
        k = np.arange(int(np.ceil((m - order * f) / float(f))), (m + order * f) // f + 1)
        d = (m - k * f) / float(f)
        w = np.array([float(F(np.array([v]))[0]) for v in d])
        ref = (w * ext[k + order]).sum() / w.sum()
        tol = 1e-9 * scale * max(1, np.abs(w).sum() / abs(w.sum()))
        require(abs(got[m] - ref) <= tol, "sample %d (at %g) is %r, the filter's average of the neighbours is %r (factor %d, order %d, %s filter)", m, x, got[m], ref, f, order, c["filter"])
    inner = slice(order * f, (n - order) * f)
    if c["kind"] == "const":
        require(np.abs(got - y[0]).max() <= 1e-9 * scale, "constant samples become %r", got)
    if c["filter"] in ("linear", "sinc", "nearest"):
        require(np.abs(got[::f] - y).max() <= 1e-9 * scale, "an interpolating filter changes the samples by %r", np.abs(got[::f] - y).max())
    if c["filter"] == "linear" and c["kind"] == "line":
        ref = y[0] + (y[1] - y[0]) * np.arange(n * f) / float(f)
        require(np.abs(got - ref).max() <= 1e-9 * scale, "a straight line is interpolated %r off", np.abs(got - ref).max())
    if c["filter"] in ("default", None, "gauss") and c["kind"] == "line":
        require(np.abs(got[::f] - y).max() <= 1e-9 * scale, "a straight line moves by %r of its step", np.abs(got[::f] - y).max() / (abs(y[1] - y[0]) or 1))


def t_rel(c, rec):
    """Relations: linear, and the mirrored samples give the mirrored result."""
    import aipy.interp as I
    order = c["order"] or 4
    n = max(c["n"], order)
    f = c["factor"]
    c = dict(c, kind="noise", dt="f")
    a, b = sequence(c, n), sequence(dict(c, seed=c["seed"] + 1), n)
    g = lambda y: call("interpolate", quiet, I.interpolate, y, f, order=order)
    A, B, S = g(a), g(b), g(2 * a - 3 * b)
    scale = np.abs(A).max() + np.abs(B).max()
    require(np.abs(S - (2 * A - 3 * B)).max() <= 1e-8 * scale, "interpolation is not linear: off by %r", np.abs(S - (2 * A - 3 * B)).max())
    M = g(a[::-1])
    k = (n - 1) * f + 1
    require(np.abs(M[:k][::-1] - A[:k]).max() <= 1e-8 * scale, "mirrored samples are interpolated differently by %r", np.abs(M[:k][::-1] - A[:k]).max())
    # between samples, a smooth signal stays close to itself
    t = np.arange(n)
    w = 2 * np.pi / 40
    s = g(np.cos(w * t + c["seed"]))
    ref = np.cos(w * np.arange(n * f) / f + c["seed"])
    if n > 2 * order:
        inner = slice(order * f, (n - order) * f)
        require(np.abs(s - ref)[inner].max() < .2, "a slow wave is interpolated %r off", np.abs(s - ref)[inner].max())
    rec.nt(f > 1)


@st.composite
def pcase(draw):
    return {"seed": draw(gen.seeds), "n": draw(st.integers(1, 30)), "ns": draw(st.integers(1, 12)), "deg": draw(st.one_of(st.none(), st.integers(0, 4))), "poly": draw(st.booleans())}


def t_extend(c, rec):
    import aipy.interp as I
    r = gen.rng(c["seed"])
    deg = 2 if c["deg"] is None else c["deg"]
    ns = max(c["ns"], deg + 1)
    n = max(c["n"], ns)
    t = np.arange(-ns, n + ns, dtype=float) / n
    if c["poly"]:
        full = np.polyval(r.normal(size=deg + 1), t)
    else:
        full = r.normal(size=t.size)
    y = full[ns:ns + n]
    kw = {} if c["deg"] is None else {"degree": deg}
    got = call("polyextend", quiet, I.polyextend, y, ns, **kw)
    require(np.shape(got) == (n + 2 * ns,), "%d samples extended by %d have shape %r", n, ns, np.shape(got))
    require(np.array_equal(got[ns:ns + n], y), "the extended samples change")
    if c["poly"]:
        require(np.abs(got - full).max() <= 1e-6 * np.abs(full).max(), "a polynomial of degree %d is extended %r off", deg, np.abs(got - full).max())
    rec.nt(c["poly"])


def t_filter(c, rec):
    import aipy.interp as I
    o = 1 + c["seed"] % 12
    f = 1 + c["n"]
    x = np.arange(-o * f, o * f + 1) / float(f)
    freq = .05 + (c["ns"] % 10) / 10.
    got = call("default_filter", I.default_filter, x, freq=freq)
    require(np.shape(got) == x.shape and np.abs(got - hann_sinc(x, o, freq)).max() < 1e-12, "filter coefficients differ from window times sinc by %r", np.abs(got - hann_sinc(x, o, freq)).max())
    require(np.abs(got - got[::-1]).max() < 1e-12, "the filter is not symmetric")
    rec.nt(True)


# ---- windows
WIN = ["blackman", "blackman-harris", "gaussian0.4", "kaiser2", "kaiser3", "hamming", "hanning", "parzen", "none", "tukey", "barthann"]


@st.composite
def wcase(draw):
    return {"w": draw(st.sampled_from(WIN + ["tukey"] * 3)), "L": draw(st.one_of(st.integers(1, 6), st.integers(1, 64), st.integers(1, 3000))), "alpha": draw(st.sampled_from([None, 0, .1, .25, .5, .9, 1, 1.5, -1, 1e-6])),
            "default": draw(st.booleans())}


def ref_window(w, L, alpha):
    from scipy.signal import windows as W
    if L == 1:
        return np.ones(1)
    if w == "parzen":
        return 1 - np.abs(np.arange(L) - L / 2.) / (L / 2.)
    if w == "none":
        return np.ones(L)
    if w == "tukey":
        return W.tukey(L, .5 if alpha is None else alpha)
    return {"blackman": lambda: W.blackman(L), "blackman-harris": lambda: W.blackmanharris(L), "gaussian0.4": lambda: W.gaussian(L, .4 * (L - 1) / 2.), "kaiser2": lambda: W.kaiser(L, 2 * np.pi),
            "kaiser3": lambda: W.kaiser(L, 3 * np.pi), "hamming": lambda: W.hamming(L), "hanning": lambda: W.hann(L), "barthann": lambda: W.barthann(L)}[w]()


def t_window(c, rec):
    from aipy import dsp
    w, L = c["w"], c["L"]
    kw = {}
    if w == "tukey" and c["alpha"] is not None:
        kw["alpha"] = c["alpha"]
    if w == "hamming" and c["default"]:
        got = call("gen_window", dsp.gen_window, L)
    else:
        got = call("gen_window", dsp.gen_window, L, window=w, **kw) if c["default"] else call("gen_window", dsp.gen_window, L, w, **kw)
    rec.nt(L > 2)
    rec.event(w)
    require(isinstance(got, np.ndarray) and got.shape == (L,), "%s window of length %d is %s of shape %r", w, L, type(got).__name__, np.shape(got))
    ref = ref_window(w, L, c["alpha"])
    require(np.isfinite(got).all() and np.abs(got - ref).max() <= 1e-9, "%s window of length %d (alpha %r) differs from its definition by %r", w, L, c["alpha"], np.abs(got - ref).max())
    sym = got if w != "parzen" or L == 1 else got[1:]
    require(np.abs(sym - sym[::-1]).max() < 1e-9 and got.max() <= 1 + 1e-9 and got.min() >= -1e-9, "%s window of length %d is not symmetric within 0..1", w, L)


# ---- Gaussians
@st.composite
def gcase(draw):
    sh = draw(st.lists(st.integers(12, 60), min_size=2, max_size=2))
    return {"shape": sh, "c": [draw(gen.fl(.2, .8)) for _ in (0, 1)], "w": [draw(gen.fl(.6, 8)) for _ in (0, 1)], "amp": draw(gen.fl(.1, 100)), "h": draw(st.sampled_from([0, 0, .5, -2])),
            "whole": draw(st.booleans()), "seed": draw(gen.seeds), "extra": draw(st.integers(0, 2)), "neg": draw(st.booleans())}


def t_twod(c, rec):
    from aipy import twodgauss
    ny, nx = c["shape"]
    x0, y0 = c["c"][0] * (nx - 1), c["c"][1] * (ny - 1)
    wx, wy = c["w"]
    a = -c["amp"] if c["neg"] else c["amp"]
    prm = [c["h"], a, x0, y0, wx, wy]
    rec.nt(abs(wx - wy) > .1)
    got = call("twodgaussian", twodgauss.twodgaussian, prm, shape=(ny, nx))
    require(prm == [c["h"], a, x0, y0, wx, wy], "twodgaussian changed its parameters")
    yy, xx = np.mgrid[:ny, :nx]
    ref = a * np.exp(-((xx - x0) / wx) ** 2 / 2. - ((yy - y0) / wy) ** 2 / 2.)
    require(np.shape(got) == (ny, nx) and np.abs(got - ref).max() <= 1e-12 * abs(a), "Gaussian at (%r, %r) of widths (%r, %r) differs from its formula by %r", x0, y0, wx, wy,
            np.abs(got - ref).max() if np.shape(got) == (ny, nx) else np.shape(got))
    f = call("twodgaussian", twodgauss.twodgaussian, tuple(prm))
    r = gen.rng(c["seed"])
    p, q = r.uniform(0, ny), r.uniform(0, nx)
    v = call("its function", f, p, q)
    require(abs(v - a * np.exp(-((q - x0) / wx) ** 2 / 2. - ((p - y0) / wy) ** 2 / 2.)) <= 1e-12 * abs(a), "the Gaussian function at (%r, %r) is %r", p, q, v)
    if c["extra"]:
        try:
            twodgauss.twodgaussian(prm + [0.] * c["extra"])
            require(False, "%d parameters are accepted", 6 + c["extra"])
        except ValueError:
            pass


def width(prof, centre):
    d = np.abs(np.arange(prof.size) - centre)
    return np.sqrt((d * np.abs(prof)).sum() / np.abs(prof).sum())


def t_moments(c, rec):
    from aipy import twodgauss
    ny, nx = c["shape"]
    x0, y0 = int(round(c["c"][0] * (nx - 1))), int(round(c["c"][1] * (ny - 1)))
    wx, wy = min(c["w"][0], nx / 10.), min(c["w"][1], ny / 10.)
    yy, xx = np.mgrid[:ny, :nx]
    img = c["amp"] * np.exp(-((xx - x0) / wx) ** 2 / 2. - ((yy - y0) / wy) ** 2 / 2.)
    keep = img.copy()
    h, a, x, y, sx, sy = call("moments", twodgauss.moments, img)
    rec.nt(abs(wx - wy) > .1)
    require(np.array_equal(keep, img), "moments changed the image")
    require((x, y) == (x0, y0), "Gaussian at (%r, %r) is found at (%r, %r)", x0, y0, x, y)
    med = np.median(img)
    require(abs(h - med) <= 1e-12 * c["amp"] and abs(a - (c["amp"] - med)) <= 1e-12 * c["amp"], "height %r and amplitude %r, expected %r and %r", h, a, med, c["amp"] - med)
    for nm, s, prof, ctr in (("x", sx, img[y0], x0), ("y", sy, img[:, x0], y0)):
        require(abs(s - width(prof, ctr)) <= 1e-9, "width in %s is %r, the first moment about the centre gives %r", nm, s, width(prof, ctr))
    # the other way round, and through the model
    T = call("moments", twodgauss.moments, img.T.copy())
    require(np.allclose(np.array(T, float), np.array([h, a, y, x, sy, sx], float), rtol=1e-9), "the transposed image gives %r, not %r", T, (h, a, y, x, sy, sx))
    back = call("moments", twodgauss.moments, call("twodgaussian", twodgauss.twodgaussian, [h, a, x, y, wx, wy], shape=(ny, nx)))
    require(tuple(back[2:4]) == (x, y) and np.allclose(back[4:], [sx, sy], rtol=1e-6), "the model of the moments has moments %r, not %r", back, (x, y, sx, sy))
    for bad in (np.nan,):
        img[int(c["seed"] % ny), int(c["seed"] % nx)] = bad
        try:
            quiet(twodgauss.moments, img)
            require(False, "an image with a NaN pixel has moments")
        except ValueError:
            pass


def subs():
    return [Sub("interpolation", icase(), t_interp, quick=600, thorough=20000), Sub("relations", icase(), t_rel, quick=200, thorough=6000),
            Sub("extension", pcase(), t_extend, quick=150, thorough=4000), Sub("filter", pcase(), t_filter, quick=80, thorough=2000),
            Sub("windows", wcase(), t_window, quick=800, thorough=20000), Sub("gaussian", gcase(), t_twod, quick=250, thorough=6000), Sub("moments", gcase(), t_moments, quick=250, thorough=6000)]
