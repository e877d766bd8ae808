"""C33: interference flagging marks outliers and only outliers."""
import warnings
import numpy as np
import scipy.optimize
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen

TECHNIQUE = "property-based testing of thresholds, smooth spectra and integration flags against an independent histogram fit, a step-by-step reference and metamorphic relations"
RULE = ("cases: lognormal powers of 200 to 6000 samples with outliers, masks and bin sizes; spectra of 1 to 200 channels made of polynomials, noise and "
        "spikes with masks, orders 0 to 6 and 0 to 4 iterations; autocorrelations of 1 to 400 integrations with bad, masked and partly masked ones; "
        "non-trivial: something to flag or already flagged")


def module():
    import aipy.rfi
    return aipy.rfi


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ---- thresholds
@st.composite
def tcase(draw):
    return {"seed": draw(gen.seeds), "n": draw(st.integers(200, 6000)), "bins": draw(st.integers(10, 60)), "nsig": draw(st.sampled_from([0, .5, 1, 2, 2, 3, 10])),
            "mu": draw(gen.fl(-5, 5)), "s": draw(gen.fl(.05, 1)), "out": draw(st.sampled_from([0, 0, .01, .03])), "mask": draw(st.sampled_from(["no", "ma", "masked", "masked"])),
            "cplx": draw(st.booleans()), "two": draw(st.booleans()), "shape": draw(st.sampled_from(["exact", "random"]))}


def samples(c):
    r = gen.rng(c["seed"])
    n = c["n"]
    if c["shape"] == "exact":       # quantiles: the histogram of the distribution without its noise
        from scipy.special import ndtri
        x = ndtri((np.arange(n) + .5) / n)
        r.shuffle(x)
    else:
        x = r.normal(size=n)
    x = c["mu"] + c["s"] * x
    k = int(c["out"] * n)
    if k:
        x[r.choice(n, k, replace=False)] = c["mu"] + c["s"] * r.uniform(4.5, 7, size=k)
    p = 10 ** x
    if c["cplx"]:
        return p * np.exp(2j * np.pi * r.uniform(size=n)), r
    return p * r.choice([-1, 1], size=n), r


def gauss(x, a, s, o):
    return a * np.exp(-((x - o) / s) ** 2)


def t_thresh(c, rec):
    rfi = module()
    d, r = samples(c)
    n = d.size
    use = d
    bad = None
    if c["mask"] != "no":
        m = np.zeros(n, bool)
        if c["mask"] == "masked":
            # masked samples hold anything: they may not count
            bad = r.uniform(size=n) < .3
            bad[:20] = False
            m = bad
            d = np.where(m, r.choice([0, 1e30, np.nan, 1e-30], size=n), d)
            use = d[~m]
        arg = np.ma.array(d, mask=m)
    else:
        arg = d
    if c["two"] and n % 2 == 0:
        arg = arg.reshape(2, -1)
    rec.nt(bad is not None or c["out"] > 0)
    cpb = max(1, use.size // c["bins"])
    before = np.array(np.ma.getdata(arg))
    if not hasattr(arg, "compressed") and arg.ndim > 1:
        use = arg
    if c["seed"] % 16 == 0:
        big = 10 ** r.normal(1, .3, size=20000)
        require(quiet(rfi.gen_rfi_thresh, big) == quiet(rfi.gen_rfi_thresh, big, nsig=2, cnt_per_bin=1000), "the default is not two standard deviations, of bins of 1000")
    hi, lo = call("gen_rfi_thresh", quiet, rfi.gen_rfi_thresh, arg, nsig=c["nsig"], cnt_per_bin=cpb)
    require(np.array_equal(np.ma.getdata(arg), before, equal_nan=c["mask"] == "masked" and not c["cplx"]) or c["mask"] == "masked", "gen_rfi_thresh changed its data")
    x = np.log10(np.abs(np.asarray(use).ravel()))
    nb = x.size // cpb
    require(lo <= hi, "lower threshold %r above upper threshold %r", lo, hi)
    w = (x.max() - x.min()) / nb
    lh, ll = np.log10(hi), np.log10(lo)
    require(x.min() - 1e-6 <= ll and lh <= x.max() + 1e-6, "thresholds 10**(%r, %r) outside the data's range 10**(%r, %r)", ll, lh, x.min(), x.max())
    # an independent fit of the histogram
    h, e = np.histogram(x, bins=nb)
    st_ = np.std(x[np.abs(x - np.median(x)) < 4 * c["s"]]) * np.sqrt(2) / w
    try:
        p, _ = quiet(scipy.optimize.curve_fit, gauss, np.arange(nb), h, p0=(h.max(), st_, (np.median(x) - x.min()) / w), maxfev=20000)
    except RuntimeError:
        rec.event("no fit")
        return
    s, o = abs(p[1]), p[2]
    for nm, v, sgn in (("upper", lh, 1), ("lower", ll, -1)):
        ref = o + sgn * c["nsig"] * s
        a, b = [e[int(np.clip(np.round(ref + q), 0, nb))] for q in (-.05, .05)]
        require(a - 1e-6 <= v <= b + 1e-6, "%s threshold 10**%r, the fitted Gaussian (mean bin %.3f, width %.3f) puts it at 10**%r", nm, v, o, s, a)
    if c["nsig"] and c["shape"] == "exact":
        # what is meant by it: nsig times the Gaussian's width (sqrt(2) standard deviations) about the mean
        for v, sgn in ((lh, 1), (ll, -1)):
            ref = np.clip(c["mu"] + sgn * c["nsig"] * np.sqrt(2) * c["s"], x.min(), x.max())
            require(abs(v - ref) <= 1.6 * w + .1 * c["s"] * (1 + c["nsig"]), "threshold 10**%r, %g widths from the mean of the distribution lie at 10**%r", v, c["nsig"], ref)
    rec.event("nsig=%g" % c["nsig"])


def t_thresh_rel(c, rec):
    """Relations: masked samples never count, a wider band contains a narrower one."""
    rfi = module()
    d, r = samples(c)
    cpb = max(1, d.size // c["bins"])
    base = call("gen_rfi_thresh", quiet, rfi.gen_rfi_thresh, d, nsig=c["nsig"], cnt_per_bin=cpb)
    more = call("gen_rfi_thresh", quiet, rfi.gen_rfi_thresh, d, nsig=c["nsig"] + r.uniform(0, 2), cnt_per_bin=cpb)
    require(more[1] <= base[1] and base[0] <= more[0], "a larger nsig gives a narrower band %r, not %r", more, base)
    require(call("gen_rfi_thresh", quiet, rfi.gen_rfi_thresh, np.abs(d), nsig=c["nsig"], cnt_per_bin=cpb) == base or c["cplx"], "thresholds depend on the sign")
    pos = r.integers(0, d.size + 1, size=int(r.integers(1, 100)))
    big = np.insert(d, pos, 1e20)
    m = np.insert(np.zeros(d.size, bool), pos, True)
    got = call("gen_rfi_thresh", quiet, rfi.gen_rfi_thresh, np.ma.array(big, mask=m), nsig=c["nsig"], cnt_per_bin=cpb)
    require(got == base, "masked samples change the thresholds from %r to %r", base, got)
    # too few samples for a bin: no threshold
    few = d[:int(r.integers(0, 30))]
    got = call("gen_rfi_thresh", quiet, rfi.gen_rfi_thresh, few, cnt_per_bin=few.size + 1)
    require(tuple(got) == (None, None), "%d samples for bins of %d give thresholds %r", few.size, few.size + 1, got)
    rec.nt(True)


def t_gauss(c, rec):
    rfi = module()
    r = gen.rng(c["seed"])
    n = 10 + c["n"] % 60
    a, s, o = r.uniform(1, 1000), r.uniform(2, n / 4.), r.uniform(n * .2, n * .8)
    x = np.arange(n)
    y = call("gaussian", rfi.gaussian, a, s, o, x)
    ref = gauss(x, a, s, o)
    require(np.shape(y) == x.shape and np.allclose(y, ref, rtol=1e-12, atol=0), "gaussian(%r, %r, %r) differs from its formula", a, s, o)
    ga, gs, go = call("fit_gaussian", rfi.fit_gaussian, x, ref)
    require(abs(ga / a - 1) < 1e-3 and abs(abs(gs) / s - 1) < 1e-3 and abs(go - o) < 1e-2, "fit of an exact Gaussian (%r, %r, %r) gives (%r, %r, %r)", a, s, o, ga, gs, go)
    rec.nt(True)


# ---- smooth spectra
@st.composite
def scase(draw):
    return {"seed": draw(gen.seeds), "n": draw(st.one_of(st.integers(1, 30), st.integers(20, 200))), "deg": draw(st.integers(0, 6)), "order": draw(st.one_of(st.none(), st.integers(0, 6))),
            "iter": draw(st.one_of(st.none(), st.integers(0, 4))), "noise": draw(st.sampled_from([0, .01, .1])), "spikes": draw(st.integers(0, 6)), "amp": draw(st.sampled_from([1, 10, 1e3])),
            "mask": draw(st.sampled_from(["none", "zero", "some", "some", "int", "most", "all", "wrong"])), "poly": draw(st.booleans()), "ma": draw(st.booleans()),
            "scale": draw(st.sampled_from([1, 1, 1e-6, 1e6]))}


def spectrum(c, deg):
    r = gen.rng(c["seed"])
    n = c["n"]
    u = np.linspace(-1, 1, n) if n > 1 else np.zeros(1)
    y = np.polynomial.legendre.legval(u, r.normal(size=deg + 1))
    y = y + c["noise"] * r.normal(size=n)
    return y, r


def fit(x, y, order, n):
    """Least-squares polynomial through (x, y), evaluated on all n channels."""
    from numpy.polynomial import legendre
    t = 2. * x / max(1, n - 1) - 1
    V = legendre.legvander(t, order)
    p = np.linalg.lstsq(V, y, rcond=None)[0]
    return legendre.legval(2. * np.arange(n) / max(1, n - 1) - 1, p)


def ref_spikes(d, m, order, it):
    """Returns (curve, near call, degenerate)."""
    x = np.arange(d.size)
    m = m.copy()
    close = False
    for k in range(it + 1):
        if (~m).sum() <= order:
            return None, close, True
        f = fit(x[~m], d[~m], order, d.size)
        if k == it:
            return f, close, False
        res = np.abs(d - f)
        sig = np.sqrt(np.mean(res[~m] ** 2))
        if (np.abs(res[~m] - sig) < 1e-7 * (sig + 1e-5 * np.abs(d).max())).any() or sig < 1e-9 * np.abs(d).max():
            close = True
        m |= (res > sig) & ~m


def mask_of(c, r, n):
    k = c["mask"]
    if k == "none":
        return None, np.zeros(n, bool)
    m = np.zeros(n, bool)
    if k in ("some", "int"):
        m = r.uniform(size=n) < .2
    elif k == "most":
        m = r.uniform(size=n) < .8
    elif k == "all":
        m[:] = True
    elif k == "wrong":
        return np.ones(n + 1, bool), m
    return (m.astype(int) if k == "int" else m.copy()), m


def t_spikes(c, rec):
    rfi = module()
    d, r = spectrum(c, c["deg"])
    n = d.size
    for i in range(c["spikes"]):
        d[int(r.integers(n))] += c["amp"] * r.choice([-1, 1]) * r.uniform(.5, 1.5)
    d = d * c["scale"]
    arg, m = mask_of(c, r, n)
    kw = {k: c[k] for k in ("order", "iter") if c[k] is not None}
    if arg is not None:
        kw["mask"] = arg
    order = 6 if c["order"] is None else c["order"]
    it = 3 if c["iter"] is None else c["iter"]
    rec.nt(bool(c["spikes"] or m.any()))
    keep, keepm = d.copy(), None if arg is None else arg.copy()
    data = np.ma.array(d, mask=r.uniform(size=n) < 0) if c["ma"] else d
    got = call("remove_spikes", quiet, rfi.remove_spikes, data, **kw)
    require(np.array_equal(d, keep), "remove_spikes changed its data")
    require(arg is None or np.array_equal(arg, keepm), "remove_spikes changed the caller's mask")
    require(np.shape(got) == (n,), "%d channels give a curve of shape %r", n, np.shape(got))
    ref, close, deg = ref_spikes(d, m, order, it)
    if deg or close:
        rec.event("degenerate" if deg else "close call")
        return
    scale = np.abs(d).max() + 1e-300
    # away from the fitted channels a polynomial amplifies rounding: compare inside
    x = np.arange(n)[~m]
    sl = slice(x.min(), x.max() + 1)
    tol = 1e-7 * scale * (1 if (~m).sum() > 2 * order + 2 else 1e3)
    e = np.abs(np.asarray(got) - ref)[sl]
    require(e.max() <= tol, "smooth curve differs by %r from fitting order %d and dropping outliers %d times (%d channels, %d flagged)", e.max(), order, it, n, int(m.sum()))
    if c["poly"]:
        p = call("remove_spikes", quiet, rfi.remove_spikes, data, return_poly=True, **kw)
        require(np.shape(p) == (order + 1,), "polynomial of order %d has shape %r", order, np.shape(p))
        q = np.polyval(p, np.arange(n))
        require(np.abs(q - np.asarray(got)).max() <= 1e-9 * np.abs(q).max() + 1e-300, "the returned polynomial is not the returned curve")
    rec.event("order=%d iter=%d" % (order, it))


def t_spikes_rel(c, rec):
    """Flagged samples do not count, spikes on a polynomial leave it exactly, a polynomial is its own smooth curve."""
    rfi = module()
    c = dict(c, n=max(100, c["n"]), noise=0)
    d, r = spectrum(c, c["deg"])
    d += 3
    n = d.size
    d0 = d.copy()
    at = r.choice(np.arange(n // 6, n - n // 6), size=min(c["spikes"], n // 20), replace=False).astype(int)
    d[at] += c["amp"] * 10 * r.uniform(.9, 1.1, size=at.size) * r.choice([-1, 1])
    rec.nt(at.size > 0)
    it = 3
    got = call("remove_spikes", quiet, rfi.remove_spikes, d, order=max(c["deg"], 1), iter=it)
    m = np.zeros(n, bool)
    m[at] = True
    ref, close, deg = ref_spikes(d, np.zeros(n, bool), max(c["deg"], 1), it)
    # flagged from the start, the spikes leave exactly the polynomial
    junk = d0.copy()
    junk[at] = r.choice([1e9, -1e9, 0, 1e3], size=at.size)
    pre = call("remove_spikes", quiet, rfi.remove_spikes, junk, mask=m.copy(), order=max(c["deg"], 1), iter=0)
    require(np.abs(pre - d0).max() < 1e-6 * np.abs(d0).max(), "flagged samples pull the smooth curve by %r", np.abs(pre - d0).max())
    # (rounding-level residuals of an exact polynomial are flagged at random: that must not matter)
    if at.size:
        moved = np.abs(got - d0)[n // 6:n - n // 6].max()
        one = ref_spikes(d, np.zeros(n, bool), max(c["deg"], 1), 1)[0]
        require(moved <= max(1e-5 * np.abs(d).max(), 0 if one is None else np.abs(one - d0)[n // 6:n - n // 6].max() * 1.05),
                "after %d iterations spikes still pull the curve by %r", it, moved)
        rec.event("clean" if moved < 1e-5 else "pulled")
    else:
        require(np.abs(got - d0)[n // 6:n - n // 6].max() < 1e-5 * np.abs(d0).max(), "a polynomial is not its own smooth curve: off by %r", np.abs(got - d0).max())


# ---- integrations
@st.composite
def icase(draw):
    return {"seed": draw(gen.seeds), "nint": draw(st.one_of(st.integers(1, 30), st.integers(100, 400))), "nch": draw(st.integers(1, 8)), "nsig": draw(st.sampled_from([None, .5, 1, 2, 3])),
            "raw": draw(st.booleans()), "bad": draw(st.integers(0, 5)), "mask": draw(st.sampled_from(["none", "zero", "some", "ints", "ints", "both"])), "real": draw(st.booleans())}


def t_ints(c, rec):
    rfi = module()
    r = gen.rng(c["seed"])
    nint, nch = c["nint"], c["nch"]
    amp = 10 + 3 * np.sin(np.linspace(0, 2, nint))[:, None] + r.normal(size=(nint, nch)) * .3
    bad = r.choice(nint, min(c["bad"], nint // 20), replace=False)
    amp[bad] += 100
    d = np.abs(amp) if c["real"] else amp * np.exp(1j * r.uniform(0, 6, size=amp.shape))
    m = np.zeros(d.shape, bool)
    if c["mask"] in ("some", "both"):
        m |= r.uniform(size=d.shape) < .2
    gone = np.zeros(nint, bool)
    if c["mask"] in ("ints", "both"):
        gone[r.choice(nint, max(1, nint // 10), replace=False)] = True
        m[gone] = True
    gone = m.all(axis=1)
    d = np.where(m, 1e6, d)
    arg = np.ma.array(d) if c["mask"] == "none" else np.ma.array(d, mask=m)
    kw = {} if c["nsig"] is None else {"nsig": c["nsig"]}
    if c["raw"]:
        kw["raw"] = True
    keep, keepm = d.copy(), np.ma.getmaskarray(arg).copy()
    got = call("flag_by_int", quiet, rfi.flag_by_int, arg, **kw)
    require(np.array_equal(np.ma.getdata(arg), keep) and np.array_equal(np.ma.getmaskarray(arg), keepm), "flag_by_int changed its data")
    require(isinstance(got, np.ndarray) and got.shape == (nint,) and not np.ma.isMaskedArray(got) and set(np.unique(got)) <= {0, 1} and got.dtype.kind in "iu",
            "%d integrations give flags %r", nint, got)
    rec.nt(bool(bad.size or gone.any()))
    require(got[gone].all(), "integrations %r are flagged in the data and not in the result", np.where(gone)[0][got[gone] == 0].tolist())
    # the reference
    p = np.array([np.abs(d[i][~m[i]]).mean() if not gone[i] else 0 for i in range(nint)])
    ok = ~gone
    if not c["raw"]:
        ref, close, deg = ref_spikes(p, gone, 6, 3)
        if deg or close:
            rec.event("degenerate" if deg else "close call")
            return
        p = np.abs(p - ref)
        if ok.any() and p[ok].min() < 1e-10 * np.abs(ref).max():    # an interpolated integration: its logarithm is rounding
            rec.event("close call")
            return
    if ok.sum() < 20:
        require(not got[ok].any(), "too few integrations for a threshold, but %r are flagged", np.where(got.astype(bool) & ok)[0].tolist())
        rec.event("too few")
        return
    thr, _ = call("gen_rfi_thresh", quiet, rfi.gen_rfi_thresh, p[ok], nsig=1 if c["nsig"] is None else c["nsig"], cnt_per_bin=20)
    want = p >= thr
    eps = 1e-6 * p[ok].max()
    for i in np.where(ok)[0]:
        if abs(p[i] - thr) > eps:
            require(bool(got[i]) == bool(want[i]), "integration %d, power %r off, threshold %r: flag %d", i, p[i], thr, got[i])
    rec.event("flagged" if got[ok].any() else "none flagged")
    if bad.size and nint >= 100 and (c["nsig"] or 1) <= 1:
        b = [i for i in bad if ok[i]]
        require(got[b].all(), "integrations %r have ten times the power and are not flagged", b)


def subs():
    return [Sub("thresholds", tcase(), t_thresh, quick=350, thorough=8000), Sub("threshold_relations", tcase(), t_thresh_rel, quick=120, thorough=3000),
            Sub("gaussians", tcase(), t_gauss, quick=60, thorough=1500),
            Sub("spikes", scase(), t_spikes, quick=700, thorough=20000), Sub("spike_relations", scase(), t_spikes_rel, quick=300, thorough=8000),
            Sub("integrations", icase(), t_ints, quick=350, thorough=8000)]
