"""C30: least squares, maximum entropy and annealing."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen
from checks.c29 import conv, hushed

TECHNIQUE = "property-based testing of the iterative deconvolvers against step-by-step references, the convolution identity and objective invariants"
RULE = ("cases: images of up to 10x10 pixels with positive and negative structure and noise, kernels from delta functions to broad beams, starting "
        "models, areas, gains, tolerances, bounds and iteration limits (also 0); least squares must follow its iteration, maximum entropy its Newton "
        "steps, the variance search must return the run it found, annealing only ever improve; non-trivial: at least 3 iterations")


@st.composite
def case(draw):
    return {"shape": draw(st.lists(st.integers(1, 10), min_size=2, max_size=2)), "seed": draw(gen.seeds), "ker": draw(st.sampled_from(["delta", "gauss", "gauss", "auto", "auto", "beam"])),
            "width": draw(gen.fl(.4, 2)), "img": draw(st.sampled_from(["points", "points", "smooth", "noise", "zero"])), "noise": draw(st.sampled_from([0, .01, .1])),
            "gain": draw(st.sampled_from([.1, .1, .3, .05])), "tol": draw(st.sampled_from([1e-3, 1e-3, 1e-2, 1e-5, 0])), "maxiter": draw(st.sampled_from([0, 1, 2, 5, 30, 30, 200, 200])),
            "bounds": draw(st.sampled_from(["default", "default", "none", "tight"])), "area": draw(st.sampled_from(["none", "none", "some", "bool"])), "mdl": draw(st.sampled_from(["none", "none", "given"])),
            "dt": draw(st.sampled_from(["float64", "float64", "float32", "int"])), "kscale": draw(st.sampled_from([1, 1, 3, .2])), "f": draw(st.sampled_from([.5, 1, 2, 10])), "ok": draw(st.booleans())}


def make(c, positive=False):
    r = gen.rng(c["seed"])
    sh = tuple(c["shape"])
    y, x = [np.minimum(np.arange(n), n - np.arange(n)) for n in sh]
    k = np.exp(-(y[:, None] ** 2 + x[None, :] ** 2) / c["width"] ** 2)
    if c["ker"] == "delta":
        k = (k == 1).astype(float)
    elif c["ker"] == "auto":
        a = r.normal(size=sh)
        k = np.zeros(sh)
        for i in np.ndindex(*sh):
            k += a[i] * np.roll(a, [-j for j in i], axis=(0, 1))
        k /= k[0, 0]
    elif c["ker"] == "beam":
        k = k + .1 * r.normal(size=sh)
    im = np.zeros(sh)
    if c["img"] == "points":
        for i in range(int(r.integers(1, 5))):
            im[int(r.integers(sh[0])), int(r.integers(sh[1]))] += r.uniform(.5, 5)
        if positive:
            im += .05
    elif c["img"] == "smooth":
        im = 1 + np.cos(2 * np.pi * np.arange(sh[0]) / sh[0])[:, None] * np.ones(sh) + .2
    elif c["img"] == "noise":
        im = np.abs(r.normal(size=sh)) + .1 if positive else r.normal(size=sh)
    elif positive:
        im += 1
    k = k * c["kscale"]
    im = conv(im, k) + c["noise"] * r.normal(size=sh)
    if positive:
        im = np.abs(im)
    if c["dt"] == "int":
        im = np.round(im * 50).astype(int)
    else:
        im = im.astype(c["dt"])
    mdl = None
    if c["mdl"] == "given":
        mdl = np.abs(r.normal(size=sh)) + .3
        if c["dt"] == "float32":
            mdl = mdl.astype("float32")
    area = None if c["area"] == "none" else r.integers(0, 2, sh)
    if c["area"] == "bool":
        area = area.astype(bool)
    b = {"default": {}, "none": {"lower": -np.inf, "upper": np.inf}, "tight": {"lower": .01, "upper": float(r.uniform(.5, 3))}}[c["bounds"]]
    return im, k, mdl, area, b


def rconv(x, k):
    return conv(np.asarray(x, float), k)


TINY = np.finfo(np.float64).tiny


def ref_lsq(im, ker, x, area, gain, tol, maxiter, lower, upper):
    """-> model, iterations, term, sure, largest value"""
    q = np.sqrt((ker ** 2).sum())
    x = np.asarray(x, float)
    score, sure, big = 0., True, 1e-300
    for i in range(maxiter):
        d = (im - rconv(x, ker)) * area
        n = float(np.mean(d ** 2))
        big = max(big, float(np.abs(x).max()), float(np.abs(d).max()))
        if n <= 1e-18 * float(np.mean(im ** 2)):        # nothing left but rounding
            sure = False
        if n == 0:
            return x, i + 1, "?", False, big
        term = abs(1 - score / n)
        if abs(term - tol) < 1e-4 * max(tol, 1e-5) + 1e-9:
            sure = False
        if term < tol:
            return x, i + 1, "tol", sure, big
        score = n
        x = np.clip(x + gain * d / (2 * q), lower, upper)
    return x, maxiter, "maxiter", sure, big


def common(what, im, ker, mdl, area, keep, got, info, c, b):
    for a, k in zip([x for x in (im, ker, mdl, area) if x is not None], keep):
        require(a.tobytes() == k.tobytes() and a.shape == k.shape, "%s changed its arguments: %r, was %r", what, a, k)
    require(np.shape(got) == im.shape and np.shape(info["res"]) == im.shape, "%s of %r: %r, residual %r", what, im.shape, np.shape(got), np.shape(info["res"]))
    require(info["iter"] <= c["maxiter"], "%s: %r iterations of at most %d", what, info["iter"], c["maxiter"])


def fewer(c, kw, **defaults):
    """sometimes leave to the defaults what is as they are, or have it report its progress"""
    if c["seed"] % 5 == 0:
        kw = dict(kw, verbose=True)
    if c["seed"] % 2:
        return {k: v for k, v in kw.items() if not (k in defaults and v == defaults[k])}
    return kw


def lsq(c, rec):
    from aipy import deconv
    im, ker, mdl, area, b = make(c)
    keep = [x.copy() for x in (im, ker, mdl, area) if x is not None]
    kw = dict(b, gain=c["gain"], tol=c["tol"], maxiter=c["maxiter"])
    if mdl is not None:
        kw["mdl"] = mdl
    if area is not None:
        kw["area"] = area
    with np.errstate(all="ignore"), hushed():
        got, info = call("lsq", deconv.lsq, im, ker, **fewer(c, kw, gain=.1, tol=1e-3, maxiter=200))
    common("lsq", im, ker, mdl, area, keep, got, info, c, b)
    A = np.ones(im.shape) if area is None else (area != 0).astype(float)
    start = np.zeros(im.shape) if mdl is None else mdl
    lower, upper = b.get("lower", TINY), b.get("upper", np.inf)
    want, it, term, sure, big = ref_lsq(im.astype(float), ker, start, A, c["gain"], c["tol"], c["maxiter"], lower, upper)
    if big > 1e6:
        rec.event("diverging")
        rec.nt(False)
        return
    require(np.all(np.isfinite(got)) and np.all(np.isfinite(info["res"])), "lsq of finite data: %r", got)
    if c["maxiter"] > 1:
        require(np.all(got >= lower) and np.all(got <= upper), "lsq model outside of [%r, %r]: %r", lower, upper, got)
    scale = max(1., float(np.abs(im).max()), big)
    eps = 1e-9 if c["dt"] != "float32" else 1e-4
    back = rconv(got, ker) + info["res"]
    require(np.allclose(back, im, rtol=0, atol=eps * scale * max(1, np.abs(ker).sum())), "model * kernel + residual = %r, image %r", back, im)
    sc = float(np.mean((info["res"] * A) ** 2))
    require(abs(float(info["score"]) - sc) <= 1e-4 * sc + eps * scale ** 2, "lsq reports the score %r, its model has %r", info["score"], sc)
    require(info["success"] is True and info["tol"] == c["tol"] and info["term"] in ("tol", "maxiter"), "info %r", info)
    if sure and c["dt"] != "float32":
        require((info["term"], info["iter"]) == (term, it), "lsq ended by %r after %r, step by step %r after %r", info["term"], info["iter"], term, it)
        require(np.allclose(got, want, rtol=1e-6 if eps < 1e-5 else 1e-2, atol=eps * scale * 10), "lsq model %r, step by step %r", got, want)
    if c["ker"] in ("auto", "delta", "gauss") and c["bounds"] == "none" and area is None and np.linalg.norm(np.fft.fft2(ker).ravel(), np.inf) * c["gain"] <= 2 * np.sqrt((ker ** 2).sum()) \
            and np.fft.fft2(ker).real.min() > -1e-9:
        s0 = float(np.mean((im - rconv(start, ker)) ** 2))
        require(sc <= s0 * (1 + 1e-9) + eps * scale ** 2, "lsq made the fit worse: %r, from %r", sc, s0)
        rec.event("contracting")
    rec.nt(info["iter"] >= 3)
    rec.event(info["term"] + ("" if sure else " (close call)"))


def ref_maxent(im, ker, var0, m, gain, tol, maxiter, lower, upper):
    q = np.sqrt((ker ** 2).sum())
    b, alpha, sure, big = m.copy(), 0., True, 1.
    score = None
    for i in range(maxiter):
        d = im - rconv(b, ker)
        chi = (d ** 2).sum() - im.size * var0
        gchi = -2 * q * d
        gj = -np.log(b / m) - 1 - alpha * gchi
        h = 1 / b + alpha * 2 * q ** 2
        score = (gj ** 2 / h).sum() / (1 / h).sum()
        da = (chi + (gchi * gj / h).sum()) / (gchi ** 2 / h).sum()
        big = max(big, abs(alpha), float(np.abs(gchi).max()), float(np.abs(h).max()), float(1 / np.abs(h).min()))
        big = max(big, abs(da), float(np.abs(im).max()) / max(float(np.abs(d).max()), 1e-300))
        if not np.isfinite(score):
            return b, alpha, score, i + 1, "divergence", False
        if min(abs(score - tol) / max(tol, 1e-9), abs(score), abs(score - 1e10) / 1e10) < 1e-5 or big > 1e7 or not np.isfinite(da):
            sure = False
        if 0 < score < tol:
            return b, alpha, score, i + 1, "tol", sure
        if score > 1e10 or score <= 0:
            return b, alpha, score, i + 1, "divergence", sure
        new = np.clip(b + gain * (gj - da * gchi) / h, lower, upper)
        if (np.abs(new - lower) < 1e-12).any() or not np.isfinite(new).all():
            sure = False            # 1/b overwhelms everything from here
        b = new
        alpha += gain * da
    return b, alpha, score, maxiter, "maxiter", sure


def maxent(c, rec):
    from aipy import deconv
    im, ker, mdl, area, b = make(c, positive=True)
    area = None
    if c["dt"] == "float32" and mdl is not None:
        mdl = mdl.astype("float64")
    keep = [x.copy() for x in (im, ker, mdl) if x is not None]
    m = np.full(im.shape, np.mean(im) / ker.sum()) if mdl is None else mdl
    r = rconv(m, ker) - im
    var0 = float(np.var(r)) * .1 * c["f"] + 1e-6
    if c["bounds"] == "none":
        b = {"lower": 1e-3, "upper": 1e4}
    kw = dict(b, gain=c["gain"], tol=c["tol"], maxiter=c["maxiter"])
    if mdl is not None:
        kw["mdl"] = mdl
    with np.errstate(all="ignore"), hushed():
        got, info = call("maxent", deconv.maxent, im, ker, var0, **fewer(c, kw, gain=.1, tol=1e-3, maxiter=200))
    common("maxent", im, ker, mdl, None, keep, got, info, c, b)
    require(info["var0"] == var0 and info["tol"] == c["tol"] and info["term"] in ("tol", "maxiter", "divergence"), "info %r", info)
    require(info["success"] == (info["term"] != "divergence"), "info %r", info)
    lower, upper = b.get("lower", TINY), b.get("upper", np.inf)
    with np.errstate(all="ignore"):
        want, alpha, score, it, term, sure = ref_maxent(im.astype(float), ker, var0, np.asarray(m, float), c["gain"], c["tol"], c["maxiter"], lower, upper)
    if info["term"] == "tol":
        require(0 < info["score"] < c["tol"], "maxent converged with score %r, tol %r", info["score"], c["tol"])
        require(np.all(np.isfinite(got)), "maxent converged to %r", got)
    if np.all(np.isfinite(got)):
        if info["iter"] > 1:
            require(np.all(got >= lower) and np.all(got <= upper), "maxent model outside of [%r, %r]: %r", lower, upper, got)
        back = rconv(got, ker) + info["res"]
        tol = (1e-9 if c["dt"] != "float32" else 1e-4) * max(1, float(np.abs(got).max()), float(np.abs(im).max())) * max(1, np.abs(ker).sum())
        require(np.allclose(back, im, rtol=0, atol=tol), "model * kernel + residual = %r, image %r", back, im)
    if sure and c["dt"] != "float32":
        require((info["term"], info["iter"]) == (term, it), "maxent ended by %r after %r, step by step %r after %r", info["term"], info["iter"], term, it)
        require(np.allclose(got, want, rtol=1e-4, atol=1e-6) and abs(info["alpha"] - alpha) <= 1e-4 * max(1, abs(alpha)), "maxent model %r (alpha %r), step by step %r (%r)", got, info["alpha"], want, alpha)
        if score is not None:
            require(abs(info["score"] - score) <= 1e-3 * abs(score) + 1e-9, "maxent score %r, by definition %r", info["score"], score)
    rec.nt(info["iter"] >= 3 and sure)
    rec.event(info["term"] + ("" if sure else " (close call)"))


class GiveUp(BaseException):
    pass


def findvar(c, rec):
    from aipy import deconv
    im, ker, mdl, area, b = make(dict(c, dt="float64", ker=c["ker"] if c["ker"] != "beam" else "gauss", noise=.01), positive=True)
    keep = [x.copy() for x in (im, ker, mdl) if x is not None]
    kw = dict(gain=c["gain"], tol=max(c["tol"], 1e-3), maxiter=max(c["maxiter"], 60))
    if c["maxiter"] == 5:
        kw["maxiter"] = 3
    if mdl is not None:
        kw["mdl"] = mdl
    if c["seed"] % 2:
        kw.update(b)
    bounds = {k: kw[k] for k in ("lower", "upper") if k in kw}
    real = deconv.maxent
    tried = []

    def limited(im_, ker_, v, *a, **k):
        tried.append(v)
        if len(tried) > 100:
            raise GiveUp()
        return real(im_, ker_, v, *a, **k)

    lead = {}
    if c["f"] == 2:
        lead["var"] = float(np.var(im)) * [.3, .05, .01, .002, 1][c["seed"] % 5] + 1e-5
    elif c["f"] == 1:
        lead["f_var0"] = .3
    with np.errstate(all="ignore"):
        junk, li = call("lsq", deconv.lsq, im, ker, mdl=mdl, gain=kw["gain"], tol=kw["tol"], maxiter=kw["maxiter"] // 4, **bounds)
    v = np.var(li["res"]) * lead.get("f_var0", .6)
    if "var" not in lead and not v > 1e-12 * np.mean(im ** 2):
        rec.event("no variance left")       # the search has nothing to start from
        rec.nt(False)
        return
    deconv.maxent = limited
    try:
        with np.errstate(all="ignore"), hushed():
            got, info = call("maxent_findvar", deconv.maxent_findvar, im, ker, **fewer(c, dict(kw, maxiterok=c["ok"], **lead), gain=.1, tol=1e-3, maxiter=200, maxiterok=False))
    except GiveUp:
        rec.event("gave up")
        rec.nt(False)
        return
    finally:
        deconv.maxent = real
    for a, k in zip([x for x in (im, ker, mdl) if x is not None], keep):
        require(np.array_equal(a, k), "maxent_findvar changed its arguments")
    require(info["success"] and (info["term"] == "tol" or c["ok"]), "maxent_findvar ended with %r", info)
    if "var" in lead:
        require(tried[0] == lead["var"], "asked to start at variance %r, tried %r first", lead["var"], tried[0])
    else:
        require(abs(tried[0] - v) <= 1e-9 * v, "first variance tried %r, expected %r", tried[0], v)
    # an ever-widening range around the first
    want, n = [tried[0]], 0
    while len(want) < len(tried):
        w = tried[0] / 1.5 ** n
        while w < tried[0] * 1.5 ** n and len(want) < len(tried):
            want.append(w)
            w *= 1.2 ** (1. / (2 * (n + 1)))
        n += 1
    require(np.allclose(tried, want, rtol=1e-9, atol=0), "variances tried: %r, expected %r", tried, want)
    require(info["var0"] == tried[-1], "the result is of variance %r, last tried %r", info["var0"], tried[-1])
    with np.errstate(all="ignore"):
        again, i2 = real(im, ker, info["var0"], **kw)
    require(np.array_equal(again, got) and i2["score"] == info["score"] and i2["term"] == info["term"], "maxent_findvar returns %r, maxent at its variance %r", got, again)
    rec.nt(True)
    rec.event("tried %s" % ("1" if len(tried) == 1 else "more"))


def anneal(c, rec):
    from aipy import deconv
    im, ker, mdl, area, b = make(c)
    c = dict(c, maxiter=min(c["maxiter"], 60) if im.size > 4 else c["maxiter"] + 100)
    keep = [x.copy() for x in (im, ker, mdl) if x is not None]
    start = np.zeros(im.shape) if mdl is None else mdl
    lower, upper = b.get("lower", TINY), b.get("upper", np.inf)
    seen = []
    q = np.sqrt((ker ** 2).sum())

    def cooling(i, x):
        seen.append((i, np.array(x, float) * q))
        return .5 * np.abs(x) + 1e-3

    kw = dict(b, maxiter=c["maxiter"], **({"verbose": True} if c["seed"] % 5 == 0 else {}))
    if mdl is not None:
        kw["mdl"] = mdl
    own = c["f"] != .5
    if own:
        kw["cooling"] = cooling
    state = np.random.get_state()
    np.random.seed(c["seed"] % (1 << 32))
    try:
        with np.errstate(all="ignore"), hushed():
            got, info = call("anneal", deconv.anneal, im, ker, **kw)
            if not own:
                # as documented, ten times the square of the residual, slowly growing
                np.random.seed(c["seed"] % (1 << 32))
                g2, i2 = call("anneal", deconv.anneal, im, ker, cooling=lambda i, x: 10. * (1 - np.cos(i / 50.)) * x ** 2, **kw)
                require(np.allclose(got, g2, rtol=1e-6, atol=1e-9, equal_nan=True), "anneal without a cooling gives %r, with the documented one %r", got, g2)
    finally:
        np.random.set_state(state)
    common("anneal", im, ker, mdl, None, keep, got, info, c, b)
    res = im - rconv(got, ker)
    eps = 1e-9 if c["dt"] != "float32" else 1e-4
    scale = max(1., float(np.abs(im).max()), float(np.abs(got).max())) * max(1, np.abs(ker).sum())
    require(np.allclose(info["res"], res, rtol=0, atol=eps * scale), "anneal reports the residual %r, its model leaves %r", info["res"], res)
    sc, s0 = float(np.mean(res ** 2)), float(np.mean((im - rconv(start, ker)) ** 2))
    require(abs(info["score"] - sc) <= eps * scale ** 2, "anneal reports score %r, its model has %r", info["score"], sc)
    require(sc <= s0 + eps * scale ** 2, "anneal made the fit worse: %r, from %r", sc, s0)
    moved = not np.array_equal(got, start)
    if moved:
        require(np.all(got >= lower) and np.all(got <= upper), "anneal model outside of [%r, %r]: %r", lower, upper, got)
    require(info["success"] is True and info["term"] == "maxiter" and info["iter"] == c["maxiter"], "info %r", info)
    if own:
        require([i for i, x in seen] == list(range(c["maxiter"])), "cooling was asked for %r", [i for i, x in seen])
        s = [float(np.mean(x ** 2)) for i, x in seen] + [sc]
        require(all(y <= x * (1 + 1e-6) + eps * scale ** 2 for x, y in zip(s, s[1:])), "the score rose from step to step: %r", s)
        if seen:
            require(abs(s[0] - s0) <= eps * scale ** 2, "the first temperature is not that of the starting model: %r, %r", s[0], s0)
        if im.size <= 4 and c["ker"] == "delta" and c["bounds"] == "none" and s0 > 1e-3:
            require(sc < s0, "no improvement in %d steps", c["maxiter"])
    rec.nt(moved)


def subs():
    return [Sub("lsq", case(), lsq, quick=700, thorough=12000),
            Sub("maxent", case(), maxent, quick=500, thorough=8000),
            Sub("findvar", case(), findvar, quick=150, thorough=2000),
            Sub("anneal", case(), anneal, quick=300, thorough=5000)]
