"""C29: CLEAN."""
import contextlib
import ctypes
import os
import sys
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, raises_cleanly
from vlib import gen

VARIANTS = ["plain", "asan"]
TECHNIQUE = "property-based testing of CLEAN against a step-by-step reference, the convolution identity and invariants of the result, under the address sanitizer too"
RULE = ("cases: one- and two-dimensional images of up to 560 pixels (sides up to 300), real and complex in every precision, kernels with a peak at the origin and "
        "side lobes (also zero, negative, complex, peaked elsewhere), areas (all, some, none, without the origin, of any values), initial models, gains, tolerances "
        "and iteration limits (also 0), positivity, divergence stopping on and off; special values; strided, reversed and byte-swapped memory and "
        "wrong arguments; runs in which two choices are closer than rounding are held to the invariants only; non-trivial: at least 3 steps taken")
DT = ["float64", "float64", "float32", "complex128", "complex64", "longdouble", "clongdouble"]


@st.composite
def case(draw):
    nd = draw(st.sampled_from([1, 2, 2]))
    sh = draw(st.lists(st.integers(1, 24 if nd == 1 else 10), min_size=nd, max_size=nd))
    if draw(st.integers(0, 7)) == 0:
        # a long one
        sh = [min(x, 4) for x in sh]
        sh[draw(st.integers(0, nd - 1))] = draw(st.integers(25, 300 if nd == 1 else 140))
    c = {"shape": sh, "dt": draw(st.sampled_from(DT)), "seed": draw(gen.seeds),
            "img": draw(st.sampled_from(["points", "points", "points", "noise", "noise", "one", "neg", "zero"])), "ker": draw(st.sampled_from(["beam", "beam", "beam", "weak", "delta", "noise", "zero", "negative", "moved"])),
            "area": draw(st.sampled_from(["none", "none", "none", "some", "some", "off0", "some", "bool", "big", "one", "empty"])), "mdl": draw(st.sampled_from(["none", "none", "given"])),
            "gain": draw(st.sampled_from([.1, .1, .3, .5, 1., 1.7, 0.02])), "tol": draw(st.sampled_from([1e-3, 1e-3, 1e-2, 1e-6, 0, .2])), "maxiter": draw(st.sampled_from([20, 60, 200, 200, 60, 20, 5, 2, 1, 0])),
            "stop": draw(st.booleans()), "pos": draw(st.sampled_from([False, False, True])), "scale": draw(st.sampled_from([1, 1, 1, 1e-6, 1e5])), "kscale": draw(st.sampled_from([1, 1, .01, 40])),
            "defaults": draw(st.booleans()), "nan": draw(st.sampled_from([0] * 12 + [1]))}
    if draw(st.integers(0, 9)) == 0:
        # a kernel that makes it diverge: the best result so far comes back
        c.update(ker="noise", img="noise", stop=False, gain=draw(st.sampled_from([.5, .9, 1.])), maxiter=draw(st.sampled_from([10, 20, 30])),
                 tol=draw(st.sampled_from([0, 1e-6])), area=draw(st.sampled_from(["none", "none", "some"])), nan=0, scale=1, kscale=1)
        if nd == 1:
            c["shape"] = [draw(st.integers(20, 80))]
    return c


def real_of(dt):
    return np.zeros(0, dt).real.dtype


def make(c):
    r = gen.rng(c["seed"])
    sh, dt = tuple(c["shape"]), np.dtype(c["dt"])
    cx = dt.kind == "c"

    def rnd(s=sh):
        a = r.normal(size=s)
        return a + 1j * r.normal(size=s) if cx else a

    k = {"noise": rnd(), "zero": np.zeros(sh), "delta": np.zeros(sh)}.get(c["ker"])
    if k is None:
        k = rnd() * {"beam": .15, "weak": .03, "negative": .1, "moved": .1}[c["ker"]]
    k = np.array(k, dtype=complex if cx else float)
    at = tuple(int(r.integers(n)) for n in sh) if c["ker"] == "moved" else (0,) * len(sh)
    if c["ker"] not in ("noise", "zero"):
        k[at] = (-1 if c["ker"] == "negative" else 1) * (np.exp(1j * r.uniform(0, 6)) if cx and r.integers(2) else 1)
    k = k * c["kscale"]
    im = rnd() * (.01 if c["img"] in ("points", "neg") else 1)
    if c["img"] == "zero":
        im = im * 0
    elif c["img"] == "one":
        im = im * 0
        im[tuple(int(r.integers(n)) for n in sh)] = 1.5
    elif c["img"] != "noise":
        m = np.zeros(sh, dtype=k.dtype)
        for i in range(int(r.integers(1, 5))):
            m[tuple(int(r.integers(n)) for n in sh)] += (r.uniform(.3, 5) * (-1 if c["img"] == "neg" else 1)) * (np.exp(1j * r.uniform(0, 6)) if cx else 1)
        im = im + conv(m, k / (abs(k).max() or 1))
    im = (im * c["scale"]).astype(dt)
    if c["nan"]:
        im[tuple(int(r.integers(n)) for n in sh)] = np.nan
    ar = {"none": None, "empty": np.zeros(sh, int)}.get(c["area"], 0)
    if c["area"] in ("some", "bool", "big", "off0"):
        ar = r.integers(0, 2, sh)
        if c["area"] == "off0":
            ar[(0,) * len(sh)] = 0
        if c["area"] == "bool":
            ar = ar.astype(bool)
        if c["area"] == "big":
            ar = ar.astype(np.int64) << int(r.integers(0, 62))
        elif c["area"] == "off0" or r.integers(2):
            ar = ar * r.integers(1, 6, sh) if c["area"] != "bool" else ar
    elif c["area"] == "one":
        ar = np.zeros(sh, int)
        ar[tuple(int(r.integers(n)) for n in sh)] = 1
    mdl = None
    if c["mdl"] == "given":
        mdl = (rnd() * (r.uniform(size=sh) < .3) * c["scale"]).astype(dt)
        if c["pos"] and not cx:
            mdl = np.abs(mdl)
    return im, k.astype(dt), ar, mdl


def conv(a, b):
    """Direct circular convolution."""
    a, b = np.asarray(a), np.asarray(b)
    out = np.zeros(a.shape, np.result_type(a, b))
    for i in np.ndindex(*b.shape):
        if b[i] != 0:
            out = out + b[i] * np.roll(a, i, axis=tuple(range(a.ndim)))
    return out


class Ref(object):
    """Hoegbom CLEAN one step at a time; .sure is False once two choices were closer than rounding."""

    def __init__(self, res, ker, mdl, area, gain, maxiter, tol, stop, pos):
        R = real_of(res.dtype)
        T = R.type
        eps = float(np.finfo(R).eps)
        near = eps ** .5 * 1e-1
        cx = res.dtype.kind == "c"
        self.sure = True
        self.big = float(max(np.abs(res).max(), np.abs(mdl).max(), 1e-300))
        p2 = lambda a: (a.real * a.real + a.imag * a.imag) if cx else a * a
        k2 = p2(ker).ravel()
        top = int(np.argmax(k2))
        ax = tuple(range(res.ndim))
        q = T(0) if k2[top] == 0 else (np.conj(ker.ravel()[top]) / k2[top] if cx else T(1) / ker.ravel()[top])
        if k2.size > 1 and k2[top] > 0:
            s = np.sort(k2)
            if s[-2] > s[-1] * (1 - near):
                self.sure = False
        argmax = (0,) * res.ndim
        val = ker.dtype.type(0)
        score = first = best = T(-1)
        bm = br = None
        i, self.steps, self.total = 0, 0, 0
        res, mdl = res.copy(), mdl.copy()
        self.term = None
        nscore = T(0)
        while i < maxiter:
            self.total += 1
            if self.total > 20000:
                self.sure = False
                break
            step = ker.dtype.type(T(gain) * (val * q)) if cx else T(T(gain) * val * q)
            before = res.copy() if step != 0 else res
            m0 = mdl.copy()
            mdl[argmax] += step
            if step != 0:
                self.steps += 1
                res = (res - np.roll(ker * step, argmax, axis=ax)).astype(res.dtype)
            sq = p2(res)
            nscore = T(np.sqrt(np.cumsum(sq.ravel(), dtype=R)[-1] / T(sq.size)))
            self.big = max(self.big, float(np.abs(res).max()), float(np.abs(mdl).max()))
            ok = area.astype(bool).copy()
            if pos and not cx:
                ok &= res > 0
            pick = np.where(ok, sq, -1)
            # scan order of the kernel index, shifted to the last component
            order = np.roll(pick, [-a for a in argmax], axis=ax).ravel()
            if order.size and order.max() >= 0:
                j = int(np.argmax(order))
                s = np.sort(order)
                if len(s) > 1 and s[-2] > s[-1] * (1 - near) and s[-1] > 0:
                    self.sure = False
                loc = np.unravel_index(j, res.shape)
                n = tuple(int((a + b) % d) for a, b, d in zip(loc, argmax, res.shape))
                nval = res[n]
                if 0 < abs(nval) < near * self.big or pos and 0 < np.abs(res[np.where(area.astype(bool))]).min() < near * self.big:
                    self.sure = False
            else:
                n, nval = argmax, res.dtype.type(0)
            if first < 0:
                first = nscore
            if score > 0:
                d = abs(float(score - nscore))
                if d < near * float(score) and (d != 0 or score != 0) or abs(d / float(first) - tol) < near:
                    self.sure = False
            if score > 0 and nscore > score:
                if stop:
                    mdl, res = m0, before
                    self.term, self.iter = "divergence", i
                    break
                if best < 0 or score < best:
                    bm, br, best = m0, before, score
                    i = 0
            elif score > 0 and (score - nscore) / first < tol:
                self.term, self.iter = "tol", i
                break
            elif not stop and nscore < score and (best < 0 or nscore < best):
                i = 0
            score, argmax, val = nscore, n, nval
            i += 1
        if self.term is None:
            self.term, self.iter = "maxiter", maxiter
            if best > 0 and best < nscore:
                mdl, res = bm, br
        self.mdl, self.res = mdl, res


@contextlib.contextmanager
def hushed(on=True):
    """What is printed meanwhile, by the extensions too, is not shown."""
    if not on:
        yield
        return
    libc = ctypes.CDLL(None)
    libc.fflush(None)
    out, keep, null = sys.stdout, os.dup(1), open(os.devnull, "w")
    os.dup2(null.fileno(), 1)
    sys.stdout = null
    try:
        yield
    finally:
        libc.fflush(None)
        os.dup2(keep, 1)
        os.close(keep)
        sys.stdout = out
        null.close()


def run(c, rec):
    from aipy import deconv
    im, ker, area, mdl = make(c)
    args = [im, ker] + [x for x in (area, mdl) if x is not None]
    keep = [x.copy() for x in args]
    cx = im.dtype.kind == "c"
    kw = {"gain": c["gain"], "maxiter": c["maxiter"], "tol": c["tol"], "stop_if_div": c["stop"], "pos_def": c["pos"]}
    if c["defaults"]:
        for k, v in (("gain", .1), ("tol", 1e-3), ("stop_if_div", True), ("pos_def", False)):
            if kw[k] == v:
                del kw[k]
    if mdl is not None:
        kw["mdl"] = mdl
    if area is not None:
        kw["area"] = area
    if c["seed"] % 5 == 0:
        kw["verbose"] = True
    with np.errstate(all="ignore"), hushed("verbose" in kw):
        got, info = call("clean", deconv.clean, im, ker, **kw)
    for a, b in zip(args, keep):
        require(a.tobytes() == b.tobytes(), "clean changed its arguments: %r, was %r", a, b)
    res = info["res"]
    require(got.shape == im.shape and res.shape == im.shape and got.dtype == im.dtype and res.dtype == im.dtype, "clean of %r %r gives %r %r, residual %r %r", im.shape, im.dtype, got.shape, got.dtype, res.shape, res.dtype)
    require(got is not mdl and res is not im, "clean returns its own arguments")
    require(info["tol"] == c["tol"] and info["term"] in ("tol", "maxiter", "divergence"), "info: %r", info)
    require(0 <= info["iter"] <= c["maxiter"], "%r iterations of at most %d", info["iter"], c["maxiter"])
    if c["nan"]:
        rec.nt(False)
        rec.event("nan")
        return
    require(np.all(np.isfinite(got)) and np.all(np.isfinite(res)), "clean of finite data gives %r, %r", got, res)
    start = np.zeros_like(im) if mdl is None else mdl
    r0 = (im - conv(start, ker)).astype(im.dtype) if mdl is not None else im.copy()
    A = np.ones(im.shape, int) if area is None else (area != 0).astype(int)
    eps = float(np.finfo(real_of(im.dtype)).eps)
    with np.errstate(all="ignore"):
        ref = Ref(r0, ker, start, A, c["gain"], c["maxiter"], c["tol"], c["stop"], c["pos"])
    big = max(ref.big, float(np.abs(got).max()), float(np.abs(res).max()))
    kb = max(1, float(np.abs(ker).max()))
    slack = eps * (ref.total + 30) * im.size * big * kb * 4
    # every unit of flux is in the model or in the residual
    back = conv(got, ker) + res
    require(np.all(np.abs(back - im) <= slack), "model * kernel + residual = %r, image %r", back, im)
    out = A == 0
    require(np.array_equal(got[out], start[out]), "the model changed outside of the area: %r, before %r, area %r", got, start, A)
    if c["pos"] and not cx and ker.ravel()[np.argmax(np.abs(ker))] > 0:
        require(np.all(got - start >= -slack), "positive model requested: %r, started from %r", got, start)
    rms = lambda x: float(np.sqrt(np.mean(np.abs(x.astype(np.clongdouble)) ** 2)))
    require(abs(float(info["score"]) - rms(res)) <= 1e-5 * rms(res) + slack + 1e-140, "score %r, residual has %r", info["score"], rms(res))
    if c["stop"]:
        require(rms(res) <= rms(r0) * (1 + 1e-5) + slack, "the residual grew from %r to %r", rms(r0), rms(res))
    require(info["success"] == (info["term"] == "tol" and info["iter"] > 0), "success %r of a run ending by %r after %r", info["success"], info["term"], info["iter"])
    if ref.sure:
        sl = slack / eps * eps ** .75
        require(info["term"] == ref.term and info["iter"] == ref.iter, "ended by %r after %r, step by step %r after %r", info["term"], info["iter"], ref.term, ref.iter)
        require(np.all(np.abs(got - ref.mdl) <= sl * max(1, 1 / kb)) or np.allclose(got, ref.mdl, rtol=1e-3, atol=1e-3 * big), "model %r, step by step %r", got, ref.mdl)
        require(np.allclose(res, ref.res, rtol=1e-3, atol=1e-3 * big), "residual %r, step by step %r", res, ref.res)
    rec.nt(ref.steps >= 3)
    rec.event("%s%s" % (info["term"], "" if ref.sure else " (close call)"))


@st.composite
def lcase(draw):
    c = draw(case())
    c["dt"] = draw(st.sampled_from(["float64", "float32", "complex64", "complex128"]))
    c["nan"] = 0
    c["lay"] = draw(st.lists(st.sampled_from(["C", "F", "step", "neg", "bcast", "swap", "odd"]), min_size=4, max_size=4))
    return c


def lay(a, how, r):
    """a in another layout, and the buffer it lives in."""
    if how == "F":
        b = np.asfortranarray(a)
        return b, b
    if how == "step":
        b = np.full(tuple(2 * x + 1 for x in a.shape), 77, a.dtype)
        v = b[tuple(slice(1, None, 2) for x in a.shape)]
    elif how == "neg":
        b = np.full(tuple(x + 2 for x in a.shape), 77, a.dtype)
        v = b[tuple(slice(x, 0, -1) for x in a.shape)]
    elif how == "odd":
        b = np.full(a.size * a.itemsize + 9, 77, np.uint8)
        v = b[1:1 + a.size * a.itemsize].view(a.dtype).reshape(a.shape)
    elif how == "swap":
        b = v = a.astype(a.dtype.newbyteorder())
    else:
        b = v = a.copy()
    v[...] = a
    return v, b


def layouts(c, rec):
    """The loops in C work in place on arrays of any layout and on nothing else."""
    from aipy import _deconv
    im, ker, area, mdl = make(c)
    mdl = np.zeros_like(im) if mdl is None else mdl
    area = (np.ones(im.shape, np.int64) if area is None else area.astype(np.int64))
    plain = [x.copy(order="C") for x in (im, ker, mdl, area)]
    kw = {"gain": c["gain"], "maxiter": c["maxiter"], "tol": c["tol"], "stop_if_div": int(c["stop"]), "pos_def": int(c["pos"])}
    want = call("_deconv.clean", _deconv.clean, *plain, **kw)
    require(np.array_equal(plain[1], ker) and np.array_equal(plain[3], area), "clean changed the kernel or the area")
    r = gen.rng(c["seed"])
    lays = [x if x != "bcast" else "C" for x in c["lay"]]
    views, bufs = zip(*[lay(x, h, r) for x, h in zip((im, ker, mdl, area), lays)])
    before = [b.copy() for b in bufs]
    marks = []
    for v, b in zip(views, bufs):
        m = np.zeros(b.nbytes, bool)
        marks.append(m)
    odd = any(h in ("swap", "odd") for h in lays)
    if odd:
        try:
            got = _deconv.clean(*views, **kw)
        except (ValueError, TypeError):
            for b, x in zip(bufs, before):
                require(b.tobytes() == x.tobytes(), "a refused call changed its arguments")
            rec.nt(True)
            rec.event("refused")
            return
    else:
        got = call("_deconv.clean", _deconv.clean, *views, **kw)
    require(got == want, "layouts %r: returned %r, contiguous %r", lays, got, want)
    for n, v, w in zip(("residual", "kernel", "model", "area"), views, plain):
        require(np.allclose(v, w, rtol=1e-6, atol=0, equal_nan=True), "layouts %r: %s %r, contiguous %r", lays, n, v, w)
    for b, x, h in zip(bufs, before, lays):
        if h in ("step", "neg"):
            edge = [np.take(b, [0], axis=i) for i in range(b.ndim)]
            require(all(np.all(e == 77) for e in edge), "layout %s: written outside of the array: %r", h, b)
        if h == "step":
            for i in range(b.ndim):
                require(np.all(np.take(b, range(0, b.shape[i], 2), axis=i) == 77), "layout step: written between the elements: %r", b)
    rec.nt(any(h != "C" for h in lays))


@st.composite
def bad(draw):
    return {"shape": draw(st.lists(st.integers(0, 6), min_size=0, max_size=4)), "which": draw(st.sampled_from(["rank", "shape", "dtype", "area", "int", "object", "mdltype", "empty", "mdlshape"])),
            "seed": draw(gen.seeds), "dt": draw(st.sampled_from(["float64", "complex64"])), "arg": draw(st.integers(0, 2)), "low": draw(st.booleans())}


def refuses(c, rec):
    from aipy import deconv
    # a run given no limit ends after ten thousand steps
    one = np.ones((1, 1)) * (1 + c["seed"] % 7 if "seed" in c else 1.)
    got, info = call("clean", deconv.clean, one, np.ones((1, 1)), gain=1e-5, tol=0.)
    left = one[0, 0] * (1 - 1e-5) ** 10000
    require((info["term"], info["iter"]) == ("maxiter", 10000) and not info["success"] and abs(info["res"][0, 0] - left) < 1e-4 * one[0, 0] and abs(got[0, 0] + left - one[0, 0]) < 1e-4 * one[0, 0],
            "clean without a limit ended by %r after %r steps, leaving %r of %r", info["term"], info["iter"], info["res"], one)
    from aipy import deconv, _deconv
    r = gen.rng(c["seed"])
    sh = tuple(c["shape"])
    w = c["which"]
    if w in ("shape", "dtype", "area", "int", "mdltype", "object", "mdlshape"):
        sh = tuple(max(x, 1) for x in (sh + (3,))[:2])
    elif w == "empty":
        sh = (sh + (0, 0))[:2]
        sh = (0,) + sh[1:2] if c["arg"] else (sh[0], 0)
    elif len(sh) in (1, 2):
        sh = sh + (2, 2)
    a = r.normal(size=sh).astype(c["dt"])
    im, ker, mdl, area = a.copy(), a.copy(), np.zeros_like(a), np.ones(sh, int)
    x = [im, ker, mdl, area]
    if w == "shape":
        k = 1 + c["arg"]
        x[k] = np.zeros(tuple(d + int(r.integers(1, 3)) * (1 if r.integers(2) else -1 if d > 2 else 1) for d in sh), x[k].dtype)
    elif w == "mdlshape":
        x[2] = np.zeros(sh + (2,), a.dtype)
    elif w == "dtype":
        x[1] = ker.astype("float32" if c["dt"] == "float64" else "complex128")
    elif w == "mdltype":
        x[2] = mdl.astype("float32" if c["dt"] == "float64" else "complex128")
    elif w == "int":
        x = [y.astype(int) for y in x]
    elif w == "object":
        x = [y.astype(object) for y in x[:3]] + x[3:]
    elif w == "area":
        x[3] = np.ones(tuple(d + 1 for d in sh), int)
    keep = [y.copy() for y in x]
    if c["low"]:
        f = lambda: _deconv.clean(*x, gain=.1, maxiter=5)
    else:
        f = lambda: deconv.clean(x[0], x[1], area=x[3], maxiter=5, **({"mdl": x[2]} if w in ("shape", "mdltype", "mdlshape") or c["arg"] else {}))
    try:
        out = f()
        if w == "empty":
            require(c["low"] or out[0].shape == sh, "clean of an empty image: %r", out)
        else:
            require(False, "clean accepted %s: shapes %r, types %r", w, [y.shape for y in x], [str(y.dtype) for y in x])
    except (ValueError, TypeError, IndexError, ZeroDivisionError) as e:
        rec.event(type(e).__name__)
    for y, k in zip(x, keep):
        require(np.array_equal(y, k), "a refused call changed its arguments")
    rec.nt(True)


def subs():
    return [Sub("clean", case(), run, quick=1500, thorough=30000, weight=3),
            Sub("layouts", lcase(), layouts, quick=400, thorough=6000),
            Sub("refuses", bad(), refuses, quick=300, thorough=3000)]
