"""C27: gridding."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, raises_cleanly
from vlib import gen, imgm

VARIANTS = ["plain", "asan"]
TECHNIQUE = "property-based testing of gridding against the kernel sum written out, plain and under the address sanitizer, with histories of additions"
RULE = ("cases: grids of 1-40 cells a side (rectangular ones too), samples inside, on half cells, at negative coordinates and far off the grid, "
        "footprints 0-12, strided and reversed inputs, refused arguments; histories of put (weights, several weight terms, apply=False) and get on an "
        "Img; oracle: direct kernel sum with wrap-around; non-trivial: more than one sample")

F = np.float32
coord = st.one_of(gen.fl(-5, 45), gen.fl(-1, 1), st.integers(-60, 60).map(float), st.integers(-40, 80).map(lambda k: k / 2.), gen.fl(-1e4, 1e4))


@st.composite
def kcase(draw):
    n = draw(st.integers(0, 6))
    return {"n1": draw(st.integers(1, 40)), "n2": draw(st.integers(1, 40)), "x": draw(st.lists(coord, min_size=n, max_size=n)), "y": draw(st.lists(coord, min_size=n, max_size=n)),
            "seed": draw(gen.seeds), "fp": draw(st.sampled_from([None, None, 0, 1, 2, 3, 6, 7, 12])), "stride": draw(st.sampled_from(["no", "no", "step", "back", "be"])),
            "bad": draw(st.sampled_from([None] * 8 + ["len", "type", "rank", "inf", "huge", "nan", "ronly"]))}


def lay(a, how):
    """The same values in another memory layout."""
    if how == "step":
        b = np.zeros(3 * a.size + 2, a.dtype)
        b[:] = 77
        b[1:1 + 3 * a.size:3] = a
        return b[1:1 + 3 * a.size:3]
    if how == "back":
        return a[::-1].copy()[::-1]
    return a.copy()


def crand(r, *shape):
    return (r.normal(size=shape) + 1j * r.normal(size=shape)).astype(np.complex64)


def kernels(c, rec):
    from aipy import _dsp
    r = gen.rng(c["seed"])
    x, y = np.array(c["x"], F), np.array(c["y"], F)
    if c["bad"] in ("inf", "huge", "nan") and x.size:
        k = c["seed"] % x.size
        (x if c["seed"] % 2 else y)[k] = {"inf": [np.inf, -np.inf][c["seed"] % 3 % 2], "huge": [1e30, -3e25][c["seed"] % 3 % 2], "nan": np.nan}[c["bad"]]
    n = x.size
    dat = crand(r, n)
    fp = () if c["fp"] is None else (c["fp"],)
    f = 6 if c["fp"] is None else c["fp"]
    buf1, buf2 = crand(r, c["n1"]), crand(r, c["n1"], c["n2"])
    fn = {1: _dsp.grid1D_c, 2: _dsp.grid2D_c, 3: _dsp.degrid2D_c}
    how = c["stride"] if c["stride"] != "be" else "no"
    if c["bad"] in ("len", "type", "rank"):
        k = c["seed"] % 3
        b, ix, iy, d = buf2, x, y, dat
        if c["bad"] == "len":
            if n == 0:
                return
            if k == 0:
                ix = x[:-1]
            elif k == 1:
                iy = np.concatenate([y, y])
            else:
                d = np.concatenate([dat, dat])
        elif c["bad"] == "type":
            if k == 0:
                ix = x.astype(np.float64)
            elif k == 1:
                d = dat.astype(np.complex128)
            else:
                b = buf2.astype(np.complex128)
        else:
            if k == 0:
                ix = x.reshape(1, -1)
            elif k == 1:
                b = buf1
            else:
                d = dat.reshape(-1, 1)
        bk, dk = b.copy(), d.copy()
        for g in (2, 3):
            require(raises_cleanly(fn[g], b, ix, iy, d, *fp), "%s of wrong %s %d was accepted", fn[g].__name__, c["bad"], k)
            require(np.array_equal(b, bk) and np.array_equal(d, dk), "%s changed arrays it refused", fn[g].__name__)
        if not (c["bad"] == "len" and k == 1) and b is not buf1:
            b1 = b[0].copy()
            bk = b1.copy()
            require(raises_cleanly(fn[1], b1, ix, d, *fp), "grid1D_c of wrong %s %d was accepted", c["bad"], k)
            require(np.array_equal(b1, bk), "grid1D_c changed an array it refused")
        rec.event("refused")
        return
    if c["bad"] == "ronly":
        b = np.asfortranarray(buf2)[:, ::2] if c["seed"] % 2 else np.zeros((2 * c["n1"], c["n2"]), np.complex64)[::2]
        if not b.flags.c_contiguous:
            k = b.copy()
            want = imgm.grid2(b, x, y, dat, f)
            # either refused or right
            if not raises_cleanly(fn[2], b, x, y, dat, *fp):
                require(np.allclose(b, want, rtol=1e-4, atol=1e-4), "grid2D_c into a strided buffer: %r expected %r", b, want)
            else:
                require(np.array_equal(b, k), "grid2D_c changed a buffer it refused")
        rec.event("strided buffer")
        return
    xx, yy, dd = lay(x, how), lay(y, how), lay(dat, how)
    if c["bad"] in ("inf", "huge") and n:
        b = buf2.copy()
        require(raises_cleanly(fn[2], b, xx, yy, dd, *fp), "grid2D_c accepted coordinates %r, %r", x, y)
        require(raises_cleanly(fn[3], b, xx, yy, dd.copy(), *fp), "degrid2D_c accepted coordinates %r, %r", x, y)
        rec.event("infinite")
        return
    tol = dict(rtol=2e-4, atol=2e-4 * (1 + 20 * n * (np.nanmax(np.abs(x), initial=0) if n else 0) * 1e-3))
    got = buf1.copy()
    call("grid1D_c", fn[1], got, xx, dd, *fp)
    require(np.allclose(got, imgm.grid1(buf1, x, dat, f), **tol), "grid1D_c of %r, footprint %d: %r expected %r", x, f, got, imgm.grid1(buf1, x, dat, f))
    got = buf2.copy()
    call("grid2D_c", fn[2], got, xx, yy, dd, *fp)
    want = imgm.grid2(buf2, x, y, dat, f)
    require(np.allclose(got, want, **tol), "grid2D_c of %r, %r, footprint %d: %r expected %r", x, y, f, got, want)
    got = np.zeros(n, np.complex64)
    keep = buf2.copy()
    call("degrid2D_c", fn[3], buf2, xx, yy, got, *fp)
    require(np.array_equal(buf2, keep), "degrid2D_c changed the grid")
    want = imgm.degrid2(buf2, x, y, f)
    require(np.allclose(got, want, equal_nan=True, **tol), "degrid2D_c at %r, %r, footprint %d: %r expected %r", x, y, f, got, want)
    require(np.array_equal(xx, x, equal_nan=True) and np.array_equal(yy, y, equal_nan=True) and np.array_equal(dd, dat), "gridding changed its inputs")
    rec.nt(n > 1)
    rec.event("grid %s" % ("square" if c["n1"] == c["n2"] else "rectangular"))


@st.composite
def put(draw):
    return {"n": draw(st.sampled_from([0, 1, 1, 2, 5, 30])), "seed": draw(gen.seeds), "w": draw(st.sampled_from(["none", "list", "bare", "listof"])), "apply": draw(st.booleans()),
            "span": draw(st.sampled_from([.3, .5, 2.])), "herm": draw(st.booleans()), "real": draw(st.booleans()), "form": draw(st.sampled_from(["tuple", "array"])),
            "op": draw(st.sampled_from(["put", "put", "put", "get"])), "dup": draw(st.booleans())}


@st.composite
def icase(draw):
    return {"dim": draw(st.integers(4, 24)), "res": draw(st.sampled_from([.5, 1, 2, .37, 4])), "mf": draw(st.sampled_from([None, 0, 0, 1, 2])), "ops": draw(st.lists(put(), min_size=1, max_size=6))}


def histories(c, rec):
    from aipy import img
    size = c["dim"] * c["res"]
    kw = {} if c["mf"] is None else {"mf_order": c["mf"]}
    im = call("Img", img.Img, size, c["res"], **kw)
    nb = (c["mf"] or 0) + 1
    require(im.shape == (c["dim"], c["dim"]) and im.uv.shape == im.shape and len(im.bm) == nb, "Img(%r, %r): shape %r, %d weight terms", size, c["res"], im.shape, len(im.bm))
    uv, bm = np.zeros(im.shape, complex), [np.zeros(im.shape, complex) for i in range(nb)]
    total = 0
    for o in c["ops"]:
        r = gen.rng(o["seed"])
        n = o["n"]
        u, v, w = r.uniform(-1, 1, (3, n)) * size * o["span"]
        if o["dup"] and n:
            u[: n // 2], v[: n // 2] = u[-1], v[-1]
        if o["seed"] % 5 == 0:
            u, v = np.round(u / c["res"]) * c["res"], np.round(v / c["res"]) * c["res"]
        uvw = (u, v, w) if o["form"] == "tuple" else np.array([u, v, w])
        if o["op"] == "get":
            got = call("get", im.get, uvw)
            a, b = imgm.position(u, v, c["res"])
            num, den = imgm.degrid2(im.uv, a, b), imgm.degrid2(im.bm[0], a, b)
            ok = np.abs(den) > 1e-3 * (np.abs(im.bm[0]).max() + 1e-9)
            require(np.shape(got) == (n,), "get: shape %r for %d samples", np.shape(got), n)
            want = num / np.where(ok, den, 1)
            require(np.allclose(np.asarray(got)[ok], want[ok], rtol=1e-2, atol=1e-2 * (1 + np.abs(want[ok]).max(initial=0))), "get at %r, %r: %r expected %r", u, v, got, want)
            continue
        d = r.normal(size=n) if o["real"] else r.normal(size=n) + 1j * r.normal(size=n)
        if o["seed"] % 3 == 0:
            d = d.astype(np.complex64)
        if o["w"] == "none" or (o["w"] == "bare" and nb > 1):
            wl, wg = None, [np.ones(n)] + [np.zeros(n) for i in range(nb - 1)]
        else:
            wg = [r.uniform(.1, 3, n) for i in range(nb)]
            wl = wg[0] if o["w"] == "bare" else list(wg)
        keep = [np.array(x) for x in (u, v, w, d)] + [x.copy() for x in wg]
        given = (uvw, d) if wl is None else (uvw, d, wl)
        su, sv, sd, sw = u, v, d, wg
        if o["herm"]:
            res = call("append_hermitian", im.append_hermitian, *given)
            require(len(res) == len(given), "append_hermitian returned %d values for %d", len(res), len(given))
            su, sv, sd, sw = np.concatenate([u, -u]), np.concatenate([v, -v]), np.concatenate([d, d.conj()]), [np.concatenate([x, x]) for x in wg]
            require(np.allclose(res[0][0], su) and np.allclose(res[0][1], sv) and np.allclose(res[0][2], np.concatenate([w, -w])) and np.allclose(res[1], sd),
                    "append_hermitian: %r of %r, %r", res, uvw, d)
            if wl is not None:
                require(len(res[2]) == nb and all(np.allclose(x, y) for x, y in zip(res[2], sw)), "append_hermitian: weights %r expected %r", res[2], sw)
            require(all(np.array_equal(x, y) for x, y in zip(keep, [u, v, w, d] + wg)), "append_hermitian changed its inputs")
            if isinstance(wl, list):
                require(len(wl) == nb and all(np.array_equal(x, y) for x, y in zip(wl, wg)), "append_hermitian changed the list of weights it was given: %r", [x.shape for x in wl])
            given = res
        a, b = imgm.position(su, sv, c["res"])
        duv = imgm.grid2(np.zeros(im.shape), a, b, sd)
        dbm = [imgm.grid2(np.zeros(im.shape), a, b, x) for x in sw]
        if o["apply"]:
            call("put", im.put, *given)
            uv += duv
            for x, y in zip(bm, dbm):
                x += y
            total += n
        else:
            got = call("put(apply=False)", im.put, *given, apply=False)
            require(np.allclose(got[0], duv, rtol=1e-3, atol=1e-3) and len(got[1]) == nb and all(np.allclose(x, y, rtol=1e-3, atol=1e-3) for x, y in zip(got[1], dbm)),
                    "put(apply=False) of %r, %r: %r expected %r", su, sv, got, (duv, dbm))
        require(all(np.array_equal(x, y) for x, y in zip(keep, [u, v, w, d] + wg)), "put changed its inputs")
        t = dict(rtol=1e-3, atol=1e-3 * (1 + np.abs(uv).max()))
        require(np.allclose(im.uv, uv, **t), "after %d samples the grid is %r, expected %r (put at %r, %r)", total, im.uv, uv, su, sv)
        require(all(np.allclose(x, y, rtol=1e-3, atol=1e-3 * (1 + np.abs(y).max())) for x, y in zip(im.bm, bm)), "after %d samples the weights are %r, expected %r", total, im.bm, bm)
    rec.nt(total > 1)
    rec.event("mf %r" % c["mf"])


def subs():
    return [Sub("kernels", kcase(), kernels, quick=2500, thorough=80000), Sub("histories", icase(), histories, quick=500, thorough=15000)]
