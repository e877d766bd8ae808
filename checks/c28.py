"""C28: images and coordinates."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, imgm

TECHNIQUE = "property-based testing of images and coordinates against direct Fourier sums and spherical trigonometry, and of wide-field gridding against the kernel sum"
RULE = ("cases: grids of 4-28 cells, random contents and gridded samples, every centre, 1-3 weight terms; pixel coordinates (l, m), topocentric and "
        "equatorial against formulas; point sources placed in the field must peak at their own coordinates, through Img and ImgW, with made-up "
        "samples and with the simulation of an antenna array; ImgW histories of put and get against plane-by-plane kernels; non-trivial: a non-flat image")


@st.composite
def icase(draw):
    return {"dim": draw(st.integers(4, 28)), "res": draw(st.sampled_from([.5, 1, 2, .37, 4])), "mf": draw(st.integers(0, 2)), "seed": draw(gen.seeds),
            "c": draw(st.one_of(st.just("half"), st.just("none"), st.tuples(st.integers(-40, 40), st.integers(-40, 40)))), "term": draw(st.sampled_from([None, 0, 1, 2])),
            "ra": draw(gen.fl(-7, 7)), "dec": draw(gen.fl(-1.57, 1.57))}


def images(c, rec):
    from aipy import img
    dim, res = c["dim"], c["res"]
    im = call("Img", img.Img, dim * res, res, mf_order=c["mf"])
    require(im.shape == (dim, dim), "Img(%r, %r) has shape %r", dim * res, res, im.shape)
    r = gen.rng(c["seed"])
    rnd = lambda: (r.normal(size=im.shape) + 1j * r.normal(size=im.shape)).astype(np.complex64)
    im.uv = rnd()
    im.bm = [rnd() for i in range(c["mf"] + 1)]
    cen = {"half": (dim / 2, dim / 2), "none": (0, 0)}.get(c["c"], c["c"]) if isinstance(c["c"], str) else tuple(c["c"])
    kw = {} if c["c"] == "none" else {"center": cen}
    sh = (int(cen[0] % dim), int(cen[1] % dim))

    def place(a):
        return np.roll(np.roll(a, -sh[0], axis=0), -sh[1], axis=1)

    keep = im.uv.copy()
    got = call("image", im.image, **kw)
    want = place(imgm.dft(im.uv).real)
    require(np.shape(got) == im.shape and np.allclose(got, want, rtol=0, atol=1e-5), "image(%r): %r, Fourier sum %r", kw, got, want)
    b = call("bm_image", im.bm_image, **kw)
    require(isinstance(b, list) and len(b) == len(im.bm), "bm_image: %d images of %d weight terms", len(b), len(im.bm))
    for x, y in zip(b, im.bm):
        require(np.allclose(x, place(imgm.dft(y).real), rtol=0, atol=1e-5), "bm_image(%r): %r, Fourier sum %r", kw, x, place(imgm.dft(y).real))
    if c["term"] is not None and c["term"] <= c["mf"]:
        require(np.array_equal(call("bm_image of a term", im.bm_image, term=c["term"], **kw), b[c["term"]]), "bm_image(term=%d) is not that term's", c["term"])
    require(np.array_equal(im.uv, keep), "imaging changed the grid")
    # coordinates
    wl, wm = (place(x) for x in imgm.lm(dim, res))
    r2 = wl ** 2 + wm ** 2
    edge = np.abs(r2 - 1) < 1e-5
    L, M = call("get_LM", im.get_LM, **kw)
    mask = np.ma.getmaskarray(L)
    require(np.array_equal(mask | edge, (r2 >= 1) | edge) and np.array_equal(np.ma.getmaskarray(M), mask), "get_LM: masked %r, beyond the horizon %r", mask, r2 >= 1)
    require(np.allclose(np.ma.getdata(L)[~mask], wl[~mask], rtol=1e-5, atol=1e-7) and np.allclose(np.ma.getdata(M)[~mask], wm[~mask], rtol=1e-5, atol=1e-7),
            "get_LM(%r): %r, %r expected %r, %r", kw, L, M, wl, wm)
    T = call("get_top", im.get_top, **kw)
    ok = ~mask & ~edge
    wn = np.sqrt(np.where(ok, 1 - r2, 0))
    for x, y in zip(T, (wl, wm, wn)):
        require(np.array_equal(np.ma.getmaskarray(x) | edge, mask | edge), "get_top: mask %r", np.ma.getmaskarray(x))
        require(np.allclose(np.ma.getdata(x)[ok], y[ok], rtol=0, atol=1e-4), "get_top(%r): %r expected %r", kw, x, y)
    ra, dec = c["ra"], c["dec"]
    E = call("get_eq", im.get_eq, ra, dec, **kw)
    require(np.shape(E) == (3,) + im.shape, "get_eq: shape %r", np.shape(E))
    s0 = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
    east = np.array([-np.sin(ra), np.cos(ra), 0])
    north = np.array([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)])
    want = wl[None] * east[:, None, None] + wm[None] * north[:, None, None] + wn[None] * s0[:, None, None]
    m3 = np.ma.getmaskarray(E)
    require(all(np.array_equal(k | edge, mask | edge) for k in m3), "get_eq: mask %r", m3)
    require(np.allclose(np.ma.getdata(E)[:, ok], want[:, ok], rtol=0, atol=1e-4), "get_eq(%r, %r, %r): %r expected %r", ra, dec, kw, E, want)
    # the grid's own coordinates
    gu, gv = call("get_uv", im.get_uv)
    k = np.arange(dim)
    for x, axis in ((gu, 0), (gv, 1)):
        q = np.rint(np.asarray(x) / res).astype(int)
        require(np.allclose(q * res, x, rtol=1e-5, atol=1e-5) and np.array_equal(q % dim, np.broadcast_to(k[:, None] if axis == 0 else k[None, :], im.shape)) and np.abs(q).max() <= dim // 2 + 1,
                "get_uv: %r", (gu, gv))
    # re-centring
    a = r.normal(size=(int(r.integers(1, 9)), int(r.integers(1, 9))))
    p = (int(r.integers(-20, 20)), int(r.integers(-20, 20)))
    want = np.roll(a, (-(p[0] % a.shape[0]), -(p[1] % a.shape[1])), axis=(0, 1))
    require(np.array_equal(call("recenter", img.recenter, a, p), want), "recenter(%r, %r): %r expected %r", a, p, img.recenter(a, p), want)
    from aipy import deconv
    require(np.array_equal(call("deconv.recenter", deconv.recenter, a, p), want), "deconv.recenter(%r, %r): %r expected %r", a, p, deconv.recenter(a, p), want)
    ma = np.ma.array(a, mask=a > 0)
    g = call("recenter of a masked array", img.recenter, ma, p)
    require(np.array_equal(np.ma.getdata(g), want) and np.array_equal(np.ma.getmaskarray(g), want > 0), "recenter of a masked array: %r", g)
    # beams
    sg = float(r.uniform(.5, 4))
    n = int(r.integers(2, 20))
    g = np.asarray(call("gaussian_beam", img.gaussian_beam, sg, shape=(n, n + 3), amp=2.5))
    d = [np.where(np.arange(q) > q // 2, np.arange(q) - q, np.arange(q)) for q in (n, n + 3)]
    require(np.allclose(g, 2.5 * np.exp(-(d[0][:, None] ** 2 + d[1][None, :] ** 2) / sg ** 2), rtol=1e-9, atol=1e-12), "gaussian_beam(%r, %r): %r", sg, n, g)
    require(call("beam_gain", img.beam_gain, -g) == np.abs(g).max(), "beam_gain is not the peak")
    x, y = r.normal(size=(2, 5, n))
    cc = call("convolve2d", img.convolve2d, x, y)
    want = sum(np.roll(y, (i, j), axis=(0, 1)) * x[i, j] for i in range(5) for j in range(n))
    require(np.allclose(cc, want, rtol=0, atol=1e-8), "convolve2d: %r expected %r", cc, want)
    rec.nt(True)
    rec.event("dim %s" % ("even" if dim % 2 == 0 else "odd"))


@st.composite
def wput(draw):
    return {"n": draw(st.sampled_from([1, 1, 2, 6, 25])), "seed": draw(gen.seeds), "wmax": draw(st.sampled_from([0, 1, 20, 200])), "op": draw(st.sampled_from(["put", "put", "get", "get"])),
            "wts": draw(st.booleans()), "planes": draw(st.booleans()), "ker": draw(st.booleans())}


@st.composite
def wcase(draw):
    return {"dim": draw(st.integers(4, 20)), "res": draw(st.sampled_from([.6, 1, 2, 4])), "wres": draw(st.sampled_from([.5, .5, .1, 2])), "mf": draw(st.sampled_from([0, 0, 1])),
            "ops": draw(st.lists(wput(), min_size=1, max_size=5))}


def groups(w, wres):
    """Samples taken to the same plane: from the lowest, all within wres in sqrt(w)."""
    order = np.argsort(w, kind="stable")
    s = np.sqrt(np.abs(w[order])) * np.sign(w[order])
    i = 0
    while i < len(s):
        j = int(np.searchsorted(s, s[i] + wres))
        yield order[i:j]
        i = j


def clear(w, wres):
    """No sample where rounding decides its plane."""
    s = np.sort(np.sqrt(np.abs(w)) * np.sign(w))
    i = 0
    while i < len(s):
        if (np.abs(s - (s[i] + wres)) < 1e-6).any():
            return False
        i = int(np.searchsorted(s, s[i] + wres))
    return True


def widefield(c, rec):
    from aipy import img
    dim, res = c["dim"], c["res"]
    im = call("ImgW", img.ImgW, dim * res, res, wres=c["wres"], mf_order=c["mf"], verbose=c["dim"] % 3 == 0)
    uv, bm = np.zeros((dim, dim), complex), [np.zeros((dim, dim), complex) for i in range(c["mf"] + 1)]
    n2 = dim * dim
    puts = 0
    seen = []
    for o in c["ops"]:
        r = gen.rng(o["seed"])
        n = o["n"]
        u, v = r.uniform(-.5, .5, (2, n)) * dim * res
        if o["planes"]:
            w = r.choice([-1., 0., .3, 1.], size=n) * o["wmax"]
        else:
            w = r.uniform(-1, 1, n) * o["wmax"]
        if not clear(w, c["wres"]):
            continue
        if o["op"] == "put":
            d = r.normal(size=n) + 1j * r.normal(size=n)
            wg = [r.uniform(.2, 2, n) for b in bm] if o["wts"] else [np.ones(n)] + [np.zeros(n)] * c["mf"]
            k2 = r.uniform(.5, 1, (dim, dim)) if o["ker"] else None
            keep = [x.copy() for x in (u, v, w, d)]
            args = ((u, v, w), d) + ((wg,) if o["wts"] else ())
            with contextlib.redirect_stdout(io.StringIO()):
                call("ImgW.put", im.put, *args, **({} if k2 is None else {"invker2": k2}))
            require(all(np.array_equal(x, y) for x, y in zip(keep, (u, v, w, d))), "ImgW.put changed its inputs")
            for g in groups(w, c["wres"]):
                G = imgm.wkernel(dim, res, w[g].mean())
                if k2 is not None:
                    # the second kernel is given in the kernel's own (reversed) order
                    G = G * np.roll(k2[::-1, ::-1], (1, 1), axis=(0, 1))
                a, b = imgm.position(u[g], v[g], res)
                for tot, x in [(uv, d)] + list(zip(bm, wg)):
                    plane = imgm.grid2(np.zeros((dim, dim)), a, b, x[g])
                    tot += imgm.dft_forward(imgm.dft(plane) * G) / n2
            puts += 1
            seen = []
            for name, x, y in [("grid", im.uv, uv)] + [("weights", x, y) for x, y in zip(im.bm, bm)]:
                require(np.allclose(x, y, rtol=2e-3, atol=2e-3 * (np.abs(y).max() + 1e-9)), "ImgW after putting %r: %s %r expected %r", (u, v, w), name, x, y)
        elif puts:
            with contextlib.redirect_stdout(io.StringIO()):
                got = call("ImgW.get", im.get, (u, v, w))
            require(np.shape(got) == (n,), "ImgW.get: shape %r for %d samples", np.shape(got), n)
            for g in groups(w, c["wres"]):
                sq = np.sign(w[g].mean()) * np.sqrt(np.abs(w[g].mean()))
                near = any(abs(x - sq) < 2 * c["wres"] and x != sq for x in seen)
                seen.append(sq)
                if np.ptp(w[g]) > 1e-9 or not o["planes"] or near:
                    continue          # the plane used for several w within the resolution is an approximation
                G = imgm.wkernel(dim, res, -w[g].mean())
                a, b = imgm.position(u[g], v[g], res)
                pb = imgm.dft_forward(imgm.dft(im.bm[0]) * G)
                num, den = imgm.degrid2(imgm.dft_forward(imgm.dft(im.uv) * G), a, b), imgm.degrid2(pb, a, b)
                good = np.abs(den) > .03 * np.abs(pb).max()
                want = num[good] / den[good]
                require(np.allclose(np.asarray(got)[g][good], want, rtol=2e-2, atol=2e-2 * np.abs(want).max(initial=1)), "ImgW.get at %r (plane w = %r): %r expected %r", (u[g], v[g]), w[g][0], np.asarray(got)[g], want)
                rec.event("planes read back")
    rec.nt(puts > 0)


@st.composite
def scase(draw):
    return {"dim": draw(st.sampled_from([20, 24, 25, 31, 32, 40])), "fov": draw(st.sampled_from([.5, 1., 1.3])), "l": draw(gen.fl(-.8, .8)), "m": draw(gen.fl(-.8, .8)), "seed": draw(gen.seeds),
            "n": draw(st.sampled_from([200, 500])), "w": draw(st.booleans()), "herm": draw(st.booleans()), "ra": draw(gen.fl(0, 6.28)), "dec": draw(gen.fl(-1.5, 1.5))}


def sources(c, rec):
    """A point source peaks at its own sky coordinates."""
    from aipy import img
    r = gen.rng(c["seed"])
    dim = c["dim"]
    res = 1 / c["fov"]                        # l, m run over +- fov / 2
    l, m = c["l"] * c["fov"] / 2, c["m"] * c["fov"] / 2
    if l * l + m * m > .8:
        return
    n = np.sqrt(1 - l * l - m * m)
    u, v = r.uniform(-.42, .42, (2, c["n"])) * dim * res
    w = r.choice([-40., -10, 0, 5, 25], size=c["n"]) if c["w"] else r.normal(size=c["n"])
    vis = np.exp(2j * np.pi * (u * l + v * m + (w * (n - 1) if c["w"] else 0)))
    if c["w"]:
        im = call("ImgW", img.ImgW, dim * res, res, wres=.01, verbose=False)
    else:
        im = call("Img", img.Img, dim * res, res)
    uvw, d = (u, v, w), vis
    if c["herm"]:
        uvw, d = call("append_hermitian", im.append_hermitian, uvw, d)
    call("put", im.put, uvw, d)
    cen = (dim // 2, dim // 2)
    pic = np.asarray(call("image", im.image, center=cen))
    L, M = im.get_LM(cen)
    ok = ~np.ma.getmaskarray(L)
    # the gridding kernel tapers the image: undo it
    x = np.arange(dim)
    f = np.where(x > dim // 2, x - dim, x) / dim
    t = np.exp(-np.pi ** 2 * f ** 2 / 2)
    taper = np.roll(t[:, None] * t[None, :], (-cen[0], -cen[1]), axis=(0, 1))
    near = np.roll(np.abs(f)[:, None].clip(np.abs(f)[None, :], None) < .43, (-cen[0], -cen[1]), axis=(0, 1))
    flat = np.where(ok & near, pic / taper, -np.inf)
    k = np.unravel_index(np.argmax(flat), flat.shape)
    cell = 1. / (dim * res)
    require(abs(L[k] - l) < 1.3 * cell and abs(M[k] - m) < 1.3 * cell, "source at l, m = %r peaks at %r (pixel %r, cell %g)", (l, m), (L[k], M[k]), k, cell)
    E = im.get_eq(c["ra"], c["dec"], center=cen)
    ra, dec = c["ra"], c["dec"]
    s = n * np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)]) + l * np.array([-np.sin(ra), np.cos(ra), 0]) + \
        m * np.array([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)])
    ln = np.sqrt(max(1 - L[k] ** 2 - M[k] ** 2, 1e-6))
    require(np.abs(np.ma.getdata(E)[:, k[0], k[1]] - s).max() < 2.5 * cell * (1 + 1 / max(ln, .3)), "source at %r peaks at %r", s, E[:, k[0], k[1]])
    if c["herm"]:
        require(np.abs(np.fft.ifft2(im.uv).imag).max() < 1e-4 * np.abs(pic).max() * (30 if c["w"] else 1), "Hermitian data give an image with an imaginary part")
    rec.nt(True)
    rec.event("w projection" if c["w"] else "plain")


@st.composite
def acase(draw):
    return {"seed": draw(gen.seeds), "off": draw(st.tuples(gen.fl(-.09, .09), gen.fl(-.09, .09))), "w": draw(st.booleans())}


def arrays(c, rec):
    """From the simulation of an array to the position of its source in the image."""
    import aipy as a
    r = gen.rng(c["seed"])
    fq = np.array([.148, .150, .152])
    ants = [a.fit.Antenna(*r.uniform(-250, 250, 2), 0. + r.uniform(-2, 2), beam=a.fit.Beam(fq)) for i in range(8)]
    aa = a.fit.AntennaArray((str(r.uniform(-40, 60)), str(r.uniform(-170, 170))), ants)
    aa.set_active_pol('xx')
    aa.set_jultime(2456000 + r.uniform(0, 1000))
    ra0, dec0 = float(aa.sidereal_time()) + r.uniform(-.2, .2), float(aa.lat) + r.uniform(-.2, .2)
    ra1, dec1 = ra0 + c["off"][0] / np.cos(dec0), dec0 + c["off"][1]
    e = float(aa.epoch)
    cen = a.fit.RadioFixedBody(ra0, dec0, jys=1., index=0, name="cen", epoch=e)
    src = a.fit.RadioFixedBody(ra1, dec1, jys=10., index=0, name="src", epoch=e)
    cen.compute(aa)
    src.compute(aa)
    cat = a.fit.SrcCatalog([src])
    cat.compute(aa)
    aa.sim_cache(cat.get_crds("eq", ncrd=3), cat.get_jys())
    N, res = 100, 2.5
    im = call("Img", a.img.ImgW, N * res, res, wres=.02, verbose=False) if c["w"] else call("Img", a.img.Img, N * res, res)
    us, vs, ws, ds = [], [], [], []
    for i in range(len(ants)):
        for j in range(i):
            d = aa.phs2src(aa.sim(j, i), cen, j, i)
            u, v, w = aa.gen_uvw(j, i, src=cen)
            us.append(u.flatten()), vs.append(v.flatten()), ws.append(w.flatten()), ds.append(np.asarray(d).flatten())
    us, vs, ws, ds = [np.concatenate(x) for x in (us, vs, ws, ds)]
    ok = np.hypot(us, vs) < 120
    us, vs, ws, ds = us[ok], vs[ok], ws[ok], ds[ok]
    if not len(us):
        return
    # where the source is in the field
    x0, x1 = (float(cen.ra), float(cen.dec)), (float(src.ra), float(src.dec))
    s = np.array([np.cos(x1[1]) * np.cos(x1[0]), np.cos(x1[1]) * np.sin(x1[0]), np.sin(x1[1])])
    l = s.dot([-np.sin(x0[0]), np.cos(x0[0]), 0])
    m = s.dot([-np.sin(x0[1]) * np.cos(x0[0]), -np.sin(x0[1]) * np.sin(x0[0]), np.cos(x0[1])])
    rot = np.exp(-2j * np.pi * (us * l + vs * m + ws * (np.sqrt(1 - l * l - m * m) - 1)))
    co = (ds * rot).sum().real / np.abs(ds).sum()
    require(co > .995, "visibilities of a source at l, m = %r add up to %g of their sum there: phases off by up to %g turns", (l, m), co, np.abs(np.angle(ds * rot)).max() / 2 / np.pi)
    uvw, d = call("append_hermitian", im.append_hermitian, (us, vs, ws), ds)
    call("put", im.put, uvw, d)
    pic = np.asarray(im.image(center=(N // 2, N // 2)))
    L, M = (np.ma.getdata(x) for x in im.get_LM((N // 2, N // 2)))
    k = np.argsort((L - l).ravel() ** 2 + (M - m).ravel() ** 2)[:12]
    E = np.ma.getdata(im.get_eq(*x0, center=(N // 2, N // 2))).reshape(3, -1)[:, k]
    require((np.arccos(np.clip(E.T.dot(s), -1, 1)) < 3. / (N * res)).all(), "pixels at l, m = %r have coordinates %r, the source at these is at %r", (l, m), E, s)
    for q in k:
        pl, pm = L.ravel()[q], M.ravel()[q]
        f = -pl * res, pm * res          # in turns per cell
        n = np.sqrt(1 - pl ** 2 - pm ** 2)
        base = ds * np.exp(-2j * np.pi * ws * (n - 1)) if c["w"] else ds
        want = 0                         # with what is folded in from outside of the image
        for p1 in (-1, 0, 1):
            for p2 in (-1, 0, 1):
                taper = np.exp(-np.pi ** 2 * ((f[0] + p1) ** 2 + (f[1] + p2) ** 2) / 2)
                want += 2 * taper / N ** 2 * (base * np.exp(-2j * np.pi * (us * (pl - p1 / res) + vs * (pm + p2 / res)))).sum().real
        got = pic.ravel()[q] * (N ** 2 if c["w"] else 1)
        require(abs(got - want) < .015 * 2 * np.abs(ds).sum() / N ** 2, "image at l, m = %r: %r, the visibilities add up to %r there", (pl, pm), got, want)
    rec.nt(True)
    rec.event("array, w projection" if c["w"] else "array")


def subs():
    return [Sub("images", icase(), images, quick=700, thorough=20000), Sub("widefield", wcase(), widefield, quick=300, thorough=8000),
            Sub("sources", scase(), sources, quick=300, thorough=8000), Sub("arrays", acase(), arrays, quick=60, thorough=1500)]
