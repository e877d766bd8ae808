"""C26: sky maps and images in FITS files."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, raises_cleanly
from vlib import gen

TECHNIQUE = "property-based round-trip testing of FITS files written and read by the map and image classes, with histories of overwriting"
RULE = ("cases: sky maps of nside 1-16 in either ordering and every type with a FITS code (special values included), explicit column formats, weighted "
        "maps with 0-3 index maps and with history text, files read by map, weighted map or constructor, into maps that already hold something; images "
        "of 1-4 axes of unequal lengths, unit axes, real types, transposed and strided memory, header values, sky coordinates, history text; "
        "derived files; writing over an existing file with and without clobber; non-trivial: data not all equal")
TYPES = ["float64", "float32", "int64", "int32", "int16", "uint8", "bool", "complex64", "complex128"]


def data(seed, n, dt, special):
    r = gen.rng(seed)
    dt = np.dtype(dt)
    if dt.kind == "b":
        return r.integers(0, 2, n).astype(bool)
    if dt.kind in "iu":
        i = np.iinfo(dt)
        a = r.integers(-100 if dt.kind == "i" else 0, 100, n).astype(dt)
        if special:
            a.flat[r.integers(0, a.size, 2)] = [i.min, i.max]
        return a
    with np.errstate(over="ignore"):
        a = r.normal(size=n) * 10.0 ** r.integers(-3, 8)
        if dt.kind == "c":
            a = a + 1j * r.normal(size=n)
        a = a.astype(dt)
    if special:
        sp = [np.nan, np.inf, -np.inf, -0.0, 1e-44, np.finfo(dt).max]
        for i in range(min(4, a.size)):
            a.flat[int(r.integers(a.size))] = sp[int(r.integers(len(sp)))]
    return a


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind or a.dtype.itemsize != b.dtype.itemsize:
        return False
    a, b = np.ascontiguousarray(a.astype(a.dtype.newbyteorder("="))), np.ascontiguousarray(b.astype(b.dtype.newbyteorder("=")))
    if a.dtype.kind == "c":
        return same(a.real, b.real) and same(a.imag, b.imag)
    if a.dtype.kind == "f":
        return bool(np.array_equal(a, b, equal_nan=True) and np.array_equal(np.signbit(a)[~np.isnan(a)], np.signbit(b)[~np.isnan(b)]))
    return bool(np.array_equal(a, b))


@st.composite
def hmap(draw, wide=True):
    return {"k": draw(st.integers(0, 4)), "scheme": draw(st.sampled_from(["RING", "NEST"])), "dt": draw(st.sampled_from(TYPES if wide else ["float64", "float32"])),
            "seed": draw(gen.seeds), "special": draw(st.booleans()), "nind": draw(st.integers(0, 3)), "kind": draw(st.sampled_from(["hpm", "hpm", "map"])),
            "fmt": draw(st.sampled_from([None, None, None, "D", "E"])), "via": draw(st.sampled_from(["method", "ctor", "map"])),
            "before": draw(st.integers(0, 3)), "bscheme": draw(st.sampled_from(["RING", "NEST"])), "hist": draw(st.integers(0, 3)), "more": draw(st.integers(0, 4))}


HIST = ["", "made by hand", "#one two  three\n\nfour five\n" + "word " * 40, "x" * 200 + "\n# " + "long-history " * 20 + "\n  indented line\n#"]


def history_kept(cards, text):
    """Every character of the history other than spacing and comment marks, in order."""
    squash = lambda s: "".join(x for x in s if not x.isspace() and x != "#")
    want = squash("".join(l for l in text.split("\n") if len(l.strip()) > 1))
    return squash("".join(cards)).endswith(want), squash("".join(cards)), want


def build(c):
    from aipy import healpix, map as amap
    nside = 1 << c["k"]
    npx = 12 * nside ** 2
    if c["kind"] == "hpm":
        h = call("HealpixMap", healpix.HealpixMap, nside=nside, scheme=c["scheme"], dtype=np.dtype(c["dt"]).type)
        a = data(c["seed"], npx, c["dt"], c["special"])
        call("set_map", h.set_map, a.copy(), scheme=c["scheme"])
        return h, [a]
    h = call("Map", amap.Map, nside=nside, scheme=c["scheme"], dtype=np.dtype(c["dt"]).type, nindices=c["nind"])
    arr = [data(c["seed"] + i, npx, c["dt"], c["special"]) for i in range(2 + c["nind"])]
    for x, a in zip([h.map, h.wgt] + list(h.ind), arr):
        call("set_map", x.set_map, a.copy(), scheme=c["scheme"])
    return h, arr


def convert(arr, fmt):
    if fmt is None:
        return arr
    with np.errstate(over="ignore"):
        return [a.astype({"D": np.float64, "E": np.float32}[fmt]) for a in arr]


def load(c, f, ncol):
    """-> object, [arrays], expected number of arrays."""
    from aipy import healpix, map as amap
    if c["via"] == "map":
        m = call("Map", amap.Map, nside=1 << c["before"], scheme=c["bscheme"], nindices=c["more"])
        call("Map.from_fits", m.from_fits, f)
        return m.map, [m.map, m.wgt] + list(m.ind), m
    if c["via"] == "ctor":
        if ncol == 1:
            h = call("HealpixMap(fromfits=)", healpix.HealpixMap, nside=1 << c["before"], scheme=c["bscheme"], fromfits=f)
            return h, [h], None
        m = call("Map(fromfits=)", amap.Map, fromfits=f)
        return m.map, [m.map, m.wgt] + list(m.ind), m
    out = []
    for i in range(ncol):
        h = call("HealpixMap", healpix.HealpixMap, nside=1 << c["before"], scheme=c["bscheme"])
        call("from_fits", h.from_fits, f, colnum=i)
        out.append(h)
    return out[0], out, None


def maps(c, rec):
    if c["fmt"] is not None and np.dtype(c["dt"]).kind != "f":
        c = dict(c, fmt=None)
    h, arr = build(c)
    nside = 1 << c["k"]
    f = os.path.join(rec.tmp(), "m.fits")
    kw = {} if c["fmt"] is None else {"format": c["fmt"]}
    text = HIST[c["hist"]] if c["kind"] == "map" else ""
    if text:
        kw["history"] = text
    call("to_fits", h.to_fits, f, **kw)
    src = [h] if c["kind"] == "hpm" else [h.map, h.wgt] + list(h.ind)
    for x, a in zip(src, arr):
        require(same(x.get_map(), a) and x.scheme() == c["scheme"], "to_fits changed the map: %r, was %r", x.get_map(), a)
    want = convert(arr, c["fmt"])
    from astropy.io import fits
    with fits.open(f) as hd:            # the file says what it holds, as the format requires
        e = {"PIXTYPE": "HEALPIX", "ORDERING": {"RING": "RING", "NEST": "NESTED"}[c["scheme"]], "NSIDE": nside, "FIRSTPIX": 0, "LASTPIX": 12 * nside ** 2 - 1, "INDXSCHM": "IMPLICIT"}
        have = {k: hd[1].header.get(k) for k in e}
        require(have == e and len(hd[1].columns) == len(arr), "a map of nside %d in %s ordering has the header %r", nside, c["scheme"], have)
    first, got, m = load(c, f, len(arr))
    extra = c["via"] == "map" and len(arr) == 1
    require(len(got) == len(arr) + (1 if extra else 0), "%d maps in the file, %d read", len(arr), len(got))
    for i, (x, a) in enumerate(zip(got, want)):
        require((x.nside(), x.scheme(), x.npix(), x.order()) == (nside, c["scheme"], 12 * nside ** 2, c["k"]), "column %d: written nside %d %s, read nside %r %r, %r pixels", i, nside, c["scheme"], x.nside(), x.scheme(), x.npix())
        require(same(x.get_map(), a), "column %d of %d: written %r, read %r", i, len(arr), a, x.get_map())
    if extra:
        w = got[1]
        require((w.nside(), w.scheme()) == (nside, c["scheme"]) and np.all(np.asarray(w.get_map()) == 1), "a file without weights gives weights %r (nside %r %r)", w.get_map(), w.nside(), w.scheme())
    if m is not None:
        require((m.nside(), m.scheme(), m.npix()) == (nside, c["scheme"], 12 * nside ** 2), "the weighted map reports nside %r %r", m.nside(), m.scheme())
        n = c["more"]
        call("set_nindices", m.set_nindices, n)
        require(len(m.ind) == n and all((x.nside(), x.scheme()) == (nside, c["scheme"]) for x in m.ind), "set_nindices(%d) after reading: %r", n, [(x.nside(), x.scheme()) for x in m.ind])
    if text:
        from astropy.io import fits
        with fits.open(f) as hd:
            cards = [str(x) for x in hd[0].header.get("HISTORY", [])]
        ok, a, b = history_kept(cards, text)
        require(ok, "history written %r, in the file %r", b, a)
    # what was read is independent of the file and of what wrote it
    os.unlink(f)
    src[0].map[:] = 0
    require(same(got[0].get_map(), want[0]), "what was read changed with the map written")
    got[0].map[0] = 1
    rec.nt(np.unique(want[0]).size > 1)
    rec.event("%s %s" % (c["kind"], c["via"]))


AX = ["ra--sin", "dec--sin", "freq", "stokes", "ra---tan", "dec---tan", "glon-car", "glat-car"]


@st.composite
def image(draw):
    n = draw(st.integers(1, 4))
    k = draw(st.integers(0, 2))
    axes = [["ra--sin", "dec--sin"], ["ra---tan", "dec--tan"], ["glon-car", "glat-car"]][k][:n] + draw(st.sampled_from([["freq", "stokes"], ["freq", "stokes"], ["velo-lsr", "freq"], ["stokes", "time"]]))[:max(0, n - 2)]
    txt = st.text(st.characters(min_codepoint=33, max_codepoint=126), max_size=12).filter(lambda x: "'" not in x or "/" not in x)  # astropy cuts such values short (Card.fromstring)
    return {"shape": draw(st.lists(st.integers(2, 9), min_size=n, max_size=n)), "unit": draw(st.lists(st.integers(0, 4), max_size=2)), "axes": draw(st.permutations(axes)),
            "dt": draw(st.sampled_from(["float32", "float64", "float32", "int16", "int32", "int64", "uint8"])), "lay": draw(st.sampled_from(["C", "F", "step", "neg", "swap"])),
            "seed": draw(gen.seeds), "special": draw(st.booleans()),
            "txt": draw(st.lists(txt, min_size=6, max_size=6)), "num": draw(st.lists(st.one_of(gen.fl(-360, 360), gen.fl(-360, 360), st.sampled_from([0., 0., -1., 1e-9, -.5, 180., 360.])), min_size=7, max_size=7)), "given": draw(st.integers(0, 255)),
            "hist": draw(st.integers(0, 3)), "default": draw(st.booleans()), "seed2": draw(gen.seeds), "override": draw(st.integers(0, 127)), "txt2": draw(st.lists(txt, min_size=2, max_size=2)),
            "num2": draw(st.lists(gen.fl(-360, 360), min_size=6, max_size=6)), "hist2": draw(st.sampled_from([None, 1, 2, 3]))}


def lay(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "step":
        b = np.zeros(tuple(2 * x for x in a.shape), a.dtype)
        s = tuple(slice(None, None, 2) for x in a.shape)
        b[s] = a
        return b[s]
    if how == "neg":
        return a[::-1].copy()[::-1]
    if how == "swap":
        return a.astype(a.dtype.newbyteorder())
    return a


STR = ["object", "telescope", "instrument", "observer", "origin", "obs_date", "cur_date"]
NUM = ["ra", "dec", "d_ra", "d_dec", "epoch", "freq", "d_freq"]


def kwds_of(c):
    kw = {}
    for i, k in enumerate(STR[:6]):
        if c["given"] >> i & 1:
            kw[k] = c["txt"][i]
    for i, k in enumerate(NUM):
        # all of them, or some
        if c["given"] >> 6 & 1 or c["seed2"] >> i & 1:
            kw[k] = c["num"][i]
    return kw


def expected(axes, kw):
    e = {k: kw[k] for k in STR + ["epoch"] if k in kw}
    for ax in axes:
        for n, d, starts in (("ra", "d_ra", ("ra", "glon")), ("dec", "d_dec", ("dec", "glat")), ("freq", "d_freq", ("freq",))):
            if ax.startswith(starts):
                e[n] = kw.get(n, 0)
                e[d] = kw.get(d, 0)
                if n == "ra":
                    e[d] = -abs(e[d])
    return e


def compare(got, want, what):
    for k, v in want.items():
        require(k in got, "%s: %s was %r and is not read back", what, k, v)
        g = got[k]
        ok = (g == v) if isinstance(v, str) else abs(g - v) <= 1e-12 * abs(v)
        require(ok, "%s: %s written as %r, read as %r", what, k, v, g)


def images(c, rec):
    from aipy import img
    from astropy.io import fits
    d = rec.tmp()
    f = os.path.join(d, "i.fits")
    a = data(c["seed"], tuple(c["shape"]), c["dt"], c["special"])
    b = a
    for u in c["unit"]:
        b = np.expand_dims(b, min(u, b.ndim))
    b = lay(b, c["lay"])
    keep = b.copy()
    axes = [str(x) for x in c["axes"]]
    kw = kwds_of(c)
    text = HIST[c["hist"]]
    if text:
        kw["history"] = text
    if c["default"] and axes == ["ra--sin", "dec--sin"]:
        call("to_fits", img.to_fits, f, b, **kw)
    else:
        call("to_fits", img.to_fits, f, b, axes=tuple(axes), **kw)
    require(same(b, keep) and b.shape == keep.shape, "to_fits changed the image")
    got, k = call("from_fits", img.from_fits, f)
    require(same(got, a), "image written %r, read %r", a, got)
    require(list(k["axes"]) == axes, "axes written %r, read %r", axes, k["axes"])
    compare(k, expected(axes, kw), "image")
    with fits.open(f) as hd:
        cards = [str(x) for x in hd[0].header.get("HISTORY", [])]
        crpix = [hd[0].header["CRPIX%d" % (i + 1)] for i in range(len(axes))]
        for i, ax in enumerate(axes):
            if not any(x.startswith(ax[:2]) for x in axes[:i]):
                require(call("find_axis", img.find_axis, hd[0], ax[:2]) == i + 1, "find_axis(%r) of %r", ax[:2], axes)
        require(call("find_axis", img.find_axis, hd[0], "lambda") is None, "find_axis finds a wavelength axis in %r", axes)
    ok, x, y = history_kept(cards, text)
    require(ok, "history written %r, in the file %r", y, x)
    for i, ax in enumerate(axes):
        n = a.shape[-(i + 1)]
        mid = (n + 1) // 2 if ax[:2] in ("ra", "de", "gl") else 1
        require(crpix[i] == mid, "reference pixel of %s, axis %d of an array of shape %r: %r expected %r", ax, i + 1, a.shape, crpix[i], mid)
        if mid == 1:
            require(crpix[i] == 1, "%s given is that of the first entry, but stored for pixel %r", ax, crpix[i])
        else:
            require(crpix[i] == mid, "reference pixel %r of %d for %s, expected %r", crpix[i], n, ax, mid)
    # the keywords read are those to write the same file again
    g = os.path.join(d, "j.fits")
    call("to_fits of what was read", img.to_fits, g, got, **k)
    again, k2 = call("from_fits", img.from_fits, g)
    require(same(again, a) and k2 == k, "a second generation differs: %r, %r; %r, %r", again, k2, a, k)
    # axes which are not those of the data
    r = raises_cleanly(img.to_fits, os.path.join(d, "k.fits"), b, axes=tuple(axes) + ("stokes",))
    require(r and not os.path.exists(os.path.join(d, "k.fits")), "to_fits of axes %r for an image of shape %r: %r", axes + ["stokes"], a.shape, r)
    # what other programs and old versions wrote
    h = os.path.join(d, "l.fits")
    foreign = c["seed2"] % 3
    with fits.open(f) as hd:
        hdr = hd[0].header.copy()
        if foreign == 0:
            hdr["TRANSPOS"] = 1
        elif foreign == 1:
            for x in ("TRANSPOS", "TELESCOP", "DATE", "CTYPE1"):
                del hdr[x]
        fits.writeto(h, hd[0].data, hdr)
    other, k4 = call("from_fits of a file of another program", img.from_fits, h)
    require(same(other, a.T if foreign == 0 else a), "from_fits of a foreign file (%d): %r, expected %r", foreign, other, a)
    e4 = expected(axes[1:] if foreign == 1 else axes, {x: v for x, v in kw.items() if foreign != 1 or x not in ("telescope", "cur_date")})
    compare(k4, e4, "a file of another program (%d)" % foreign)
    require(list(k4["axes"]) == (axes[1:] if foreign == 1 else axes), "a foreign file has axes %r, read %r", axes, k4["axes"])
    # refuses to overwrite unless told to; overwriting replaces
    b2 = data(c["seed2"], tuple(x + 1 for x in c["shape"]), c["dt"], False)
    with open(f, "rb") as fh:
        raw = fh.read()
    r = raises_cleanly(img.to_fits, f, b2, axes=tuple(axes))
    with open(f, "rb") as fh:
        require(r and fh.read() == raw, "to_fits without clobber on an existing file: %r", r)
    call("to_fits(clobber)", img.to_fits, f, b2, clobber=True, axes=tuple(axes))
    n2, k3 = call("from_fits", img.from_fits, f)
    require(same(n2, b2), "after overwriting: %r, expected %r", n2, b2)
    compare(k3, expected(axes, {}), "overwritten image")
    require(same(again, a) and same(got, a), "images read earlier changed")
    rec.nt(np.unique(a).size > 1)


def derived(c, rec):
    """from_fits_to_fits: new data with the header of another file."""
    from aipy import img
    from astropy.io import fits
    d = rec.tmp()
    f, g = os.path.join(d, "i.fits"), os.path.join(d, "o.fits")
    axes = [str(x) for x in c["axes"]]
    a = data(c["seed"], tuple(c["shape"]), c["dt"], c["special"])
    kw = kwds_of(c)
    call("to_fits", img.to_fits, f, a, axes=tuple(axes), **kw)
    with open(f, "rb") as fh:
        raw = fh.read()
    b = data(c["seed2"], tuple(c["shape"]), c["dt"], c["special"])
    keep = b.copy()
    over = {}
    for i, n in enumerate(["ra", "dec", "d_ra", "d_dec", "freq"]):
        if c["override"] >> i & 1:
            over[n] = c["num2"][i]
    for i, n in enumerate(["object", "observer"]):
        if c["override"] >> (5 + i) & 1:
            over[n] = c["txt2"][i]
    if c["given"] & 2:
        # what was read, with changes
        over = dict(call("from_fits", img.from_fits, f)[1], **over)
    keepover = dict(over)
    args = (f, g, b, over) + (() if c["hist2"] is None else (HIST[c["hist2"]],))
    if c["given"] & 1:
        open(g, "w").write("in the way")
    call("from_fits_to_fits", img.from_fits_to_fits, *args)
    with open(f, "rb") as fh:
        require(fh.read() == raw, "from_fits_to_fits changed its input file")
    require(same(b, keep) and over == keepover, "from_fits_to_fits changed its arguments")
    got, k = call("from_fits", img.from_fits, g)
    require(same(got, b), "image given %r, read %r", b, got)
    require([x.lower() for x in k["axes"]] == axes, "axes %r, in the input %r", k["axes"], axes)
    want = expected(axes, kw)
    for n, v in over.items():
        if n in want or n in ("object", "observer"):
            want[n] = v
    compare(k, want, "derived image")
    with fits.open(f) as h1, fits.open(g) as h2:
        for i, ax in enumerate(axes):
            p = [h[0].header["CRPIX%d" % (i + 1)] for h in (h1, h2)]
            require(p[0] == p[1], "reference pixel of %s (%d long): %r in the input, %r in the output", ax, a.shape[-(i + 1)], p[0], p[1])
        cards = [str(x) for x in h2[0].header.get("HISTORY", [])]
    if c["hist2"] is not None:
        ok, x, y = history_kept(cards, HIST[c["hist2"]])
        require(ok, "history given %r, in the file %r", y, x)
    rec.nt(bool(over) and np.unique(b).size > 1)


@st.composite
def ocase(draw):
    return {"a": draw(hmap()), "b": draw(hmap()), "clobber": draw(st.sampled_from([True, False, None]))}


def overwrite(c, rec):
    f = os.path.join(rec.tmp(), "m.fits")
    ca, cb = dict(c["a"], via="method"), dict(c["b"], via="method")
    ha, aa = build(ca)
    hb, ab = build(cb)
    call("to_fits", ha.to_fits, f)
    with open(f, "rb") as fh:
        raw = fh.read()
    kw = {} if c["clobber"] is None else {"clobber": c["clobber"]}
    replace = c["clobber"] if c["clobber"] is not None else cb["kind"] == "hpm"
    if not replace:
        r = raises_cleanly(hb.to_fits, f, **kw)
        with open(f, "rb") as fh:
            require(r and fh.read() == raw, "to_fits(%r) on an existing file: %r, file %s", kw, r, "kept")
    else:
        call("to_fits over a file", hb.to_fits, f, **kw)
        first, got, m = load(cb, f, len(ab))
        for x, a in zip(got, ab):
            require(same(x.get_map(), a) and (x.nside(), x.scheme()) == (1 << cb["k"], cb["scheme"]), "after overwriting: %r, expected %r", x.get_map(), a)
        from astropy.io import fits
        with fits.open(f) as hd:
            require(len(hd) == 2 and len(hd[1].columns) == len(ab), "an overwritten file has %d parts, %d columns", len(hd), len(hd[1].columns))
    rec.nt(aa[0].size != ab[0].size or ca["scheme"] != cb["scheme"])


def subs():
    return [Sub("sky-maps", hmap(), maps, quick=250, thorough=4000),
            Sub("images", image(), images, quick=250, thorough=4000),
            Sub("derived", image(), derived, quick=150, thorough=2500),
            Sub("overwrite", ocase(), overwrite, quick=100, thorough=1500)]
