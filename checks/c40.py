"""C40: command-line tools that make images and maps, deconvolve, and fit parameters."""
import contextlib
import io
import math
import os
import re

import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, hpx, tools as T, arr
from checks.c39 import Model, start, CODE

TECHNIQUE = "property-based testing: generated datasets, images, calibration modules and options are run through each tool as a main program; the FITS files and printed parameters are compared with models written from the array geometry, the sky coordinates of each pixel and the parameters that generated the data"
RULE = ("cases: datasets of 2-4 antennas with generated calibration modules; images of 30-60 pixels a side; maps of NSIDE 1-32; every documented option; "
        "non-trivial: at least one image, map or fit with data in it")
ASSUMPTIONS = ["gridding and imaging, deconvolution and map classes themselves (C26, C29, C30, C23-C25 check those)", "sidereal time and apparent source positions come from the array and catalogue (C16, C17 check those)", "images have an even number of pixels a side"]


def rd(path):
    import aipy as a
    img, kw = call("from_fits", a.img.from_fits, path)
    return np.array(img, float).squeeze(), kw


def near(got, want, what, tol=1e-4, floor=1e-12):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, "%s: shape %r, expected %r", what, got.shape, want.shape)
    s = np.abs(want).max() if want.size else 0
    bad = ~(np.abs(got - want) <= tol * s + floor)
    require(not bad.any(), "%s: differs at %r: %r, expected %r (of at most %r)", what, np.argwhere(bad)[:3].tolist(), got[bad][:3], want[bad][:3], s)


# ---- mk_img
def parse_chan(s, n):
    if s == "all":
        return np.arange(n)
    out = []
    for w in s.split(","):
        q = [int(x) for x in w.split("_")]
        out += list(range(q[0], q[-1] + 1))
    return np.array(out)


def picked(w, ant):
    i, j = w[2]
    return {"all": True, "cross": i != j, "auto": i == j, "0_1": (i, j) == (0, 1), "-1": 1 not in (i, j), "0": 0 in (i, j)}[ant]


def mk_img(c, rec):
    import aipy as a
    ds = c["ds"]
    d, names, recs, digs = start(ds, rec, c["nfiles"])
    m = Model(c["cal"], ds, d, near=ds["jd"])
    nchan = ds["nchan"]
    ch = {"all": "all", "one": "%d" % (c["ck"] % nchan), "range": "%d_%d" % (c["ck"] % nchan // 2, nchan - 1)}[c["chan"]]
    chans = parse_chan(ch, nchan)
    pols = ds["pols"] if c["allpol"] else ds["pols"][:1]
    o = c["opt"]
    flat = [w for r in recs for w in r[0] if picked(w, c["ant"]) and CODE[w[3]["pol"]] in pols]
    if not all(any(picked(w, c["ant"]) and CODE[w[3]["pol"]] in pols for w in r[0]) for r in recs):
        return
    size, res = c["dim"] * c["res"], c["res"]
    D = c["dim"]
    args = ["-C", m.name, "-c", ch] + (["-p", ",".join(pols)] if len(pols) < len(ds["pols"]) or c["ck"] % 3 else []) + ["-a", c["ant"], "--size=%r" % int(size) if size == int(size) else "--size=%r" % size, "--res=%r" % res]
    if size != int(size):
        return
    args += ["-o", ",".join(c["out"])]
    fmt = "im%04d"
    if o["fmt"]:
        fmt = "f%d"
        args += ["--fmt=f%d"]
    if o["cnt"]:
        args += ["--cnt=%d" % o["cnt"]]
    for k in ("no_w", "skip_amp", "skip_bm", "skip_phs", "zen_phased"):
        if o[k]:
            args += ["--" + k]
    if not o["no_w"] and o["wres"] != .5:
        args += ["--wres=%r" % o["wres"]]
    if o["minuv"]:
        args += ["--minuv=%r" % o["minuv"]]
    if o["altmin"]:
        args += ["--altmin=%r" % o["altmin"]]
    if o["skip"]:
        args += ["--skip=%d" % o["skip"]]
    dec, phs = o["dec"]
    if dec > 1:
        args += ["-x", "%d" % dec, "--dphs=%d" % phs]
    snap = c["snap"]
    if snap:
        args += ["--snap=%d" % snap]
    if o["buf"] is not None and o["no_w"]:
        args += ["--buf_thresh=%r" % float(o["buf"])]
    # the pointings
    if c["src"] == "zen":
        m.at(recs[0][0][0][1])
        b = a.phs.RadioFixedBody(m.aa.sidereal_time(), m.aa.lat, name="zen")
        m.cat = a.phs.SrcCatalog([b])
        point = [("zen", float(b._ra), float(b._dec))]
        args += ["-s", "zen"]
    elif c["src"] == "facets":
        ras, decs = a.map.facet_centers(c["facets"], ncrd=2)
        args += ["--facets=%d" % c["facets"], "--list_facets"]
    else:
        srcs = [s for k, s in enumerate(m.srcs) if c["src"] >> k & 1] or m.srcs
        point = [s[:3] for s in srcs]
        args += ["-s", ",".join(s[0] for s in srcs) if c["src"] else "all"]
    outp = T.run("mk_img.py", args + names, d)
    if c["src"] == "facets":
        # their order is random
        listed = re.findall(r"# +(\d+) >  RA=\S+  DEC=\S+  \(([-\d.]+), ([-\d.]+) in deg\)", outp)
        require([int(g[0]) for g in listed] == list(range(c["facets"])), "mk_img.py %s: lists %r", " ".join(args), outp[:300])
        left, point = list(zip(ras, decs)), []
        for g in listed:
            ok = [q for q in left if abs(np.rad2deg(q[1]) - float(g[2])) < .03 and abs(((np.rad2deg(q[0]) - float(g[1]) + 180) % 360 - 180) * np.cos(q[1])) < .03]
            require(len(ok) == 1, "mk_img.py lists facet %r, expected one of %r", g, np.rad2deg(left).tolist())
            left.remove(ok[0])
            point.append((str(len(point)),) + ok[0])
        m.cat = a.phs.SrcCatalog([a.phs.RadioFixedBody(x, y, name=k) for k, x, y in point])
    order = [s.src_name for s in m.cat.values()]
    point = sorted(point, key=lambda q: order.index(q[0]))
    # what should be there
    fq = m.fq[chans]
    want, unsure, cnt = {}, set(), o["cnt"]
    for q, (s, ra, dc) in enumerate(point):
        if q < o["skip"]:
            continue
        groups, times = [], []
        for nf, r in enumerate(recs):
            seen = []
            for w in r[0]:
                # decimation counts the integrations of a file which have selected records
                if not (picked(w, c["ant"]) and CODE[w[3]["pol"]] in pols):
                    continue
                if w[1] not in seen:
                    seen.append(w[1])
                if dec > 1 and (len(seen) - 1) % dec != phs:
                    continue
                if not times or times[-1] != w[1]:
                    if (snap and len(times) % snap == 0) or not groups:
                        groups.append([])
                    times.append(w[1])
                groups[-1].append(w)
        for g, grp in enumerate(groups):
            if c["src"] == "zen" and snap:
                # the zenith of the first integration of each
                m.at(grp[0][1])
                b = a.phs.RadioFixedBody(m.aa.sidereal_time(), m.aa.lat, name="zen")
                m.cat = a.phs.SrcCatalog([b])
                ra, dc = float(b._ra), float(b._dec)
            im = a.img.Img(int(size), res, mf_order=0) if o["no_w"] else a.img.ImgW(int(size), res, mf_order=0, wres=o["wres"], verbose=False)
            U, V, W, X, Y = [], [], [], [], []
            when = None
            doubt = False
            for w in grp:
                m.at(w[1])
                when = float(m.aa.date)
                alt = np.arcsin(np.clip(m.top(s)[2], -1, 1))
                doubt |= abs(alt - np.deg2rad(o["altmin"])) < 1e-5
                if alt < np.deg2rad(o["altmin"]):
                    continue
                i, j = w[2]
                x = w[4].astype(complex)[chans]
                p = CODE[w[3]["pol"]]
                if not o["skip_amp"]:
                    x = x / m.gain(i, j)[chans]
                uvw = m.uvw(i, j, s)[:, None] * fq
                if not o["skip_phs"]:
                    if o["zen_phased"]:
                        x = x * np.exp(2j * np.pi * m.phs(i, j, "z")[chans])
                    x = x * np.exp(-2j * np.pi * m.phs(i, j, s)[chans])
                wg = np.ones(len(chans))
                if not o["skip_bm"]:
                    wg = (m.resp(j, s, p[1]) * m.resp(i, s, p[0]))[chans].real
                    x, wg = x * wg, wg ** 2
                L = np.hypot(uvw[0], uvw[1])
                ok = ~w[5].astype(bool)[chans] & (L >= o["minuv"])
                doubt |= bool(o["minuv"] and (np.abs(L - o["minuv"]) < 1e-6).any())
                if ok.any():
                    for lst, v in zip((U, V, W, X, Y), (uvw[0], uvw[1], uvw[2], x, wg)):
                        lst.append(v[ok])
            if doubt:
                return
            last = g == len(groups) - 1
            if X:
                U, V, W, X, Y = [np.concatenate(v) for v in (U, V, W, X, Y)]
                crd, X, Y = im.append_hermitian((U, V, W), X, Y)
                im.put(crd, X, Y)
            elif last:
                continue           # no image of no data
            want[cnt] = (im, (s, ra, dc), when, len(X))
            cnt += 1
        # an image of a snapshot before there is more to come is always made
    want_files = sorted("%s.%s.fits" % (fmt % k, x) for k in want for x in c["out"])
    got = sorted(f for f in os.listdir(d) if f.endswith(".fits"))
    require(got == want_files, "mk_img.py %s: made %r, expected %r", " ".join(args), got, want_files)
    for n, g in zip(names, digs):
        require(T.digest(os.path.join(d, n)) == g, "mk_img.py: the input %s has been changed", n)
    k2 = D // 2
    for k, (im, (s, ra, dc), when, n) in want.items():
        for x in c["out"]:
            img, kw = rd(os.path.join(d, "%s.%s.fits" % (fmt % k, x)))
            ref = {"uvs": lambda: np.abs(im.uv), "bms": lambda: np.abs(im.bm[0]), "dim": lambda: np.fft.ifft2(im.uv).real, "dbm": lambda: np.fft.ifft2(im.bm[0]).real}[x]()
            tag = "mk_img.py %s: image %d (%s) %s" % (" ".join(args), k, s, x)
            near(img, np.roll(ref, (-k2, -k2), (0, 1)), tag, tol=1e-4 if o["no_w"] else 1e-3)
            require(kw["object"] == s, "%s is of %r", tag, kw["object"])
            dd, dr = np.rad2deg(dc) - kw["dec"], (np.rad2deg(ra) - kw["ra"] + 180) % 360 - 180
            require(abs(dd) < .03 and abs(dr * np.cos(dc)) < .03, "%s is at %r, expected %r", tag, (kw["ra"], kw["dec"]), (np.rad2deg(ra), np.rad2deg(dc)))
            step = np.rad2deg(1. / (D * res))
            require(abs(abs(kw["d_ra"]) - step) < 1e-5 * step and abs(kw["d_dec"] - step) < 1e-5 * step and kw["d_ra"] < 0, "%s has pixels of %r, %r degrees, expected %r", tag, kw["d_ra"], kw["d_dec"], step)
            import ephem
            require(abs(float(ephem.Date(kw["obs_date"])) - when) < 2. / 86400, "%s is of %r, expected %s", tag, kw["obs_date"], ephem.Date(when))
            require(kw["epoch"] == 2000, "%s has epoch %r", tag, kw["epoch"])
    rec.nt(any(q[3] for q in want.values()))
    rec.event("images: %s" % min(len(want), 3))


opts = st.fixed_dictionaries({"fmt": st.booleans(), "cnt": st.sampled_from([0, 0, 7]), "no_w": st.booleans(), "skip_amp": st.sampled_from([0, 0, 1]), "skip_bm": st.sampled_from([0, 0, 1]), "skip_phs": st.sampled_from([0, 0, 0, 1]),
                              "zen_phased": st.sampled_from([0, 0, 0, 1]), "wres": st.sampled_from([.5, .25, 1.]), "minuv": st.sampled_from([0, 0, 3.25, 8.5]), "altmin": st.sampled_from([0, 0, 30., 60.]), "skip": st.sampled_from([0, 0, 0, 1]),
                              "dec": st.sampled_from([(1, 0), (1, 0), (2, 0), (2, 1)]), "buf": st.sampled_from([None, 0, 10, 40])})
imgs = st.fixed_dictionaries({"ds": T.dataset(maxtimes=5), "cal": T.calspec(), "nfiles": st.sampled_from([1, 1, 2]), "chan": st.sampled_from(["all", "one", "range"]), "ck": st.integers(0, 20), "allpol": st.booleans(),
                              "ant": st.sampled_from(["cross", "cross", "all", "0_1", "auto", "-1", "0"]), "dim": st.sampled_from([16, 24, 30, 40]), "res": st.sampled_from([.5, 1., 2.]),
                              "out": st.lists(st.sampled_from(["dim", "dbm", "uvs", "bms"]), min_size=1, max_size=4, unique=True), "snap": st.sampled_from([0, 0, 1, 2, 3]), "opt": opts,
                              "src": st.one_of(st.integers(0, 15), st.just("zen"), st.just("zen"), st.just("facets")), "facets": st.integers(1, 8)})


# ---- cl_img
def put(path, img, D, res, **kw):
    import aipy as a
    step = np.rad2deg(1. / (D * res))
    a.img.to_fits(path, np.roll(img, (-(D // 2), -(D // 2)), (0, 1)).astype(np.float32), clobber=True, d_ra=step, d_dec=step, **kw)


def sampling(r, D, n, ext=.4):
    """A symmetric set of weighted uv samples."""
    bm = np.zeros((D, D))
    for _ in range(n):
        u, v = r.integers(-int(ext * D), int(ext * D) + 1, size=2)
        w = r.uniform(.5, 2)
        bm[v % D, u % D] += w
        bm[-v % D, -u % D] += w
    return bm


def fft2(x):
    return np.fft.fft2(x)


def conv(x, ker):
    return np.fft.ifft2(fft2(x) * fft2(ker)).real


def quietly(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def cl_img(c, rec):
    import aipy as a
    D, res = c["dim"], c["res"]
    if c["deconv"] == "mem":
        # (of images of a positive mean only: it goes on searching until it succeeds)
        c = dict(c, neg=False, minuv=0, rewgt="natural", nuv=4 * c["nuv"], noise=.01)
    r = gen.rng(c["seed"])
    d = rec.tmp()
    jobs = {}
    for k in range(c["n"]):
        bm = sampling(r, D, c["nuv"])
        if c["deconv"] == "mem":
            bm[0, 0] += c["nuv"]
        ker = np.fft.ifft2(bm).real
        sky = np.zeros((D, D))
        for _ in range(c["nsrc"]):
            sky[r.integers(0, D), r.integers(0, D)] += r.uniform(1, 10) * (r.choice([1, -1]) if c["neg"] else 1)
        dim = conv(sky, ker)
        dim = dim + c["noise"] * np.abs(dim).max() * r.normal(size=(D, D))
        if c["empty"] and k == 0:
            ker, dim = 0 * ker, 0 * dim
        put(os.path.join(d, "x%d.dim.fits" % k), dim, D, res, ra=10., dec=20. + k, object="x%d" % k, obs_date="2008/5/1")
        put(os.path.join(d, "x%d.dbm.fits" % k), ker, D, res, ra=10., dec=20. + k, object="x%d" % k, obs_date="2008/5/1")
        jobs["x%d" % k] = (np.roll(dim, (-(D // 2), -(D // 2)), (0, 1)).astype(np.float32), ker.astype(np.float32))
    out = [x for x in c["out"] if not (c["deconv"] == "none" and x == "cimc")] or ["bim"]
    var = [.6, .6, .3, 1.][c["seed"] % 4]
    args = ["-d", c["deconv"], "-o", ",".join(out)] + (["--var=%r" % var] if var != .6 else [])
    args += ["-r", c["rewgt"]] if c["rewgt"] != "natural" or c["seed"] % 2 else []
    args += ["--minuv=%r" % c["minuv"]] if c["minuv"] else []
    args += ["--maxuv=%r" % c["maxuv"]] if c["maxuv"] > 0 else []
    args += ["--maxiter=%d" % c["maxiter"], "-g", "%r" % c["gain"], "--tol=%r" % c["tol"]] + (["--pos_def"] if c["pos"] else []) + (["--div"] if c["div"] else [])
    files = []
    for k in sorted(jobs):
        files += [k + ".dim.fits"] + ([k + ".dbm.fits"] if c["both"] else [])
    T.run("cl_img.py", args + files, d)
    for k, (dim, ker) in jobs.items():
        ins = [k + ".dim.fits", k + ".dbm.fits"]
        made = sorted(f for f in os.listdir(d) if f.startswith(k + ".") and f not in ins)
        if not ker.any():
            require(made == [], "cl_img.py made %r of images without data", made)
            continue
        require(made == sorted("%s.%s.fits" % (k, x) for x in out), "cl_img.py %s made %r", " ".join(args), made)
        g = {}
        for x in out:
            g[x], kw = rd(os.path.join(d, "%s.%s.fits" % (k, x)))
            require(g[x].shape == (D, D) and kw["object"] == k and abs(kw["ra"] - 10) < 1e-6 and abs(kw["dec"] - 20 - int(k[1:])) < 1e-6 and kw["epoch"] == 2000, "cl_img.py: the header of %s.%s is %r", k, x, kw)
            step = np.rad2deg(1. / (D * res))
            require(abs(kw["d_ra"] + step) < 1e-6 * step and abs(kw["d_dec"] - step) < 1e-6 * step, "cl_img.py: pixels of %s.%s are %r, %r degrees, expected %r", k, x, kw["d_ra"], kw["d_dec"], step)
        # the same weighting
        n = np.minimum(np.arange(D), D - np.arange(D))
        q = res * np.hypot(n[:, None], n[None, :])
        fd, fb = fft2(dim.astype(float)), fft2(np.roll(ker.astype(float), (-(D // 2), -(D // 2)), (0, 1)))
        wt = np.ones((D, D))
        if c["rewgt"].startswith("uniform"):
            lv = float(c["rewgt"][8:-1])
            wt = 1. / np.maximum(np.abs(fb), np.abs(fb).max() * lv)
        elif c["rewgt"] == "radial":
            wt = q
        elif c["rewgt"] == "midrange":
            wt = (n[:, None] ** 2 + n[None, :] ** 2) / (D / 2.) ** 2
            wt = np.clip(wt * (1 - wt), 0, None)
        if c["minuv"] > 0:
            wt = wt * (1 - np.exp(-q ** 2 / c["minuv"] ** 2))
        if c["maxuv"] > 0:
            wt = wt * np.exp(-q ** 2 / c["maxuv"] ** 2)
        dim = np.fft.ifft2(fd * wt).real
        ker = np.roll(np.fft.ifft2(fb * wt).real, (D // 2, D // 2), (0, 1))
        gain = np.abs(ker).max()
        tag = "cl_img.py %s: %s" % (" ".join(args), k)
        S = np.abs(dim).max()
        if c["deconv"] == "none":
            for x, ref in (("rim", dim), ("bim", dim / gain), ("cim", 0 * dim)):
                if x in g:
                    near(g[x], ref, tag + " " + x, tol=1e-5)
            rec.nt(True)
            continue
        cut = np.fft.fftshift(ker)[(D - 30) // 2:(D + 30) // 2, (D - 30) // 2:(D + 30) // 2]
        mom = list(a.twodgauss.moments(cut))
        y, x = np.indices((D, D))
        # parameters: height, amplitude, centre along x and y, width along x and y
        gs = np.array(a.twodgauss.twodgaussian(mom, shape=(D, D)))
        gs = np.roll(gs / gs.sum(), (-15, -15), (0, 1))
        if "cim" in g and "cimc" in g:
            near(g["cimc"], conv(g["cim"], gs), tag + " cimc", tol=1e-4, floor=1e-5 * np.abs(g["cim"]).max())
        if "rim" in g and "cimc" in g and "bim" in g:
            near(g["bim"], g["rim"] / gain + g["cimc"], tag + " bim", tol=1e-4, floor=1e-5 * (np.abs(g["rim"]).max() / gain + np.abs(g["cimc"]).max()))
        if "rim" in g and "cim" in g:
            near(g["rim"], dim - conv(g["cim"], ker), tag + " rim", tol=0, floor=1e-5 * (S + gain * np.abs(g["cim"]).sum()))
            rec.event("model plus residual")
        if c["deconv"] == "cln":
            if "rim" in g and not c["div"]:
                require((g["rim"] ** 2).sum() <= (dim ** 2).sum() * (1 + 1e-4), "%s: the residual %r is above the image %r", tag, (g["rim"] ** 2).sum(), (dim ** 2).sum())
            if "cim" in g:
                require(c["div"] or (g["cim"] != 0).sum() <= c["maxiter"], "%s has %d components", tag, (g["cim"] != 0).sum())
                if c["pos"]:
                    require((g["cim"] >= 0).all(), "%s --pos_def: negative components %r", tag, g["cim"].min())
        f = {"cln": lambda x: a.deconv.clean(x, ker, gain=c["gain"], maxiter=c["maxiter"], stop_if_div=not c["div"], tol=c["tol"], pos_def=bool(c["pos"])),
             "lsq": lambda x: a.deconv.lsq(x, ker, maxiter=c["maxiter"], tol=c["tol"]),
             "mem": lambda x: quietly(a.deconv.maxent_findvar, x, ker, f_var0=var, maxiter=c["maxiter"], tol=c["tol"], maxiterok=True)}.get(c["deconv"])
        if f is not None:
            nz = 1e-6 * S * r.normal(size=(1 if c["deconv"] == "mem" else 3, D, D))
            # (with opposite noise, a tie is decided either way)
            runs = [f(dim + e)[0] for e in (np.zeros((D, D)),) + tuple(nz) + tuple(-nz)]
            s = np.abs(runs[0]).max()
            if all(np.abs(x - runs[0]).max() <= 1e-5 * s for x in runs):
                rec.event("same components")
                if "cim" in g:
                    near(g["cim"], runs[0], tag + " cim", tol=1e-4)
                if "bim" in g:
                    near(g["bim"], (dim - conv(runs[0], ker)) / gain + conv(runs[0], gs), tag + " bim", tol=1e-3, floor=1e-5 * (S / gain + np.abs(runs[0]).sum()))
        rec.nt("cim" in g and bool(g["cim"].any()))
    if c["again"] and not c["empty"]:
        before = {f: T.digest1(os.path.join(d, f)) for f in os.listdir(d) if f.endswith(".fits")}
        T.run("cl_img.py", args + files, d)
        after = {f: T.digest1(os.path.join(d, f)) for f in os.listdir(d) if f.endswith(".fits")}
        require(before == after, "cl_img.py: running it again changes %r", [f for f in after if before.get(f) != after[f]])
        if c["deconv"] == "ann":
            return
        # one of the outputs is missing
        gone = "x0.%s.fits" % out[c["seed"] % len(out)]
        os.remove(os.path.join(d, gone))
        T.run("cl_img.py", args + files, d)
        after = {f: T.digest1(os.path.join(d, f)) for f in os.listdir(d) if f.endswith(".fits")}
        require(before == after, "cl_img.py: running it again without %s changes %r", gone, [f for f in before if before[f] != after.get(f)])


cls = st.fixed_dictionaries({"dim": st.sampled_from([30, 32, 40]), "res": st.sampled_from([.5, 1.]), "seed": gen.seeds, "n": st.sampled_from([1, 1, 2]), "nuv": st.integers(30, 150), "nsrc": st.integers(1, 4), "neg": st.booleans(), "noise": st.sampled_from([0, 0, .01]),
                             "empty": st.sampled_from([0, 0, 0, 0, 1]), "deconv": st.sampled_from(["cln", "cln", "cln", "none", "lsq", "mem", "ann"]), "out": st.one_of(st.just(["cim", "rim", "bim", "cimc"]), st.lists(st.sampled_from(["cim", "rim", "bim", "cimc"]), min_size=1, max_size=4, unique=True)),
                             "rewgt": st.sampled_from(["natural", "natural", "uniform(.05)", "uniform(0.5)", "radial", "midrange"]), "minuv": st.sampled_from([0, 0, 1.5, 4.]), "maxuv": st.sampled_from([-1, -1, 5., 9.]), "maxiter": st.sampled_from([1, 5, 30]),
                             "gain": st.sampled_from([.1, .1, .3, 1.]), "tol": st.sampled_from([1e-6, 1e-3]), "pos": st.booleans(), "div": st.booleans(), "both": st.booleans(), "again": st.booleans()})


# ---- mk_map
def mk_map(c, rec):
    import aipy as a
    import ephem
    r = gen.rng(c["seed"])
    d = rec.tmp()
    ns = c["nside"]
    npix = 12 * ns * ns
    wsum, fsum, unsure = np.zeros(npix), np.zeros(npix), np.zeros(npix, bool)
    names, batches = [], []
    for k, q in enumerate(c["imgs"]):
        D, res = q["dim"], q["res"]
        img = r.normal(size=(D, D)).astype(np.float32) + np.float32(q["off"])
        step = np.rad2deg(1. / (D * res))
        f = "i%d.fits" % k
        a.img.to_fits(os.path.join(d, f), img, clobber=True, ra=q["ra"], dec=q["dec"], d_ra=step, d_dec=step, obs_date=q["date"], epoch=2000., object="i%d" % k)
        names.append(f)
        # the direction of every pixel
        e = ephem.Equatorial(ephem.Equatorial(np.deg2rad(q["ra"]), np.deg2rad(q["dec"]), epoch=ephem.J2000), epoch=q["date"])
        ra, dec = float(e.ra), float(e.dec)
        row, col = np.indices((D, D))
        # (the outermost ones, at -D/2, count as at +D/2)
        l, mm = -np.where(col, col - D // 2, D // 2) / (D * res), np.where(row, row - D // 2, D // 2) / (D * res)
        ok = (l ** 2 + mm ** 2 < 1)
        if (np.abs(l ** 2 + mm ** 2 - 1) < 1e-6).any():
            return
        l, mm, val = l[ok], mm[ok], img[ok].astype(float)
        E = np.array([-np.sin(ra), np.cos(ra), 0])
        N = np.array([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)])
        S = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
        n = np.sqrt(1 - l ** 2 - mm ** 2)
        # away from the centre, a rounded l or m tells on n
        vec = np.outer(E, l) + np.outer(N, mm) + np.outer(S, n)
        m = np.array([ephem_vec(x, q["date"]) for x in np.eye(3)]).T
        vec = m.dot(vec)
        w = np.exp(-(l ** 2 + mm ** 2) / np.sin(np.deg2rad(c["fwidth"])) ** 2)
        slack = 3e-7 + 3e-7 / np.maximum(n, 1e-4)
        batches.append((vec, w, val, slack))
    args = ["-m", "map.fits"] + (["--nside=%d" % ns] if not (c["old"] and c["seed"] % 2) else []) + (["--fwidth=%r" % c["fwidth"]] if c["fwidth"] != 10 else []) + (["-i"] if c["interp"] else [])
    if c["old"]:
        o = a.map.Map(nside=ns)
        px = np.arange(npix)
        o.map.map = r.normal(size=npix)
        o.wgt.map = r.uniform(.5, 2, size=npix)
        wsum += o.wgt.map
        fsum += o.map.map
        o.to_fits(os.path.join(d, "map.fits"))
    if c["split"] and len(names) > 1:
        T.run("mk_map.py", args + names[:1], d)
        T.run("mk_map.py", args + names[1:], d)
    else:
        T.run("mk_map.py", args + names, d)
    for vec, w, val, slack in batches:
        if c["interp"]:
            wsum[0] += w.sum()
            fsum[0] += (w * val).sum()
        else:
            for v, x, y, s in zip(vec.T, w, val, slack):
                ps = around(ns, v, s)
                if len(ps) > 1:
                    unsure[list(ps)] = True
                else:
                    p = ps.pop()
                    wsum[p] += x
                    fsum[p] += x * y
    h = a.map.Map(fromfits=os.path.join(d, "map.fits"))
    require(h.nside() == ns, "mk_map.py %s: NSIDE %r, expected %r", args, h.nside(), ns)
    tag = "mk_map.py %s of %r" % (" ".join(args), c["imgs"])
    good = ~unsure
    tol = 1e-4 if c["interp"] else 1e-5
    amp = max(np.abs(x[2]).max() for x in batches)
    if c["interp"]:
        # in which of the pixels about each place is up to the tool
        near(h.wgt.map.sum(), wsum.sum(), tag + ": sum of the weights", tol=tol)
        near(h.map.map.sum(), fsum.sum(), tag + ": sum", tol=tol, floor=tol * amp * wsum.sum())
        return
    near(h.wgt.map[good], wsum[good], tag + ": weights", tol=tol, floor=1e-9)
    near(h.map.map[good], fsum[good], tag + ": sums", tol=tol, floor=1e-9 + tol * amp * wsum.max() * .1)
    rec.nt(bool(good.any() and wsum[good].max() > 0))
    rec.event("unsure %d%%" % (10 * round(10 * unsure.mean())))


def ephem_vec(v, date):
    """A direction of the epoch of date, in J2000."""
    import ephem
    e = ephem.Equatorial(ephem.Equatorial(math.atan2(v[1], v[0]), math.atan2(v[2], math.hypot(v[0], v[1])), epoch=date), epoch=ephem.J2000)
    return [math.cos(e.dec) * math.cos(e.ra), math.cos(e.dec) * math.sin(e.ra), math.sin(e.dec)]


pics = st.fixed_dictionaries({"dim": st.sampled_from([8, 16, 20, 24]), "res": st.sampled_from([.5, 1., 2., 5.]), "ra": gen.fl(0, 360), "dec": gen.fl(-90, 90), "date": st.sampled_from(["2000/1/1 12:00", "2008/5/13 18:00:00", "1975/3/2", "2015/11/30 3:00"]), "off": st.sampled_from([0., 5.])})
maps = st.fixed_dictionaries({"imgs": st.lists(pics, min_size=1, max_size=3), "seed": gen.seeds, "nside": st.sampled_from([1, 2, 4, 8, 16]), "fwidth": st.sampled_from([10, 10, 3., 40.]), "interp": st.sampled_from([0, 0, 0, 1]), "old": st.booleans(), "split": st.booleans()})


# ---- modmap
MOD = '''
def get_catalog(srcs=None, cutoff=None, catalogs=[]):
    out = []
    for name, ra, dec, jys, index, shape in SHAPED:
        if srcs is None or name in [str(s) for s in srcs]:
            out.append(a.fit.RadioFixedBody(ra, dec, name=name, jys=jys, index=index, mfreq=.15, srcshape=shape))
    if "Sun" in [str(s) for s in srcs or []]:
        out.append(a.fit.RadioSpecial("Sun", jys=1000., index=2., mfreq=.15))
    return a.fit.SrcCatalog(out)
'''


def tosys(ra, dec, sys_, epoch):
    """J2000 -> the direction in a system and epoch."""
    import ephem
    e = ephem.Equatorial(ephem.Equatorial(ra, dec, epoch=ephem.J2000), epoch=epoch)
    if sys_ == "eq":
        x, y = e.ra, e.dec
    elif sys_ == "ga":
        g = ephem.Galactic(e, epoch=epoch)
        x, y = g.lon, g.lat
    else:
        g = ephem.Ecliptic(e, epoch=epoch)
        x, y = g.lon, g.lat
    return float(x), float(y)


def fromsys(x, y, sys_, epoch):
    import ephem
    if sys_ == "eq":
        e = ephem.Equatorial(x, y, epoch=epoch)
    elif sys_ == "ga":
        e = ephem.Equatorial(ephem.Galactic(x, y, epoch=epoch), epoch=epoch)
    else:
        e = ephem.Equatorial(ephem.Ecliptic(x, y, epoch=epoch), epoch=epoch)
    return float(e.ra), float(e.dec)


CORNERS = [(0, 0, 0)] + [(i, j, k) for i in (-1, 1) for j in (-1, 1) for k in (-1, 1)]


def around(ns, v, s):
    """The pixels a direction may be in (any of those that meet at a pole, close to it)."""
    out = set()
    for o in CORNERS:
        x, y, z = [p + s * q for p, q in zip(v, o)]
        sp = math.hypot(x, y)
        n = math.hypot(sp, z)
        out.add(hpx.pix(ns, "RING", z / n, math.atan2(y, x), sp / n))
    return out


def pixels(ns, x, y, s=1e-6):
    return around(ns, (math.cos(y) * math.cos(x), math.cos(y) * math.sin(x), math.sin(y)), s)


def modmap(c, rec):
    import aipy as a
    import ephem
    r = gen.rng(c["seed"])
    d = rec.tmp()
    ns = c["nside"]
    shapes = []
    for k in range(c["nsrc"]):
        sh = (0., 0., 0.) if k not in c["ext"] else (float(r.uniform(.05, .3)), float(r.uniform(.05, .3)), float(r.uniform(0, 3)))
        ra = float(r.uniform(0, 2 * np.pi)) if r.uniform() < .6 else float(r.uniform(-.05, .05)) % (2 * np.pi)
        shapes.append(("s%d" % k, ra, float(np.arcsin(r.uniform(-.95, .95))), float(r.uniform(1, 100)), float(r.choice([0, -.7, 1.5])), sh))
    name = T.cal({"seed": 1, "beams": [None], "nsrc": 1}, 2, d)[0]
    with open(os.path.join(d, name + ".py"), "a") as f:
        f.write("SHAPED = %r\n" % (shapes,) + MOD)
    use = [s for k, s in enumerate(shapes) if c["pick"] >> k & 1] or shapes
    names = [s[0] for s in use]
    args = ["-m", "out.fits"]
    ep = c["oepoch"]
    epoch = ephem.J2000 if ep is None else ep
    args += (["--oepoch=%s" % ep] if ep else []) + (["--osys=%s" % c["osys"]] if c["osys"] != "eq" else []) + (["-f", "%r" % c["freq"]] if c["freq"] != .15 else []) + (["--sscale=%r" % c["ss"]] if c["ss"] != 1 else [])
    base = np.zeros(12 * ns * ns)
    given = None
    if c["inmap"]:
        given = a.map.Map(nside=ns)
        given.map.map = r.normal(size=base.size)
        given.wgt.map = r.uniform(.5, 2, size=base.size)
        given.to_fits(os.path.join(d, "in.fits"))
        args += ["-i", "in.fits"] + (["--mscale=%r" % c["ms"]] if c["ms"] != 1 else []) + (["--isys=%s" % c["isys"]] if c["isys"] != "eq" else [])
    out_ns = ns
    nind = 0
    if not c["inmap"]:
        args += ["--nside=%d" % ns]
        if c["nind"]:
            nind = 1
            args += ["--nindices=1"]
    elif c["resize"] != 1 and ns * c["resize"] >= 1:
        # (C25 checks from_map)
        ns = int(ns * c["resize"])
        args += ["--nside=%d" % ns]
        g = a.map.Map(nside=ns)
        g.from_map(given)
        given, base = g, np.zeros(12 * ns * ns)
    if c["dtype"]:
        args += ["--dtype=%s" % c["dtype"]]
    if c["sources"]:
        sun = c["sun"]
        args += ["-C", name, "-s", ",".join(names + (["Sun"] if sun else [])), "-j", "2454600.25"]
    else:
        use, sun = [], False
    T.run("modmap.py", args, d)
    require(sorted(f for f in os.listdir(d) if f.endswith(".fits")) == sorted(["out.fits"] + (["in.fits"] if c["inmap"] else [])), "modmap.py made %r", os.listdir(d))
    h = a.map.Map(fromfits=os.path.join(d, "out.fits"))
    require(h.nside() == ns, "modmap.py %s: NSIDE %r, expected %r", args, h.nside(), ns)
    tag = "modmap.py %s with %r" % (" ".join(args), use)
    if c["dtype"]:
        require(h.get_dtype() == {"float": np.float32, "double": np.float64}[c["dtype"]], "%s: the map is of %r", tag, h.get_dtype())
    require(len(h.ind) == nind, "%s: %d spectral indices, expected %d", tag, len(h.ind), nind)
    got = np.array([h[p] for p in range(12 * ns * ns)]).flatten() if ns <= 8 and not nind else np.where(h.wgt.map > 0, h.map.map / np.where(h.wgt.map > 0, h.wgt.map, 1), 0)
    f32 = c["dtype"] == "float"
    tol = 1e-5 if f32 else 1e-9
    if c["inmap"]:
        # values at the same place of the sky, interpolated
        th, ph = hpx.centres(ns)
        sums, wgts = given.map.map * c["ms"], given.wgt.map
        same = c["isys"] == c["osys"] and ep is None
        for p in range(base.size):
            if c["dtype"] or True:
                ra, dec = fromsys(ph[p], math.pi / 2 - th[p], c["osys"], epoch)
                e = ephem.Equatorial(ephem.Equatorial(ra, dec, epoch=epoch), epoch=ephem.J2000)
                x, y = tosys(float(e.ra), float(e.dec), c["isys"], ephem.J2000)
            px, pw = hpx.interpol(ns, math.pi / 2 - y, x)
            base[p] = sum(w * sums[q] for q, w in zip(px, pw)) / sum(w * wgts[q] for q, w in zip(px, pw))
        tol = 2e-4
        rec.event("map moved" if not same else "map kept")
    want, total, fixed = base.copy(), 0., np.ones(base.size, bool)
    if sun:
        o = ephem.Observer()
        o.lat, o.lon, o.pressure, o.date = "38:25", "-79:51", 0, ephem.Date(2454600.25 - 2415020)
        o.epoch = ephem.J2000
        b = ephem.Sun(o)
        use = use + [("Sun", float(b.a_ra), float(b.a_dec), 1000., 2., (0., 0., 0.))]
    inds, seen, clash = np.zeros(base.size), np.zeros(base.size, bool), np.zeros(base.size, bool)
    for nm, ra, dec, jys, index, sh in use:
        flux = jys * (c["freq"] / .15) ** index * c["ss"]
        total += flux
        x, y = tosys(ra, dec, c["osys"], epoch)
        px = sure = None
        if sh[0] > 0:
            # the pixels within the ellipse about it, in (ra, dec)
            e = ephem.Equatorial(ephem.Equatorial(ra, dec, epoch=ephem.J2000), epoch=epoch)
            th, ph = hpx.centres(ns)
            q = np.array([fromsys(u, math.pi / 2 - v, c["osys"], epoch) for u, v in zip(ph, th)])
            dr, dd = (q[:, 0] - float(e.ra) + np.pi) % (2 * np.pi) - np.pi, q[:, 1] - float(e.dec)
            de = ((dr * np.cos(sh[2]) - dd * np.sin(sh[2])) / sh[0]) ** 2 + ((dr * np.sin(sh[2]) + dd * np.cos(sh[2])) / sh[1]) ** 2
            if (np.abs(de - 1) < 1e-4).any():
                return
            px = np.where(de <= 1)[0]
            if len(px):
                want[px] += flux / len(px)
                clash[px] |= seen[px] & (inds[px] != index)
                inds[px], seen[px] = index, True
                rec.event("extended")
                continue
        ps = pixels(ns, x, y, 1e-4 if nm == "Sun" else 1e-5 if c["osys"] != "eq" or ep else 1e-7)
        if len(ps) > 1:
            fixed[list(ps)] = False
        else:
            want[list(ps)] += flux
            clash[list(ps)] |= seen[list(ps)] & (inds[list(ps)] != index)
            inds[list(ps)], seen[list(ps)] = index, True
    s = np.abs(want).max()
    bad = fixed & ~(np.abs(got - want) <= tol * np.maximum(s, 1e-12))
    require(not bad.any(), "%s: pixels %r are %r, expected %r", tag, np.where(bad)[0][:4], got[bad][:4], want[bad][:4])
    require(abs(got.sum() - base.sum() - total) <= 10 * tol * (np.abs(base).sum() + total + 1e-12), "%s: adds %r in all, expected %r", tag, got.sum() - base.sum(), total)
    if nind:
        # (of several sources in one pixel, the index of one of them is kept)
        bad = fixed & ~clash & ~(np.abs(h.ind[0].map - inds) <= 1e-6)
        require(not bad.any(), "%s: spectral indices %r are %r, expected %r", tag, np.where(bad)[0][:4], h.ind[0].map[bad][:4], inds[bad][:4])
        rec.event("spectral indices")
    rec.nt(bool(use) or c["inmap"])


mods = st.fixed_dictionaries({"seed": gen.seeds, "nside": st.sampled_from([1, 2, 4, 8, 16]), "nsrc": st.integers(1, 4), "pick": st.integers(0, 15), "ext": st.lists(st.integers(0, 3), max_size=2, unique=True), "oepoch": st.sampled_from([None, None, "1950", "2008.5"]),
                              "osys": st.sampled_from(["eq", "eq", "ga", "ec"]), "isys": st.sampled_from(["eq", "eq", "ga", "ec"]), "freq": st.sampled_from([.15, .15, .1, .3]), "ss": st.sampled_from([1, 1, .01]), "ms": st.sampled_from([1, 1, 3.]), "inmap": st.sampled_from([0, 0, 1]),
                              "dtype": st.sampled_from([None, None, "float", "double"]), "sources": st.sampled_from([1, 1, 1, 0]), "sun": st.sampled_from([0, 0, 1]), "nind": st.booleans(), "resize": st.sampled_from([1, 1, .5, 2])})


# ---- fitmdl
def simulated(c, rec, ds):
    """A dataset of what the array would see with some other parameters."""
    d = rec.tmp()
    m = Model(c["cal"], ds, d, near=ds["jd"])
    r = gen.rng(c["seed"])
    kind, s0 = c["kind"], m.srcs[0][0]
    near1 = lambda v: float(v * r.uniform(.75, 1.3))
    times = sorted({ds["jd"] + k / 4096. for k in range(ds["ntime"])})
    true = []
    for t in times:
        q = {}
        if kind in ("jys", "both"):
            q[s0] = {"jys": near1(m.srcs[0][3])}
        if kind == "index":
            q[s0] = {"index": float(m.srcs[0][4] + r.uniform(-.3, .3))}
        if kind in ("amp", "both"):
            q["1"] = {"amp": near1(m.spec[1]["amp"])}
        if kind == "bp_r":
            q["1"] = {"bp_r": [near1(m.spec[1]["bp_r"][0])]}
        if kind in ("shared", "own") and len(m.srcs) > 1:
            v = near1(m.srcs[0][3])
            q = {s[0]: {"jys": v} for s in m.srcs[:2]}
            if kind == "own":
                q[m.srcs[1][0]]["index"] = float(m.srcs[1][4] + r.uniform(-.5, .5))
        true.append(q if c["snap"] or not true else true[0])
    return d, m, dict(zip(times, true)), r


def predict(m, q, w):
    """A record with the parameters q."""
    keep = [dict(x) for x in m.spec], list(m.srcs)
    for k, v in q.items():
        if k.isdigit():
            m.spec[int(k)].update(v)
        else:
            for n, s in enumerate(m.srcs):
                if s[0] == k:
                    m.srcs[n] = s[:3] + (v.get("jys", s[3]), v.get("index", s[4]))
    m.at(w[1])
    v = m.sim(w[2][0], w[2][1], w[3] if isinstance(w[3], str) else CODE[w[3]["pol"]], [s[0] for s in m.srcs])[0]
    m.spec, m.srcs = keep
    return v


def numbers(txt):
    """The fits that were printed: [(parameters, score)]."""
    out, obj, cur = [], None, {}
    for ln in txt.splitlines():
        g = re.match(r"^ (\w+) *$", ln)
        if g:
            obj = g.group(1)
            continue
        g = re.match(r"^ +(\w+) (\[?[-+\d.e, ]+\]?|\[?np\.float64\([-+\d.e]+\)\]?)$", ln)
        if g and obj:
            v = re.sub(r"np\.float64\(|[()]", "", g.group(2))
            cur.setdefault(obj, {})[g.group(1)] = [float(x) for x in v.strip("[]").split(",")] if v.startswith("[") else float(v)
            continue
        g = re.match(r"^Score: ([-+\d.e]+|nan)", ln)
        if g:
            out.append((cur, float(g.group(1))))
            cur, obj = {}, None
    return out


def fitmdl(c, rec):
    ds = dict(c["ds"], holes=0, flags="some" if c["ds"]["flags"] == "all" else c["ds"]["flags"])
    d, m, true, r = simulated(c, rec, ds)
    if c["kind"] in ("shared", "own") and len(m.srcs) < 2:
        return
    recs = []
    for w in T.records(ds):
        x = predict(m, true[w[1]], w)
        w = w[:4] + (np.where(w[5], w[4] * 50, x).astype(np.complex64),) + w[5:]
        recs.append(w)
    T.write(os.path.join(d, "in0.uv"), ds, recs)
    dig = T.digest(os.path.join(d, "in0.uv"))
    kind, s0 = c["kind"], m.srcs[0][0]
    pol = ds["pols"][c["seed"] % len(ds["pols"])]
    ch = "all" if c["ck"] % 2 else "%d_%d" % (c["ck"] % ds["nchan"] // 2, ds["nchan"] - 1)
    chans = parse_chan(ch, ds["nchan"])
    start_ = {}
    args = ["-C", m.name, "-c", ch, "-p", pol, "-q", "-s", "all" if c["ck"] % 3 else ",".join(s[0] for s in m.srcs)]
    if ds["autos"]:
        args += ["-a", "all"] + (["--sim_autos"] if c["autos"] else [])
    begin = {"jys": m.srcs[0][3], "index": m.srcs[0][4], "amp": m.spec[1]["amp"], "bp_r": m.spec[1]["bp_r"][0]}
    prm = []
    if kind in ("shared", "own"):
        args += ["-S", "(%s/%s)=jys" % (s0, m.srcs[1][0])]
        begin_q = {s[0]: {"jys": begin["jys"]} for s in m.srcs[:2]}
        if kind == "own":
            args += ["-P", "%s=index" % m.srcs[1][0]]
            begin_q[m.srcs[1][0]]["index"] = m.srcs[1][4]
    else:
        begin_q = {}
        for k, o in (("jys", s0), ("index", s0), ("amp", "1"), ("bp_r", "1")):
            if kind == k or (kind == "both" and k in ("jys", "amp")):
                v = begin[k]
                if c["given"] and k != "bp_r":
                    v = v * 1.1 + .05
                    prm.append("%s=%s/%r" % (o, k, v))
                else:
                    prm.append("%s=%s" % (o, k))
                begin_q[o] = dict(begin_q.get(o, {}), **{k: [v] if k == "bp_r" else v})
        args += ["-P", ",".join(prm)]
    if c["snap"]:
        args += ["--snap"] + (["--remem"] if c["remem"] else [])
    dec, phs = c["dec"]
    if dec > 1:
        args += ["-x", "%d" % dec, "--dphs=%d" % phs]
    if c["maxiter"]:
        args += ["--maxiter=%d" % c["maxiter"]]
    minuv = c["minuv"]
    if minuv:
        args += ["--minuv=%r" % minuv]
    use = [w for w in recs if w[3] == pol and (w[2][0] != w[2][1] or (ds["autos"] and c["autos"]))]
    lens = [np.linalg.norm(m.bl(*w[2])) * .15 for w in use]
    if any(abs(x - minuv) < 1e-6 for x in lens):
        return
    use = [w for w, x in zip(use, lens) if x >= minuv]
    times = sorted(true)
    times = [t for k, t in enumerate(times) if k % dec == phs]
    if not times or any(not any((~w[5][chans]).any() for w in use if w[1] == t) for t in (times if c["snap"] else times[:1])):
        return

    def score(q, ts):
        a = b = 0.
        for w in use:
            if w[1] in ts:
                ok = ~w[5][chans]
                a += (np.abs(predict(m, q, w)[chans] - w[4][chans])[ok] ** 2).sum()
                b += (np.abs(w[4][chans])[ok] ** 2).sum()
        return math.sqrt(a / b)
    tag = "fitmdl.py %s" % " ".join(args)
    outp = T.run("fitmdl.py", args + ["in0.uv"], d) if not c["daemons"] or c["snap"] else served(c, d, args)
    require(T.digest(os.path.join(d, "in0.uv")) == dig and sorted(f for f in os.listdir(d) if not f.endswith(".py") and f != "__pycache__") == ["in0.uv"], "%s: leaves %r", tag, os.listdir(d))
    got = numbers(outp)
    sets = [[t] for t in times] if c["snap"] else [times]
    require(len(got) == len(sets), "%s: %d fits, expected %d: %s", tag, len(got), len(sets), outp[-500:])
    shape = {o: sorted(v) for o, v in begin_q.items()}
    if kind == "shared":
        shape = {s0: ["jys"]}
    if kind == "own":
        shape[m.srcs[1][0]] = ["index"]
    prev = begin_q
    for ts, (q, sc) in zip(sets, got):
        require({o: sorted(v) for o, v in q.items()} == shape, "%s: fits %r, expected %r: %s", tag, q, shape, outp[-500:])
        full = dict(q)
        if kind == "shared":
            full[m.srcs[1][0]] = dict(q[s0])
        if kind == "own":
            full[m.srcs[1][0]] = dict(q[s0], **q[m.srcs[1][0]])
        s = score(full, ts)
        require(abs(s - sc) <= 1e-4 * sc + 2e-6, "%s: the score of %r is given as %r, expected %r", tag, full, sc, s)
        s_begin, s_true = score(prev, ts), score(true[ts[0]], ts)
        require(s <= s_begin * (1 + 1e-6) + 2e-6, "%s: the fit %r (score %r) is worse than the start %r (%r)", tag, full, s, prev, s_begin)
        if not c["maxiter"] and kind not in ("both", "own"):
            # what made the data is found again, as far as the data tell
            require(s <= s_true + 1e-5, "%s: ends at %r with score %r; %r has %r", tag, full, s, true[ts[0]], s_true)
            for o in q:
                for k in q[o]:
                    x, y = np.atleast_1d(q[o][k])[0], np.atleast_1d(true[ts[0]][o][k])[0]
                    other = dict(full)
                    for oo in (full if kind == "shared" else [o]):
                        other[oo] = dict(full[oo], **{k: [y + 1e-3] if k == "bp_r" else y + 1e-3 * max(1, abs(y))})
                    if score(other, ts) > 1e-5 + 3 * s:
                        require(abs(x - y) <= 2e-3 * max(1, abs(y)), "%s: %s of %s is found to be %r, expected %r", tag, k, o, x, y)
                        rec.event("found")
        rec.nt(s_begin > 1e-3)
        if c["remem"] and c["snap"]:
            prev = full


def served(c, d, args):
    """The same by two daemons with the data each, and a master."""
    import socket
    import subprocess
    import sys
    import time
    import aipy
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.dirname(os.path.dirname(os.path.abspath(aipy.__file__)))] + [p for p in sys.path if p]))
    socks = [socket.socket() for _ in range(2)]
    for s in socks:
        s.bind(("127.0.0.1", 0))
    ports = [s.getsockname()[1] for s in socks]
    for s in socks:
        s.close()
    base = min(ports) - 1
    procs = []
    try:
        for p in ports:
            procs.append(subprocess.Popen([sys.executable, T.script("fitmdl.py")] + args + ["--baseport=%d" % base, "--daemon=%d" % (p - base), "in0.uv"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        for p, q in zip(ports, procs):
            ln = b""
            while b"Starting daemon" not in ln:
                ln = q.stdout.readline()
                require(ln, "fitmdl.py %s --daemon ends without serving", " ".join(args))
            for _ in range(200):
                try:
                    socket.create_connection(("127.0.0.1", p), 5).close()
                    break
                except OSError:
                    time.sleep(.02)
        return T.run("fitmdl.py", args + ["--baseport=%d" % base, "--master=%s" % ",".join("localhost:%d" % (p - base) for p in ports), "in0.uv"], d)
    finally:
        for q in procs:
            q.kill()
            q.wait()
            q.stdout.close()


fits = st.fixed_dictionaries({"ds": T.dataset(maxtimes=3, maxchan=6), "cal": T.calspec(), "seed": gen.seeds, "kind": st.sampled_from(["jys", "jys", "index", "amp", "bp_r", "both", "shared", "shared", "own"]), "ck": st.integers(0, 30), "given": st.booleans(), "autos": st.booleans(),
                              "snap": st.sampled_from([0, 0, 1]), "remem": st.booleans(), "dec": st.sampled_from([(1, 0), (1, 0), (1, 0), (2, 0), (2, 1)]), "maxiter": st.sampled_from([0, 0, 0, 7]), "minuv": st.sampled_from([0, 0, 5.]), "daemons": st.just(0)})
serves = fits.map(lambda c: dict(c, daemons=1, snap=0, maxiter=0))


def subs():
    return [Sub("images", imgs, mk_img, quick=250), Sub("deconvolution", cls, cl_img, quick=120), Sub("maps", maps, mk_map, quick=120), Sub("models", mods, modmap, quick=100), Sub("fits", fits, fitmdl, quick=60), Sub("served fits", serves, fitmdl, quick=5, thorough=12, weight=.3)]
