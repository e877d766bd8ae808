"""C41: the plotting tools draw the selected data."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from checks import c13
from vlib import gen, hpx, tools
from vlib.harness import Sub, Violation, call, require

RULE = ("cases: datasets of 1-2 files, 2-4 antennas and 1-12 channels with every option of plot_uv.py that changes what is drawn; FITS images of one or more channels and polarisations; "
        "HEALPix maps of NSIDE 1-8 in every coordinate system. Non-trivial: something was drawn and an option other than the default was used")
TECHNIQUE = "property-based testing: a reference model of each plot, compared with the artists matplotlib was given"
ASSUMPTIONS = ["matplotlib's images and lines show what they hold (their arrays, extents and limits are compared, not pixels on paper)",
               "matplotlib-basemap is not installed: plot_map.py in cylindrical projection, plot_img.py without its grid"]
LEVEL_NOTE = "reads the figure's artists when the tool shows or saves it"
VARIANTS = ["plain"]


def pylab():
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pylab as p, pyplot
    return matplotlib, p, pyplot


class Shown(object):
    """Runs a tool, keeping what each figure holds when it is shown or saved."""
    def __init__(self):
        self.figs = []

    def snap(self, fig, name=None):
        out = []
        for ax in fig.axes:
            if hasattr(ax, "_colorbar"):
                continue
            out.append({"images": [(np.ma.array(i.get_array(), copy=True), tuple(i.get_extent()), i.get_clim(), i.origin) for i in ax.images],
                        "lines": [(np.array(l.get_xdata(), float), np.ma.array(l.get_ydata(), copy=True), l.get_label()) for l in ax.lines],
                        "texts": [(t.get_position(), t.get_text()) for t in ax.texts], "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
                        "title": ax.get_title(), "xlim": ax.get_xlim(), "ylim": ax.get_ylim(), "legend": ax.get_legend() is not None})
        self.figs.append((name, out))

    def run(self, name, args, cwd):
        matplotlib, p, pyplot = pylab()
        from matplotlib.figure import Figure
        p.close("all")
        keep = p.show, pyplot.show, Figure.savefig
        self.figs = []

        def show(*a, **k):
            self.snap(pyplot.gcf())

        def savefig(fig, f, *a, **k):
            self.snap(fig, f)
            with open(f, "wb") as h:
                h.write(b"figure")
        p.show = pyplot.show = show
        Figure.savefig = savefig
        try:
            self.text = tools.run(name, args, cwd)
        finally:
            p.show, pyplot.show, Figure.savefig = keep
            p.close("all")
        return self.figs


def mode_of(z, mode):
    """-> array and what is masked in it, of a masked array."""
    a = np.ma.filled(z, 0)
    if mode.startswith("phs"):
        return np.angle(a), np.zeros(a.shape, bool)
    if mode.startswith("real") or mode.startswith("imag"):
        return (a.real if mode.startswith("real") else a.imag), np.ma.getmaskarray(z)
    v = np.abs(a)
    m = v <= 0
    if mode.startswith("log"):
        v = np.log10(np.where(m, 1, v))
    return v, m


def same(got, z, mode, what, tol=2e-5, exact=False):
    """got: drawn; z: the complex masked array it shows."""
    v, m = mode_of(z, mode)
    require(got.shape == v.shape, "%s: %r values drawn, expected %r", what, got.shape, v.shape)
    a = np.abs(np.ma.filled(z, 0))
    top = a.max() if a.size else 0
    sure = (a > 1e-3 * top) & ~m
    gm = np.ma.getmaskarray(got)
    require(not gm[sure].any(), "%s: values %r left out, of %r", what, np.argwhere(gm & sure).tolist()[:5], z)
    hidden = m & (a == 0) if mode[:3] in ("log", "lin") else m
    flat = not np.any(a)
    if mode[:3] in ("rea", "ima") or flat or exact:
        require(gm[hidden].all(), "%s: values %r drawn that are flagged or zero: %r", what, np.argwhere(hidden & ~gm).tolist()[:5], got)
    g = np.asarray(np.ma.filled(got, 0), float)
    if mode.startswith("phs"):
        bad = sure & (np.abs(np.exp(1j * g) - np.exp(1j * v)) > 100 * tol)
    elif mode.startswith("log"):
        bad = sure & (np.abs(g - v) > 100 * tol)
    else:
        bad = ~m & (np.abs(g - v) > tol * top)
    require(not bad.any(), "%s: drawn %r, expected %r (at %r)", what, g[bad][:5], v[bad][:5], np.argwhere(bad).tolist()[:5])
    return v, m


MODES = ["log", "lin", "phs", "real", "imag"]


@st.composite
def waterfall(draw):
    d = draw(tools.dataset(maxtimes=5))
    ops = draw(st.sampled_from(["", "", "dt", "df", "delay", "fringe", "delay fringe", "dt df", "delay dt", "df fringe", "delay clean", "fringe clean"])).split()
    if "dt" in ops or "fringe" in ops:
        d = dict(d, ntime=max(d["ntime"], 3), holes=0)
    if "df" in ops or "delay" in ops:
        d = dict(d, nchan=max(d["nchan"], 4))
    n = d["nchan"]
    lo = draw(st.integers(0, n - 1))
    hi = draw(st.integers(lo, n - 1))
    return {"data": d, "files": draw(st.integers(1, 2)), "mode": draw(st.sampled_from([None] + MODES)), "time": draw(st.sampled_from(["all", "all"] + ([] if "dt" in ops else ["range", "list", "ranges"]))), "dec": draw(st.sampled_from([(1, 0), (1, 0), (1, 0), (2, 0), (2, 1), (3, 1)])), "t": sorted(draw(st.lists(st.integers(0, 9), min_size=2, max_size=2, unique=True))),
            "unmask": draw(st.booleans()), "delay": "delay" in ops, "fringe": "fringe" in ops, "dt": "dt" in ops, "df": "df" in ops,
            "taxis": draw(st.sampled_from([None, "index", "physical", "lst"])), "caxis": draw(st.sampled_from([None, "index", "physical"])), "clean": draw(st.sampled_from([1e-2, 1e-3] if "clean" in ops else [None, None, None, 1e-2])), "share": draw(st.booleans()),
            "each": draw(st.sampled_from([None, None, "chan", "time"])), "window": draw(st.sampled_from([None, "none", "hamming", "blackman", "kaiser3"])), "ant": draw(st.sampled_from([None, "all", "auto", "cross", "0_1", "1_0", "0", "1_0,0_1", "(0,1)_2", "0_1,1_2", "0_1,1_2", "0_1,1_2", "1_0,1_2"])), "names": draw(st.sampled_from([None, None, [1, 11, 12, 13], [1, 11, 111, 112], [2, 12, 21, 22]])),
            "pol": draw(st.booleans()), "chan": draw(st.sampled_from([None, "all"] if "df" in ops else [None, "all", "%d_%d" % (lo, hi), "%d" % lo, "%d,%d" % (lo, hi) if hi > lo else "%d" % hi, "0_%d_2" % hi])), "max": draw(st.sampled_from([None, None, 1.5])), "drng": draw(st.sampled_from([None, None, 2.])),
            "nolegend": draw(st.booleans()), "out": draw(st.booleans()), "lim": draw(st.sampled_from([None, None, None, "x", "y"]))}


def chosen(ant, nant):
    """Baselines that a selection lets through."""
    every = [(i, j) for i in range(nant) for j in range(i, nant)]
    return {None: [b for b in every if b[0] != b[1]], "all": every, "auto": [b for b in every if b[0] == b[1]], "cross": [b for b in every if b[0] != b[1]], "0_1": [(0, 1)], "1_0": [(0, 1)],
            "0": [b for b in every if 0 in b], "1_0,0_1": [(0, 1)], "(0,1)_2": [(0, 2), (1, 2)],
            "0_1,1_2": [(0, 1), (1, 2)], "1_0,1_2": [(0, 1), (1, 2)]}[ant]


def waterfalls(c, rec):
    import aipy
    ds, d = dict(c["data"]), rec.tmp()
    if c["each"]:
        ds["holes"] = 0
    if ds["flags"] == "all":
        c = dict(c, unmask=True)
    plain = not (c["dt"] or c["df"])
    if c["each"]:
        c = dict(c, dt=False, df=False)
        plain = True
    if c["each"] == "time":
        c = dict(c, fringe=False)
    names, allrecs, fileof = [], [], {}
    name = c.get("names") or list(range(9))
    if ds["nant"] > len(name):
        name = list(range(9))
    for k in range(c["files"]):
        f = os.path.join(d, "d%d.uv" % k)
        recs = [r[:2] + ((name[r[2][0]], name[r[2][1]]),) + r[3:] for r in tools.records(ds, extra=k, t0=k * ds["ntime"])]
        tools.write(f, dict(ds, nant=name[ds["nant"] - 1] + 1), recs)
        names.append(f)
        allrecs += recs
        fileof.update({r[1]: k for r in recs})
    n = ds["nchan"]
    if c["delay"] and c["chan"] is not None and "all" not in c["chan"]:
        c = dict(c, chan=c["chan"].split("_")[0].split(",")[0] + "_%d" % (n - 1))
    ch = c["chan"]
    if ch is None or ch == "all":
        chans = list(range(n))
    else:
        chans = []
        for x in ch.split(","):
            q = list(map(int, x.split("_")))
            chans += [q[0]] if len(q) == 1 else list(range(q[0], q[1] + 1, q[2] if len(q) > 2 else 1))
    if c["delay"] and len(chans) < 2:
        c = dict(c, delay=False)
    if c["caxis"] == "physical" and len(chans) < 2:
        c = dict(c, caxis=None)
    if c["df"] and len(chans) < 3:
        c = dict(c, df=False)
    if c["ant"] in ("0", "(0,1)_2", "0_1,1_2", "1_0,1_2") and ds["nant"] < 3:
        c = dict(c, ant="0_1")
    bls = [(name[i], name[j]) for i, j in chosen(c["ant"], ds["nant"])]
    if c["ant"]:
        c = dict(c, ant=re.sub(r"\d+", lambda m: str(name[int(m.group())]), c["ant"]))
    pol = ds["pols"][0] if c["pol"] else None
    sel = [r for r in allrecs if r[2] in bls and (pol is None or r[3] == pol)]
    dec, phs = c.get("dec") or (1, 0)
    if c["time"] != "all" and c["taxis"] not in ("physical", "lst"):
        dec, phs = 1, 0
    if dec > 1:
        # every so manyth integration of a file
        seen = [sorted({r[1] for r in sel if fileof[r[1]] == k}) for k in range(c["files"])]
        sel = [r for r in sel if (seen[fileof[r[1]]].index(r[1]) - phs) % dec == 0]
    times = []
    for r in sel:
        if not times or times[-1] != r[1]:
            times.append(r[1])
    args = ["-x", str(dec), "--dphs=%d" % phs] if dec > 1 else []
    a, b = c["t"]
    if c["time"] == "all" or not times:
        use = list(range(len(times)))
    else:
        phys = c["taxis"] in ("physical", "lst")
        a, b = a % len(times), b % len(times)
        a, b = min(a, b), max(a, b)
        if c["time"] == "ranges":
            # from the first to a, and from b on
            use = [k for k in range(len(times)) if k <= a or k >= b]
            top = times[-1] + 1 if phys else len(times)
            one, two = "%r_%r" % ((times[0], times[a] + 1e-6) if phys else (0, a + 1)), "%r_%r" % ((times[b], top) if phys else (b, top))
            args += ["-t", one + "," + two if c["files"] > 1 else two + "," + one]
        elif c["time"] == "range":
            b += 1
            use = [k for k in range(len(times)) if a <= k < b]
            args += ["-t", "%r_%r" % (times[a], times[b] if b < len(times) else times[-1] + 1) if phys else "%d_%d" % (a, b)]
        else:
            use = sorted({a, b})
            args += ["-t", "%r,%r" % (times[a], times[b] - 1e-5) if phys else "%d,%d" % (a, b)]
    opts = [("-m", c["mode"]), ("--time_axis", c["taxis"]), ("--chan_axis", c["caxis"]), ("--clean", c["clean"]), ("--plot_each", c["each"]), ("--window", c["window"]), ("-a", c["ant"]), ("-p", pol), ("-c", c["chan"]), ("--max", c["max"]), ("--drng", c["drng"])]
    for o, v in opts:
        if v is not None:
            args += [o, str(v)]
    for o, k in (("-u", "unmask"), ("-d", "delay"), ("-f", "fringe"), ("--dt", "dt"), ("--df", "df"), ("--share", "share"), ("--nolegend", "nolegend")):
        if c[k]:
            args.append(o)
    if c["lim"]:
        args += ["--%slim" % c["lim"], "1_3"]
    out = os.path.join(d, "plot.png")
    if c["out"]:
        args += ["-o", out]
    mode, taxis, caxis, win = c["mode"] or "log", c["taxis"] or "index", c["caxis"] or "index", c["window"] or "blackman-harris"
    rows = {}
    cnts = [k for k in use]
    for r in sel:
        if times.index(r[1]) not in cnts:
            continue
        z = np.ma.array(r[4], mask=r[5])[chans] if not c["unmask"] else np.ma.array(r[4])[chans]
        if r[2][0] != r[2][1] and "%d_%d" % r[2][::-1] in (c["ant"] or "cross").split(","):
            z = z.conj()
        if c["delay"]:
            w = aipy.dsp.gen_window(len(chans), window=win)
            fl = (~np.ma.getmaskarray(z)).astype(float)
            z = z.filled(0)
            z, ker = np.fft.ifft(z * w), np.fft.ifft(fl * w)
            if c["clean"] is not None and np.any(z):
                z, info = aipy.deconv.clean(z, ker, tol=c["clean"])
                z = z + info["res"] / aipy.img.beam_gain(ker)
            z = np.ma.array(np.fft.fftshift(z))
        rows.setdefault((r[2], r[3]), []).append(z)
    keys = sorted(rows, key=lambda k: (k[0], -aipy.miriad.str2pol[k[1]]))
    if any(len(v) < 3 for v in rows.values()):
        if c["dt"]:
            return
    if taxis in ("physical", "lst") and not c["fringe"] and not c["each"] and 0 < len(use) < 2:
        return
    if c["fringe"] and (len(use) < 2 or any(len(v) != len(use) for v in rows.values())):
        return
    drawn = []
    for k in keys:
        z = np.ma.array([np.ma.filled(x, 0) for x in rows[k]], mask=[np.ma.getmaskarray(x) for x in rows[k]])
        if c["df"]:
            z = z[:, :-2] / 2 + z[:, 2:] / 2 - z[:, 1:-1]
        if c["dt"]:
            z = z[:-2] / 2 + z[2:] / 2 - z[1:-1]
        if c["fringe"]:
            z = np.ma.filled(z, 0)
            w = aipy.dsp.gen_window(z.shape[0], window=win)[:, None]
            wg = np.where(z != 0, 1., 0.) * w
            gain, ker = np.sqrt(np.average(wg ** 2, axis=0)), np.fft.ifft(wg, axis=0)
            z = np.fft.ifft(z * w, axis=0)
            if c["clean"] is not None:
                for q in range(z.shape[1]):
                    if gain[q]:
                        z[:, q], info = aipy.deconv.clean(z[:, q].copy(), ker[:, q].copy(), tol=c["clean"])
                        z[:, q] += info["res"] / gain[q]
            z = np.ma.array(np.fft.fftshift(z, axes=0))
        drawn.append(z)
    # a plot of nothing at all has no limits
    if any(not np.any(np.ma.filled(z, 0)) for z in drawn):
        return
    what = "plot_uv.py " + " ".join(args)
    before = [tools.digest(f) for f in names]
    s = Shown()
    figs = s.run("plot_uv.py", args + names, d)
    require([tools.digest(f) for f in names] == before, "%s changed its input", what)
    if not keys:
        require(not figs and "No data" in s.text, "%s: %d figures of no data", what, len(figs))
        return
    require(len(figs) == 1 and figs[0][0] == (out if c["out"] else None) and os.path.exists(out) == c["out"], "%s: %d figures, saved as %r", what, len(figs), [f[0] for f in figs])
    axes = figs[0][1]
    require(len(axes) == (1 if c["share"] else len(keys)), "%s: %d plots of %d baselines", what, len(axes), len(keys))
    fq = (np.arange(n) * ds["sdf"] + ds["sfreq"])[chans]
    jd, lst = [times[k] for k in use], [next(r[6] for r in sel if r[1] == times[k]) for k in use]
    nc = len(chans)
    dl = np.fft.fftshift(np.fft.fftfreq(nc, fq[1] - fq[0])) if c["delay"] else None
    if c["delay"]:
        cx = np.arange(nc) - nc // 2 if caxis == "index" else dl
    else:
        cx = np.arange(nc) if caxis == "index" else fq
    if c["fringe"]:
        tx = np.arange(len(use)) - len(use) // 2. if taxis == "index" else np.fft.fftshift(np.fft.fftfreq(len(use), 7.5 * dec)) * 1e3
    else:
        tx = {"index": np.array(cnts, float), "physical": np.array(jd), "lst": np.array(lst) * 12 / np.pi}[taxis]

    def edges(x):
        h = .5 * (x[1] - x[0]) if len(x) > 1 and not (x is tx and taxis == "index" and not c["fringe"]) else .5
        return x[0] - h, x[-1] + h
    lim = [None, None]
    for k, (bl, z) in enumerate(zip(keys, drawn)):
        ax = axes[0 if c["share"] else k]
        (i, j), pl = bl
        name = "%d%s,%d%s" % (i, pl[0], j, pl[1])
        v, m = mode_of(z, mode)
        sub = "%s: %s" % (what, name)
        if not c["share"]:
            require(ax["title"].strip() == name, "%s: titled %r", sub, ax["title"])
            lim = [None, None]
        ok = v[~m] if (~m).any() else v
        sure = not (mode in ("phs", "log") and (c["delay"] or c["fringe"] or not plain))      # rounding decides the smallest
        lim[1] = c["max"] if c["max"] is not None else ok.max() if lim[1] is None else max(lim[1], ok.max())
        lim[0] = lim[1] - c["drng"] if c["drng"] is not None else ok.min() if lim[0] is None else min(lim[0], ok.min())
        if not c["each"]:
            have = ax["images"]
            require(len(have) == (len(keys) if c["share"] else 1), "%s: %d images", sub, len(have))
            img, ext, clim, origin = have[k if c["share"] else 0]
            same(img, z, mode, sub, exact=plain and not (c["delay"] or c["fringe"]))
            require(origin == "upper", "%s: origin %r", sub, origin)
            if plain or not (c["dt"] or c["df"]):
                e = edges(cx) + edges(tx)[::-1]
                require(np.allclose(ext, e, rtol=1e-9, atol=1e-9), "%s: drawn over %r, expected %r", sub, ext, e)
            single = lim[1] - lim[0] <= 1e-6 * max(abs(lim[0]), abs(lim[1]))     # matplotlib widens a scale of one value
            if (sure or c["max"] is not None) and not single:
                require(abs(clim[1] - lim[1]) <= 1e-4 * max(1, np.abs(v).max()), "%s: scale up to %r, expected %r", sub, clim[1], lim[1])
            if (sure or (c["max"] is not None and c["drng"] is not None)) and not single:
                require(abs(clim[0] - lim[0]) <= 1e-4 * max(1, np.abs(v).max()), "%s: scale from %r, expected %r", sub, clim[0], lim[0])
            if c["lim"] == "x" and not c["share"]:
                require(ax["xlim"] == (1., 3.), "%s: x limits %r", sub, ax["xlim"])
            if c["lim"] == "y" and not c["share"]:
                require(ax["ylim"] == (3., 1.), "%s: y limits %r", sub, ax["ylim"])
            continue
        per = nc if c["each"] == "chan" else len(use)
        lines = ax["lines"]
        require(len(lines) == per * (len(keys) if c["share"] else 1), "%s: %d lines", sub, len(lines))
        mine = lines[per * k:per * (k + 1)] if c["share"] else lines
        for q, (x, y, label) in enumerate(mine):
            if c["each"] == "chan":
                wx = tx if c["fringe"] else {"index": np.arange(len(use)), "physical": np.array(jd), "lst": np.array(lst)}[taxis]
                zz, tag = z[:, q], "#%d" % chans[q] if caxis == "index" else "%f GHz" % fq[q]
            else:
                wx = cx if c["delay"] or caxis == "physical" else np.array(chans)
                zz, tag = z[q], "#%d" % cnts[q] if taxis == "index" else "jd%f" % jd[q]
            require(x.shape == np.shape(wx) and np.allclose(x, wx, rtol=1e-12, atol=1e-12), "%s: line %d at %r, expected %r", sub, q, x, wx)
            if np.any(np.ma.filled(zz, 0)):
                same(np.ma.masked_invalid(y), zz, mode, sub + " line %d" % q, exact=plain and not (c["delay"] or c["fringe"]))
            require(label == ((name + " ") if c["share"] else "") + tag, "%s: line %d is labelled %r, expected %r", sub, q, label, tag)
        last = k == len(keys) - 1
        if last:
            require(ax["legend"] == (not c["nolegend"]), "%s: legend %r", sub, ax["legend"])
        if c["lim"] == "x" and (last or not c["share"]):
            require(ax["xlim"] == (1., 3.), "%s: x limits %r", sub, ax["xlim"])
        if c["lim"] == "y" and (last or not c["share"]):
            require(ax["ylim"] == (1., 3.), "%s: y limits %r", sub, ax["ylim"])
    rec.nt(bool(args))
    rec.event("each %s" % c["each"])
    for k in ("dt", "df", "delay", "fringe"):
        if c[k]:
            rec.event("%s%s" % (k, " " + c["each"] if c["each"] else ""))


@st.composite
def picture(draw):
    kind = draw(st.sampled_from(["ra", "ra", "glon"]))
    sky = [["ra--sin", "dec--sin"], ["glon-car", "glat-car"]][kind == "glon"]
    axes = draw(st.permutations(sky)) if draw(st.booleans()) else sky
    return {"axes": list(axes) + draw(st.sampled_from([[], [], ["freq"], ["stokes"], ["freq", "stokes"], ["stokes", "freq"]])), "front": draw(st.sampled_from([False, False, True])), "shape": draw(st.lists(st.integers(2, 7), min_size=4, max_size=4)), "seed": draw(gen.seeds),
            "n": draw(st.integers(1, 4)), "mode": draw(st.sampled_from([None] + MODES)), "fft": draw(st.sampled_from([False, False, True])), "pol": draw(st.sampled_from([None, 0, 1])), "chan": draw(st.sampled_from([None, "all", "0", "1", "0_1", "1,0"])), "max": draw(st.sampled_from([None, None, 1.5])),
            "drng": draw(st.sampled_from([None, None, 2.])), "out": draw(st.sampled_from(["show", "show", "file", "batch", "batch"])), "there": draw(st.integers(0, 7)), "old": draw(st.sampled_from([False, False, False, True]))}


def pictures(c, rec):
    import aipy
    from astropy.io import fits
    d, r = rec.tmp(), gen.rng(c["seed"])
    axes = c["axes"][2:] + c["axes"][:2] if c["front"] else c["axes"]
    names, want = [], []
    args = ["--nogrid"]
    chan = c["chan"] if "freq" in axes else None
    pol = c["pol"] if "stokes" in axes else None
    for o, v in (("-m", c["mode"]), ("-p", pol), ("-c", chan), ("--max", c["max"]), ("--drng", c["drng"])):
        if v is not None:
            args += [o, str(v)]
    if c["fft"]:
        args.append("-f")
    for k in range(c["n"]):
        a = r.normal(size=[x + k for x in c["shape"][:len(axes)]]).astype(np.float32)      # one length for each of the data's own axes
        f = os.path.join(d, "i%d.fits" % k)
        call("to_fits", aipy.img.to_fits, f, a, axes=tuple(axes), ra=30., dec=40., d_ra=.5, d_dec=.5)
        if c["old"]:
            with fits.open(f, mode="update") as h:
                h[0].header["TRANSPOS"] = 1
        names.append(f)
        # numpy's first axis is the last of FITS, except where the file says that its data are transposed
        order = list(axes) if c["old"] else list(axes)[::-1]
        if c["old"]:
            a = a.transpose()
        z = a.astype(float)
        if "freq" in order:
            n = z.shape[order.index("freq")]
            z = z.take({None: range(n), "all": range(n), "0": [0], "1": [1], "0_1": [0, 1], "1,0": [1, 0]}[chan], axis=order.index("freq")).mean(axis=order.index("freq"))
            order.remove("freq")
        if "stokes" in order:
            z = z.take(pol or 0, axis=order.index("stokes"))
            order.remove("stokes")
        if c["old"] and not order[0].startswith("ra") and not order[0].startswith("dec"):
            pass
        elif order[0].startswith("ra"):
            z = z.T                                     # declination up the page
        if c["fft"]:
            z = np.fft.fft2(z)
            z = np.roll(z, [-(z.shape[0] // 2), -(z.shape[1] // 2)], (0, 1))
        want.append(z.astype(complex) if c["fft"] else z)
    what = "plot_img.py " + " ".join(args)
    mode = c["mode"] or "log"
    out = os.path.join(d, "out.png")
    if c["out"] == "file":
        args += ["-o", out]
    if c["out"] == "batch":
        args.append("--batch")
    skip = [c["out"] == "batch" and bool(c["there"] >> k & 1) for k in range(c["n"])]
    for k, f in enumerate(names):
        if skip[k]:
            with open(f + ".png", "w") as h:
                h.write("there")
    before = [tools.digest1(f) for f in names]
    s = Shown()
    figs = s.run("plot_img.py", args + names, d)
    require([tools.digest1(f) for f in names] == before, "%s changed its input", what)
    if c["out"] == "batch":
        require([f[0] for f in figs] == [f + ".png" for k, f in enumerate(names) if not skip[k]], "%s --batch of %d files, %r there: saved %r", what, c["n"], skip, [f[0] for f in figs])
        require(all(open(f + ".png").read() == ("there" if skip[k] else "figure") for k, f in enumerate(names)), "%s --batch wrote over an existing file", what)
        shown = [f[1] for f in figs]
        require(all(len(a) == 1 for a in shown), "%s --batch: %r plots in a figure", what, [len(a) for a in shown])
        shown = [a[0] for a in shown]
        todo = [k for k in range(c["n"]) if not skip[k]]
    else:
        require(len(figs) == 1 and figs[0][0] == (out if c["out"] == "file" else None), "%s: figures %r", what, [f[0] for f in figs])
        shown, todo = figs[0][1], list(range(c["n"]))
        require(len(shown) == c["n"], "%s: %d plots of %d files", what, len(shown), c["n"])
    for ax, k in zip(shown, todo):
        sub = "%s: %s %r %r" % (what, os.path.basename(names[k]), axes, c["old"])
        require(ax["title"] == names[k] and len(ax["images"]) == 1, "%s: %d images titled %r", sub, len(ax["images"]), ax["title"])
        img, ext, clim, origin = ax["images"][0]
        z = np.ma.array(want[k])
        v, m = same(img, z, mode, sub)
        require(origin == "lower", "%s: origin %r", sub, origin)
        v = v[~m]
        if mode == "lin" or mode == "phs" and c["fft"]:
            continue
        hi = c["max"] if c["max"] is not None else v.max()
        lo = hi - c["drng"] if c["drng"] is not None else v.min()
        if hi - lo > 1e-6 and not (c["fft"] and mode == "log" and c["drng"] is None):
            require(np.allclose(clim, (lo, hi), rtol=1e-3, atol=1e-3 * np.abs(v).max()), "%s: scale %r, expected %r", sub, clim, (lo, hi))
    rec.nt(len(args) > 1 and any(z.shape[0] != z.shape[1] for z in want))
    rec.event(c["out"])


@st.composite
def skymap(draw):
    ep = st.sampled_from([None, None, 1950., 1975., 2050.])
    return {"k": draw(st.integers(0, 3)), "scheme": draw(st.sampled_from(["RING", "RING", "NEST"])), "nind": draw(st.sampled_from([0, 0, 1, 2])), "kind": draw(st.sampled_from(["map", "map", "hpm"])), "seed": draw(gen.seeds), "mode": draw(st.sampled_from([None, "log", "lin"])), "cen": draw(st.sampled_from([None, None, 0., 90., -45., 180.])),
            "isys": draw(st.sampled_from([None, "eq", "ga", "ec"])), "osys": draw(st.sampled_from([None, "eq", "ga", "ec"])), "ie": draw(ep), "oe": draw(ep), "nobar": draw(st.booleans()), "res": draw(st.sampled_from([45, 30, 20, 20])), "nside": draw(st.sampled_from([None, None, None, 0, 1])),
            "mask": draw(st.sampled_from([None, None, 3., 10.])), "interp": draw(st.sampled_from([None, None, "nearest", "bicubic"])), "max": draw(st.sampled_from([None, None, 1.5])), "drng": draw(st.sampled_from([None, None, 2.])), "out": draw(st.booleans()), "holes": draw(st.booleans()),
            "src": draw(st.sampled_from([None, "cat", "cat", "cal", "sun"])), "pick": draw(st.lists(st.sampled_from(["cyg", "cas", "crab", "vir", "her"]), min_size=1, max_size=3, unique=True)), "mark": draw(st.sampled_from([None, None, "o", "+"])), "jd": draw(st.integers(0, 4000).map(lambda k: 2453000.25 + k))}


def turn(isys, osys, ie, oe):
    """From directions in osys at epoch oe to isys at ie."""
    return c13.from_j2000(isys, (ie - 2000.) / 100).dot(c13.from_j2000(osys, (oe - 2000.) / 100).T)


def vec(lon, lat):
    return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])


def skymaps(c, rec):
    import aipy, ephem
    d, r = rec.tmp(), gen.rng(c["seed"])
    nside = 1 << c["k"]
    npx = 12 * nside ** 2
    flux, wgt = r.uniform(1, 50, size=npx), r.uniform(.1, 3, size=npx)
    if c["holes"]:
        wgt[r.uniform(size=npx) < .2] = 0
    inds = [r.normal(size=npx) for _ in range(c["nind"])]
    f = os.path.join(d, "m.fits")
    if c["kind"] == "map":
        m = aipy.map.Map(nside=nside, scheme=c["scheme"], nindices=c["nind"])
        for h, a in zip([m.map, m.wgt] + m.ind, [flux, wgt] + inds):
            h.set_map(a.copy(), scheme=c["scheme"])
    else:
        m = aipy.healpix.HealpixMap(nside=nside, scheme=c["scheme"])
        m.set_map(flux.copy(), scheme=c["scheme"])
        wgt = np.ones(npx)
    call("to_fits", m.to_fits, f)
    day = lambda y: float(ephem.J2000) + (y - 2000.) * 365.25
    nsd = None
    if c["nside"] is not None and c["kind"] == "map" and not c["nind"]:
        nsd = nside >> c["nside"]
        nsd = nsd or None
    interp = "bicubic" if c["interp"] == "bicubic" and nsd in (None, nside) else None
    args = ["-p", "cyl", "--res", str(c["res"])]
    isys, osys, ie, oe, mode = c["isys"] or "eq", c["osys"] or "eq", c["ie"] or 2000., c["oe"] or 2000., c["mode"] or "log"
    for o, v in (("-m", c["mode"]), ("-c", c["cen"]), ("--isys", c["isys"]), ("--osys", c["osys"]), ("--iepoch", c["ie"] and repr(day(c["ie"]))), ("--oepoch", c["oe"] and repr(day(c["oe"]))), ("--nside", nsd), ("--mask", c["mask"]),
                 ("--interpolation", interp or (c["interp"] and "nearest")), ("--max", c["max"]), ("--drng", c["drng"])):
        if v is not None:
            args += [o, str(v)]
    if c["nobar"]:
        args.append("--nobar")
    srcs = {}
    if c["src"] == "cal":
        name, spec, beams, cs = tools.cal({"seed": c["seed"], "beams": [None], "nsrc": 1 + c["seed"] % 3}, 2, d)
        args += ["-C", name, "-s", ",".join(x[0] for x in cs)]
        srcs = {x[0]: vec(x[1], x[2]) for x in cs}
    elif c["src"]:
        cat = aipy.src.get_catalog(c["pick"])
        for n, x in cat.items():
            srcs[n] = c13.from_j2000("eq", (float(x._epoch) - float(ephem.J2000)) / 36525.).T.dot(vec(float(x._ra), float(x._dec)))
        pick = list(c["pick"])
        if c["src"] == "sun":
            pick.append("Sun")
            b = ephem.Sun()
            b.compute(ephem.Date(c["jd"] - 2415020.), epoch=ephem.J2000)
            srcs["Sun"] = vec(float(b.a_ra), float(b.a_dec))
        args += ["-s", ",".join(pick)]
    if c["src"] == "sun" or c["src"] and c["jd"] % 2:
        args += ["-j", repr(c["jd"])]
    if c["src"] and c["mark"]:
        args += ["--src_mark", c["mark"]]
    out = os.path.join(d, "out.png")
    if c["out"]:
        args += ["-o", out]
    what = "plot_map.py " + " ".join(args)
    before = tools.digest1(f)
    s = Shown()
    refused = None
    try:
        figs = s.run("plot_map.py", args + [f], d)
    except Violation as e:
        refused, figs = e, []
    require(tools.digest1(f) == before, "%s changed its input", what)
    nx, ny = 360 // c["res"], 180 // c["res"]
    # the map that is drawn
    if nsd is not None and nsd < nside:
        h = aipy.healpix.HealpixMap(nside=nsd)
        h.from_hpm(m)
        top = None
        value, ns, scheme = h.map, nsd, "RING"
    else:
        value, ns, scheme, top = flux / np.where(wgt > 0, wgt, 1), nside, c["scheme"], wgt
    M = turn(isys, osys, ie, oe)
    cen = np.radians(c["cen"] if c["cen"] is not None else (180. if osys == "eq" else 0.))
    ring = hpx.ring_of_nest(ns) if scheme == "NEST" else np.arange(12 * ns * ns)
    inv = np.empty(len(ring), int)
    inv[ring] = np.arange(len(ring))
    kick = np.vstack([np.zeros((1, 3)), np.eye(3) * 1e-4, -np.eye(3) * 1e-4, r.normal(size=(6, 3)) * 7e-5])
    lo, hi, wlo = np.full((ny, nx), np.inf), np.full((ny, nx), -np.inf), np.full((ny, nx), np.inf)
    allowed = {}
    for i in range(ny):
        for j in range(nx):
            lon, lat = (j + .5) / nx * 2 * np.pi - np.pi - cen, np.pi / 2 - (i + .5) / ny * np.pi
            v = M.dot(vec(-lon, lat))                # longitudes grow to the left
            opts = set()
            for k in (kick if interp is None else kick[:1]):
                u = v + k
                u /= np.linalg.norm(u)
                if interp is None:
                    p = [hpx.pix(ns, scheme, u[2], np.arctan2(u[1], u[0]), np.hypot(u[0], u[1]))]
                    q = [1.]
                else:
                    p, q = hpx.interpol(ns, np.arctan2(np.hypot(u[0], u[1]), u[2]), np.arctan2(u[1], u[0]))
                    p = [inv[x] for x in p]
                if interp is None:
                    opts.add((value[p[0]], None if top is None else top[p[0]]))
                else:
                    w = sum(a * top[x] for a, x in zip(q, p))
                    opts.add((sum(a * flux[x] for a, x in zip(q, p)) / (w if w > 0 else 1), w))
            allowed[i, j] = opts
    tol = 1e-9 if interp is None else 2e-3
    if c["mask"] is not None and top is not None and c["kind"] == "map":
        most = max(w for o in allowed.values() for _, w in o)
        sure = all(len(o) == 1 for o in allowed.values()) or most == min(max(w for _, w in o) for o in allowed.values())
        least = max(min(w for _, w in o) for o in allowed.values())
        g = 10 ** (-c["mask"] / 10.)

        def keep(w):
            return {x for x in (False, True) if (x and w > g * least * (1 - tol)) or (not x and w <= g * most * (1 + tol))}
        allowed = {k: {(v if x else 0., w) for v, w in o for x in keep(w)} for k, o in allowed.items()}
    with np.errstate(divide="ignore"):
        ends = {k: [np.log10(abs(v)) if mode == "log" else v for v, _ in o] for k, o in allowed.items()}
    sure_hi = max(min(o) for o in ends.values()), max(max(o) for o in ends.values())
    sure_lo = min(min(o) for o in ends.values()), min(max(o) for o in ends.values())
    lim = [list(sure_lo), list(sure_hi)]
    if c["max"] is not None:
        lim[1] = [c["max"]] * 2
    if c["drng"] is not None:
        lim[0] = [x - c["drng"] for x in lim[1]]
    else:
        lim[0] = [max(x, y - 10) if x < y - 10 else x for x in lim[0] for y in lim[1]]
    big = max(1, max(abs(x) for x in lim[0] + lim[1] if np.isfinite(x)))
    if refused is not None:
        if c["max"] is not None and c["drng"] is None and max(lim[0]) > lim[1][0]:
            return          # a scale that ends below where it starts
        raise refused
    require(len(figs) == 1 and figs[0][0] == (out if c["out"] else None), "%s: figures %r", what, [x[0] for x in figs])
    require(len(figs[0][1]) == 1 and len(figs[0][1][0]["images"]) == 1, "%s: %d plots", what, len(figs[0][1]))
    ax = figs[0][1][0]
    img, ext, clim, origin = ax["images"][0]
    require(img.shape == (ny, nx) and ext == (-2, 2, -1, 1) and origin == "upper", "%s: an image of %r over %r from the %s", what, img.shape, ext, origin)
    wide = lim[1][0] - max(lim[0]) > 1e-3 * big
    if wide:
        require(min(lim[0]) - 10 * tol * big <= clim[0] <= max(lim[0]) + 10 * tol * big and min(lim[1]) - 10 * tol * big <= clim[1] <= max(lim[1]) + 10 * tol * big, "%s: scale %r, expected %r", what, clim, lim)
    gm = np.ma.getmaskarray(img)
    require(not gm[:, 1:-1].any(), "%s: parts of the map are left out: %r", what, np.argwhere(gm).tolist()[:5])
    vals = np.ma.getdata(img)
    for (i, j), o in ends.items():
        if gm[i, j]:
            continue
        ok = [min(max(x, l), h) if l <= h else h for x in o for l in lim[0] for h in lim[1]]
        t = max(tol * big, 1e-9) * (1 if interp is None else 3)
        require(min(ok) - t <= vals[i, j] <= max(ok) + t if interp is not None else min(abs(vals[i, j] - x) for x in ok) <= t or not wide, "%s: pixel %d,%d shows %r, expected %r", what, i, j, vals[i, j], ok[:4])
    # labels
    require(sorted(x[1] for x in ax["texts"]) == sorted(srcs), "%s: labels %r, expected %r", what, [x[1] for x in ax["texts"]], sorted(srcs))
    P = turn(osys, "eq", oe, 2000.)
    for (x, y), n in ax["texts"]:
        u = P.dot(srcs[n])
        v = vec(-((x - .001) * np.pi / 2 - cen), (y - .001) * np.pi / 2)
        err = np.degrees(np.arccos(np.clip(u.dot(v), -1, 1)))
        require(err < .05, "%s: %s is labelled %.3g degrees from where it is", what, n, err)
    if c["src"] and c["mark"]:
        marks = {(round(x, 6), round(y, 6)) for l in ax["lines"] for x, y in zip(l[0], l[1])}
        require(marks == {(round(x - .001, 6), round(y - .001, 6)) for (x, y), n in ax["texts"]}, "%s: marks at %r, labels at %r", what, marks, ax["texts"])
    rec.nt(npx > 12 and len(args) > 4)
    rec.event("osys %s" % osys)


def subs():
    return [Sub("waterfalls", waterfall(), waterfalls, quick=250, thorough=3000), Sub("pictures", picture(), pictures, quick=200, thorough=2500), Sub("skymaps", skymap(), skymaps, quick=120, thorough=1500)]
