"""C39: command-line tools that calibrate, phase, filter, flag and simulate datasets."""
import math
import os

import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, tools as T, arr

TECHNIQUE = "property-based testing: generated datasets, calibration modules and options are run through each tool as a main program; outputs are compared record by record with models written from the array geometry, the antennas' parameters and the tools' documentation"
RULE = ("cases: datasets of 2-4 antennas with generated calibration modules (positions, delays, passbands, amplitudes, beams, up to 4 sources), every documented option of each tool; "
        "non-trivial: at least one output record differs from the input's, with at least 2 records")
ASSUMPTIONS = ["sidereal time and apparent source positions come from the array and catalogue themselves (C16, C17 check those)", "thresholds from aipy.rfi (C33 checks those)", "cases with a value within rounding of a threshold are left out"]


def start(c, rec, n=1, order=True, **kw):
    """A scratch directory with n input datasets (given in the order of time, the other way round, or of the same times); -> (it, names, records read back, digests)."""
    d = rec.tmp()
    names, recs, digs = [], [], []
    for k in range(n):
        p = os.path.join(d, "in%d.uv" % k)
        T.write(p, c, T.records(c, extra=k, t0=[k, n - 1 - k, 0][c["seed"] % 3 if order else 0] * c["ntime"]), **kw)
        names.append(os.path.basename(p))
        recs.append(T.read(p))
        digs.append(T.digest(p))
    return d, names, recs, digs


def finish(d, tool, names, digs, outs, extra=(), again=None):
    """The inputs are as they were, and nothing else was made."""
    for n, g in zip(names, digs):
        require(T.digest(os.path.join(d, n)) == g, "%s: the input %s has been changed", tool, n)
    got = sorted(f for f in os.listdir(d) if f != "__pycache__" and not f.endswith(".py"))
    require(got == sorted(list(names) + list(outs) + list(extra)), "%s: the directory holds %r, expected %r", tool, got, sorted(list(names) + list(outs) + list(extra)))
    if again is not None:
        before = [T.digest(os.path.join(d, o)) for o in outs]
        T.run(tool, again, d)
        require([T.digest(os.path.join(d, o)) for o in outs] == before, "%s: running it again changes the existing output", tool)


def compare(d, out, old, want, tool, tol=2e-6, history=True, scale=None, but=()):
    got, head = T.read(os.path.join(d, out))
    h, o = head["history"], old[1]["history"]
    require(h.startswith(o) and (not history or len(h) > len(o)), "%s: the history %r does not continue %r", tool, h, o)
    T.same_records(got, want, tool, tol=tol, but=but)
    return got


def freqs(ds):
    return ds["sfreq"] + ds["sdf"] * np.arange(ds["nchan"])


class Model(object):
    """The array a calibration module defines, and its sources."""

    def __init__(self, c, ds, d, near=None):
        lst = None
        if near is not None:          # sources about the zenith then
            lst = arr.gmst(near) - np.deg2rad(79 + 51 / 60.)
        self.name, self.spec, self.beams, self.srcs = T.cal(c, ds["nant"], d, lst)
        for s in self.spec:
            s["ptg"] = (0., np.pi / 2, 0.)
        ns = T.load(self.name, d)
        self.fq = freqs(ds)
        self.aa = ns["get_aa"](self.fq)
        self.cat = ns["get_catalog"]()
        self.lat = np.deg2rad(38 + 25 / 60.)

    def at(self, t):
        self.aa.set_jultime(t)
        self.cat.compute(self.aa)
        self.lst = float(self.aa.sidereal_time())

    def bl(self, i, j):
        return np.array(self.spec[j]["pos"]) - np.array(self.spec[i]["pos"])

    def off(self, i, j):
        return np.polyval(self.spec[j]["phsoff"], self.fq) - np.polyval(self.spec[i]["phsoff"], self.fq)

    def gain(self, i, j):
        return arr.ref_gain(self.spec[j], self.fq) * np.conj(arr.ref_gain(self.spec[i], self.fq))

    def eq(self, s):
        e = np.array(self.cat[s].get_crds("eq", ncrd=3))
        return e, np.arctan2(e[1], e[0]), np.arctan2(e[2], np.hypot(e[0], e[1]))

    def top(self, s):
        return arr.uvw_matrix(-self.lst, self.lat).dot(self.eq(s)[0])

    def uvw(self, i, j, s):
        """ns, toward a source or the zenith"""
        if s == "z":
            return arr.uvw_matrix(0., self.lat).dot(self.bl(i, j))
        e, ra, dec = self.eq(s)
        return arr.uvw_matrix(self.lst - ra, dec).dot(self.bl(i, j))

    def phs(self, i, j, s):
        """the phase (turns) of the source's signal"""
        return self.uvw(i, j, s)[2] * self.fq + self.off(i, j)

    def jys(self, s):
        q = [x for x in self.srcs if x[0] == s][0]
        return q[3] * (self.fq / .15) ** q[4]

    def resp(self, k, s, pol):
        b = self.beams[k % len(self.beams)]
        return arr.ref_response(b, self.spec[k]["ptg"], self.fq, self.top(s)[:, None], pol)[:, 0]

    def sim(self, i, j, pol, srcs):
        e = np.array([self.eq(s)[0] for s in srcs]).T
        b = self.beams
        return arr.ref_sim(self.spec[i], self.spec[j], b[i % len(b)], b[j % len(b)], self.fq, self.lst, self.lat, e, [self.jys(s) for s in srcs], pol)


CODE = {v: k for k, v in T.POLS.items()}


# ---- bandpasses
def apply_bp(c, rec):
    ds = c["ds"]
    items = {}
    n, nc = ds["nant"], ds["nchan"]
    r = gen.rng(c["seed"])
    bp = r.uniform(.1, 3, size=(n, nc))
    if c["bp"]:
        items["bandpass"] = (bp + 1j * r.normal(size=(n, nc)) * c["im"]).astype(np.complex64).astype(complex).flatten()
        bp = items["bandpass"].real.astype(float).reshape(n, nc)
        for k in ("ngains", "nspect0", "nchan0", "ntau", "nfeeds", "nsols"):
            if c["extra"]:
                items[k] = 3
    else:
        bp = np.ones((n, nc))
    d, names, recs, digs = start(ds, rec, c["nfiles"], items=items)
    args = []
    if c["lin"] != "comb" or c["seed"] % 2:
        args += ["-l", c["lin"]]
    scale = 12250000.
    if c["scale"] is not None:
        scale = c["scale"]
        args += ["-s", "%r" % scale]
    T.run("apply_bp.py", args + names, d)
    outs = [x + "b" for x in names]
    finish(d, "apply_bp.py", names, digs, outs, again=args + names if c["again"] else None)
    for k, o in enumerate(outs):
        from vlib import uvm
        with uvm.Uv(os.path.join(d, o)) as uv:
            left = [x for x in uv.items() if x in ("bandpass", "freqs", "ngains", "nspect0", "nchan0", "ntau", "nfeeds", "nsols")]
            require(not left, "apply_bp.py: the output still has %r", left)
        got = T.read(os.path.join(d, o))[0]
        want = []
        for q, w in enumerate(recs[k][0]):
            i, j = w[2]
            x = w[4].astype(complex)
            if i == j and c["lin"] != "null":
                x = linear(c["lin"], x.real)
            want.append(w[:4] + (x * bp[i] * bp[j] * scale, w[5]))
        compare(d, o, recs[k], want, "apply_bp.py %s" % args, tol=3e-5 if c["lin"] != "null" else 2e-6)
        rec.nt(len(want) > 1)


def linear(kind, x):
    """Correction of an autocorrelation: null leaves it; digi and full are
    sextic fits to the bench measurements (input power against output), scaled
    to take 10 to itself; comb is the mean of the three."""
    if kind == "comb":
        return (linear("digi", x) + linear("full", x) + x) / 3.
    return np.polyval(SEXTIC[kind], x)


# the fits, from the tables of the measurements
SEXTIC = {"digi": [2.4734005996477647e-08, -4.171460373520098e-06, 0.0002749447840017953, -0.008044288888113683, 0.11083550356854899, 0.40947553791941865, 0.5089473434021755],
          "full": [2.3563828542276392e-08, -3.768234805069007e-06, 0.00023324800753840195, -0.00623597288351145, 0.07416268977632101, 0.6939887189775802, -0.09940370731584902]}


bps = st.fixed_dictionaries({"ds": T.dataset(maxtimes=2, autos=None), "bp": st.booleans(), "im": st.sampled_from([0., 1.]), "extra": st.booleans(), "lin": st.sampled_from(["null", "null", "digi", "full", "comb"]),
                             "scale": st.sampled_from([None, 1., 2.5, 1e-3]), "seed": gen.seeds, "nfiles": st.sampled_from([1, 2]), "again": st.booleans()})


# ---- calibration
def apply_cal(c, rec):
    ds = c["ds"]
    d, names, recs, digs = start(ds, rec, c["nfiles"])
    m = Model(c["cal"], ds, d)
    args = ["-C", m.name] + (["--no_gain"] if c["nog"] else []) + (["--no_phs"] if c["nop"] else []) + names
    T.run("apply_cal.py", args, d)
    outs = [x + "C" for x in names]
    finish(d, "apply_cal.py", names, digs, outs, again=args if c["again"] else None)
    for k, o in enumerate(outs):
        want = []
        for w in recs[k][0]:
            i, j = w[2]
            x = w[4].astype(complex)
            if not c["nog"]:
                x = x / m.gain(i, j)
            if not c["nop"]:
                x = x * np.exp(-2j * np.pi * m.phs(i, j, "z"))
            want.append(w[:4] + (x, w[5]))
        compare(d, o, recs[k], want, "apply_cal.py %s" % args)
        rec.nt(len(want) > 1)


cals = st.fixed_dictionaries({"ds": T.dataset(maxtimes=3), "cal": T.calspec(), "nfiles": st.sampled_from([1, 2]), "again": st.booleans(), "nog": st.booleans(), "nop": st.booleans()})


def phs2src(c, rec):
    ds = c["ds"]
    d, names, recs, digs = start(ds, rec, c["nfiles"])
    m = Model(c["cal"], ds, d, near=ds["jd"] if c["near"] else None)
    src = {"src": m.srcs[c["k"] % len(m.srcs)][0], "zen": "zen", "none": None}[c["to"]]
    args = ["-C", m.name] + (["-s", src] if src else []) + (["--setphs"] if c["setphs"] and src else []) + (["--rot_uvw"] if c["rot"] else []) + names
    T.run("phs2src.py", args, d)
    outs = [x + ("." + src if src else "P") for x in names]
    finish(d, "phs2src.py", names, digs, outs, again=args if c["again"] else None)
    for k, o in enumerate(outs):
        want = []
        got = T.read(os.path.join(d, o))[0]
        for q, w in enumerate(recs[k][0]):
            i, j = w[2]
            x, uvw = w[4].astype(complex), w[0]
            m.at(w[1])
            if i == j:
                pass
            elif src is None:
                x = x * np.exp(-2j * np.pi * m.off(i, j))
            else:
                s = "z" if src == "zen" else src
                up = s == "z" or m.top(s)[2] > 0
                if s != "z" and abs(m.top(s)[2]) < 2e-3:
                    up = np.abs(got[q][4]).max() > 0 or not np.abs(x).max()
                if not up:
                    rec.event("below the horizon")
                    x = 0 * x
                else:
                    ph = m.phs(i, j, s)
                    x = np.abs(x) * np.exp(2j * np.pi * ph) if c["setphs"] else x * np.exp(-2j * np.pi * ph)
                    if c["rot"]:
                        uvw = m.uvw(i, j, s)
                        require(np.allclose(got[q][0], uvw, rtol=1e-7, atol=1e-5), "phs2src.py: record %d has uvw %r, expected %r toward %s", q, got[q][0], uvw, src)
                        uvw = got[q][0]
                        rec.event("rotated")
            want.append((uvw,) + w[1:4] + (x, w[5]))
        compare(d, o, recs[k], want, "phs2src.py %s" % args, tol=2e-5, history=False)
        rec.nt(len(want) > 1)


phss = st.fixed_dictionaries({"ds": T.dataset(maxtimes=3), "cal": T.calspec(), "nfiles": st.sampled_from([1, 1, 2]), "again": st.booleans(), "k": st.integers(0, 3), "to": st.sampled_from(["src", "src", "src", "zen", "none"]), "setphs": st.booleans(), "rot": st.booleans(),
                              "near": st.sampled_from([True, False])})


# ---- fluxes
def flux_cal(c, rec):
    ds = c["ds"]
    d, names, recs, digs = start(ds, rec, c["nfiles"])
    m = Model(c["cal"], ds, d, near=ds["jd"])
    src = m.srcs[c["k"] % len(m.srcs)][0]
    for k in range(c["nfiles"]):
        for w in recs[k][0]:
            m.at(w[1])
            if m.top(src)[2] < .01:
                rec.event("not up")
                return
    flags = [f for f, on in (("-p", c["p"]), ("-b", c["b"]), ("-f", c["f"])) if on]
    args = ["-C", m.name] + (["-s", src] if c["b"] or c["f"] or c["seed"] % 2 else []) + flags + names
    T.run("flux_cal.py", args, d)
    outs = [x + "." + "".join(f[1] for f in flags) for x in names]
    finish(d, "flux_cal.py", names, digs, outs, again=args if c["again"] else None)
    for k, o in enumerate(outs):
        want = []
        for w in recs[k][0]:
            i, j = w[2]
            m.at(w[1])
            pol = CODE[w[3]["pol"]]
            g = np.ones(ds["nchan"], complex)
            if c["p"]:
                g = g * m.gain(i, j)
            if c["b"]:
                g = g * m.resp(i, src, pol[0]) * m.resp(j, src, pol[1])
            if c["f"]:
                g = g * m.jys(src)
            want.append(w[:4] + (w[4] / g, w[5]))
        compare(d, o, recs[k], want, "flux_cal.py %s" % args, tol=2e-5)
        rec.nt(len(want) > 1 and bool(flags))


fluxes = st.fixed_dictionaries({"ds": T.dataset(maxtimes=3), "cal": T.calspec(), "nfiles": st.sampled_from([1, 1, 2]), "again": st.booleans(), "k": st.integers(0, 3), "p": st.booleans(), "b": st.booleans(), "f": st.booleans(), "seed": gen.seeds})


# ---- filtering
def deconvolved(x, w):
    """The delay (or fringe rate) spectrum of x, sampled with weights w: by CLEAN (see C29), residuals included."""
    import aipy
    y = np.fft.ifft(np.where(w == 0, 0, x)).astype(complex)
    if not np.any(y):
        return y
    y, info = aipy.deconv.clean(y, np.fft.ifft(w), tol=1e-3)
    return y + info["res"] / np.sqrt(np.average(np.abs(w) ** 2))


def lowpass(x, dw, drw, keep=None, wgts=None):
    """keep delay bins below dw and the last dw (or those of keep), fringe-rate bins likewise"""
    nt, n = x.shape
    pad = math.ceil(nt * .1)
    y = np.fft.ifft(x, axis=1) if wgts is None else np.array([deconvolved(a, w) for a, w in zip(x, wgts)])
    y = np.concatenate([y[:pad][::-1], y, y[-pad:][::-1]])
    rows = np.where(y[:, 0] != 0, 1., 0.)
    a, b = dw, -dw
    if dw == 0:
        b = n
    if keep is None:
        keep = np.ones(n, bool)
        keep[a:b] = False
    y[:, ~keep] = 0
    if drw != -1:
        z = np.fft.ifft(y, axis=0) if rows.all() else np.array([deconvolved(a, rows) for a in y.T]).T
        p, q = drw, -drw + 1
        if q == 0:
            q = len(z)
        z[p:q] = 0
        y = np.fft.fft(z, axis=0)
    return np.fft.fft(y, axis=1)[pad:-pad]


def skypass(m, ds, i, j):
    """delays within 1.5 baseline lengths of the baseline's own"""
    n = ds["nchan"]
    b = 1. / (ds["sdf"] * n)
    l = 1.5 * np.linalg.norm(m.bl(i, j))
    o = m.off(i, j)
    dly = 0. if n == 1 else (o[-1] - o[0]) / (m.fq[-1] - m.fq[0])
    lo, hi = (-dly - l) / b, (-dly + l) / b + 1
    if abs(lo % 1 - .5) < 1e-6 or abs(hi % 1 - .5) < 1e-6:
        return None
    keep = np.zeros(n, bool)
    lo, hi = int(np.round(lo)), int(np.round(hi))
    keep[np.arange(lo, min(hi, lo + n)) % n] = True
    return keep


def filter_src(c, rec):
    ds = dict(c["ds"], nchan=c["nchan"])
    if c["dw"] == -1 and c["src"]:
        c = dict(c, src=False)
    if c["dw"] == -1:
        ds["sdf"] = .004
    d, names, recs, digs = start(ds, rec, 1)
    m = Model(c["cal"], ds, d, near=ds["jd"] if c["near"] else None)
    src = None
    if c["src"]:
        src = m.srcs[c["k"] % len(m.srcs)][0]
    use = c["pols"]
    common = ["-C", m.name] + (["-s", src] if src else []) + (["-p", ",".join(use)] if use else []) + ["-d", str(c["dw"])] + (["-r", str(c["drw"])] if c["drw"] != -1 else []) + (["-P"] if c["passband"] else [])
    outs = {}
    old = recs[0][0]
    for e in ([False, True] if src else [c["ext"]]):
        T.run("filter_src.py", common + (["-e"] if e else []) + names, d)
        outs[e] = names[0] + ("f" if src is None else ".e_" + src if e else ".f_" + src)
    finish(d, "filter_src.py", names, digs, list(outs.values()))
    got = {e: compare(d, o, recs[0], [w[:4] + (g[4], w[5]) for w, g in zip(old, T.read(os.path.join(d, o))[0])], "filter_src.py %s" % common) for e, o in outs.items()}
    sel = [w[2][0] != w[2][1] and (not use or CODE[w[3]["pol"]] in use) for w in old]
    big = max(np.abs(w[4]).max() for w in old) + 1e-30
    for q, w in enumerate(old):
        ok = ~w[5].astype(bool)
        if not sel[q]:
            for e in got:
                require(np.array_equal(got[e][q][4][ok], w[4][ok]), "filter_src.py %s: record %d, which is not selected, has changed from %r to %r", common, q, w[4], got[e][q][4])
        elif src:
            s = got[False][q][4] + got[True][q][4]
            require((np.abs(s - w[4])[ok] <= 1e-4 * big).all(), "filter_src.py %s: removed %r and extracted %r do not make up record %d, %r", common, got[False][q][4], got[True][q][4], q, w[4])
    if True:
        plain = ds["flags"] == "none" and not c["passband"]
        groups = {}
        for q, w in enumerate(old):
            if sel[q]:
                groups.setdefault((w[2], w[3]["pol"]), []).append(q)
        unsure = False
        for (ij, p), qs in groups.items():
            x, up, wgts = [], [], []
            pb = m.gain(*ij) if c["passband"] else np.ones(ds["nchan"])
            for q in qs:
                y = old[q][4].astype(complex)
                wgts.append(np.where(old[q][5], 0, 1.) * pb)
                m.at(old[q][1])
                u = src is None or m.top(src)[2] > 0
                if src is not None and abs(m.top(src)[2]) < 2e-3:
                    unsure = True
                up.append(u)
                rec.event("up" if u else "below the horizon")
                if src is not None:
                    y = y * np.exp(-2j * np.pi * m.phs(ij[0], ij[1], src)) if u else 0 * y
                x.append(y)
            if unsure or (not all(up) and c["drw"] != -1):
                continue
            keep = None
            if c["dw"] == -1:
                if src is not None:
                    continue
                keep = skypass(m, ds, *ij)
                if keep is None:
                    rec.event("half a bin")
                    continue
                rec.event("sky pass")
            z = lowpass(np.array(x), c["dw"], c["drw"], keep, None if plain else wgts)
            close = 1e-4 * big if plain else 3e-3 * max(big, np.abs(z * pb).max())
            for k, q in enumerate(qs):
                m.at(old[q][1])
                y = z[k]
                ok = ~old[q][5].astype(bool)
                if src is not None:
                    y = y * np.exp(2j * np.pi * m.phs(ij[0], ij[1], src)) if up[k] else 0 * y
                y = y * pb
                for e in got:
                    v = y if e else old[q][4] - y
                    require((np.abs(got[e][q][4] - v) <= close)[ok].all(), "filter_src.py %s: record %d %r is %r, expected %r", common, q, "extracted" if e else "removed", got[e][q][4], v)
        rec.nt(len(groups) > 0 and 0 < abs(2 * c["dw"]) < ds["nchan"])


filters = st.fixed_dictionaries({"ds": T.dataset(maxtimes=6).map(lambda d: dict(d, flags="none" if d["seed"] % 4 else d["flags"])), "cal": T.calspec(), "near": st.sampled_from([True, False]), "k": st.integers(0, 3), "src": st.sampled_from([True, True, False]), "ext": st.booleans(),
                                 "nchan": st.integers(1, 24), "dw": st.one_of(st.integers(0, 8), st.just(-1)), "drw": st.sampled_from([-1, -1, 1, 2, 3]), "passband": st.sampled_from([False, False, False, True]), "pols": st.sampled_from([None, None, ["xx"], ["yy", "xy"]])})


# ---- crosstalk
def xtalk3(c, rec):
    ds = c["ds"]
    d, names, recs, digs = start(ds, rec, c["nfiles"], order=False)
    cross = [[w for w in r[0] if w[2][0] != w[2][1]] for r in recs]
    if not all(cross):
        return
    jds = ["%f" % x[0][1] for x in cross]
    key = lambda w: (w[2], w[3]["pol"])
    avg = []
    for x in cross:
        a = {}
        for w in x:
            s = a.setdefault(key(w), [np.zeros(ds["nchan"], complex), np.zeros(ds["nchan"])])
            ok = ~w[5].astype(bool)
            s[0] += np.where(ok, w[4], 0)
            s[1] += ok
        avg.append({k: v[0] / np.clip(v[1], 1, None) for k, v in a.items()})
    extra = []
    if c["mode"] == "self":
        T.run("xtalk3.py", names, d)
        model = avg
        again = names
    else:
        T.run("xtalk3.py", ["-o"] + names, d)
        extra = [j + ".xtalk.npz" for j in jds]
        finish(d, "xtalk3.py -o", names, digs, [], extra)
        model = avg
        lost = None
        if c["lost"] < c["nfiles"] and c["nfiles"] > 1:
            lost = c["lost"]
            os.remove(os.path.join(d, extra[lost]))
        if c["mode"] == "rep":
            first = [r[0][0][1] for r in recs]
            if ["%f" % t for t in first] != jds:
                return          # the first record is an autocorrelation of another time
            lo, hi = 0, ds["nchan"]
            if c["chans"] and ds["nchan"] > 2:
                lo, hi = 1, ds["nchan"] - 1
            gain, tot, cnt = [], {}, {}
            for k, a in enumerate(avg):
                gain.append({})
                if k == lost:
                    continue
                for b, x in a.items():
                    v = np.abs(x[lo:hi])
                    if not (v > 0).any():
                        return  # nothing to normalise by
                    gain[k][b] = v[v > 0].mean()
                    tot[b] = tot.get(b, 0) + x / gain[k][b]
                    cnt[b] = cnt.get(b, 0) + (x != 0)
            T.run("xtalk3.py", ["-r", "-c", "%d_%d" % (lo, hi)] + names, d)
            model = [{b: gain[k][b] * tot[b] / np.clip(cnt[b], 1, None) for b in tot if b in gain[k]} for k in range(len(avg))]
            extra = extra + [j + ".xtalk.rep.npz" for k, j in enumerate(jds) if k != lost]
        extra = [x for x in extra if lost is None or x != jds[lost] + ".xtalk.npz"]
        T.run("xtalk3.py", ["-i"] + names, d)
        again = ["-i"] + names
        if lost is not None:
            model[lost] = None
    outs = [n + "x" for n, m in zip(names, model) if m is not None]
    finish(d, "xtalk3.py", names, digs, outs, extra, again=again if c["again"] else None)
    for k, n in enumerate(names):
        if model[k] is None:
            continue
        want = [w[:4] + (w[4] - model[k].get(key(w), 0) if w[2][0] != w[2][1] else w[4], w[5]) for w in recs[k][0]]
        # flagged data are of no concern
        got = T.read(os.path.join(d, n + "x"))[0]
        compare(d, n + "x", recs[k], want, "xtalk3.py (%s)" % c["mode"], tol=5e-6)
        rec.nt(len(want) > 2)


xtalks = st.fixed_dictionaries({"ds": T.dataset(maxtimes=4), "nfiles": st.sampled_from([1, 2, 3]), "again": st.booleans(), "mode": st.sampled_from(["self", "io", "rep", "rep"]), "lost": st.integers(0, 8), "chans": st.booleans()})


# ---- interference
def spiky(c, rec):
    """datasets with interference in them"""
    ds = c["ds"]
    d = rec.tmp()
    r = gen.rng(c["seed"])
    p = os.path.join(d, "in0.uv")
    recs = []
    for u, t, ij, pol, x, f, l in T.records(ds):
        if r.uniform() < c["rfi"]:
            x = (x * np.where(r.uniform(size=x.size) < .2, 1000, 1)).astype(np.complex64)
        if r.uniform() < c["zero"]:
            x = np.where(r.uniform(size=x.size) < .3, 0, x).astype(np.complex64)
        recs.append((u, t, ij, pol, x, f, l))
    T.write(p, ds, recs)
    return d, "in0.uv", T.read(p), T.digest(p)


def chanarg(c, n):
    if c["chan"] is None:
        return [], []
    ch = sorted(set(k % n for k in c["chan"]))
    if len(ch) > 1 and c["seed"] % 2:
        return ["-c", "%d_%d" % (ch[0], ch[-1])], list(range(ch[0], ch[-1] + 1))
    return ["-c", ",".join(str(k) for k in ch)], ch


class Close(Exception):
    pass


def over(x, thr):
    """x > thr, where no value is within rounding of it"""
    if (np.abs(x - thr) <= 1e-6 * np.abs(thr)).any():
        raise Close()
    return x > thr


def xrfi_model(old, c, ch):
    from aipy import rfi
    n = c["ds"]["nchan"]
    mask, data = {}, {}
    for q, w in enumerate(old):
        b = (w[3]["pol"], w[2])
        f = np.zeros(n, int) if c["reflag"] else w[5].astype(int)
        x = w[4]
        f = np.where(np.abs(x) == 0, 1, f)
        if w[2][0] != w[2][1]:
            win = n / 2. - np.abs(np.arange(n) - n / 2.)
            x = np.fft.fft(np.fft.ifft(x) * win)
        f[ch] = 1
        mask.setdefault(b, {})[w[1]] = f
        data.setdefault(b, {})[w[1]] = x
    for b in data:
        ts = sorted(data[b])
        d = np.ma.array([data[b][t] for t in ts], mask=[mask[b][t] for t in ts])
        if b[1][0] != b[1][1] and c["mode"] in ("val", "both"):
            hi, lo = rfi.gen_rfi_thresh(d, nsig=c["nsig"])
            m = np.zeros((len(ts), n), int) if hi is None else over(np.abs(d.data), hi).astype(int)
            for k, t in enumerate(ts):
                mask[b][t] = mask[b][t] | m[k]
            cnt = sum(mask[b][t] for t in ts)
            bad = over(cnt, len(ts) * c["ch"]).astype(int)
            for t in ts:
                if over(np.array([mask[b][t].sum()]), n * c["int"])[0]:
                    mask[b][t] = np.ones(n, int)
                else:
                    mask[b][t] = mask[b][t] | bad
        if b[1][0] == b[1][1] and c["mode"] in ("int", "both"):
            for k in np.where(rfi.flag_by_int(d, nsig=c["nsig"], raw=c["raw"]))[0]:
                mask[b][ts[k]] = np.ones(n, int)
    if c["share"]:
        tot = {}
        for b in mask:
            for t in mask[b]:
                tot[t] = tot.get(t, 0) | mask[b][t]
        for b in mask:
            for t in mask[b]:
                mask[b][t] = tot[t]
    return [mask[(w[3]["pol"], w[2])][w[1]] for w in old]


def xrfi(c, rec):
    d, name, old, dig = spiky(c, rec)
    n = c["ds"]["nchan"]
    cargs, ch = chanarg(c, n)
    args = cargs + ["-m", c["mode"], "-n", "%r" % c["nsig"], "--ch_thresh=%r" % c["ch"], "--int_thresh=%r" % c["int"]] + [o for o, k in (("-s", "share"), ("--raw", "raw"), ("--reflag", "reflag")) if c[k]] + [name]
    try:
        with np.errstate(all="ignore"):
            m = xrfi_model(old[0], c, ch)
    except Close:
        rec.event("close to a threshold")
        return
    T.run("xrfi.py", args, d)
    finish(d, "xrfi.py", [name], [dig], [name + "r"], again=args if c["again"] else None)
    want = [w[:4] + (np.where(f, 0, w[4]), f) for w, f in zip(old[0], m)]
    compare(d, name + "r", old, want, "xrfi.py %s" % args, tol=1e-6)
    rec.nt(any(np.any(f != w[5]) and not np.all(f) for w, f in zip(old[0], m)))


xrfis = st.fixed_dictionaries({"ds": T.dataset(maxtimes=12, maxchan=20), "seed": gen.seeds, "rfi": st.sampled_from([0., .3, 1.]), "zero": st.sampled_from([0., .5]), "chan": st.one_of(st.none(), st.none(), st.lists(st.integers(0, 40), min_size=1, max_size=4)), "again": st.booleans(),
                               "mode": st.sampled_from(["both", "val", "int", "none"]), "nsig": st.sampled_from([1., 2., 3., 5.]), "ch": st.sampled_from([.33, .61, .95]), "int": st.sampled_from([.99, .73, .41]), "share": st.booleans(), "raw": st.booleans(), "reflag": st.booleans()})


@st.composite
def lengthy(draw):
    """Enough integrations and channels for the histograms that set the thresholds."""
    c = draw(xrfis)
    ds = dict(c["ds"], nant=draw(st.integers(2, 3)), ntime=draw(st.sampled_from([40, 60, 90])), nchan=draw(st.sampled_from([24, 64, 100])), pols=c["ds"]["pols"][:1], autos=True,
              flags=draw(st.sampled_from(["none", "none", "some"])))
    return dict(c, ds=ds, rfi=draw(st.sampled_from([.1, .3, 1.])), zero=draw(st.sampled_from([0., 0., .1])), ch=draw(st.sampled_from([.33, .61, .95, 2.])), int=draw(st.sampled_from([.99, .73, 2.])))


def simple_model(old, c, ch):
    n = c["ds"]["nchan"]
    mask, data = {}, {}
    for w in old:
        if (w[2][0] == w[2][1] and c["ant"] != "all") or (c["ant"] == "0_1" and w[2] != (0, 1)):
            continue
        b = (w[3]["pol"], w[2])
        f = w[5].astype(int).copy()
        f[ch] = 1
        mask.setdefault(b, {})[w[1]] = f
        data.setdefault(b, {})[w[1]] = w[4]
    for b in data:
        ts = sorted(data[b])
        x = np.array([data[b][t] for t in ts])
        m = np.zeros(x.shape, bool)
        if c["df"] is not None:
            g = np.abs(x[:, 1:-1] - .5 * (x[:, :-2] + x[:, 2:])) ** 2
            m[:, 0] = m[:, -1] = True
            s = np.sqrt(np.median(g, axis=1))[:, None]
            m[:, 1:-1] |= over(g / s ** 2, c["df"] ** 2)
        if c["dt"] is not None:
            g = np.abs(x[1:-1] - .5 * (x[:-2] + x[2:])) ** 2
            m[0] = m[-1] = True
            s = np.sqrt(np.median(g, axis=0))[None]
            m[1:-1] |= over(g / s ** 2, c["dt"] ** 2)
        if c["df"] is None and c["dt"] is None:
            g = np.abs(x)
            med = np.median(g)
            m |= over(g, med + c["nsig"] * np.sqrt(np.median(np.abs(g - med) ** 2)))
        for k, t in enumerate(ts):
            mask[b][t] = mask[b][t] | m[k]
    if c["combine"]:
        tot = {}
        for b in mask:
            for t in mask[b]:
                tot[t] = tot.get(t, 0) + mask[b][t]
        return {t: (v >= c["thresh"]).astype(int) for t, v in tot.items()}
    return mask


def xrfi_simple(c, rec):
    d, name, old, dig = spiky(c, rec)
    n = c["ds"]["nchan"]
    cargs, ch = chanarg(c, n)
    ts = sorted(set(w[1] for w in old[0]))
    per = {}
    for w in old[0]:
        per.setdefault((w[3]["pol"], w[2]), []).append(w[1])
    if (c["df"] is not None and n < 3) or (c["dt"] is not None and min(len(v) for v in per.values()) < 3):
        return
    args = cargs + (["-a", c["ant"]] if c["ant"] != "cross" else []) + [o for k, f in (("df", "--df"), ("dt", "--dt"), ("nsig", "-n")) if c[k] is not None for o in (f, "%r" % c[k])] + (["--combine", "-t", str(c["thresh"])] if c["combine"] else []) + [name]
    try:
        with np.errstate(all="ignore"):
            m = simple_model(old[0], dict(c, nsig=2. if c["nsig"] is None else c["nsig"]), ch)
    except Close:
        rec.event("close to a threshold")
        return
    extra = []
    if not m:
        return
    if c["npz"] and c["combine"]:
        T.run("xrfi_simple.py", ["--to_npz", "flags.npz"] + args, d)
        extra = ["flags.npz"]
        finish(d, "xrfi_simple.py --to_npz", [name], [dig], [], extra)
        if c["late"]:
            # the flags of another dataset, which overlaps with this one
            name2 = "late.uv"
            T.write(os.path.join(d, name2), c["ds"], T.records(c["ds"], extra=1, t0=1))
            other = T.read(os.path.join(d, name2))
            extra.append(name2)
            T.run("xrfi_simple.py", ["--combine", "--from_npz", "flags.npz", name2], d)
            want = [w[:4] + (lambda f: (np.where(f, 0, w[4]), f))(m.get(w[1], np.ones(n, int))) for w in other[0]]
            compare(d, name2 + "R", other, want, "xrfi_simple.py --from_npz (another file)", tol=1e-6)
            extra.append(name2 + "R")
        T.run("xrfi_simple.py", ["--combine", "--from_npz", "flags.npz", name], d)
    else:
        T.run("xrfi_simple.py", args, d)
    finish(d, "xrfi_simple.py", [name], [dig], [name + "R"], extra)
    want = []
    for w in old[0]:
        if c["combine"]:
            f = m.get(w[1])
            if f is None:
                f = np.ones(n, int)
            elif c["npz"]:
                pass
        else:
            f = m.get((w[3]["pol"], w[2]), {}).get(w[1])
            if f is None:           # not selected
                f = w[5]
        want.append(w[:4] + (np.where(f, 0, w[4]), f))
    compare(d, name + "R", old, want, "xrfi_simple.py %s" % args, tol=1e-6)
    rec.nt(any(np.any(w[5] != o[5]) and not np.all(w[5]) for w, o in zip(want, old[0])))


simples = st.fixed_dictionaries({"ds": T.dataset(maxtimes=8, maxchan=20), "seed": gen.seeds, "rfi": st.sampled_from([0., .3, 1.]), "zero": st.sampled_from([0., 0., .5]), "chan": st.one_of(st.none(), st.none(), st.lists(st.integers(0, 40), min_size=1, max_size=4)),
                                 "df": st.sampled_from([None, None, 2., 6.]), "dt": st.sampled_from([None, None, 2., 6.]), "nsig": st.sampled_from([None, 2., 4.]), "combine": st.booleans(), "npz": st.booleans(), "late": st.booleans(), "thresh": st.integers(1, 3), "ant": st.sampled_from(["cross", "all", "0_1"])})


# ---- simulation
def mdlvis(c, rec):
    ds = c["ds"]
    d, names, recs, digs = start(ds, rec, c["nfiles"])
    m = Model(c["cal"], ds, d, near=ds["jd"] if c["near"] else None)
    for s in m.srcs:
        m.at(recs[0][0][0][1])
        rec.event("up" if m.top(s[0])[2] > 0 else "down")
    srcs = [s[0] for k, s in enumerate(m.srcs) if c["pick"] >> k & 1] or [s[0] for s in m.srcs]
    args = ["-C", m.name, "-s", ",".join(srcs) if c["pick"] else "all"] + (["-m", c["mode"]] if c["mode"] != "sim" or c["pick"] % 2 else []) + (["-f"] if c["flag"] else []) + (["-a", c["ant"]] if c["ant"] != "cross" else []) + names
    if not all(any(chosen(w, c["ant"]) for w in r[0]) for r in recs):
        return
    T.run("mdlvis.py", args, d)
    outs = [x + "s" for x in names]
    finish(d, "mdlvis.py", names, digs, outs, again=args if c["again"] else None)
    for k, o in enumerate(outs):
        want, sure = [], []
        got = T.read(os.path.join(d, o))[0]
        for w in recs[k][0]:
            i, j = w[2]
            if not chosen(w, c["ant"]):
                continue
            if i == j:
                want.append(w[:5] + (w[5],))
                sure.append(w[4])
                continue
            m.at(w[1])
            v, s = m.sim(i, j, CODE[w[3]["pol"]], srcs)
            f = w[5].astype(bool)
            if c["mode"] == "sim":
                x = v
                if not c["flag"]:
                    f = np.zeros(ds["nchan"], bool)
            else:
                x = w[4] - v if c["mode"] == "sub" else w[4] + v
                s = s + np.abs(w[4])
            want.append(w[:4] + (np.where(f, 0, x), f))
            if any(abs(m.top(q)[2]) < 1e-4 for q in srcs):
                s = s * np.inf
            sure.append(s)
        require(len(got) == len(want), "mdlvis.py %s: %d records, expected %d", args, len(got), len(want))
        for q, (g, w, s) in enumerate(zip(got, want, sure)):
            require((np.abs(g[4] - w[4]) <= 3e-5 * s + 1e-30).all() or np.isinf(s).any(), "mdlvis.py %s: record %d %r is %r, expected %r", args, q, w[1:3], g[4], w[4])
        compare(d, o, recs[k], [w[:4] + (g[4],) + w[5:] for g, w in zip(got, want)], "mdlvis.py %s" % args, tol=None)
        rec.nt(len(want) > 1)


def chosen(w, ant):
    i, j = w[2]
    return ant == "all" or (ant == "cross" and i != j) or (ant == "0_1" and (i, j) == (0, 1))


mdls = st.fixed_dictionaries({"ds": T.dataset(maxtimes=3), "cal": T.calspec(), "nfiles": st.sampled_from([1, 1, 2]), "again": st.booleans(), "near": st.booleans(), "pick": st.integers(0, 15), "mode": st.sampled_from(["sim", "sub", "add"]), "flag": st.booleans(), "ant": st.sampled_from(["cross", "all", "0_1"])})


def newvis(c, rec):
    d = rec.tmp()
    ds = c["ds"]
    m = Model(c["cal"], ds, d, near=ds["jd"] if c["near"] else None)
    srcs = [s[0] for s in m.srcs]
    n, dt = c["n"], c["inttime"]
    args = ["-C", m.name, "-s", "all", "--pol=%s" % ",".join(ds["pols"]), "--nchan=%d" % ds["nchan"], "--sfreq=%r" % ds["sfreq"], "--sdf=%r" % ds["sdf"], "--inttime=%r" % dt, "--startjd=%r" % ds["jd"], "--endjd=%r" % (ds["jd"] + (n - .5) * dt / 86400.)]
    if c["noise"]:
        args += ["-n", "%r" % c["noise"]]
    T.run("mdlvis.py", args, d)
    finish(d, "mdlvis.py", [], [], ["new.uv"])
    got, head = T.read(os.path.join(d, "new.uv"))
    k = 0
    big = 0
    require(len(got) == n * len(ds["pols"]) * ds["nant"] * (ds["nant"] + 1) // 2, "mdlvis.py %s makes %d records, expected %d integrations of %d antennas", args, len(got), n, ds["nant"])
    for q in range(n):
        m.at(ds["jd"] + q * dt / 86400.)
        for i in range(ds["nant"]):
            for j in range(i, ds["nant"]):
                for p in ds["pols"]:
                    g = got[k]
                    k += 1
                    require(tuple(g[2]) == (i, j) and abs(g[1] - ds["jd"] - q * dt / 86400.) < 1e-8 and g[3]["pol"] == T.POLS[p], "mdlvis.py: record %d is %r %r, expected %r", k - 1, g[:3], g[3]["pol"], (q, i, j, p))
                    for x, y in (("nchan", ds["nchan"]), ("nants", ds["nant"]), ("npol", len(ds["pols"])), ("sfreq", ds["sfreq"]), ("sdf", ds["sdf"]), ("inttime", float(np.float32(dt))), ("freq", ds["sfreq"]), ("restfreq", ds["sfreq"]), ("nschan", ds["nchan"]), ("nspect", 1), ("epoch", 2000.)):
                        require(g[3][x] == y, "mdlvis.py: %s is %r, expected %r", x, g[3][x], y)
                    for x, y in (("latitud", m.lat), ("longitu", -np.deg2rad(79 + 51 / 60.)), ("lst", m.lst), ("ra", m.lst), ("obsra", m.lst), ("dec", m.lat), ("obsdec", m.lat)):
                        require(abs(g[3][x] - y) < 1e-6, "mdlvis.py: %s is %r, expected %r", x, g[3][x], y)
                    require(np.allclose(np.array(g[3]["antpos"]).reshape(3, -1).T, [s["pos"] for s in m.spec], rtol=0, atol=1e-9), "mdlvis.py: antpos is %r, expected the coordinates of %r", g[3]["antpos"], m.spec)
                    require(not np.any(g[5]), "mdlvis.py: flags %r in a simulation", g[5])
                    if i == j:
                        require(not np.any(g[4]), "mdlvis.py: autocorrelation of %r", g[4])
                        continue
                    bl = m.bl(i, j)
                    require(abs(np.dot(g[0], g[0]) - bl.dot(bl)) <= 1e-6 * bl.dot(bl), "mdlvis.py: baseline %r of length %r, expected %r", g[0], np.sqrt(np.dot(g[0], g[0])), np.sqrt(bl.dot(bl)))
                    if any(abs(m.top(s)[2]) < 1e-4 for s in srcs):
                        continue
                    v, s = m.sim(i, j, p, srcs)
                    lim = 3e-5 * s + c["noise"] * np.abs(m.gain(i, j)) * 1.0001
                    big = max(big, (np.abs(g[4] - v) / np.abs(m.gain(i, j))).max())
                    require((np.abs(g[4] - v) <= lim + 1e-30).all(), "mdlvis.py: record %d %r is %r, expected %r", k - 1, (q, i, j, p), g[4], v)
    require(not c["noise"] or big > 1e-5 * c["noise"], "mdlvis.py %s adds no noise", args)
    rec.nt(k > 2)


news = st.fixed_dictionaries({"ds": T.dataset(maxtimes=1), "cal": T.calspec(), "near": st.booleans(), "n": st.integers(1, 3), "inttime": st.sampled_from([10., 43.2, 600.]), "noise": st.sampled_from([0., 0., 5.])})


# ---- Stokes parameters
def stokes(c, rec):
    if rec.known("C39-stokes"):
        return
    ds = dict(c["ds"], pols=["xx", "xy", "yx", "yy"], flags="none", holes=0)
    d, names, recs, digs = start(ds, rec)
    T.run("stokes_rotate.py", names, d)
    got = T.read(os.path.join(d, names[0] + "S"))[0]
    for g, w in zip(got, recs[0][0]):
        lin = {CODE[o[3]["pol"]]: o[4] for o in recs[0][0] if o[1:3] == w[1:3]}
        k = {"xx": 0, "xy": 1, "yx": 2, "yy": 3}[CODE[w[3]["pol"]]]
        v = [lin["xx"] + lin["yy"], lin["xx"] - lin["yy"], lin["xy"] + lin["yx"], -1j * (lin["xy"] - lin["yx"])][k]
        require(g[3]["pol"] == k + 1, "stokes_rotate.py: polarisation %r, expected %r", g[3]["pol"], k + 1)
        require(any(np.allclose(g[4], f * v, atol=1e-4) for f in (1, .5, -1, -.5)), "stokes_rotate.py: %r, expected %r", g[4], v)
    rec.nt()


def subs():
    return [Sub("stokes", st.fixed_dictionaries({"ds": T.dataset(maxtimes=2)}), stokes, quick=5, thorough=5, weight=.1),
            Sub("bandpasses", bps, apply_bp, quick=60), Sub("calibration", cals, apply_cal, quick=60), Sub("phasing", phss, phs2src, quick=120), Sub("fluxes", fluxes, flux_cal, quick=80), Sub("filtering", filters, filter_src, quick=150),
            Sub("crosstalk", xtalks, xtalk3, quick=120), Sub("interference", xrfis, xrfi, quick=150), Sub("interference at length", lengthy(), xrfi, quick=50), Sub("simple interference", simples, xrfi_simple, quick=150), Sub("models", mdls, mdlvis, quick=80), Sub("simulations", news, newvis, quick=40)]
