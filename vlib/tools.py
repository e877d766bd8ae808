"""Shared by the checks of command-line tools: datasets, calibration modules and runs."""
import gc
import hashlib
import io
import itertools
import os
import runpy
import sys
import contextlib
import warnings

import numpy as np
from hypothesis import strategies as st

from . import arr, gen, uvm
from .harness import Violation, call, require

COUNT = itertools.count()
POLS = {"xx": -5, "yy": -6, "xy": -7, "yx": -8}


@st.composite
def dataset(draw, maxtimes=4, pols=("xx", "yy", "xy", "yx"), maxchan=12, autos=None, mults=(1,)):
    nant = draw(st.integers(2, 4))
    return {"nant": nant, "ntime": draw(st.integers(1, maxtimes)), "pols": draw(st.lists(st.sampled_from(pols), min_size=1, max_size=2, unique=True)), "nchan": draw(st.integers(1, maxchan)) * draw(st.sampled_from(mults)),
            "autos": draw(st.booleans()) if autos is None else autos, "seed": draw(gen.seeds), "flags": draw(st.sampled_from(["none", "some", "some", "all", "chan"])), "sfreq": draw(gen.fl(.1, .2)), "sdf": draw(st.sampled_from([1e-4, 1e-3, .00390625])),
            "jd": draw(st.integers(0, 1000).map(lambda k: 2454600.25 + k / 64.)), "holes": draw(st.sampled_from([0, 0, 0, .3])), "scale": draw(st.sampled_from([1., 1., 100.]))}


def records(c, extra=0, t0=0):
    """The records of a dataset: (uvw, t, (i, j), pol, data, flags, lst)."""
    r = gen.rng(c["seed"] + extra)
    out = []
    for k in range(c["ntime"]):
        t = c["jd"] + (k + t0) / 4096.
        lst = (.3 + .01 * (k + t0)) % 6.28
        for i in range(c["nant"]):
            for j in range(i if c["autos"] else i + 1, c["nant"]):
                for p in c["pols"]:
                    if out and r.uniform() < c["holes"]:
                        continue
                    n = c["nchan"]
                    d = (c["scale"] * (r.normal(size=n) + 1j * r.normal(size=n))).astype(np.complex64)
                    if i == j:
                        d = np.abs(d).astype(np.complex64)
                    f = {"none": np.zeros(n, bool), "all": np.ones(n, bool), "some": r.uniform(size=n) < .3, "chan": np.arange(n) % 3 == 0}[c["flags"]]
                    out.append((np.array([3. * i, 1. - j, .5 * (j - i)]), t, (i, j), p, d, f.copy(), lst))
    return out


BASIC = {"sfreq": "d", "sdf": "d", "nchan": "i", "nants": "i", "inttime": "r", "freq": "d", "restfreq": "d", "nschan": "i", "ischan": "i", "nspect": "i", "npol": "i", "source": "a", "telescop": "a", "latitud": "d",
         "longitu": "d", "antpos": "d", "epoch": "r"}


def values(c):
    return {"sfreq": c["sfreq"], "sdf": c["sdf"], "nchan": c["nchan"], "nants": c["nant"], "inttime": 7.5, "freq": c["sfreq"], "restfreq": c["sfreq"], "nschan": c["nchan"], "ischan": 1, "nspect": 1, "npol": len(c["pols"]),
            "source": "zenith", "telescop": "AIPY", "latitud": .6, "longitu": -1.4, "antpos": np.arange(3. * c["nant"]), "epoch": 2000.}


def write(path, c, recs, items=None):
    with uvm.Uv(path, "new") as uv:
        uv._wrhd("obstype", "mixed-auto-cross")
        uv._wrhd("history", "made by hand\n")
        for k, v in (items or {}).items():
            uv._wrhd(k, v)
        vals = values(c)
        for k in sorted(BASIC):
            uv.add_var(k, BASIC[k])
            uv[k] = vals[k]
        for k, t in (("lst", "d"), ("ra", "d"), ("pol", "i"), ("temp", "r")):
            uv.add_var(k, t)
        for n, (uvw, t, ij, p, d, f, lst) in enumerate(recs):
            uv["lst"] = lst
            uv["ra"] = lst
            uv["pol"] = POLS[p]
            if n % 3 == 0:
                uv["temp"] = float(n)
            uv.write((uvw, t, ij), d, f)


SKIP = ("corr", "wcorr", "tscale", "coord", "time", "baseline", "nread")


def read(path, items=("obstype",)):
    """(records, header): each record with all its variables."""
    with uvm.Uv(path) as uv:
        names = [v for v in uv.vars() if v not in SKIP]
        out = []
        for (uvw, t, ij), d, f in uv.all(raw=True):
            out.append((np.array(uvw), t, ij, {v: np.array(uv[v]).tolist() if not isinstance(uv[v], str) else uv[v] for v in names}, d.copy(), f.copy()))
        head = {"history": uv["history"]}
        for k in items:
            head[k] = uv[k]
        return out, head


def digest(path):
    h = hashlib.sha1()
    for base, dirs, files in sorted(os.walk(path)):
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(os.path.relpath(p, path).encode())
            with open(p, "rb") as g:
                h.update(g.read())
    return h.hexdigest()


def digest1(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def script(name):
    import aipy
    return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(aipy.__file__))), "scripts", name)


FROZEN = []


def run(name, args, cwd):
    """Run a tool as its own main program; -> what it prints."""
    old, argv, path, mods = os.getcwd(), sys.argv, list(sys.path), set(sys.modules)
    out = io.StringIO()

    def go():
        import numpy as np
        err = np.seterr(all="ignore")
        try:
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                runpy.run_path(script(name), run_name="__main__")
        except SystemExit as e:
            if e.code not in (None, 0):
                raise Violation("%s %s exits with %r" % (name, " ".join(args), e.code))
        finally:
            np.seterr(**err)
    if not FROZEN:
        FROZEN.append(1)
        gc.collect()
        gc.freeze()
    os.chdir(cwd)
    sys.argv = [name] + list(args)
    try:
        call("%s %s" % (name, " ".join(args)), go)
        gc.collect()
    finally:
        os.chdir(old)
        sys.argv = argv
        sys.path[:] = path
        for m in set(sys.modules) - mods:
            if m.startswith("vcal_"):
                del sys.modules[m]
    uvm.closed()
    return out.getvalue()


def same_records(got, want, what, tol=None, but=()):
    """Records as (uvw, t, ij, vars, data, flags); tol: relative, of the data."""
    require(len(got) == len(want), "%s: %d records, expected %d", what, len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        require(g[1] == w[1] and tuple(g[2]) == tuple(w[2]) and np.array_equal(g[0], w[0]), "%s: record %d is %r, expected %r", what, k, g[:3], w[:3])
        for v in w[3]:
            if v not in but:
                require(g[3].get(v) == w[3][v], "%s: record %d has %s=%r, expected %r", what, k, v, g[3].get(v), w[3][v])
        require(g[5].shape == np.shape(w[5]) and np.array_equal(g[5].astype(bool), np.asarray(w[5]).astype(bool)), "%s: record %d has flags %r, expected %r", what, k, g[5].astype(int).tolist(), np.asarray(w[5]).astype(int).tolist())
        require(g[4].shape == np.shape(w[4]), "%s: record %d has %r channels, expected %r", what, k, g[4].shape, np.shape(w[4]))
        if tol is None:
            require(np.array_equal(g[4], w[4]), "%s: record %d has data %r, expected %r", what, k, g[4], w[4])
        else:
            s = np.abs(w[4]).max() if np.size(w[4]) else 0
            require((np.abs(g[4] - w[4]) <= tol * max(s, 1e-30)).all(), "%s: record %d differs by %r: %r, expected %r", what, k, np.abs(g[4] - w[4]).max(), g[4], w[4])


CAL = '''
import aipy as a, numpy as np
SPEC = %r
BEAMS = %r
SRCS = %r
def get_aa(freqs):
    ants = []
    for k, s in enumerate(SPEC):
        b = BEAMS[k %% len(BEAMS)]
        beam = a.fit.Beam(freqs) if b is None else a.fit.Beam2DGaussian(freqs, xwidth=b[0], ywidth=b[1])
        ants.append(a.fit.Antenna(*s["pos"], beam=beam, phsoff=list(s["phsoff"]), bp_r=list(s["bp_r"]), bp_i=list(s["bp_i"]), amp=s["amp"]))
    return a.fit.AntennaArray(("38:25", "-79:51"), ants)
def get_catalog(srcs=None, cutoff=None, catalogs=[]):
    out = []
    for name, ra, dec, jys, index in SRCS:
        if srcs is None or name in [str(s) for s in srcs]:
            out.append(a.fit.RadioFixedBody(ra, dec, name=name, jys=jys, index=index, mfreq=.15, epoch=36525.0))
    return a.fit.SrcCatalog(out)
'''


@st.composite
def calspec(draw):
    return {"seed": draw(gen.seeds), "beams": draw(st.sampled_from([[None], [None], [[.6, .9]], [[.5, .7], [.8, .4], None]])), "nsrc": draw(st.integers(1, 4))}


def cal(c, nant, cwd, lst=None):
    """Write a calibration module; -> (its name, antennas, beams, sources)."""
    r = gen.rng(c["seed"])
    spec = [{"pos": [float(x) for x in r.normal(size=3) * 40], "phsoff": [float(r.normal() * 5), float(r.normal())], "bp_r": [float(1 + .2 * r.normal())], "bp_i": [float(.3 * r.normal())], "amp": float(r.uniform(.3, 3))} for _ in range(nant)]
    srcs = [("s%d" % k, float(r.uniform(0, 6.28)) if lst is None else float((lst + r.uniform(-.8, .8)) % 6.28), float(r.uniform(-.3 if lst is not None else -1.5, 1.4)), float(r.uniform(1, 100)), float(r.choice([0, -.7, -1.2]))) for k in range(c["nsrc"])]
    name = "vcal_%d_%d" % (os.getpid(), next(COUNT))
    with open(os.path.join(cwd, name + ".py"), "w") as f:
        f.write(CAL % (spec, c["beams"], srcs))
    return name, spec, [({"k": "flat"} if b is None else {"k": "gauss", "w": b}) for b in c["beams"]], srcs


def load(name, cwd):
    """The calibration module itself, for its objects."""
    ns = {"__name__": name}
    with open(os.path.join(cwd, name + ".py")) as f:
        exec(f.read(), ns)
    return ns
