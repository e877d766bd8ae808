"""C37: calibration modules."""
import itertools
import os
import sys
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen

TECHNIQUE = "property-based testing with generated calibration modules: what loading by name returns against what the module was written to define"
RULE = ("cases: modules in the working directory, elsewhere on the path or in a package, defining an array factory, a catalogue factory, both, neither or "
        "failing, with help from a neighbouring module; arguments as frequencies or channels; names of sources, cutoffs and catalogues; non-trivial: "
        "a module that defines something")
COUNT = itertools.count()
SRCS = [["cyg"], ["crab", "cas"], ["vir", "Sun"], ["12:00_30:00"], ["cyg", "3:00:00_-20:00:00"], None]


@st.composite
def case(draw):
    return {"where": draw(st.sampled_from(["cwd", "cwd", "path", "package"])), "aa": draw(st.sampled_from(["yes", "yes", "no", "raise", "alias"])), "broken": draw(st.sampled_from([None] * 5 + ["NameError", "ValueError", "SyntaxError", "AttributeError", "KeyError", "OSError"])),
            "cat": draw(st.sampled_from(["yes", "no", "no", "pass", "raise"])), "n": draw(st.integers(1, 4)), "help": draw(st.booleans()), "nchan": draw(st.integers(1, 40)),
            "sdf": draw(gen.fl(1e-5, 1e-2)), "sfreq": draw(gen.fl(.03, .3)), "form": draw(st.sampled_from(["freqs", "chans", "chans"])), "srcs": draw(st.sampled_from(SRCS[:5])),
            "cutoff": draw(st.sampled_from([None, [100., .15], [1e5, .15]])), "cats": draw(st.sampled_from([None, ["misc"], ["helm"], ["misc", "helm"], []])), "missing": draw(st.booleans()), "seed": draw(gen.seeds)}


AA = '''
def get_aa(freqs):
    global LAST
    LAST = freqs
    beam = a.fit.Beam(freqs)
    aa = a.fit.AntennaArray(("45:00", "90:00"), [a.fit.Antenna(SCALE * k, k, 0, beam) for k in range(%d)])
    aa.made_by = __name__
    return aa
'''
CAT = '''
def get_catalog(srcs=None, cutoff=None, catalogs=None):
    global ARGS
    ARGS = (srcs, cutoff, catalogs)
    cat = a.fit.SrcCatalog([a.fit.RadioFixedBody("1:00", "20:00", name="mine%d")])
    cat.made_by = __name__
    return cat
'''


def module(c, root, name):
    s = "import aipy as a, numpy as np\n"
    if c["help"]:
        with open(os.path.join(root, name + "_help.py"), "w") as f:
            f.write("SCALE = 7.5\n")
        s += "from %s%s_help import SCALE\n" % ("." if c["where"] == "package" else "", name)
    else:
        s += "SCALE = 7.5\n"
    if c["aa"] in ("yes", "alias"):
        s += AA % c["n"]
        if c["aa"] == "alias":
            s += "make = get_aa\ndel get_aa\nget_aa = lambda freqs: make(freqs)\n"
    elif c["aa"] == "raise":
        s += "def get_aa(freqs):\n    raise KeyError('no such antenna')\n"
    if c["cat"] == "yes":
        s += CAT % c["n"]
    elif c["cat"] == "pass":
        s += "from aipy.src import get_catalog\n"
    elif c["cat"] == "raise":
        s += "def get_catalog(**k):\n    raise ZeroDivisionError('broken')\n"
    if c.get("broken"):
        s += {"NameError": "y = no_such_name\n", "SyntaxError": "y = = 3\n", "AttributeError": "y = a.no_such_module\n"}.get(c["broken"], "raise %s('broken')\n" % c["broken"])
    with open(os.path.join(root, name + ".py"), "w") as f:
        f.write(s)


def prm(cat):
    return sorted((k, type(cat[k]).__name__, float(np.ravel(cat[k]._jys)[0]), str(getattr(cat[k], "_ra", "")), str(getattr(cat[k], "_dec", ""))) for k in cat.keys())


def load(c, rec):
    from aipy import cal, src
    import importlib
    old, path, mods = os.getcwd(), list(sys.path), set(sys.modules)
    work = rec.tmp()
    try:
        name = "vcal_%d_%d" % (os.getpid(), next(COUNT))
        os.chdir(work)
        root, key = work, name
        if c["where"] == "path":
            root = os.path.join(work, "lib")
            os.mkdir(root)
            sys.path.append(root)
        elif c["where"] == "package":
            root = os.path.join(work, name + "_pkg")
            os.mkdir(root)
            open(os.path.join(root, "__init__.py"), "w").close()
            key = "%s_pkg.%s" % (name, name)
        module(c, root, name)
        importlib.invalidate_caches()
        rec.nt(c["aa"] == "yes" or c["cat"] == "yes")
        rec.event("aa %s, cat %s" % (c["aa"], c["cat"]))
        fq = c["sfreq"] + c["sdf"] * np.arange(c["nchan"])
        got = call("get_freqs", cal.get_freqs, c["sdf"], c["sfreq"], c["nchan"])
        require(np.shape(got) == fq.shape and np.allclose(got, fq, rtol=1e-13), "get_freqs(%r, %r, %r) is %r", c["sdf"], c["sfreq"], c["nchan"], got)
        if c.get("broken"):
            for f, a in ((cal.get_aa, (key, fq)), (cal.get_catalog, (key, c["srcs"]))):
                try:
                    r = f(*a)
                except Exception as e:
                    require(type(e).__name__ == c["broken"], "%s: the module's %s becomes %r", f.__name__, c["broken"], e)
                else:
                    require(False, "%s of a module that raises %s gives %r", f.__name__, c["broken"], r)
            return
        args = (key, fq) if c["form"] == "freqs" else (key, c["sdf"], c["sfreq"], c["nchan"])
        if c["cat"] == "yes" and c["seed"] % 2:
            # a catalogue may be the first thing loaded from the module
            require(getattr(call("get_catalog", cal.get_catalog, key, c["srcs"]), "made_by", None) == key, "get_catalog(%r) does not return the module's catalogue", key)
        if c["aa"] in ("yes", "alias"):
            aa = call("get_aa", cal.get_aa, *args)
            require(getattr(aa, "made_by", None) == key and len(aa) == c["n"] and aa[c["n"] - 1].pos[0] == 7.5 * (c["n"] - 1), "get_aa(%r) returns %r, not the module's array", key, aa)
            require(np.shape(aa.get_afreqs()) == fq.shape and np.allclose(aa.get_afreqs(), fq, rtol=1e-13), "the array has frequencies %r, not %r", aa.get_afreqs(), fq)
            if c["form"] == "freqs":
                require(sys.modules[key].LAST is fq, "the module does not get the frequencies it is given")
            two = call("get_aa", cal.get_aa, key, fq[:1])
            require(two is not aa and np.array_equal(two.get_afreqs(), fq[:1]) and aa.get_afreqs().size == fq.size, "loading again returns the same array")
        else:
            try:
                aa = cal.get_aa(*args)
                require(False, "a module without a working get_aa gives %r", aa)
            except KeyError:
                require(c["aa"] == "raise", "get_aa raises KeyError for a module that defines none")
            except (ImportError, AttributeError):
                require(c["aa"] == "no", "an error of the module's get_aa is replaced")
        kw = {"srcs": c["srcs"], "cutoff": c["cutoff"]}
        if c["cats"] is not None:
            kw["catalogs"] = c["cats"]
        if c["cat"] == "yes":
            cat = call("get_catalog", cal.get_catalog, key, **kw)
            require(getattr(cat, "made_by", None) == key and list(cat.keys()) == ["mine%d" % c["n"]], "get_catalog(%r) returns %r, not the module's catalogue", key, cat)
            ref = (c["srcs"], c["cutoff"], c["cats"] if c["cats"] is not None else ["helm", "misc"])
            require(tuple(sys.modules[key].ARGS) == ref, "the module's get_catalog is given %r, not %r", sys.modules[key].ARGS, ref)
            cat = call("get_catalog", cal.get_catalog, key, c["srcs"], c["cutoff"])
            require(tuple(sys.modules[key].ARGS)[:2] == ref[:2], "the module's get_catalog is given %r", sys.modules[key].ARGS)
        elif c["cat"] == "raise":
            try:
                cat = cal.get_catalog(key, **kw)
                require(False, "a catalogue whose module fails is %r", cat)
            except ZeroDivisionError:
                pass
        else:
            for k in (key, None):
                cat = call("get_catalog", cal.get_catalog, k, **kw)
                kk = dict(kw)
                kk.setdefault("catalogs", ["helm", "misc"])
                ref = src.get_catalog(**kk)
                require(prm(cat) == prm(ref), "get_catalog(%r, %r) returns %r, the default catalogue has %r", k, kw, prm(cat), prm(ref))
        if c["missing"]:
            try:
                aa = cal.get_aa(name + "_missing", fq)
                require(False, "a module that does not exist gives %r", aa)
            except ImportError:
                pass
        require(os.getcwd() == os.path.realpath(work) or os.getcwd() == work, "loading changes the working directory")
    finally:
        os.chdir(old)
        sys.path[:] = path
        for m in set(sys.modules) - mods:
            if m.startswith("vcal_"):
                del sys.modules[m]


def subs():
    return [Sub("modules", case(), load, quick=500, thorough=8000)]
