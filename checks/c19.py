"""C19: parameters of antennas, beams and sources."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, arr

TECHNIQUE = "model-based property testing: histories of set_params on arrays and catalogs against a dictionary model; round trip of flatten/reconstruct"
RULE = ("cases: arrays of fit and pol antennas built with shared, default or own settings, catalogs of fixed and moving sources, nested "
        "parameter dictionaries with scalars, lists of 0 to 5, tuples and arrays, histories of 1-8 set_params on any subset with unknown names among "
        "them; oracle: a dictionary of what was set, for every object after every step, and caller's arguments unchanged; non-trivial: "
        "at least two objects of which some were not set, or a list parameter")

LISTS = st.lists(gen.fl(-50, 50), min_size=1, max_size=4)
NUM = gen.fl(-50, 50)


@st.composite
def setting(draw, nants, beams):
    d = {}
    for k in draw(st.lists(st.integers(0, nants - 1), min_size=1, max_size=nants, unique=True)):
        names = draw(st.lists(st.sampled_from(["x", "y", "z", "dly", "off", "phsoff", "bp_r", "bp_i", "amp", "bm", "junk"]), min_size=1, max_size=5, unique=True))
        v = {}
        for nm in names:
            if nm == "phsoff":
                v[nm] = draw(st.lists(NUM, min_size=2, max_size=4))
            elif nm in ("bp_r", "bp_i"):
                v[nm] = draw(LISTS)
            elif nm == "bm":
                b = beams[k % len(beams)]
                if b["k"] == "gauss":
                    v["bm_xwidth"] = draw(gen.fl(.1, 2.))
                    if draw(st.booleans()):
                        v["bm_ywidth"] = draw(gen.fl(.1, 2.))
                elif b["k"] == "poly":
                    n = b["shape"][0] * b["shape"][1]
                    v["bm_poly"] = draw(st.lists(gen.fl(.1, 2.), min_size=n, max_size=n))
            else:
                v[nm] = draw(NUM)
        d[str(k)] = v
    if draw(st.booleans()):
        d[draw(st.sampled_from(["99", "nobody"]))] = {"x": 1.}
    return d


@st.composite
def antcase(draw):
    n = draw(st.integers(2, 4))
    own = draw(st.booleans())
    beams = [draw(arr.beam_spec(("flat", "gauss", "gauss", "poly", "poly"))) for _ in range(n if own else 1)]
    return {"mod": "fit", "n": n, "beams": beams, "build": draw(st.sampled_from(["default", "shared", "own", "array"])), "seed": draw(gen.seeds),
            "ops": draw(st.lists(setting(n, beams), min_size=1, max_size=6)), "form": draw(st.sampled_from(["list", "tuple", "array"])), "poll": draw(st.integers(0, 3))}


def form(c, v):
    if isinstance(v, list):
        return {"list": list, "tuple": tuple, "array": np.array}[c["form"]](v)
    return v


def same(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a, float), np.asarray(b, float))


def snapshot(aa):
    """All parameters, and what they are now."""
    g = call("get_params", aa.get_params)
    return g, {a: {p: np.array(v) for p, v in prms.items()} for a, prms in g.items()}


def unchanged(saved):
    g, want = saved
    return set(g) == set(want) and all(set(g[a]) == set(want[a]) and all(np.shape(g[a][p]) == want[a][p].shape and np.array_equal(g[a][p], want[a][p]) for p in g[a]) for a in g)


def read(c, aa, model, what):
    g = call("get_params", aa.get_params) if c["poll"] % 2 else call("get_params", aa.get_params, {"*": "*"})
    require(set(g) == {str(k) for k in range(len(model))}, "%s: get_params names %r", what, sorted(g))
    for k, m in enumerate(model):
        got = g[str(k)]
        require(set(got) == set(m), "%s: antenna %d has parameters %r expected %r", what, k, sorted(got), sorted(m))
        for p in m:
            require(same(got[p], m[p]), "%s: antenna %d: %s is %r expected %r", what, k, p, got[p], m[p])


def beam_model(b):
    if b["k"] == "gauss":
        return {"bm_xwidth": b["w"][0], "bm_ywidth": b["w"][1]}
    if b["k"] == "poly":
        return {"bm_poly": list(arr.poly_coefs(b).flatten())}
    return {}


def scribble(g):
    """Write over every list and array of the parameters that were handed out."""
    for prms in g.values():
        for v in prms.values():
            if isinstance(v, (list, np.ndarray)) and np.shape(v):
                for q in range(len(v)):
                    v[q] = v[q] + 3


def antennas(c, rec):
    import aipy
    mod = aipy.fit
    n, r = c["n"], gen.rng(c["seed"])
    fq = np.array([.12, .13, .15])
    beams = [arr.mkbeam(mod, b, fq) for b in c["beams"]]
    bm = [beam_model(b) for b in c["beams"]]
    po, br, bi = [[1., .25], [1., 2.], [.5]] if c["build"] != "array" else [np.array([1., .25]), np.array([1., 2.]), np.array([.5])]
    pos = r.normal(size=(n, 3)) * 30
    ants, model = [], []
    for k in range(n):
        b = beams[k % len(beams)]
        if c["build"] == "default":
            a, m = mod.Antenna(*pos[k], beam=b), {"phsoff": [0., 0.], "bp_r": [1], "bp_i": [0], "amp": 1}
        else:
            p = (po, br, bi) if c["build"] in ("shared", "array") else (list(po), list(br), list(bi))
            a, m = mod.Antenna(*pos[k], beam=b, phsoff=p[0], bp_r=p[1], bp_i=p[2], amp=2.5), {"phsoff": [1., .25], "bp_r": [1., 2.], "bp_i": [.5], "amp": 2.5}
        m.update(x=pos[k][0], y=pos[k][1], z=pos[k][2], dly=m["phsoff"][-2], off=m["phsoff"][-1])
        ants.append(a)
        model.append(m)
    aa = mod.AntennaArray((.3, .4), ants)
    aa.set_jultime(2455000.25)

    def full():
        return [dict(m, **bm[k % len(bm)]) for k, m in enumerate(model)]
    read(c, aa, full(), "as built")
    saved = snapshot(aa)
    touched = set()
    for d in c["ops"]:
        arg = {a: {p: form(c, v) for p, v in s.items()} for a, s in d.items()}
        keep = {a: {p: np.array(v) for p, v in s.items()} for a, s in arg.items()}
        done = call("set_params", aa.set_params, arg)
        if any(a in {str(k) for k in range(n)} and set(s) & {"x", "y", "z", "dly", "off", "phsoff", "bp_r", "bp_i", "amp"} for a, s in arg.items()):
            require(done, "set_params(%r) says that nothing was set", d)
        elif not any(a in {str(k) for k in range(n)} and any(p.startswith("bm_") for p in s) for a, s in arg.items()):
            require(not done, "set_params(%r) says that something was set", d)
        for a, s in arg.items():
            for p, v in s.items():
                require(np.array_equal(v, keep[a][p]) and np.shape(v) == keep[a][p].shape, "set_params changed its argument %s of %s from %r to %r", p, a, keep[a][p], v)
        for a, s in sorted(d.items()):          # antennas are set in order, which matters for a beam they share
            if a not in {str(k) for k in range(n)}:
                continue
            k = int(a)
            touched.add(k)
            m = model[k]
            for p, v in s.items():
                if p.startswith("bm_"):
                    bm[k % len(bm)][p] = v
                elif p in m and p not in ("dly", "off", "phsoff"):
                    m[p] = v
            q = list(m["phsoff"])
            if "dly" in s:
                q[-2] = s["dly"]
            if "off" in s:
                q[-1] = s["off"]
            if "phsoff" in s:
                q = list(s["phsoff"])
            m.update(phsoff=q, dly=q[-2], off=q[-1])
        read(c, aa, full(), "after set_params(%r)" % (d,))
        require(unchanged(saved), "set_params(%r) changed the parameters read before: now %r", d, saved[0])
    # what the parameters mean
    for k, m in enumerate(model):
        want = m["amp"] * (np.polyval(m["bp_r"], fq) + 1j * np.polyval(m["bp_i"], fq))
        require(np.allclose(aa[k].passband(), want, rtol=1e-10, atol=1e-10), "antenna %d: passband %r expected %r", k, aa[k].passband(), want)
        require(np.allclose(aa[k].phsoff, np.polyval(m["phsoff"], fq), rtol=1e-10, atol=1e-10), "antenna %d: phase offset %r", k, aa[k].phsoff)
        require(same(aa[k].pos, [m["x"], m["y"], m["z"]]), "antenna %d: position %r", k, aa[k].pos)
        want = arr.ref_beam(dict(c["beams"][k % len(bm)], **({"w": [bm[k % len(bm)]["bm_xwidth"], bm[k % len(bm)]["bm_ywidth"]]} if "bm_xwidth" in bm[k % len(bm)] else {"coefs": list(bm[k % len(bm)]["bm_poly"])} if "bm_poly" in bm[k % len(bm)] else {})),
                            fq, np.array([[.1, .6], [.2, -.3], [(1 - .05) ** .5, (1 - .45) ** .5]]))
        got = aa[k].beam.response(np.array([[.1, .6], [.2, -.3], [(1 - .05) ** .5, (1 - .45) ** .5]]))
        require(np.allclose(got, want, rtol=0, atol=1e-6), "antenna %d: beam response %r expected %r", k, got, want)
    # selections of parameters
    names = ["x", "amp", "phsoff", "junk", "bp_i"]
    sel = [names[(c["poll"] + q) % 5] for q in range(2)]
    g = call("get_params", aa.get_params, {"1": sel, "nobody": ["x"]})
    require(set(g) == {"1"} and set(g["1"]) == {p for p in sel if p != "junk"}, "get_params({'1': %r}) = %r", sel, g)
    g = call("get_params", aa.get_params, {"*": sel[0]})
    require(set(g) == {str(k) for k in range(n)} and all(set(v) == ({sel[0]} - {"junk"}) for v in g.values()), "get_params({'*': %r}) = %r", sel[0], g)
    m1 = full()[1]
    every = sorted(m1) + sorted({"bm_xwidth", "bm_ywidth", "bm_poly", "nothing"} - set(m1))
    sel = [every[(c["seed"] + q * 5) % len(every)] for q in range(1 + c["seed"] % 3)]
    for arg in [sel] + [[p] for p in every]:
        g = call("get_params", aa.get_params, {"1": arg})
        want = {p: m1[p] for p in arg if p in m1}
        require(set(g) == {"1"} and set(g["1"]) == set(want) and all(same(g["1"][p], want[p]) for p in want), "get_params({'1': %r}) = %r expected %r", arg, g, want)
        require(set(call("get_params", aa[1].get_params, arg)) == set(want), "get_params(%r) of an antenna = %r", arg, aa[1].get_params(arg))
    # writing back all parameters, through the fitting form, changes nothing
    g = call("get_params", aa.get_params)
    before = [aa[k].passband().copy() for k in range(n)]
    lst, key = call("flatten_prms", mod.flatten_prms, g)
    call("set_params", aa.set_params, call("reconstruct_prms", mod.reconstruct_prms, lst if c["poll"] < 2 else np.array(lst), key))
    read(c, aa, full(), "after writing all parameters back")
    for k in range(n):
        require(np.allclose(aa[k].passband(), before[k]), "writing all parameters back changed the passband of antenna %d", k)
    # what was read belongs to the reader
    scribble(call("get_params", aa.get_params))
    read(c, aa, full(), "after editing the parameters that were read")
    call("update", aa.update)
    for k in range(n):
        require(np.allclose(aa[k].passband(), before[k]), "editing the parameters that were read changed the passband of antenna %d", k)
    rec.nt(len(touched) < n or any(isinstance(v, list) for d in c["ops"] for s in d.values() for v in s.values()))


@st.composite
def srccase(draw):
    srcs = draw(st.lists(st.sampled_from(["a", "b", "c", "Sun", "Jupiter", "h1", "h2"]), min_size=2, max_size=5, unique=True))
    ops = draw(st.lists(st.dictionaries(st.sampled_from(srcs + ["nobody"]), st.dictionaries(
        st.sampled_from(["jys", "index", "a1", "a2", "th", "dra", "ddec", "ra", "dec", "mfreq", "junk"]), gen.fl(.01, 1.), min_size=1, max_size=6), min_size=1, max_size=4), min_size=1, max_size=6))
    for d in ops:
        for s in d:
            if s[0] == "h" and "index" in d[s] and draw(st.booleans()):
                d[s]["index"] = draw(st.lists(gen.fl(-1., 1.), min_size=1, max_size=3))
    return {"srcs": srcs, "ops": ops, "shared": draw(st.booleans()), "seed": draw(gen.seeds), "sel": draw(st.lists(st.sampled_from(["jys", "index", "a1", "junk", "ra"]), min_size=1, max_size=3))}


def curve(m, fq):
    """Flux of a source of parameters m, a dictionary."""
    if type(m["index"]) is not list:
        return m["jys"] * (fq / m.get("mfreq", .12)) ** m["index"]
    B, C, D = (m["index"] + [0., 0.])[:3]
    X = np.log10(fq / m["mfreq"])
    return m["jys"] * 10 ** (B * X + C * np.exp(D * X))


def sources(c, rec):
    from aipy import fit
    import aipy._src.helm as helm
    r = gen.rng(c["seed"])
    ion, shp = (.1, .2), [.01, .02, .3]
    cat, model = [], {}
    for s in c["srcs"]:
        kw = {"jys": float(r.uniform(1, 9)), "index": float(r.normal())}
        m = dict(kw, a1=0., a2=0., th=0., dra=0., ddec=0.)
        if c["shared"]:
            kw.update(ionref=ion, srcshape=shp)
            m.update(a1=.01, a2=.02, th=.3, dra=.1, ddec=.2)
        if s[0] == "h":
            # the spectrum of a Helmboldt source is a curve of one to three indices
            kw["index"] = m["index"] = [float(x) for x in r.normal(size=int(r.integers(1, 4)))] if r.integers(3) else kw["index"]
            kw["index"] = list(m["index"]) if type(m["index"]) is list else m["index"]
            ra, dec = float(r.uniform(0, 6)), float(r.uniform(-1, 1))
            m.update(ra=ra, dec=dec, mfreq=.12)
            cat.append(helm.HelmboldtFixedBody(ra, dec, name=s, mfreq=.12, **kw))
        elif s[0].isupper():
            cat.append(fit.RadioSpecial(s, mfreq=.12, **kw))
        else:
            ra, dec = float(r.uniform(0, 6)), float(r.uniform(-1, 1))
            m.update(ra=ra, dec=dec, mfreq=.12)
            cat.append(fit.RadioFixedBody(ra, dec, name=s, mfreq=.12, **kw))
        model[s] = m
    cat = call("SrcCatalog", fit.SrcCatalog, cat) if c["seed"] % 2 else call("SrcCatalog", fit.SrcCatalog, *cat)
    fq = np.array([.1, .15, .2])

    def look(what):
        g = call("get_params", cat.get_params)
        require(set(g) == set(model), "%s: get_params names %r", what, sorted(g))
        for s in model:
            require(set(g[s]) == set(model[s]), "%s: %s has parameters %r", what, s, sorted(g[s]))
            for p in model[s]:
                require(np.shape(g[s][p]) == np.shape(model[s][p]) and np.all(np.abs(np.subtract(g[s][p], model[s][p])) < 1e-12), "%s: %s of %s is %r expected %r", what, p, s, g[s][p], model[s][p])
        call("update_jys", cat.update_jys, fq)
        names = sorted(model)
        j = call("get_jys", cat.get_jys, srcs=names)
        want = np.array([curve(model[s], fq) for s in names])
        require(np.shape(j) == want.shape and np.allclose(j, want, rtol=1e-10), "%s: fluxes %r expected %r", what, j, want)
        want = np.array([[model[s][p] for s in names] for p in ("dra", "ddec")])
        require(np.allclose(cat.get("ionref", srcs=names), want), "%s: refraction %r expected %r", what, cat.get("ionref", srcs=names), want)
        want = np.array([[model[s][p] for s in names] for p in ("a1", "a2", "th")])
        require(np.allclose(cat.get("srcshape", srcs=names), want), "%s: shapes %r expected %r", what, cat.get("srcshape", srcs=names), want)
    look("as built")
    for d in c["ops"]:
        keep = {s: {p: list(x) if type(x) is list else x for p, x in v.items()} for s, v in d.items()}
        call("set_params", cat.set_params, d)
        require(d == keep, "set_params changed its argument")
        for s, v in d.items():
            if s in model:
                model[s].update({p: x for p, x in v.items() if p in model[s]})
        look("after set_params(%r)" % (d,))
    require((ion, shp) == ((.1, .2), [.01, .02, .3]), "a source changed the arguments it was built with: %r %r", ion, shp)
    s = c["srcs"][0]
    for p in sorted(model[s]) + ["junk", "bm_xwidth"]:
        g = call("get_params", cat.get_params, {s: [p]})
        require(set(g) == {s} and (same(g[s].get(p), model[s][p]) if p in model[s] else not g[s]) and len(g[s]) == (p in model[s]), "get_params({%r: [%r]}) = %r expected %r", s, p, g, model[s].get(p))
    g = call("get_params", cat.get_params, {s: c["sel"], "nobody": ["jys"]})
    require(set(g) == {s} and set(g[s]) == {p for p in c["sel"] if p in model[s]}, "get_params({%r: %r}) = %r", s, c["sel"], g)
    lst, key = call("flatten_prms", fit.flatten_prms, cat.get_params())
    cat.set_params(call("reconstruct_prms", fit.reconstruct_prms, lst, key))
    look("after writing all parameters back")
    rec.nt(len(model) > 1)


LEAF = st.one_of(NUM, NUM, st.integers(-5, 5), st.lists(NUM, max_size=5), st.tuples(NUM), st.tuples(NUM, NUM))
TREE = st.recursive(LEAF, lambda t: st.dictionaries(st.text("abcxyz019_", min_size=1, max_size=5), t, max_size=5), max_leaves=20)


@st.composite
def trees(draw):
    return {"t": draw(st.dictionaries(st.text("abcxyz019_", min_size=1, max_size=5), TREE, max_size=6)), "array": draw(st.sampled_from([False, False, True])), "k": draw(st.integers(0, 100))}


def leaves(t, path=()):
    for k, v in t.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def listed(t):
    out = []
    for k in sorted(t):
        v = t[k]
        if isinstance(v, dict):
            out += [k] + listed(v) if v else []
        elif not (isinstance(v, list) and not v):
            out += [k] + [float(x) for x in np.ravel(v)]
    return out


def num(w):
    try:
        return float(w)
    except ValueError:
        return None


def flatten(c, rec):
    from aipy import fit

    def conv(t):
        return {k: conv(v) if isinstance(v, dict) else np.array(v, float) if c["array"] and isinstance(v, (list, tuple)) else v for k, v in t.items()}
    t = conv(c["t"])
    want = dict(leaves(t))
    lst, key = call("flatten_prms", fit.flatten_prms, t)
    import contextlib
    import io
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        call("print_params", fit.print_params, t)
    words = out.getvalue().replace("[", " ").replace("]", " ").replace(",", " ").replace("np.float64(", " ").replace(")", " ").split()
    # everything is named and listed, in order, but what is empty
    exp = listed(t)
    require(len(words) == len(exp) and all(w == e if isinstance(e, str) else num(w) == e for w, e in zip(words, exp)), "print_params(%r) prints %r, expected %r", t, words, exp)
    n = sum(np.size(v) for v in want.values())
    require(len(lst) == n, "flatten_prms lists %d values of %d", len(lst), n)
    require(all(np.ndim(x) == 0 for x in lst), "flatten_prms lists %r", lst)
    got = dict(leaves(call("reconstruct_prms", fit.reconstruct_prms, lst, key)))
    require(set(got) == set(want), "reconstruct_prms(flatten_prms(x)) has %r, x has %r", sorted(got), sorted(want))
    for k in want:
        require(np.shape(got[k]) == np.shape(want[k]) and np.array_equal(got[k], want[k]), "reconstruct_prms(flatten_prms(x)): %s is %r, was %r", "/".join(k), got[k], want[k])
    if n:
        # one value of the list belongs to one place
        new = list(lst)
        k = c["k"] % n
        new[k] = 1000.5
        got2 = dict(leaves(call("reconstruct_prms", fit.reconstruct_prms, np.array(new, float) if c["k"] % 2 else new, key)))
        diff = sum(int(np.sum(np.atleast_1d(got2[p]) != np.atleast_1d(got[p]))) for p in got)
        require(diff == 1, "changing one value of the list changed %d parameters", diff)
        require(sum(int(np.sum(np.atleast_1d(v) == 1000.5)) for v in got2.values()) == 1, "a changed value was lost")
    rec.nt(n > 1 and any(isinstance(v, dict) for v in t.values()))


PP = ["phsoff", "bp_r", "bp_i", "amp", "dly", "off"]


@st.composite
def polcase(draw):
    n = draw(st.integers(2, 3))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        d = {}
        for k in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2, unique=True)):
            v = {}
            for p in draw(st.lists(st.sampled_from(PP), min_size=1, max_size=4, unique=True)):
                for q in draw(st.sampled_from(["x", "y", "xy", "z"])):
                    v[p + "_" + q] = draw(st.lists(NUM, min_size=2, max_size=3)) if p == "phsoff" else draw(LISTS) if p.startswith("bp") else draw(NUM)
            if draw(st.booleans()):
                v["y"] = draw(NUM)
            d[str(k)] = v
        ops.append(d)
    return {"n": n, "ops": ops, "shared": draw(st.booleans()), "form": draw(st.sampled_from(["list", "tuple", "array"])), "poll": draw(st.integers(0, 3)), "pol": draw(st.sampled_from(["xx", "xy", "yx", "yy"]))}


def polarized(c, rec):
    from aipy import pol
    fq = np.array([.1, .14])
    n = c["n"]
    beam = pol.fit.Beam(fq)

    def kw():
        return {"phsoff": {"x": [1., .25], "y": [2., .5]}, "bp_r": {"x": [1., 2.], "y": [3.]}, "bp_i": {"x": [.5], "y": [.1, .2]}, "amp": {"x": 2., "y": 3.}}
    k0 = kw()
    aa = pol.AntennaArray((.3, .4), [pol.Antenna(10. * k, 1., 2., beam=beam, **(k0 if c["shared"] else kw())) for k in range(n)])
    model = [dict(kw(), x=10. * k, y=1., z=2.) for k in range(n)]

    def full():
        out = []
        for m in model:
            f = {p: m[p] for p in "xyz"}
            for q in "xy":
                f.update({p + "_" + q: m[p][q] for p in ("phsoff", "bp_r", "bp_i", "amp")})
                f.update({"dly_" + q: m["phsoff"][q][-2], "off_" + q: m["phsoff"][q][-1]})
            out.append(f)
        return out
    read(c, aa, full(), "as built")
    saved = snapshot(aa)
    touched = set()
    for d in c["ops"]:
        call("set_params", aa.set_params, {a: {p: form(c, v) for p, v in s.items()} for a, s in d.items()})
        for a, s in d.items():
            m = model[int(a)]
            touched.add(a)
            m["y"] = s.get("y", m["y"])
            for q in "xy":
                po = list(m["phsoff"][q])
                if "dly_" + q in s:
                    po[-2] = s["dly_" + q]
                if "off_" + q in s:
                    po[-1] = s["off_" + q]
                m["phsoff"][q] = list(s.get("phsoff_" + q, po))
                for p in ("bp_r", "bp_i", "amp"):
                    m[p][q] = s.get(p + "_" + q, m[p][q])
        read(c, aa, full(), "after set_params(%r)" % (d,))
        require(unchanged(saved), "set_params(%r) changed the parameters read before: now %r", d, saved[0])
    r = gen.rng(c["poll"] + 4 * len(c["ops"]) + sum(map(len, c["ops"])))
    for f in full()[-1:]:
        every = sorted(f) + ["junk", "amp", "phsoff_q"]
        sel = [every[k] for k in r.permutation(len(every))[:r.integers(1, 5)]]
        for arg in (sel, sel[:1]):
            g = call("get_params", aa.get_params, {str(n - 1): arg})
            want = {p for p in arg if p in f}
            require(set(g) == {str(n - 1)} and set(g[str(n - 1)]) == want and all(same(g[str(n - 1)][p], f[p]) for p in want), "get_params({%r: %r}) = %r, expected %r", str(n - 1), arg, g, {p: f[p] for p in want})
        require(aa.set_params({str(n - 1): {}, "nobody": {"x": 3.}}) in (False, None, 0) and same(call("get_params", aa.get_params)[str(n - 1)].get("x"), f["x"]), "set_params of nothing has changed something")
    scribble(call("get_params", aa.get_params))
    read(c, aa, full(), "after editing the parameters that were read")
    require(k0 == kw(), "an antenna changed the settings it was built with: %r", k0)
    aa.set_active_pol(c["pol"])
    p, q = c["pol"]
    for i in range(n):
        for j in range(n):
            gi, gj = [model[k]["amp"][s] * (np.polyval(model[k]["bp_r"][s], fq) + 1j * np.polyval(model[k]["bp_i"][s], fq)) for k, s in ((i, p), (j, q))]
            require(np.allclose(aa.passband(i, j), gj * np.conj(gi), rtol=1e-9, atol=1e-9), "passband(%d,%d) in %s: %r expected %r", i, j, c["pol"], aa.passband(i, j), gj * np.conj(gi))
            want = np.polyval(model[j]["phsoff"][q], fq) - np.polyval(model[i]["phsoff"][p], fq)
            require(np.allclose(aa.get_phs_offset(i, j), want, rtol=1e-9, atol=1e-9), "phase offset (%d,%d) in %s: %r expected %r", i, j, c["pol"], aa.get_phs_offset(i, j), want)
    rec.nt(len(touched) < n)


@st.composite
def almcase(draw):
    lmax = draw(st.integers(0, 3))
    mmax = draw(st.integers(0, lmax))
    return {"lmax": lmax, "mmax": mmax, "deg": draw(st.integers(0, 3)), "seed": draw(gen.seeds), "set": draw(st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True)),
            "init": draw(st.lists(st.integers(0, 4), max_size=3, unique=True))}


def almbeam(c, rec):
    from aipy import fit
    r = gen.rng(c["seed"])
    n = sum(1 for l in range(c["lmax"] + 1) for m in range(min(l, c["mmax"]) + 1))

    def coefs():
        z = r.normal(size=n) + 1j * r.normal(size=n)
        return z
    init = {k: coefs() for k in c["init"] if k <= c["deg"]}
    fq = np.array([.12, .15, .18])
    bm = call("BeamAlm", lambda: fit.BeamAlm(fq, lmax=c["lmax"], mmax=c["mmax"], deg=c["deg"], nside=4, coeffs={k: v.copy() for k, v in init.items()}))
    model = {k: init.get(k, np.zeros(n, complex)) for k in range(c["deg"] + 1)}

    def look(what):
        g = call("get_params", bm.get_params)
        require(set(g) == {"alm%d" % k for k in model}, "%s: get_params names %r", what, sorted(g))
        for k, z in model.items():
            v = np.asarray(g["alm%d" % k])
            require(v.shape == (2 * n,) and np.allclose(v[::2] + 1j * v[1::2], z, atol=1e-12), "%s: alm%d is %r expected %r", what, k, v, z)
    look("as built")
    fresh = {}
    for k in c["set"]:
        if k <= c["deg"]:
            model[k] = coefs()
        z = model.get(k, np.zeros(n, complex))
        call("set_params", bm.set_params, {"alm%d" % k: [x for y in z for x in (y.real, y.imag)]})
        look("after setting alm%d" % k)
    other = fit.BeamAlm(fq, lmax=c["lmax"], mmax=c["mmax"], deg=c["deg"], nside=4, coeffs={k: v.copy() for k, v in model.items()})
    top = r.normal(size=(3, 9))
    top /= np.sqrt((top ** 2).sum(0))
    a, b = call("response", bm.response, top), call("response", other.response, top)
    require(np.shape(a) == (3, 9) and np.allclose(a, b, rtol=1e-9, atol=1e-9), "a beam whose coefficients were set responds %r, one built with them %r", a, b)
    bm.set_params(bm.get_params())
    require(np.allclose(bm.response(top), a, rtol=1e-9, atol=1e-9), "writing the coefficients back changed the response from %r to %r", a, bm.response(top))
    rec.nt(c["deg"] > 0)


def subs():
    return [Sub("antennas", antcase(), antennas, quick=1200, thorough=20000, weight=2), Sub("sources", srccase(), sources, quick=1000, thorough=15000),
            Sub("flatten", trees(), flatten, quick=2000, thorough=40000), Sub("polarized", polcase(), polarized, quick=800, thorough=15000),
            Sub("almbeam", almcase(), almbeam, quick=300, thorough=5000)]
