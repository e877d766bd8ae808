"""C18: nothing derived goes stale."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, arr

TECHNIQUE = "stateful property-based testing: histories of changes to an array and a catalog, each observation compared with objects built afresh in the same state"
RULE = ("cases: arrays of 2-3 amp or fit antennas with own or shared beams and a catalog of fixed and moving sources; histories of up to 14 "
        "channel selections (lists, arrays, None), times (Julian or ephem dates), places, parameters of antennas, beams and sources, pointings, "
        "polarisations and observations; oracle: the same observation on new objects built from a model of the state; non-trivial: two or "
        "more observations with a change between them")

NUM = gen.fl(-3, 3)


@st.composite
def op(draw, n, nb):
    k = draw(st.sampled_from(["chans", "chans", "jd", "jd", "eph", "place", "ant", "ant", "beam", "src", "src", "ptg", "pol", "obs", "obs", "obs", "obs", "antchans"]))
    if k == "chans":
        return [k, draw(st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=4))), draw(st.booleans())]
    if k == "antchans":
        return [k, draw(st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=4)))]
    if k in ("jd", "eph"):
        return [k, draw(arr.JD)]
    if k == "place":
        return [k, draw(arr.LAT), draw(arr.LON), draw(arr.JD)]
    if k == "ant":
        v = {}
        for p in draw(st.lists(st.sampled_from(["x", "y", "z", "dly", "off", "phsoff", "bp_r", "bp_i", "amp"]), min_size=1, max_size=3, unique=True)):
            v[p] = draw(st.lists(NUM, min_size=2, max_size=3)) if p == "phsoff" else draw(st.lists(NUM, min_size=1, max_size=3)) if p[:2] == "bp" else draw(NUM)
        return [k, draw(st.integers(0, n - 1)), v, draw(st.booleans())]
    if k == "beam":
        return [k, draw(st.integers(0, n - 1)), draw(gen.seeds)]
    if k == "src":
        return [k, draw(st.integers(0, 2)), draw(st.dictionaries(st.sampled_from(["jys", "index", "a1", "a2", "th", "dra", "ddec", "ra", "dec", "mfreq"]), gen.fl(0, .01), min_size=1, max_size=3))]
    if k == "ptg":
        return [k, draw(st.integers(0, n - 1)), draw(gen.fl(-3, 3)), draw(gen.fl(.3, 1.57)), draw(gen.fl(-3, 3))]
    if k == "pol":
        return [k, draw(st.sampled_from(["xx", "xy", "yx", "yy"]))]
    return ["obs", draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))]


@st.composite
def case(draw):
    n = draw(st.integers(2, 3))
    nb = draw(st.sampled_from([1, n]))
    return {"mod": draw(st.sampled_from(["fit", "fit", "amp"])), "loc": draw(arr.location()), "jd": draw(arr.JD), "f": {"n": 6, "f0": draw(gen.fl(.05, .2)), "df": .004},
            "ants": [draw(arr.ant_spec()) for _ in range(n)], "beams": [draw(arr.beam_spec()) for _ in range(nb)], "seed": draw(gen.seeds),
            "ops": [draw(st.sampled_from([["obs", 0, 1], ["obs", 1, 0]]))] + draw(st.lists(op(n, nb), min_size=1, max_size=14)) + [["obs", draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))]], "special": draw(st.sampled_from(["Sun", "Jupiter"]))}


def mk_sources(mod, srcs):
    out = []
    for s in srcs:
        kw = {k: s[k] for k in ("jys", "index", "mfreq")}
        kw.update(ionref=(s["dra"], s["ddec"]), srcshape=(s["a1"], s["a2"], s["th"]))
        if s["name"][0].isupper():
            out.append(mod.RadioSpecial(s["name"], **kw))
        else:
            out.append(mod.RadioFixedBody(s["ra"], s["dec"], name=s["name"], **kw))
    return mod.SrcCatalog(out)


def build(mod, S):
    beams = [arr.mkbeam(mod, b, S["freqs"]) for b in S["beams"]]
    ants = [arr.antenna(mod, a, beams[k % len(beams)]) for k, a in enumerate(S["ants"])]
    aa = mod.AntennaArray(S["loc"], ants)
    if S["chans"] is not None:
        aa.select_chans(np.array(S["chans"]))
    aa.set_active_pol(S["pol"])
    if S["jd"] is not None:
        aa.set_jultime(S["jd"])
    return aa, mk_sources(mod, S["srcs"])


def observe(aa, cat, i, j, S):
    """everything derived, by the usual sequence of calls"""
    names = [s["name"] for s in S["srcs"]]
    out = {"afreqs": np.array(aa.get_afreqs()), "passband": np.array(aa.passband(i, j)), "offset": np.array(aa.get_phs_offset(i, j)), "zenith": np.array(aa.gen_uvw(i, j)),
           "phase": np.array(aa.gen_phs("z", i, j))}
    for k in "rze":
        out["baseline " + k] = np.array(aa.get_baseline(i, j, k))
    top = np.array([[.1, .5, -.3], [.2, -.4, .6], [0., 0., 0.]])
    top[2] = np.sqrt(1 - top[0] ** 2 - top[1] ** 2)
    for p in "xy":
        out["beam " + p] = np.array(aa[i].bm_response(top, pol=p))
    cat.compute(aa)
    out["crds eq"] = cat.get_crds("eq", ncrd=3, srcs=names)
    out["crds top"] = cat.get_crds("top", ncrd=3, srcs=names)
    out["radec"] = cat.get_crds("eq", ncrd=2, srcs=names)
    out["azalt"] = cat.get_crds("top", ncrd=2, srcs=names)
    out["jys"] = cat.get_jys(srcs=names)
    for s in names:
        if cat[s].alt > 0:
            out["phase to " + s] = np.array(aa.gen_phs(cat[s], i, j, mfreq=cat[s].mfreq, resolve_src=True))
            out["uvw to " + s] = np.array(aa.gen_uvw(i, j, src=cat[s]))
    aa.sim_cache(out["crds eq"], out["jys"], mfreqs=cat.get("mfreq", srcs=names), ionrefs=cat.get("ionref", srcs=names), srcshapes=cat.get("srcshape", srcs=names))
    for a, b in ((i, j), (j, i), (i, i)):
        out["sim %d %d" % (a, b)] = np.array(aa.sim(a, b))
    return out


def history(c, rec):
    import aipy
    mod = getattr(aipy, c["mod"])
    r = gen.rng(c["seed"])
    fq = arr.mkfreqs(c["f"])
    beams = []
    for b in c["beams"]:
        b = dict(b)
        if b["k"] == "poly":
            b["coefs"] = [float(x) for x in arr.poly_coefs(b).flatten()]
        beams.append(b)
    S = {"freqs": fq, "beams": beams, "ants": [arr.mkant(a) for a in c["ants"]], "loc": arr.loc(c["loc"]), "jd": c["jd"], "chans": None, "pol": "xx", "srcs": []}
    for nm in ("a", "b", c["special"]):
        S["srcs"].append({"name": nm, "ra": float(r.uniform(0, 6)), "dec": float(r.uniform(-1.2, 1.2)), "jys": float(r.uniform(1, 10)), "index": float(r.normal()), "mfreq": .15, "dra": 0., "ddec": 0., "a1": 0., "a2": 0., "th": 0.})
    aa, cat = call("building the array", build, mod, S)
    nobs = 0
    since = []
    for o in c["ops"]:
        k = o[0]
        if k == "chans":
            ch = o[1]
            call("select_chans(%r)" % (ch,), aa.select_chans, *([] if ch is None and o[2] else [ch if ch is None else np.array(ch) if o[2] else list(ch)]))
            S["chans"] = ch
        elif k == "antchans":
            for a in aa:
                call("Antenna.select_chans", a.select_chans, *([] if o[1] is None else [np.array(o[1])]))
            # a beam may be shared: every antenna is up to date only after update()
            aa.update()
            S["chans"] = o[1]
        elif k == "jd":
            aa.set_jultime(o[1])
            S["jd"] = o[1]
        elif k == "eph":
            aa.set_ephemtime(o[1] - 2415020.)
            S["jd"] = o[1]
        elif k == "place":
            aa.lat, aa.long = o[1], o[2]
            aa.update()
            aa.set_jultime(o[3])
            S["loc"], S["jd"] = (o[1], o[2]) + S["loc"][2:], o[3]
        elif k == "ant":
            m, v = S["ants"][o[1]], o[2]
            if c["mod"] == "amp":
                # no set_params: attributes, then update()
                v = {p: x for p, x in v.items() if p in ("bp_r", "bp_i", "amp")}
                for p, x in v.items():
                    setattr(aa[o[1]], p, x)
                call("update", aa.update) if o[3] else call("update", aa[o[1]].update)
            else:
                call("set_params", aa.set_params, {str(o[1]): v}) if o[3] else call("set_params", aa[o[1]].set_params, dict(v))
            for q, p in enumerate("xyz"):
                if p in v:
                    m["pos"][q] = v[p]
            po = list(m["phsoff"])
            if "dly" in v:
                po[-2] = v["dly"]
            if "off" in v:
                po[-1] = v["off"]
            m["phsoff"] = list(v.get("phsoff", po))
            for p in ("bp_r", "bp_i", "amp"):
                m[p] = v.get(p, m[p])
        elif k == "beam":
            b = S["beams"][o[1] % len(S["beams"])]
            q = gen.rng(o[2])
            if b["k"] == "gauss":
                b["w"] = [float(q.uniform(.1, 2)), float(q.uniform(.1, 2))]
                new = {"bm_xwidth": b["w"][0], "bm_ywidth": b["w"][1]}
            elif b["k"] == "poly":
                b["coefs"] = [float(x) for x in arr.poly_coefs({"shape": b["shape"], "seed": o[2]}).flatten()]
                new = {"bm_poly": b["coefs"] if o[2] % 2 else np.array(b["coefs"])}
            else:
                continue
            if c["mod"] == "fit":
                call("set_params", aa.set_params, {str(o[1]): new})
            elif b["k"] == "gauss":
                aa[o[1]].beam.xwidth, aa[o[1]].beam.ywidth = b["w"]
            else:
                aa[o[1]].beam.poly = np.array(b["coefs"]).reshape(b["shape"])
                call("update", aa[o[1]].beam.update)
        elif k == "src":
            s = S["srcs"][o[1]]
            v = {p: x for p, x in o[2].items() if not (s["name"][0].isupper() and p in ("ra", "dec", "mfreq"))}
            if "mfreq" in v:
                v["mfreq"] += .1
            if c["mod"] == "fit":
                call("set_params", cat.set_params, {s["name"]: v})
            else:
                v = {p: x for p, x in v.items() if p in ("jys", "index")}
                for p, x in v.items():
                    setattr(cat[s["name"]], {"jys": "_jys"}.get(p, p), x)
            s.update(v)
        elif k == "ptg":
            aa[o[1]].set_pointing(*o[2:5])
            S["ants"][o[1]]["ptg"] = tuple(o[2:5])
        elif k == "pol":
            aa.set_active_pol(o[1])
            S["pol"] = o[1]
        else:
            got = call("observing", observe, aa, cat, o[1], o[2], S)
            a2, c2 = call("building the array", build, mod, S)
            want = call("observing", observe, a2, c2, o[1], o[2], S)
            require(set(got) == set(want), "after %r: %r", since, sorted(set(got) ^ set(want)))
            for q in want:
                require(np.shape(got[q]) == np.shape(want[q]) and np.allclose(got[q], want[q], rtol=1e-9, atol=1e-10 * (np.abs(want[q]).max() if np.size(want[q]) else 0)), "after %r: %s is %r, of a new array %r", since, q, got[q], want[q])
            nobs += 1
        since.append(k)
    kinds = [o[0] for o in c["ops"]]
    rec.nt(any(k != "obs" for k in kinds))
    rec.event("%d observations" % nobs)
    for k in set(kinds):
        rec.event(k)


def subs():
    return [Sub("history", case(), history, quick=900, thorough=30000)]
