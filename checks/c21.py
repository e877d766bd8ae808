"""C21: source catalogs."""
import importlib.util

import os

import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, arr

TECHNIQUE = "property-based testing: generated catalog files and selections against an independent reading of the same tables"
RULE = ("cases: selections by name, by list and by flux cutoff at any frequency from the bundled and from generated catalogs, catalog files of "
        "all 14 formats with 0-12 rows, comments, headers and blank fields, positions and fluxes of catalogs at any place and time in requested "
        "order; oracle: tables read by byte columns, power laws, a separate horizon rotation; non-trivial: more than one source, or a "
        "selection that keeps some and drops some")
ASSUMPTIONS = ["data files of the external catalogs are not shipped: the formats are those the modules document, with generated rows"]

# module: (class, file constant, columns, frequency, scale)   columns: ra, dec, name (None: "ra_dec"), jys
FORMATS = {
    "nvss": ("NVSSCatalog", "NVSSFILE", 3, 4, 2, 7, 1.4, 1e-3), "vlss": ("VLSSCatalog", "VLSSFILE", 3, 4, 2, 5, .074, 1.),
    "four_c": ("FourCCatalog", "FOURCFILE", 0, 1, 2, 5, .178, 1.), "gbsix": ("GBSixCatalog", "GBSIXFILE", 0, 1, 18, 8, 4.85, 1e-3),
    "parkes": ("ParkesCatalog", "PARKESFILE", 0, 1, 11, 9, 2.7, 1.), "seven_c": ("SevenCCatalog", "SEVENCFILE", 0, 1, None, 5, .151, 1.),
    "six_c": ("SixCCatalog", None, 0, 1, None, 4, .151, 1.), "three_c": ("ThreeCCatalog", "THREECFILE", 0, 1, 2, 9, .159, 1.),
    "three_cr": ("ThreeCRCatalog", "THREECRFILE", 0, 1, 2, 7, .178, 1.), "txs": ("TXSCatalog", "TXSFILE", 0, 1, 2, 7, .365, 1.),
    "wenss": ("WenssCatalog", "WENSSFILE", 4, 5, 2, 9, .330, 1e-3), "culgoora": ("CulgooraCatalog", "CULGOORAFILE", 0, 1, 2, 7, .160, 1.),
    "paper": ("PAPERCatalog", "PAPERFILE", 1, 2, 3, 4, .150, 1.), "mrt": ("MRTCatalog", "MRTFILE", 1, 2, 0, 3, .150, 1.),
}


def dms(s):
    neg = s.strip().startswith("-")
    p = [abs(float(x)) for x in s.replace(":", " ").split()]
    v = sum(x / 60. ** k for k, x in enumerate(p))
    return -v if neg else v


@st.composite
def filecase(draw):
    rows = draw(st.lists(st.fixed_dictionaries({
        "ra": st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 599)), "dec": st.tuples(st.booleans(), st.integers(0, 89), st.integers(0, 59), st.integers(0, 599)),
        "jy": st.one_of(gen.fl(.01, 5000), st.integers(1, 900)), "idx": st.one_of(st.none(), gen.fl(-2, 1)), "j2": st.one_of(st.none(), gen.fl(.1, 900)), "flag": st.integers(0, 3),
        "missing": st.sampled_from([False] * 7 + [True])}), max_size=12))
    return {"fmt": draw(st.sampled_from(sorted(FORMATS))), "rows": rows, "cut": draw(gen.fl(.01, 3000.)), "fq": draw(gen.fl(.05, 5.)), "crlf": draw(st.booleans()), "pick": draw(gen.seeds)}


def fresh(name):
    """a catalog module of its own, with nothing cached"""
    import aipy
    mod = getattr(aipy._src, name)
    spec = importlib.util.spec_from_file_location("fresh_" + name, mod.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def write(c, path):
    """-> {name: (ra hours, dec degrees, jys, index, mfreq)} or None for a row that holds no flux"""
    cls, const, cra, cdec, cname, cjy, fq, scale = FORMATS[c["fmt"]]
    sep = ":" if c["fmt"] in ("paper", "mrt") else " "
    want = {}
    with open(path, "w") as f:
        if c["fmt"] == "mrt":
            f.write("a\nb\nc\nd\n")
        else:
            f.write("#\n#   VizieR\n# \t a\tb\tc\td\te\n\n" + "\t".join(["_RAJ2000"] * 20) + "\n" + "\t".join(['"h:m:s"'] * 20) + "\n" + "\t".join(["-----------"] * 20) + "\n")
        for k, r in enumerate(c["rows"]):
            ra = "%02d%s%02d%s%04.1f" % (r["ra"][0], sep, r["ra"][1], sep, r["ra"][2] / 10.)
            dec = "%s%02d%s%02d%s%04.1f" % ("+-"[r["dec"][0]], r["dec"][1], sep, r["dec"][2], sep, r["dec"][3] / 10.)
            name = "S%d" % k
            v = (dms(ra), dms(dec))
            jy = repr(r["jy"])
            if c["fmt"] == "mrt":
                f.write("%s %s %s %s 1 2\n" % (name, ra, dec, jy))
                want[name] = v + (float(jy), 0, fq)
                continue
            t = ["7"] * 20
            t[cra], t[cdec], t[cjy] = ra, dec, jy
            if cname is None:
                name = "%s_%s" % (ra.replace(" ", ":"), dec.replace(" ", ":"))
            else:
                t[cname] = "  %s " % name
            idx, mf, flux = 0, fq, float(jy)
            if c["fmt"] == "txs":
                t[10] = "     " if r["idx"] is None else repr(r["idx"])
                idx = r["idx"] or 0
            elif c["fmt"] == "parkes" and r["missing"]:
                t[cjy] = "      "
                flux = None
            elif c["fmt"] == "culgoora":
                # columns: 6 limit flag, 7 S160, 8 limit flag, 9 S80, 10 index
                t[6] = t[8] = " "
                t[9], t[10] = "  " if r["j2"] is None else repr(r["j2"]), "  "
                if r["flag"] == 0 and r["j2"] is not None:
                    t[10] = "-0.75"
                    idx = -.75
                elif r["flag"] == 1 and r["j2"] is not None:
                    t[7] = "   "
                    mf, flux = .080, r["j2"]
                elif r["flag"] == 2 and r["j2"] is not None:
                    t[6] = "<"
                    mf, flux = .080, r["j2"]
                elif r["flag"] == 3:
                    t[8] = "<"
            f.write("\t".join(t) + ("\r\n" if c["crlf"] else "\n"))
            if flux is not None:
                want[name] = v + (flux * scale, idx, mf)
        if c["fmt"] != "mrt":
            f.write("\n")
    return want


def check(cat, want, what):
    require(set(cat) == set(want), "%s: sources %r expected %r", what, sorted(cat), sorted(want))
    for s, (ra, dec, jys, idx, mf) in want.items():
        b = cat[s]
        require(b.src_name == s, "%s: source %s is named %r", what, s, b.src_name)
        require(arr.wrap(float(b._ra) - ra * np.pi / 12) < 1e-9 and abs(float(b._dec) - np.deg2rad(dec)) < 1e-9, "%s: %s at %s %s expected %r h %r deg", what, s, b._ra, b._dec, ra, dec)
        require(abs(b._jys - jys) <= 1e-9 * jys and b.index == idx and abs(b.mfreq - mf) < 1e-12, "%s: %s has %r Jy, index %r at %r GHz expected %r, %r, %r", what, s, b._jys, b.index, b.mfreq, jys, idx, mf)
        require(list(b.srcshape) == [0, 0, 0] and list(b.ionref) == [0, 0], "%s: %s has a shape %r", what, s, b.srcshape)


def files(c, rec):
    m = fresh(c["fmt"])
    cls, const, *_ = FORMATS[c["fmt"]]
    path = os.path.join(rec.tmp(), "cat.txt")
    want = write(c, path)
    cat = getattr(m, cls)()
    call("fromfile", cat.fromfile, path)
    check(cat, want, c["fmt"])
    if c["fmt"] == "culgoora":
        require(set(cat.get_metadata()) >= set(want), "metadata of %r only", sorted(cat.get_metadata()))
    if const is None:
        m.SIXCFILES[:] = [path]
    else:
        setattr(m, const, path)
    got = call("get_srcs", m.get_srcs)
    require(sorted(s.src_name for s in got) == sorted(want), "get_srcs() returned %r", [s.src_name for s in got])
    flux = {s: v[2] * (c["fq"] / v[4]) ** v[3] for s, v in want.items()}
    got = call("get_srcs by flux", m.get_srcs, cutoff=(c["cut"], c["fq"]))
    names = [s.src_name for s in got]
    exp = {s for s in flux if flux[s] > c["cut"]}
    near = {s for s in flux if abs(flux[s] / c["cut"] - 1) < 1e-9}
    require(set(names) - near == exp - near and len(set(names)) == len(names), "above %r Jy at %r GHz: %r expected %r", c["cut"], c["fq"], sorted(names), sorted(exp))
    r = gen.rng(c["pick"])
    pick = list(r.permutation(sorted(want) + ["nobody"]))[:5]
    pick = [str(s) for s in pick]
    got = call("get_srcs by name", m.get_srcs, srcs=pick)
    require([s.src_name for s in got] == [s for s in pick if s in want], "get_srcs(%r) returned %r", pick, [s.src_name for s in got])
    rec.nt(len(want) > 1)
    rec.event(c["fmt"])


# ---------------------------------------------------------------- the bundled catalogs

HELM = None


def helm():
    """{name: (ra hours, dec degrees, F74, alpha or None, (A, B, C, D) or None)} by byte columns"""
    global HELM
    if HELM is None:
        import aipy._src.helm as h
        d = os.path.dirname(h.__file__)
        pos, HELM = {}, {}
        for L in open(os.path.join(d, "helm_pos.txt")):
            if L.startswith("J"):
                pos[L[:9]] = (dms(L[35:45]), dms(L[46] + L[47:57]))

        def num(x):
            return float(x) if x.strip() else None
        for L in open(os.path.join(d, "helm_fit.txt")):
            if L.startswith("J"):
                L = L.rstrip("\n").ljust(71)
                v = [num(L[a - 1:b]) for a, b in ((14, 20), (22, 26), (28, 33), (35, 40), (42, 47), (49, 54), (56, 62))]
                fit = None
                if v[3] is not None and v[3] != -99:
                    fit = (v[3], v[4], v[5] or 0., v[6] or 0.)
                HELM[L[:9]] = pos[L[:9]] + (v[0], v[1], fit)
    return HELM


MISC = {"for": ("03:22:41.7", "-37:12:30", 170, .150, -0.8), "pic": ("05:19:49.7", "-45:46:45", 452, .160, -0.8), "hyd": ("09:18:05.7", "-12:05:44", 1860, .160, -2.30),
        "cen": ("13:25:27.6", "-43:01:09", 5144, .150, -0.65), "her": ("16:51:08.15", "4:59:33.3", 300.0, 0.159, -1), "sgr": ("17:45:40.0", "-29:00:28", 121, .160, -4.21),
        "crab": ("05:34:32.0", "+22:00:52", 1838, .150, -0.30), "vir": ("12:30:49.4", "+12:23:28", 1446, .150, -0.86), "cyg": ("19:59:28.3", "+40:44:02", 10900, .150, -0.69),
        "cas": ("23:23:27.94", "+58:48:42.4", 9160.0, 0.150, -0.73)}
SPECIALS = ["Sun", "Moon", "Mercury", "Venus", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune"]


def flux(s, fq):
    """Jy of a bundled source"""
    if s in MISC:
        _, _, jy, f0, a = MISC[s]
        return jy * (fq / f0) ** a
    if s == "Sun":
        return 57000 * (fq / .15) ** 2
    if s in SPECIALS:
        return 0 * fq
    _, _, f74, alpha, fit = helm()[s]
    x = fq / .074
    if fit is None:
        return f74 * x ** (-99 if alpha is None else alpha)
    A, B, C, D = fit
    X = np.log10(x)
    return 10 ** (A + B * X + C * np.exp(D * X))


@st.composite
def bundled(draw):
    return {"names": draw(st.lists(st.one_of(st.sampled_from(sorted(MISC) + SPECIALS + ["nobody", "J9999+999"]), st.integers(0, 387)), max_size=8)),
            "cats": draw(st.sampled_from([["helm", "misc"], ["misc", "helm"], ["helm"], ["misc"], ["misc", "nosuch"], None])), "cut": draw(st.one_of(gen.fl(.5, 100.), gen.fl(10, 20000))),
            "fq": draw(gen.fl(.02, 3.)), "how": draw(st.sampled_from(["names", "names", "cutoff", "all", "mixed"])), "loc": draw(arr.location()), "jd": draw(arr.JD), "f": draw(arr.freqs(6)), "seed": draw(gen.seeds)}


def shipped(c, rec):
    import aipy
    from aipy import src, fit, amp
    H = sorted(helm())
    names = [H[n % len(H)] if isinstance(n, int) else n for n in c["names"]]
    cats = ["helm", "misc"] if c["cats"] is None else c["cats"]
    have = (set(H) if "helm" in cats else set()) | (set(MISC) | set(SPECIALS) if "misc" in cats else set())
    kw = {} if c["cats"] is None else {"catalogs": cats}
    fq = c["fq"]
    if c["how"] == "names":
        cat = call("get_catalog", src.get_catalog, srcs=names, **kw)
        want = have & set(names)
        require(set(cat) == want, "get_catalog(%r, %r) has %r expected %r", names, cats, sorted(cat), sorted(want))
    elif c["how"] == "mixed":
        own = fit.RadioFixedBody(.3, .4, name="mine", jys=5., index=-1.)
        cat = call("get_catalog", src.get_catalog, srcs=names[:4] + [own] + names[4:], **kw)
        want = have & set(names) | {"mine"}
        require(set(cat) == want and cat["mine"] is own, "get_catalog of names and a source has %r expected %r", sorted(cat), sorted(want))
    elif c["how"] == "cutoff":
        cat = call("get_catalog", src.get_catalog, cutoff=[c["cut"], fq], **kw)
        F = {s: flux(s, fq) for s in have}
        near = {s for s in F if abs(F[s] / c["cut"] - 1) < 1e-6}
        want = {s for s in have if F[s] > c["cut"]}
        require(set(cat) - near == want - near, "get_catalog above %r Jy at %r GHz: wrongly in %r, wrongly out %r", c["cut"], fq, sorted(set(cat) - want), sorted(want - set(cat)))
    else:
        cat = call("get_catalog", src.get_catalog, **kw)
        require(set(cat) == have, "get_catalog() lacks %r, has %r more", sorted(have - set(cat)), sorted(set(cat) - have))
    # positions and spectra, in the order asked for
    r = gen.rng(c["seed"])
    order = [str(s) for s in r.permutation(sorted(cat))][:15]
    fqs = arr.mkfreqs(c["f"])
    aa = aipy.amp.AntennaArray(arr.loc(c["loc"]), [aipy.amp.Antenna(0, 0, 0, beam=aipy.amp.Beam(fqs))])
    aa.set_jultime(c["jd"])
    call("compute", cat.compute, aa)
    lst, lat = float(aa.sidereal_time()), float(aa.lat)
    if not order:
        rec.nt(False)
        return
    j = call("get_jys", cat.get_jys, srcs=order)
    exp = np.array([5. * (fqs / .15) ** -1 if s == "mine" else flux(s, fqs) for s in order])
    require(np.shape(j) == exp.shape and np.allclose(j, exp, rtol=1e-6), "fluxes of %r: %r expected %r", order, j, exp)
    eq = call("get_crds", cat.get_crds, "eq", ncrd=3, srcs=order)
    top = call("get_crds", cat.get_crds, "top", ncrd=3, srcs=order)
    rd = call("get_crds", cat.get_crds, "eq", ncrd=2, srcs=order)
    aalt = call("get_crds", cat.get_crds, "top", ncrd=2, srcs=order)
    n = len(order)
    require(np.shape(eq) == np.shape(top) == (3, n) and np.shape(rd) == np.shape(aalt) == (2, n), "get_crds: shapes %r %r %r %r for %d sources", np.shape(eq), np.shape(top), np.shape(rd), np.shape(aalt), n)
    ra, dec = rd
    require(np.allclose(eq, [np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], atol=1e-9), "equatorial vectors do not match ra, dec")
    az, alt = aalt
    require(np.allclose(top, [np.cos(alt) * np.sin(az), np.cos(alt) * np.cos(az), np.sin(alt)], atol=1e-9), "topocentric vectors do not match az, alt")
    exp = arr.uvw_matrix(-lst, lat).dot(eq)
    for k, s in enumerate(order):
        # diurnal parallax and aberration are left out of the rotation
        require(np.linalg.norm(exp[:, k] - top[:, k]) < (.02 if s == "Moon" else 2e-4), "%s: toward %r, its equatorial position rotates to %r", s, top[:, k], exp[:, k])
        if s in SPECIALS or s == "mine":
            continue
        a0, d0 = (dms(MISC[s][0]) * 15, dms(MISC[s][1])) if s in MISC else (helm()[s][0] * 15, helm()[s][1])
        # general precession since J2000
        T = (c["jd"] - 2451545.) / 36525.
        m, nn = np.deg2rad(1.2812323 * T), np.deg2rad(.5567530 * T)
        a1, d1 = np.deg2rad(a0), np.deg2rad(d0)
        for _ in range(2):
            am, dm = (np.deg2rad(a0) + a1) / 2, (np.deg2rad(d0) + d1) / 2
            a1, d1 = np.deg2rad(a0) + m + nn * np.sin(am) * np.tan(dm), np.deg2rad(d0) + nn * np.cos(am)
        v = np.array([np.cos(d1) * np.cos(a1), np.cos(d1) * np.sin(a1), np.sin(d1)])
        require(np.linalg.norm(v - eq[:, k]) < 4e-4, "%s of J2000 %r h %r deg is at %r %r", s, a0 / 15, d0, ra[k], dec[k])
    for k, s in enumerate(order):
        one = cat.get_crds("eq", ncrd=3, srcs=[s])
        require(np.allclose(np.reshape(one, 3), eq[:, k], atol=1e-12), "get_crds of %s alone differs", s)
    for s in order:
        if s == "mine":
            continue
        size = {"Sun": 4.6e-3, "her": .000669}.get(s, 0.)
        require(np.allclose(cat[s].srcshape, [size, size, 0.], rtol=1e-9, atol=0), "%s has shape %r, the catalogue gives a disk of radius %r", s, cat[s].srcshape, size)
        want = MISC[s][3] if s in MISC else .15 if s in SPECIALS else .074
        require(abs(cat[s].mfreq - want) < 1e-12, "%s is measured at %r GHz, not %r", s, want, cat[s].mfreq)
    mf = cat.get("mfreq", srcs=order)
    require(list(mf) == [cat[s].mfreq for s in order], "get('mfreq') is out of order: %r", mf)
    g = [s.src_name for s in call("get_srcs", cat.get_srcs, order)]
    require(g == order and [s.src_name for s in cat.get_srcs(*order)] == order and len(cat.get_srcs()) == len(cat), "get_srcs(%r) returned %r", order, g)
    rec.nt(len(cat) > 1)
    rec.event(c["how"])


@st.composite
def own(draw):
    n = draw(st.integers(0, 6))
    return {"n": n, "seed": draw(gen.seeds), "how": draw(st.sampled_from(["args", "list", "add", "add2"])), "mod": draw(st.sampled_from(["phs", "amp", "fit"])), "f": draw(arr.freqs(5)),
            "dup": draw(st.booleans())}


def users(c, rec):
    import aipy
    mod = getattr(aipy, c["mod"])
    r = gen.rng(c["seed"])
    par = [(float(r.uniform(0, 6)), float(r.uniform(-1.5, 1.5)), float(r.uniform(0, 9)), float(r.uniform(-2, 2)), float(r.uniform(.05, .5))) for _ in range(c["n"])]
    names = ["s%d" % k for k in r.permutation(c["n"])]
    if c["dup"] and c["n"] > 1:
        names[-1] = names[0]
    if c["mod"] == "phs":
        srcs = [mod.RadioFixedBody(p[0], p[1], name=s, mfreq=p[4]) for p, s in zip(par, names)]
    else:
        srcs = [mod.RadioFixedBody(p[0], p[1], name=s, jys=p[2], index=p[3], mfreq=p[4]) for p, s in zip(par, names)]
    if c["how"] == "args":
        cat = call("SrcCatalog", mod.SrcCatalog, *srcs)
    elif c["how"] == "list":
        cat = call("SrcCatalog", mod.SrcCatalog, srcs)
    else:
        cat = mod.SrcCatalog()
        if c["how"] == "add":
            for s in srcs:
                call("add_srcs", cat.add_srcs, s)
        else:
            call("add_srcs", cat.add_srcs, srcs[:2])
            call("add_srcs", cat.add_srcs, *srcs[2:])
    want = dict(zip(names, srcs))       # the last of a name
    require(set(cat) == set(want) and all(cat[s] is want[s] for s in want), "the catalog holds %r of %r", sorted(cat), names)
    if not want:
        return
    order = sorted(want)[::-1]
    require([b is want[s] for s, b in zip(order, cat.get_srcs(*order))] == [True] * len(order), "get_srcs returned others")
    fq = arr.mkfreqs(c["f"])
    P = dict(zip(names, par))
    require(np.array_equal(cat.get("mfreq", srcs=order), [P[s][4] for s in order]), "get('mfreq') %r", cat.get("mfreq", srcs=order))
    require(np.array_equal(sorted(call("get", cat.get, "mfreq")), sorted(P[s][4] for s in order)), "get('mfreq') of all %r", cat.get("mfreq"))
    sh = call("get", cat.get, "srcshape", srcs=order)
    require(np.shape(sh) == (3, len(order)) and not np.any(sh), "sizes of points: %r", sh)
    def printed(flux):
        for s in order:
            t = call("str", str, want[s]).split("\t")
            p = P[s]
            require(t[0] == s and len(t) >= 3, "source %s is printed as %r", s, t)
            if c["mod"] != "phs":
                require([float(x) for x in t[3:6]] == [p[2], p[3], p[4]], "source %s of %r Jy, index %r, at %r GHz is printed as %r", s, p[2], p[3], p[4], t)
                if flux:
                    w = p[2] * (fq[0] / p[4]) ** p[3]
                    require(len(t) == 8 and abs(float(t[6]) - w) <= 1e-9 * w and float(t[7]) == fq[0], "source %s of %r Jy at %r GHz is printed as %r", s, w, fq[0], t)
                else:
                    require(not any(t[6:]), "source %s without computed fluxes is printed as %r", s, t)
    printed(False)
    jd = 2455000.25 + c["seed"] % 1000
    aa = mod.AntennaArray((.5, 1.), [mod.Antenna(0, 0, 0, beam=mod.Beam(fq))])
    aa.set_jultime(jd)
    call("compute", cat.compute, aa)
    for crdsys in ("eq", "top"):
        x = call("get_crds", cat.get_crds, crdsys, srcs=order)
        require(np.shape(x) == (3, len(order)) and all(np.allclose(x[:, k], want[s].get_crds(crdsys), rtol=0, atol=1e-12) for k, s in enumerate(order)), "get_crds(%r) %r", crdsys, x)
        y = call("get_crds", cat.get_crds, crdsys)
        require(sorted(map(tuple, np.transpose(y).tolist())) == sorted(map(tuple, np.transpose(x).tolist())), "get_crds(%r) of all %r, by name %r", crdsys, y, x)
    if c["mod"] != "phs":
        call("update_jys", cat.update_jys, fq)
        j = call("get_jys", cat.get_jys, srcs=order)
        exp = np.array([P[s][2] * (fq / P[s][4]) ** P[s][3] for s in order])
        require(np.shape(j) == exp.shape and np.allclose(j, exp, rtol=1e-9), "fluxes %r expected %r", j, exp)
        printed(True)
        # the reference frequency
        s = order[0]
        cat.update_jys(np.array([P[s][4]]))
        require(abs(cat[s].get_jys()[0] - P[s][2]) <= 1e-9 * P[s][2], "flux at the reference frequency %r expected %r", cat[s].get_jys(), P[s][2])
        require(sorted(map(tuple, call("get_jys", cat.get_jys).tolist())) == sorted(tuple(x) for x in cat.get_jys(srcs=order).tolist()), "get_jys() and get_jys(srcs) differ")
    rec.nt(len(want) > 1)


def measured():
    """{name: (components, [(GHz, Jy, error)], rms or -1)} by byte columns"""
    import aipy._src.helm as h
    d, out = os.path.dirname(h.__file__), {}
    for L in open(os.path.join(d, "helm_pos.txt")):
        if L.startswith("J"):
            out.setdefault(L[:9], [int(L[33:34]), [], -1])[1].append((int(L[58:64]) / 1e3, float(L[65:73]), float(L[74:81])))
    for L in open(os.path.join(d, "helm_fit.txt")):
        if L.startswith("J"):
            v = L.rstrip("\n").ljust(71)[63:70].strip()
            out[L[:9]][2] = float(v) if v else -1
    return out


def helmboldt(c, rec):
    """What the Helmboldt catalogue says about the measurements behind its spectra."""
    import aipy._src.helm as h
    want = measured()
    cats = []
    for _ in range(c["n"]):
        cat = h.HelmboldtCatalog()
        call("fromfile", cat.fromfile, h.POSFILE, h.FITFILE)
        cats.append(cat)
    if c["get"]:
        call("get_srcs", h.get_srcs, ["J0003-173"])
    for cat in cats:
        require(set(cat.keys()) == set(want), "the catalogue has %d sources, its file %d", len(cat), len(want))
        md, rms, nc = call("get_metadata", cat.get_metadata), call("get_rms", cat.get_rms), call("get_ncomp", cat.get_ncomp)
        require(set(md) == set(want) and set(rms) == set(want) and set(nc) == set(want), "data about the measurements are given for %d, %d, %d of %d sources", len(md), len(rms), len(nc), len(want))
        for s, (n, m, r) in want.items():
            require([tuple(x) for x in md[s]] == m, "measurements of %s: %r, the file has %r", s, md[s], m)
            require(rms[s] == r and nc[s] == n, "rms and components of %s: %r %r, the files have %r %r", s, rms[s], nc[s], r, n)
    rec.nt()


def subs():
    return [Sub("helmboldt", st.fixed_dictionaries({"n": st.integers(1, 3), "get": st.booleans()}), helmboldt, quick=4, thorough=6), Sub("files", filecase(), files, quick=1200, thorough=20000), Sub("shipped", bundled(), shipped, quick=1500, thorough=8000, weight=2), Sub("users", own(), users, quick=800, thorough=12000)]
