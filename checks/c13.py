"""C13: frame rotations against independent spherical astronomy."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, arr

TECHNIQUE = "differential property-based testing: frame conversions against independently written references (Rodrigues formula, altitude/azimuth trigonometry, IAU 1976 precession, ecliptic and galactic rotations)"
RULE = ("cases: rotation angles and axes, hour angles, declinations and directions (scalars and arrays), pairs of systems with epochs 1900-2100 "
        "given as numbers or dates, directions anywhere including poles; oracle: independent formulas and composition/inversion relations; "
        "non-trivial: a direction off the axes or different systems or epochs")
ASSUMPTIONS = ["precession and obliquity references are good to 0.3 arcsec over 1900-2100, which bounds the differences that can be seen in `convert`"]

ASEC = np.pi / 180 / 3600


@st.composite
def rot(draw):
    return {"n": draw(st.sampled_from([None, 1, 2, 3, 6])), "ang": draw(st.one_of(gen.fl(-10, 10), st.sampled_from([0., np.pi / 2, np.pi, -np.pi / 2, 1e-8]))),
            "va": draw(st.booleans()), "vv": draw(st.booleans()), "seed": draw(gen.seeds), "axis": draw(st.integers(0, 6))}


def rotate(c, rec):
    from aipy import coord
    r = gen.rng(c["seed"])
    n = c["n"]
    ang = c["ang"] if n is None or not c["va"] else c["ang"] + r.normal(size=n)
    v = r.normal(size=(n, 3) if n is not None and c["vv"] else (3,))
    if c["axis"] < 3:
        v = np.zeros_like(v)
        v[..., c["axis"]] = r.choice([-1., 1.])
    v /= np.sqrt((v ** 2).sum(-1))[..., None]
    m = call("rot_m", coord.rot_m, ang, v)
    w = r.normal(size=3)
    A, V = np.broadcast_arrays(np.asarray(ang)[..., None], v)
    A = A[..., 0]
    got = np.dot(m, w)
    want = w * np.cos(A)[..., None] + np.cross(V, w) * np.sin(A)[..., None] + V * (V.dot(w) * (1 - np.cos(A)))[..., None]
    require(got.shape == want.shape and np.allclose(got, want, atol=1e-10), "rot_m(%r, %r).%r = %r expected %r", ang, v, w, got, want)
    rec.nt(c["axis"] >= 3 or n is not None)


@st.composite
def topo(draw):
    return {"n": draw(st.sampled_from([None, 1, 2, 3, 8])), "ha": draw(st.one_of(gen.fl(-7, 7), st.sampled_from([0., np.pi / 2, np.pi, -np.pi]))),
            "dec": draw(st.one_of(gen.fl(-np.pi / 2, np.pi / 2), st.sampled_from([0., np.pi / 2, -np.pi / 2]))),
            "seed": draw(gen.seeds), "ea": draw(st.booleans()), "da": draw(st.booleans())}


def top(c, rec):
    """A direction at right ascension ra and declination d, seen when the
    local sidereal time is -ha from latitude dec."""
    from aipy import coord
    r = gen.rng(c["seed"])
    n = c["n"]
    ha = c["ha"] if n is None or not c["ea"] else c["ha"] + r.normal(size=n)
    lat = c["dec"] if n is None or not c["da"] else np.clip(c["dec"] + r.normal(size=n) * .3, -np.pi / 2, np.pi / 2)
    ra, d = r.uniform(0, 2 * np.pi), np.arcsin(r.uniform(-1, 1))
    m = call("eq2top_m", coord.eq2top_m, ha, lat)
    i = call("top2eq_m", coord.top2eq_m, ha, lat)
    eq = np.array([np.cos(d) * np.cos(ra), np.cos(d) * np.sin(ra), np.sin(d)])
    H = -np.asarray(ha) - ra                                   # local hour angle of the direction
    east, north, up = -np.cos(d) * np.sin(H), np.sin(d) * np.cos(lat) - np.cos(d) * np.sin(lat) * np.cos(H), np.sin(d) * np.sin(lat) + np.cos(d) * np.cos(lat) * np.cos(H)
    want = np.array(np.broadcast_arrays(east, north, up))
    want = np.moveaxis(want, 0, -1)
    got = np.dot(m, eq)
    require(got.shape == want.shape and np.allclose(got, want, atol=1e-10), "eq2top_m(%r, %r): direction (ra %r, dec %r) at %r expected %r", ha, lat, ra, d, got, want)
    back = np.einsum("...ij,...j->...i", i, want)
    require(np.allclose(back, eq, atol=1e-10), "top2eq_m does not lead back: %r expected %r", back, eq)
    # through azimuth and altitude
    azalt = coord.top2azalt(np.moveaxis(got, -1, 0))
    require(np.allclose(np.sin(azalt[1]), up, atol=1e-9), "altitude %r expected %r", azalt[1], np.arcsin(up))
    flat = np.cos(azalt[1])
    require(np.allclose(np.sin(azalt[0]) * flat, east, atol=1e-9) and np.allclose(np.cos(azalt[0]) * flat, north, atol=1e-9), "azimuth %r is not clockwise from north", azalt[0])
    rec.nt()


SYS = {"eq": ["eq", "EQ", "equatorial"], "ec": ["ec", "Ecliptic", "ecl"], "ga": ["ga", "galactic", "Gal"]}


@st.composite
def conv(draw):
    s = st.sampled_from(sorted(SYS))
    ep = st.one_of(st.sampled_from([2000., 2000., 1950., 1900., 2100.]), gen.fl(1900, 2100))
    return {"i": draw(s), "o": draw(s), "ispell": draw(st.integers(0, 2)), "ospell": draw(st.integers(0, 2)),
            "ie": draw(ep), "oe": draw(ep), "date": draw(st.booleans()), "xyz": draw(st.booleans()), "seed": draw(gen.seeds), "pole": draw(st.sampled_from([0, 0, 0, 1, -1])),
            "default": draw(st.sampled_from([False, False, True]))}


def R(axis, a):
    c, s = np.cos(a), np.sin(a)
    return {1: np.array([[1, 0, 0], [0, c, s], [0, -s, c]]), 2: np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]]), 3: np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])}[axis]


def precession(T):
    """J2000 to the mean equator of T centuries later (IAU 1976)"""
    zeta = (2306.2181 * T + .30188 * T ** 2 + .017998 * T ** 3) * ASEC
    z = (2306.2181 * T + 1.09468 * T ** 2 + .018203 * T ** 3) * ASEC
    th = (2004.3109 * T - .42665 * T ** 2 - .041833 * T ** 3) * ASEC
    return R(3, -z).dot(R(2, th)).dot(R(3, -zeta))


def from_j2000(s, T):
    """J2000 equatorial vectors to system s at epoch T"""
    if s == "eq":
        return precession(T)
    if s == "ec":
        eps = (84381.448 - 46.815 * T - .00059 * T ** 2 + .001813 * T ** 3) * ASEC
        return R(1, eps).dot(precession(T))
    # J2000 galactic pole and position angle (Reid & Brunthaler; the IAU 1958 definition)
    d = np.pi / 180
    return R(3, (180 - 122.93192) * d).dot(R(2, (90 - 27.128251) * d)).dot(R(3, 192.859481 * d))


def date(y, as_text):
    import ephem
    d = ephem.J2000 + (y - 2000.) * 365.25
    if as_text:
        return str(ephem.date(d)), float(ephem.date(str(ephem.date(d))))
    return ephem.date(d), float(d)


def convert(c, rec):
    from aipy import coord
    import ephem
    r = gen.rng(c["seed"])
    v = r.normal(size=3)
    v /= np.linalg.norm(v)
    if c["pole"]:
        v = np.array([0, 0, float(c["pole"])])
    isys, osys = SYS[c["i"]][c["ispell"]], SYS[c["o"]][c["ospell"]]
    if c["default"]:
        kw, Ti, To = {}, 0., 0.
    else:
        ie, fi = date(c["ie"], c["date"])
        oe, fo = date(c["oe"], c["date"])
        kw = {"iepoch": ie, "oepoch": oe}
        Ti, To = (fi - float(ephem.J2000)) / 36525., (fo - float(ephem.J2000)) / 36525.
    crd = v if c["xyz"] else tuple(coord.eq2radec(v))
    got = call("convert(%r, %r, %r, %r)" % (crd, isys, osys, kw), coord.convert, crd, isys, osys, **kw)
    require(len(got) == 2, "convert returned %r", got)
    g = np.array([np.cos(got[1]) * np.cos(got[0]), np.cos(got[1]) * np.sin(got[0]), np.sin(got[1])])
    want = from_j2000(c["o"], To).dot(from_j2000(c["i"], Ti).T).dot(v)
    err = np.linalg.norm(g - want) / ASEC
    require(err < .5, "convert %s(%s) -> %s(%s): %r is %.3g arcsec from the reference %r", isys, Ti, osys, To, g, err, want)
    kb = {"iepoch": kw["oepoch"], "oepoch": kw["iepoch"]} if kw else {}
    back = call("convert back", coord.convert, got, osys, isys, **kb)
    b = coord.radec2eq(back)
    require(np.linalg.norm(b - v) < 1e-7, "convert there and back: %r from %r", b, v)
    m = call("convert_m", coord.convert_m, isys, osys, **kw)
    require(np.allclose(m.dot(v), g, atol=1e-7), "convert_m disagrees with convert: %r and %r", m.dot(v), g)
    require(np.allclose(m.dot(m.T), np.eye(3), atol=2e-7) and abs(np.linalg.det(m) - 1) < 2e-7, "convert_m is not a rotation: %r", m)
    rec.nt(c["i"] != c["o"] or Ti != To)


@st.composite
def bodies(draw):
    return {"ra": draw(gen.fl(0, 6.28)), "dec": draw(gen.fl(-1.55, 1.55)), "ep": draw(st.one_of(st.none(), st.sampled_from([1950., 1975., 2015.]), gen.fl(1900, 2100))),
            "text": draw(st.booleans()), "jd": draw(gen.fl(2433282., 2469800.)), "loc": draw(arr.location()), "cls": draw(st.sampled_from(["phs", "amp", "fit"])), "jys": draw(gen.fl(0, 10))}


def body(c, rec):
    """a fixed source given at an epoch stands where precession takes it at the time of observation"""
    import aipy, ephem
    mod = getattr(aipy, c["cls"])
    kw = {}
    if c["ep"] is not None:
        kw["epoch"], e = date(c["ep"], c["text"])
    if c["cls"] != "phs":
        kw["jys"] = c["jys"]
    s = call("RadioFixedBody", mod.RadioFixedBody, c["ra"], c["dec"], name="s", **kw)
    aa = mod.AntennaArray(arr.loc(c["loc"]), [mod.Antenna(0, 0, 0, beam=mod.Beam(np.array([.15])))])
    call("set_jultime", aa.set_jultime, c["jd"])
    call("compute", s.compute, aa)
    T = (c["jd"] - 2451545.) / 36525.
    Ti = 0. if c["ep"] is None else (e - float(ephem.J2000)) / 36525.
    v = np.array([np.cos(c["dec"]) * np.cos(c["ra"]), np.cos(c["dec"]) * np.sin(c["ra"]), np.sin(c["dec"])])
    want = precession(T).dot(precession(Ti).T).dot(v)
    got = call("get_crds", s.get_crds, "eq")
    # aberration, nutation and (near the sun) deflection remain
    err = np.linalg.norm(np.asarray(got) - want) / ASEC
    require(np.shape(got) == (3,) and err < 60, "a source at (%r, %r) of epoch %r is %.4g arcsec from where precession takes it at %r: %r expected %r", c["ra"], c["dec"], c["ep"], err, c["jd"], got, want)
    rd = call("get_crds", s.get_crds, "eq", 2)
    require(np.allclose([np.cos(rd[1]) * np.cos(rd[0]), np.cos(rd[1]) * np.sin(rd[0]), np.sin(rd[1])], got, atol=1e-9), "ra, dec %r are not the direction %r", rd, got)
    # the same direction from the array
    lst, lat = float(aa.sidereal_time()), float(aa.lat)
    top = call("get_crds", s.get_crds, "top")
    wt = arr.uvw_matrix(-lst, lat).dot(got)
    require(np.allclose(top, wt, atol=1e-4), "topocentric %r expected %r", top, wt)
    aalt = call("get_crds", s.get_crds, "top", ncrd=2)
    require(np.allclose([np.cos(aalt[1]) * np.sin(aalt[0]), np.cos(aalt[1]) * np.cos(aalt[0]), np.sin(aalt[1])], top, atol=1e-9), "azimuth, altitude %r are not the direction %r", aalt, top)
    rec.nt(c["ep"] is not None and abs(c["ep"] - 2000) > 3)


def subs():
    return [Sub("bodies", bodies(), body, quick=1500, thorough=30000), Sub("rotate", rot(), rotate, quick=2000, thorough=40000), Sub("top", topo(), top, quick=2000, thorough=40000), Sub("convert", conv(), convert, quick=3000, thorough=60000)]
