"""C14: time conversions and the location of an array."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, arr

TECHNIQUE = "model-based property testing: histories of setting time and place of an array, against a sidereal time formula and recomputed projections"
RULE = ("cases: Julian dates, and histories of set_jultime / set_ephemtime / change of latitude or longitude with update() on arrays of every "
        "class (phs, amp, fit, pol); oracle: exact offset between the time bases, the IAU 1982 sidereal time, and after every step all "
        "derived quantities recomputed from the array's own date and place; non-trivial: at least two different times or places")
ASSUMPTIONS = ["apparent and mean sidereal time differ by less than 2e-4 rad (nutation, UT1-UTC)"]


@st.composite
def dates(draw):
    return {"jd": draw(st.one_of(arr.JD, gen.fl(2200000., 2700000.), st.sampled_from([2415020.0, 2451545.0, 2455000.5])))}


def convert(c, rec):
    from aipy import phs
    import ephem
    jd = c["jd"]
    d = call("juldate2ephem", phs.juldate2ephem, jd)
    require(isinstance(d, ephem.Date), "juldate2ephem returned %r", d)
    back = call("ephem2juldate", phs.ephem2juldate, d)
    require(abs(back - jd) < 1e-9, "ephem2juldate(juldate2ephem(%r)) = %r", jd, back)
    require(abs(float(d) - (jd - 2415020.)) < 1e-9, "juldate2ephem(%r) = %r days", jd, float(d))
    # the calendar agrees: ephem counts from 1899 December 31, noon
    require(abs(ephem.julian_date(d) - jd) < 1e-8, "ephem takes %r for Julian date %r", d, ephem.julian_date(d))
    rec.nt(jd != round(jd))


@st.composite
def history(draw):
    ops = draw(st.lists(st.one_of(st.tuples(st.sampled_from(["jd", "jd", "eph", "date"]), arr.JD),
                                  st.tuples(st.just("step"), st.one_of(st.just(0.), st.sampled_from([1., 1e-1, 1e-2, 5e-3, 1e-3, 1e-4, 1e-5]), gen.fl(-.02, .02))), st.tuples(st.sampled_from(["lat"]), arr.LAT), st.tuples(st.sampled_from(["long"]), arr.LON)), min_size=1, max_size=8))
    return {"loc": draw(arr.location()), "cls": draw(st.sampled_from(["phs", "amp", "fit", "pol"])), "ops": ops, "seed": draw(gen.seeds), "dt": draw(gen.fl(-20., 20.)), "dl": draw(gen.fl(-1., 1.)),
            "dms": draw(st.booleans())}


def build(c):
    import aipy
    mod = getattr(aipy, c["cls"])
    r = gen.rng(c["seed"])
    fq = np.array([.12, .15])
    beam = (mod.Beam if hasattr(mod, "Beam") else aipy.fit.Beam)(fq)
    kw = {}
    if c["cls"] == "pol":
        kw = {"phsoff": {"x": [0., 0.], "y": [0., 0.]}, "bp_r": {"x": [1.], "y": [1.]}, "bp_i": {"x": [0.], "y": [0.]}, "amp": {"x": 1., "y": 1.}}
    ants = [mod.Antenna(*(r.normal(size=3) * 100), beam=beam, **kw) for _ in range(3)]
    loc = arr.loc(c["loc"])
    if c["dms"]:
        import ephem
        loc = (str(ephem.degrees(loc[0])), str(ephem.degrees(loc[1]))) + loc[2:]
    return mod.AntennaArray(loc, ants)


def check(aa, cls, lat, lon, jd, what):
    lst = float(aa.sidereal_time())
    require(arr.wrap(lst - arr.gmst(jd) - lon) < 2e-4, "%s: sidereal time %r, expected %r at Julian date %r and longitude %r", what, lst, arr.gmst(jd) + lon, jd, lon)
    require(abs(aa.get_jultime() - jd) < 1e-8, "%s: get_jultime() = %r expected %r", what, aa.get_jultime(), jd)
    bl = np.array(aa[1].pos - aa[0].pos)
    tol = 1e-9 * np.linalg.norm(bl) + 1e-12
    e = aa.get_baseline(0, 1, "e")
    c, s = np.cos(lst), np.sin(lst)
    # a baseline fixed to the rotating Earth, in the frame of the sky
    want = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.]]).dot(bl)
    require(np.allclose(e, want, atol=tol), "%s: equatorial baseline %r expected %r", what, e, want)
    z = aa.get_baseline(0, 1, "z")
    want = arr.uvw_matrix(0., lat).dot(bl)
    require(np.allclose(z, want, atol=tol), "%s: zenith baseline %r expected %r", what, z, want)
    if cls != "phs":
        want = arr.uvw_matrix(-lst, lat)
        require(np.allclose(aa.eq2top_m, want, atol=1e-9), "%s: eq2top_m is that of another time or place: %r expected %r", what, aa.eq2top_m, want)


def times(c, rec):
    import ephem
    aa = call("AntennaArray", build, c)
    lat, lon = c["loc"]["lat"], c["loc"]["lon"]
    if c["dms"]:
        require(abs(aa.lat - lat) < 2e-6 and abs(aa.long - lon) < 2e-6, "location in text: %r, %r", aa.lat, aa.long)
        lat, lon = float(aa.lat), float(aa.long)
    require(float(aa.lat) == lat and float(aa.long) == lon, "location is %r, %r", aa.lat, aa.long)
    if c["loc"]["elev"] is not None:
        require(abs(aa.elev - c["loc"]["elev"]) < 1e-6, "elevation is %r", aa.elev)
    t = None
    n = set()
    for op, v in c["ops"]:
        if op == "step":
            # on by a moment, as from one integration to the next
            op, v = "jd", (2455000.5 if t is None else t) + v
        if op == "jd":
            call("set_jultime", aa.set_jultime, v)
            t = v
        elif op == "eph":
            call("set_ephemtime", aa.set_ephemtime, v - 2415020.)
            t = v
        elif op == "date":
            call("set_ephemtime", aa.set_ephemtime, ephem.date(v - 2415020.))
            t = v
        elif op == "lat":
            aa.lat = v
            call("update", aa.update)
            lat = v
        else:
            aa.long = v
            call("update", aa.update)
            lon = v
        if t is not None and op not in ("lat", "long"):
            check(aa, c["cls"], lat, lon, t, op)
            n.add((t, lat, lon))
    if t is None:
        return
    rec.nt(len(n) > 1)
    # sidereal rate and longitude
    call("set_jultime", aa.set_jultime, t)
    l0 = float(aa.sidereal_time())
    aa.set_jultime(t + c["dt"])
    l1 = float(aa.sidereal_time())
    require(arr.wrap(l1 - l0 - 2 * np.pi * 1.00273790935 * c["dt"]) < 1e-4, "sidereal time moved by %r in %r days", l1 - l0, c["dt"])
    aa.long = lon + c["dl"]
    aa.update()
    aa.set_jultime(t)
    require(arr.wrap(float(aa.sidereal_time()) - l0 - c["dl"]) < 1e-7, "sidereal time moved by %r for %r of longitude", float(aa.sidereal_time()) - l0, c["dl"])


def subs():
    return [Sub("convert", dates(), convert, quick=2000, thorough=40000), Sub("times", history(), times, quick=1500, thorough=40000, weight=2)]
