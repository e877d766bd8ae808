"""Shared by the checks of antenna arrays: generated arrays and their parts."""
import numpy as np
from hypothesis import strategies as st

from . import gen

LAT = st.one_of(gen.fl(-1.5, 1.5), st.sampled_from([0.0, np.pi / 2, -np.pi / 2, 0.671]))
LON = st.one_of(gen.fl(-np.pi, np.pi), st.sampled_from([0.0, np.pi, -1.39]))
JD = st.one_of(gen.fl(2440000., 2470000.), st.integers(0, 400).map(lambda k: 2455000.5 + k / 16.))


@st.composite
def location(draw):
    return {"lat": draw(LAT), "lon": draw(LON), "elev": draw(st.sampled_from([None, 0., 800., 5000.]))}


def loc(c):
    if c["elev"] is None:
        return (c["lat"], c["lon"])
    return (c["lat"], c["lon"], c["elev"])


@st.composite
def freqs(draw, maxn=12):
    return {"n": draw(st.one_of(st.integers(1, maxn), st.sampled_from([1, 2, maxn]))), "f0": draw(gen.fl(.03, .3)), "df": draw(st.sampled_from([1e-4, 1e-3, .01]))}


def mkfreqs(c):
    return c["f0"] + c["df"] * np.arange(c["n"])


def gmst(jd):
    """mean sidereal time (radians), IAU 1982, time taken as UT1"""
    T = (jd - 2451545.0) / 36525.
    deg = 280.46061837 + 360.98564736629 * (jd - 2451545.0) + 0.000387933 * T * T - T ** 3 / 38710000.
    return np.deg2rad(deg % 360.)


def wrap(a):
    return np.abs((np.asarray(a) + np.pi) % (2 * np.pi) - np.pi)


def uvw_matrix(H, dec):
    """rows u, v, w of a baseline in equatorial (hour angle 0, -6h, pole)
    coordinates, seen from hour angle H and declination dec"""
    H, dec = float(H), float(dec)
    sH, cH, sd, cd = np.sin(H), np.cos(H), np.sin(dec), np.cos(dec)
    return np.array([[sH, cH, 0.], [-sd * cH, sd * sH, cd], [cd * cH, -cd * sH, sd]])


# ---------------------------------------------------------------- beams

@st.composite
def beam_spec(draw, kinds=("flat", "gauss", "gauss", "poly", "poly")):
    k = draw(st.sampled_from(kinds))
    c = {"k": k}
    if k == "cplx":
        c["ph"] = draw(gen.fl(-3, 3))
    if k in ("gauss", "cplx"):
        c["w"] = [draw(gen.fl(.05, 2.)), draw(st.one_of(gen.fl(.05, 2.), st.just(float("inf"))))]
    elif k == "poly":
        c["shape"] = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
        c["seed"] = draw(gen.seeds)
    return c


def poly_coefs(c):
    r = gen.rng(c["seed"])
    p = r.normal(size=c["shape"]) * .1
    p[0, 0] = r.uniform(1., 3.)         # keep the width away from zero
    return p


def mkbeam(mod, c, fq):
    if c["k"] == "flat":
        return mod.Beam(fq)
    if c["k"] == "cplx":
        # a user's own model, with a phase that depends on the direction
        class Own(mod.Beam2DGaussian):
            def response(self, xyz):
                x, y, z = np.asarray(xyz, float)
                return mod.Beam2DGaussian.response(self, xyz) * np.exp(1j * c["ph"] * (x - .5 * y + z))
        return Own(fq, xwidth=c["w"][0], ywidth=c["w"][1])
    if c["k"] == "gauss":
        return mod.Beam2DGaussian(fq, xwidth=c["w"][0], ywidth=c["w"][1])
    return mod.BeamPolynomial(fq, poly_azfreq=poly_coefs(c) if "coefs" not in c else np.array(c["coefs"]).reshape(c["shape"]))


def ref_beam(c, fq, xyz):
    """amplitude of the beam model c, (freqs, directions)"""
    x, y, z = np.asarray(xyz, float).reshape(3, -1)
    if c["k"] == "flat":
        return np.ones((len(fq), len(x)))
    if c["k"] == "cplx":
        return ref_beam(dict(c, k="gauss"), fq, xyz) * np.exp(1j * c["ph"] * (x - .5 * y + z))
    if c["k"] == "gauss":
        ax, ay = np.arcsin(np.clip(x, -1, 1)), np.arcsin(np.clip(y, -1, 1))
        g = np.exp(-.25 * ((ax / c["w"][0]) ** 2 + (ay / c["w"][1]) ** 2))
        return np.tile(g, (len(fq), 1))
    p = poly_coefs(c) if "coefs" not in c else np.array(c["coefs"]).reshape(c["shape"])
    az = np.arctan2(x, y)
    za = np.arctan2(np.hypot(x, y), z)
    out = np.empty((len(fq), len(x)))
    for k, f in enumerate(fq):
        s = 0
        for n in range(p.shape[0]):
            w = sum(p[n, m] * f ** m for m in range(p.shape[1]))
            s = s + w * (.5 if n == 0 else np.cos(2 * n * az))
        out[k] = np.exp(-.5 * (za / s) ** 2)
    return out


def ant_axes(az, alt, twist):
    """rows: the x, y and z axes of an antenna's beam in topocentric coordinates"""
    sa, ca, se, ce = np.sin(az), np.cos(az), np.sin(alt), np.cos(alt)
    x, y, z = np.array([sa * se, ca * se, -ce]), np.array([-ca, sa, 0.]), np.array([sa * ce, ca * ce, se])
    ct, s = np.cos(twist), np.sin(twist)
    return np.array([ct * x + s * y, -s * x + ct * y, z])


def ref_response(beam, pointing, fq, top, pol="x"):
    """amplitude of an antenna with a beam, toward topocentric directions"""
    az, alt, tw = pointing
    return ref_beam(beam, fq, ant_axes(az, alt, tw + (np.pi / 2 if pol == "y" else 0)).dot(top))


def ref_gain(a, fq):
    return a["amp"] * (np.polyval(a["bp_r"], fq) + 1j * np.polyval(a["bp_i"], fq))


@st.composite
def ant_spec(draw):
    return {"seed": draw(gen.seeds), "ndly": draw(st.integers(2, 4)), "nbp": [draw(st.integers(1, 3)), draw(st.integers(1, 3))],
            "ptg": draw(st.sampled_from(["zen", "zen", "rand"])), "scale": draw(st.sampled_from([1., 30., 300.]))}


def mkant(c):
    """parameters of one antenna"""
    r = gen.rng(c["seed"])
    return {"pos": [float(x) for x in r.normal(size=3) * c["scale"]], "phsoff": [float(x) for x in r.normal(size=c["ndly"])], "bp_r": [float(x) for x in r.normal(size=c["nbp"][0])],
            "bp_i": [float(x) for x in r.normal(size=c["nbp"][1])], "amp": float(r.uniform(.2, 3.)),
            "ptg": (0., np.pi / 2, 0.) if c["ptg"] == "zen" else tuple(float(x) for x in (r.uniform(-3, 3), r.uniform(.1, 1.57), r.uniform(-3, 3)))}


def antenna(mod, a, beam, **kw):
    return mod.Antenna(*a["pos"], beam=beam, phsoff=list(a["phsoff"]), bp_r=list(a["bp_r"]), bp_i=list(a["bp_i"]), amp=a["amp"], pointing=a["ptg"], **kw)


def j1c(x):
    from scipy.special import j1
    y = np.where(x == 0, 1., x)
    return np.where(x == 0, 1., 2 * j1(y) / y)


def ref_sim(ai, aj, bi, bj, fq, lst, lat, eqs, jys, pol, ion=None, shp=None, mf=.15):
    """sum over the sources (columns of eqs) that are up; -> (value, size of the terms)"""
    V = np.zeros(len(fq), complex)
    S = np.zeros(len(fq))
    bl = np.array(aj["pos"]) - np.array(ai["pos"])
    off = np.polyval(aj["phsoff"], fq) - np.polyval(ai["phsoff"], fq)
    g = ref_gain(aj, fq) * np.conj(ref_gain(ai, fq))
    for k in range(eqs.shape[1]):
        top = uvw_matrix(-lst, lat).dot(eqs[:, k])
        if top[2] <= 0:
            continue
        ra, dec = np.arctan2(eqs[1, k], eqs[0, k]), np.arctan2(eqs[2, k], np.hypot(eqs[0, k], eqs[1, k]))
        u, v, w = [b * fq for b in uvw_matrix(lst - ra, dec).dot(bl)]
        ph = w + off
        if ion is not None:
            ph = ph + (ion[0][k] * u + ion[1][k] * v) * (np.broadcast_to(mf, eqs.shape[1])[k] / fq) ** 2
        t = np.exp(2j * np.pi * ph) * g * jys[k]
        if shp is not None:
            a1, a2, th = [p[k] for p in shp]
            ru, rv = a1 * (u * np.cos(th) - v * np.sin(th)), a2 * (u * np.sin(th) + v * np.cos(th))
            t = t * j1c(2 * np.pi * np.hypot(ru, rv))
        t = t * ref_response(bj, aj["ptg"], fq, top[:, None], pol[1])[:, 0] * np.conj(ref_response(bi, ai["ptg"], fq, top[:, None], pol[0])[:, 0])
        V = V + t
        S = S + np.abs(t)
    return V, S
