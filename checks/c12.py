"""C12: coordinate conversions invert each other and keep length."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen

TECHNIQUE = "property-based testing: round trips and an independent trigonometric reference over generated directions, shapes and masks"
RULE = ("cases: scalars, lists and arrays of up to 3 dimensions of directions, uniform or at poles, axes, quadrant boundaries and the "
        "antimeridian, plain, masked and with masks absent, scaled vectors, angles outside the principal range, strided and float32 input; "
        "oracle: round trip, unit length, and formulas written out per convention; non-trivial: an array of at least two directions, a masked "
        "entry, or a special direction")

SPECIAL = [(0, 0, 1), (0, 0, -1), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (-1, 1e-12, 0), (-1, -1e-12, 0), (1, -1e-12, 0), (1e-9, 0, 1),
           (1e-9, -1e-9, -1), (.6, .8, 0), (.6, -.8, 0), (-.6, 0, .8), (-1, -0.0, 0)]


@st.composite
def dirs(draw):
    shape = draw(st.sampled_from([(), (1,), (2,), (3,), (5,), (17,), (2, 3), (3, 3), (3, 1), (2, 1, 4), (0,)]))
    return {"shape": list(shape), "seed": draw(gen.seeds), "special": draw(st.lists(st.tuples(st.integers(0, 50), st.integers(0, len(SPECIAL) - 1)), max_size=6)),
            "mask": draw(st.sampled_from(["plain", "plain", "nomask", "none", "some", "all"])), "scale": draw(st.sampled_from([1, 1, 1e-3, 250.])),
            "wrap": draw(st.integers(-2, 2)), "form": draw(st.sampled_from(["array", "tuple", "list", "strided", "f4"])),
            "which": draw(st.sampled_from(["thphi", "radec", "azalt", "latlong"]))}


def make(c):
    shape = tuple(c["shape"])
    n = int(np.prod(shape))
    r = gen.rng(c["seed"])
    v = r.normal(size=(3, max(n, 1)))
    if r.random() < .3:          # near the axes
        v *= 10. ** r.integers(-9, 1, size=v.shape)
    v /= np.sqrt((v ** 2).sum(0))
    for k, j in c["special"]:
        v[:, k % max(n, 1)] = np.array(SPECIAL[j], float) / np.linalg.norm(SPECIAL[j])
    v = v[:, :n] if shape else v[:, :1]
    return v.reshape((3,) + shape)


def masked(c, a):
    """-> (argument, mask or None)"""
    shape = a.shape[1:]
    if c["mask"] == "plain" or not shape:
        if c["form"] == "tuple":
            return tuple(a), None
        if c["form"] == "list":
            return [x.copy() for x in a], None
        if c["form"] == "strided":
            b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],))
            b[..., ::2] = a
            return b[..., ::2], None
        return a.copy(), None
    r = gen.rng(c["seed"] + 5)
    m = {"nomask": np.zeros(shape, bool), "none": np.zeros(shape, bool), "all": np.ones(shape, bool), "some": r.random(shape) < .4}[c["mask"]]
    if c["mask"] == "nomask":
        return np.ma.array(a), m
    return np.ma.array(a, mask=np.array([m] * len(a))), m


def close(a, b, tol=2e-9):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol)


def shape_mask(got, n, shape, m, what):
    require(got.shape == (n,) + shape, "%s: shape %r for directions of shape %r", what, got.shape, shape)
    if m is not None:
        require(np.ma.isMA(got), "%s lost the mask", what)
        gm = np.ma.getmaskarray(got)
        require(np.array_equal(gm, np.array([m] * n).reshape(gm.shape)), "%s: mask %r expected %r in each component", what, gm.tolist(), m.tolist())


def vals(a, m):
    """unmasked entries, (n, k)"""
    d = np.ma.getdata(a)
    if m is None:
        return d.reshape(d.shape[0], -1)
    return d[:, ~m]


def conv(c, rec):
    from aipy import coord
    xyz = make(c)
    shape = xyz.shape[1:]
    n = int(np.prod(shape))
    rec.nt(n >= 2 or bool(c["special"]))
    x, y, z = xyz
    hyp = np.hypot(x, y)
    th, phi = np.arctan2(hyp, z), np.arctan2(y, x)
    tab = {"thphi": (coord.xyz2thphi, coord.thphi2xyz, (th, phi), (0, np.pi), (-np.pi, np.pi)),
           "radec": (coord.eq2radec, coord.radec2eq, (phi, np.pi / 2 - th), (0, 2 * np.pi), (-np.pi / 2, np.pi / 2)),
           "azalt": (coord.top2azalt, coord.azalt2top, (np.arctan2(x, y), np.pi / 2 - th), (0, 2 * np.pi), (-np.pi / 2, np.pi / 2)),
           "latlong": (None, coord.latlong2xyz, (np.pi / 2 - th, phi), None, None)}
    fwd, back, angles, ra, rb = tab[c["which"]]
    f4 = c["form"] == "f4" and c["mask"] == "plain"
    tol = 1e-6 if f4 else 2e-9
    # vector -> angle
    if fwd is not None:
        arg, m = masked(c, xyz * c["scale"])
        if f4:
            arg = arg.astype(np.float32)
        keep = np.array(np.ma.getdata(arg) if np.ma.isMA(arg) else arg, copy=True)
        got = call("%s(%r)" % (fwd.__name__, arg), fwd, arg)
        require(np.array_equal(keep, np.ma.getdata(arg) if np.ma.isMA(arg) else np.array(arg)), "%s changed its argument", fwd.__name__)
        shape_mask(got, 2, shape, m, fwd.__name__)
        g = vals(got, m)
        w = vals(np.array(angles), m)
        v = vals(xyz, m)
        # the same direction on the sphere, and within the principal range
        a, b = (g[0], g[1]) if c["which"] != "thphi" else (g[1], g[0])
        wa, wb = (w[0], w[1]) if c["which"] != "thphi" else (w[1], w[0])
        atpole = np.hypot(v[0], v[1]) < 1e-6
        d = np.abs(np.angle(np.exp(1j * (a - wa))))
        require(np.all((d <= tol) | (atpole & (d * np.hypot(v[0], v[1]) <= tol)) | (f4 & (d * np.hypot(v[0], v[1]) <= 1e-5))), "%s: azimuth-like angle %r expected %r", fwd.__name__, a, wa)
        require(close(b, wb, tol), "%s: polar angle %r expected %r", fwd.__name__, b, wb)
        eps = 1e-6 if f4 else 1e-12
        ok = np.all((g[0] >= ra[0] - eps) & (g[0] <= ra[1] + eps) & (g[1] >= rb[0] - eps) & (g[1] <= rb[1] + eps))
        require(ok, "%s: angles outside their range: %r", fwd.__name__, g)
        again = call(back.__name__, back, got)
        shape_mask(again, 3, shape, m, back.__name__)
        require(close(vals(again, m), vals(xyz, m), tol), "%s(%s(v)) = %r, v = %r", back.__name__, fwd.__name__, vals(again, m), vals(xyz, m))
    # angle -> vector, also for angles outside the principal range
    ang = np.array(angles)
    k = {"thphi": 1, "radec": 0, "azalt": 0, "latlong": 1}[c["which"]]
    ang[k] = ang[k] + 2 * np.pi * c["wrap"]
    arg, m = masked(c, ang)
    got = call("%s(%r)" % (back.__name__, arg), back, arg)
    shape_mask(got, 3, shape, m, back.__name__)
    g = vals(got, m)
    require(close((g ** 2).sum(0), 1, 1e-12), "%s: vectors of length %r", back.__name__, np.sqrt((g ** 2).sum(0)))
    require(close(g, vals(xyz, m), 1e-8), "%s(%r) = %r expected %r", back.__name__, vals(ang, m), g, vals(xyz, m))
    # to all digits, also next to the poles
    a, b = [x.astype(np.longdouble) for x in vals(ang, m)]
    polar, az = {"thphi": (a, b), "radec": (np.longdouble(np.pi) / 2 - b, a), "azalt": (np.longdouble(np.pi) / 2 - b, np.longdouble(np.pi) / 2 - a),
                 "latlong": (np.longdouble(np.pi) / 2 - a, b)}[c["which"]]
    w = np.array([np.sin(polar) * np.cos(az), np.sin(polar) * np.sin(az), np.cos(polar)])
    require(close(g, w, 1e-14), "%s(%r) = %r expected %r", back.__name__, vals(ang, m), g, w)
    if m is not None and m.any() and not m.all():
        rec.nt()
    # element by element
    if m is None and n > 1 and not f4:
        i = int(gen.rng(c["seed"] + 9).integers(n))
        one = back(tuple(a.ravel()[i] for a in ang))
        require(close(one, g[:, i], 1e-12), "%s of a scalar differs from the array's element", back.__name__)


@st.composite
def mats(draw):
    return {"n": draw(st.sampled_from([None, 1, 2, 3, 7])), "seed": draw(gen.seeds), "ha": draw(st.sampled_from(["a", "s"])), "dec": draw(st.sampled_from(["a", "s"])),
            "axis": draw(st.integers(0, 6)), "exact": draw(st.booleans())}


ANGLES = [0., np.pi / 2, np.pi, -np.pi / 2, 2 * np.pi, -np.pi, 1e-9]


def pick(r, n, exact, lim):
    a = r.uniform(-lim, lim, size=n) if not exact else np.array(r.choice(ANGLES, n))
    return float(a) if n is None else a


def rotations(c, rec):
    from aipy import coord
    r = gen.rng(c["seed"])
    n = c["n"]
    ha = pick(r, n if c["ha"] == "a" else None, c["exact"], 7)
    dec = pick(r, n if c["dec"] == "a" else None, False, np.pi / 2)
    m = call("eq2top_m", coord.eq2top_m, ha, dec)
    i = call("top2eq_m", coord.top2eq_m, ha, dec)
    shape = np.broadcast(np.asarray(ha), np.asarray(dec)).shape
    require(m.shape == shape + (3, 3) and i.shape == shape + (3, 3), "shapes %r, %r for angles of shape %r", m.shape, i.shape, shape)
    ang = pick(r, n if c["ha"] == "a" else None, c["exact"], 7)
    v = r.normal(size=((n, 3) if n is not None and c["dec"] == "a" else (3,)))
    if c["axis"] < 3:
        v = np.zeros_like(v)
        v[..., c["axis"]] = 1
    v /= np.sqrt((v ** 2).sum(-1))[..., None]
    q = call("rot_m", coord.rot_m, ang, v)
    sh = np.broadcast(np.asarray(ang), v[..., 0]).shape
    require(q.shape == sh + (3, 3), "rot_m: shape %r for angle %r and axis %r", q.shape, np.shape(ang), v.shape)
    for name, x in (("eq2top_m", m), ("top2eq_m", i), ("rot_m", q)):
        x = x.reshape(-1, 3, 3)
        for k in x:
            require(close(k.dot(k.T), np.eye(3), 1e-10), "%s is not orthonormal: %r", name, k)
            require(abs(np.linalg.det(k) - 1) < 1e-10, "%s has determinant %r", name, np.linalg.det(k))
    for a, b in zip(m.reshape(-1, 3, 3), i.reshape(-1, 3, 3)):
        require(close(a.T, b, 1e-10), "top2eq_m is not the transpose of eq2top_m")
    back = coord.rot_m(-np.asarray(ang) if n is not None and c["ha"] == "a" else -ang, v)
    for a, b in zip(q.reshape(-1, 3, 3), back.reshape(-1, 3, 3)):
        require(close(a.T, b, 1e-10), "rot_m(-ang) is not the transpose of rot_m(ang)")
    rec.nt(n is not None and n > 1 or c["exact"])


def subs():
    return [Sub("convert", dirs(), conv, quick=4000, thorough=80000, weight=3),
            Sub("matrices", mats(), rotations, quick=1500, thorough=30000)]
