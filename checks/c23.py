"""C23: sky maps."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, raises_cleanly
from vlib import gen, hpx

TECHNIQUE = "stateful property-based testing of histories of map operations against a model kept in RING order with its own pixelisation"
RULE = ("cases: up to 12 operations on 1-3 maps of nside 1-16, either ordering, 7 number types: set and read at pixels and directions (repeats "
        "included, off-centre directions), set_map, change_scheme, copying between maps of any two resolutions and orderings, interpolation on or off; "
        "oracle: model in RING order, HEALPix and its interpolation written out; after each operation every map is compared at every pixel; "
        "non-trivial: at least 2 changing operations and a conversion (ordering or resolution)")

DT = ["float64", "float64", "float32", "int16", "int32", "int64", "complex64", "complex128"]

spec = st.tuples(st.integers(0, 4), st.sampled_from(["RING", "NEST"]), st.sampled_from(DT), st.booleans())


@st.composite
def op(draw):
    k = draw(st.sampled_from(["setpx", "setpx", "setdir", "getdir", "getpx", "scheme", "scheme", "from", "from", "from", "set_map", "interp", "one", "fill", "copy", "bad"]))
    return {"op": k, "m": draw(st.integers(0, 2)), "n": draw(st.integers(0, 2)), "seed": draw(gen.seeds), "scheme": draw(st.sampled_from(["RING", "NEST"])),
            "count": draw(st.sampled_from([1, 2, 3, 10, 60])), "dup": draw(st.booleans()), "k": draw(st.integers(0, 4)), "dt": draw(st.sampled_from(DT)),
            "form": draw(st.sampled_from(["ang", "vec"])), "on": draw(st.booleans())}


@st.composite
def case(draw):
    return {"maps": draw(st.lists(spec, min_size=1, max_size=3)), "ops": draw(st.lists(op(), min_size=1, max_size=12))}


def vals(r, n, dt):
    dt = np.dtype(dt)
    v = r.integers(-50, 50, n)
    if dt.kind == "f":
        return (v + r.normal(size=n)).astype(dt)
    if dt.kind == "c":
        return (v + 1j * r.normal(size=n)).astype(dt)
    return v.astype(dt)


class Model(object):
    """Values by RING pixel."""

    def __init__(self, nside, scheme, dt, interp):
        self.nside, self.scheme, self.interp = nside, scheme, interp
        self.v = np.zeros(12 * nside ** 2, dt)

    def ring(self, px):
        return np.asarray(px) if self.scheme == "RING" else hpx.ring_of_nest(self.nside)[px]

    def at(self, th, ph):
        return np.array([hpx.pix(self.nside, "RING", math.cos(t), p, math.sin(t)) for t, p in zip(th, ph)], dtype=int)

    def interpolated(self, th, ph):
        out = []
        for t, p in zip(th, ph):
            q, w = hpx.interpol(self.nside, float(t), float(p))
            out.append((self.v[q] * np.array(w)).sum())
        return np.array(out)

    def put(self, ring, val):
        new = {}
        for q, x in zip(ring, val):
            new[q] = new[q] + x if q in new else x
        for q in new:
            self.v[q] = new[q]


def inner(r, nside, n, dup):
    """Directions inside pixels (not where rounding decides)."""
    th, ph = [], []
    while len(th) < n:
        t, p = math.acos(r.uniform(-1, 1)), r.uniform(-7, 7)
        if len({hpx.pix(nside, "RING", math.cos(t + a), p + b) for a in (-1e-7, 0, 1e-7) for b in (-1e-7, 0, 1e-7)}) > 1 or not 1e-3 < t < math.pi - 1e-3:
            continue
        th.append(t)
        ph.append(p)
        if dup and len(th) < n:
            th.append(t)
            ph.append(p)
    return np.array(th), np.array(ph)


def close(a, b, dt, slack=0):
    dt = np.dtype(dt)
    if dt.kind in "iu":
        return np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= slack)
    tol = 1e-4 if dt in (np.float32, np.complex64) else 1e-8
    return np.allclose(a, b, rtol=tol, atol=tol)


def histories(c, rec):
    from aipy import healpix
    hs, ms = [], []
    for k, sch, dt, interp in c["maps"]:
        h = call("HealpixMap", healpix.HealpixMap, nside=1 << k, scheme=sch, dtype=np.dtype(dt).type, **({"interp": True} if interp else {}))
        m = Model(1 << k, sch, dt, interp)
        hs.append(h)
        ms.append(m)
    changes = conv = 0

    def check(i, what, slack=0):
        h, m = hs[i], ms[i]
        require((h.nside(), h.scheme(), h.npix()) == (m.nside, m.scheme, m.v.size), "after %s map %d is nside %r, %r; expected nside %r, %s", what, i, h.nside(), h.scheme(), m.nside, m.scheme)
        data = np.asarray(h.get_map())
        require(data.shape == m.v.shape and data.dtype == m.v.dtype, "after %s map %d has data of shape %r, type %s; expected %s", what, i, data.shape, data.dtype, m.v.dtype)
        got = data if m.scheme == "RING" else None
        if got is None:
            got = np.empty_like(data)
            got[hpx.ring_of_nest(m.nside)] = data
        require(close(got, m.v, m.v.dtype, slack), "after %s map %d (nside %d, %s) has %r, expected %r", what, i, m.nside, m.scheme, got, m.v)
        if slack:
            m.v = got.copy()

    for o in c["ops"]:
        i, j = o["m"] % len(hs), o["n"] % len(hs)
        h, m = hs[i], ms[i]
        r = gen.rng(o["seed"])
        what = o["op"]
        slack = 0
        if o["op"] in ("setpx", "getpx"):
            px = r.integers(0, m.v.size, o["count"])
            if o["dup"]:
                px[: o["count"] // 2] = px[-1]
            form = px.astype([np.int64, np.int32, int][o["seed"] % 3]) if o["seed"] % 4 else px.tolist()
            if o["op"] == "setpx":
                v = vals(r, px.size, m.v.dtype)
                keep = v.copy()
                call("map[pixels] = values", h.__setitem__, form, v)
                require(np.array_equal(v, keep), "setting pixels changed the values given")
                m.put(m.ring(px), v)
                changes += 1
            else:
                got = call("map[pixels]", h.__getitem__, form)
                require(np.shape(got) == px.shape and close(got, m.v[m.ring(px)], m.v.dtype), "map[%r] = %r, expected %r", px, got, m.v[m.ring(px)])
        elif o["op"] == "one":
            px = int(r.integers(0, m.v.size))
            v = vals(r, 1, m.v.dtype)
            call("map[pixel] = value", h.__setitem__, px, v if o["on"] else v[0])
            m.put(m.ring([px]), v)
            got = call("map[pixel]", h.__getitem__, px)
            require(np.size(got) == 1 and close(np.reshape(got, -1)[0], v[0], m.v.dtype), "map[%d] = %r after setting it to %r", px, got, v)
            changes += 1
        elif o["op"] in ("setdir", "getdir"):
            th, ph = inner(r, m.nside, o["count"], o["dup"])
            crd = (th, ph) if o["form"] == "ang" else (np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th))
            if o["op"] == "setdir":
                v = vals(r, th.size, m.v.dtype)
                call("map[directions] = values", h.__setitem__, crd, v)
                m.put(m.at(th, ph), v)
                changes += 1
            else:
                got = call("map[directions]", h.__getitem__, crd)
                want = m.interpolated(th, ph) if m.interp else m.v[m.at(th, ph)]
                require(np.shape(got) == th.shape, "map[directions]: shape %r for %d directions", np.shape(got), th.size)
                require(np.allclose(got, want, rtol=1e-4, atol=1e-4 * (1 + np.abs(m.v).max())), "map[%r, %r]%s = %r, expected %r", th, ph, " (interpolated)" if m.interp else "", got, want)
        elif o["op"] == "scheme":
            call("change_scheme", h.change_scheme, o["scheme"])
            conv += m.scheme != o["scheme"]
            m.scheme = o["scheme"]
        elif o["op"] in ("set_map", "fill"):
            k = min(o["k"], 3)
            v = vals(r, 12 << (2 * k), o["dt"])
            if o["op"] == "fill":
                v[:] = v[0]
            if o["scheme"] == "RING" and o["on"]:
                call("set_map", h.set_map, v.copy())
            else:
                call("set_map", h.set_map, v.copy(), scheme=o["scheme"])
            m.nside, m.scheme = 1 << k, o["scheme"]
            m.v = np.empty_like(v)
            m.v[m.ring(np.arange(v.size))] = v
            changes += 1
        elif o["op"] == "bad":
            # neither of these is a map
            for d in (np.zeros([11, 1, 5, 13, 24, 49, 47, 190, 769][o["seed"] % 9]), np.zeros((12, [1, 4][o["seed"] % 2])), np.zeros((2, 6, 1))):
                e = raises_cleanly(h.set_map, d)
                require(e, "set_map of an array of shape %r is accepted", d.shape)
            e = raises_cleanly(h.set_map, np.zeros(12), scheme="nest" if o["on"] else "XYZ")
            require(e, "set_map with an unknown scheme is accepted")
        elif o["op"] == "interp":
            call("set_interpol", h.set_interpol, o["on"])
            m.interp = o["on"]
        elif o["op"] == "copy":
            d = call("get_map", h.get_map)
            if o["on"] and i != j and d.dtype == ms[j].v.dtype:
                call("set_map of another map's data", hs[j].set_map, d.copy(), scheme=h.scheme())
                ms[j].nside, ms[j].scheme, ms[j].v = m.nside, m.scheme, m.v.copy()
        elif o["op"] == "from" and i != j:
            src, sm = hs[j], ms[j]
            if m.v.dtype.kind != "c" and sm.v.dtype.kind == "c":
                continue
            if m.v.dtype.kind == "i" and np.abs(sm.v).max() * max(1, (sm.nside // m.nside) ** 2) > np.iinfo(m.v.dtype).max // 2:
                continue
            call("from_hpm", h.from_hpm, src)
            what = "from_hpm (nside %d %s into nside %d %s)" % (sm.nside, sm.scheme, m.nside, m.scheme)
            if sm.nside == m.nside:
                m.v = sm.v.astype(m.v.dtype)
            elif sm.nside > m.nside:
                th, ph = hpx.centres(sm.nside)
                m.v[:] = 0
                cast = sm.v.astype(m.v.dtype)
                own = m.at(th, ph)
                np.add.at(m.v, own, cast)
            else:
                th, ph = hpx.centres(m.nside)
                w = sm.interpolated(th, ph)
                slack = 1
                m.v = np.trunc(w.real).astype(m.v.dtype) if m.v.dtype.kind == "i" else w.astype(m.v.dtype)
                if m.v.dtype.kind != "i":
                    # a constant map stays constant, any other within its range
                    got = np.asarray(h.get_map())
                    if sm.v.dtype.kind != "c" and got.dtype.kind != "c":
                        e = 1e-5 * (1 + np.abs(sm.v.astype(float)).max())
                        require(got.min() >= sm.v.min() - e and got.max() <= sm.v.max() + e, "raising the resolution: values %r to %r from %r to %r", got.min(), got.max(), sm.v.min(), sm.v.max())
                    slack = 0
            th, ph = inner(r, sm.nside, 3, False)
            want = sm.interpolated(th, ph) if sm.interp else sm.v[sm.at(th, ph)]
            got = call("map[directions]", src.__getitem__, (th, ph))
            require(np.allclose(got, want, rtol=1e-4, atol=1e-4 * (1 + np.abs(sm.v).max())), "after being copied from, the map reads %r, expected %r%s", got, want, " (interpolated)" if sm.interp else "")
            if m.v.dtype.kind == "i" and sm.v.dtype.kind != "i":
                slack = max(1, sm.nside // m.nside) ** 2      # truncation, where rounding decides
            changes += 1
            conv += sm.nside != m.nside or sm.scheme != m.scheme
        check(i, what, slack)
        for q in range(len(hs)):
            if q != i:
                check(q, what + " on another map")
    rec.nt(changes >= 2 and conv >= 1)
    for o in c["ops"]:
        rec.event(o["op"])


@st.composite
def chain(draw):
    return {"nsides": draw(st.lists(st.integers(0, 4), min_size=2, max_size=4)), "schemes": draw(st.lists(st.sampled_from(["RING", "NEST"]), min_size=4, max_size=4)),
            "seed": draw(gen.seeds), "v": draw(gen.fl(-1e6, 1e6)), "interp": draw(st.booleans())}


def resolution(c, rec):
    """Constant maps and totals through changes of resolution."""
    from aipy import healpix
    r = gen.rng(c["seed"])
    cur = call("HealpixMap", healpix.HealpixMap, 1 << c["nsides"][0], c["schemes"][0], interp=c["interp"])
    call("set_map", cur.set_map, np.full(cur.npix(), c["v"]), scheme=c["schemes"][0])
    level = c["v"]
    for k, s in zip(c["nsides"][1:], c["schemes"][1:]):
        nxt = call("HealpixMap", healpix.HealpixMap, 1 << k, s)
        call("from_hpm", nxt.from_hpm, cur)
        if nxt.nside() < cur.nside():
            level *= (cur.nside() / nxt.nside()) ** 2
        require(np.allclose(nxt.map, level, rtol=1e-9, atol=1e-9), "a map of %r (nside %d %s) became %r to %r at nside %d %s, expected %r", c["v"], cur.nside(), cur.scheme(), nxt.map.min(), nxt.map.max(), nxt.nside(), nxt.scheme(), level)
        th, ph = np.arccos(r.uniform(-1, 1, 20)), r.uniform(0, 7, 20)
        for on in (True, False):
            call("set_interpol", nxt.set_interpol, on)
            require(np.allclose(call("map[directions]", nxt.__getitem__, (th, ph)), level, rtol=1e-9, atol=1e-9), "constant map of %r reads as %r", level, nxt[th, ph])
        nxt.set_interpol(c["interp"])
        cur = nxt
    rec.nt(len(set(c["nsides"])) > 1)


@st.composite
def pcase(draw):
    return {"k": [draw(st.sampled_from([0, 0, 1, 1, 2, 3, 4])) for _ in range(2)], "schemes": [draw(st.sampled_from(["RING", "NEST"])) for _ in range(2)], "dts": [draw(st.sampled_from(["float64", "float32", "complex128"])) for _ in range(2)],
            "seed": draw(gen.seeds), "interp": [draw(st.booleans()) for _ in range(2)], "moved": draw(st.booleans())}


def pairs(c, rec):
    """One conversion of varied data between any two resolutions and orderings."""
    from aipy import healpix
    a, b = [1 << k for k in c["k"]]
    dts = c["dts"] if c["dts"][0] != "complex128" else ["complex128"] * 2
    r = gen.rng(c["seed"])
    h, g = [call("HealpixMap", healpix.HealpixMap, n, s, dtype=np.dtype(t).type, interp=i) for n, s, t, i in zip((a, b), c["schemes"], dts, c["interp"])]
    m = Model(a, c["schemes"][0], dts[0], True)
    m.v = vals(r, m.v.size, m.v.dtype)
    data = m.v[m.ring(np.arange(m.v.size))]
    if c["moved"]:
        # through the other ordering and back
        h.set_map(data.copy(), scheme=c["schemes"][0])
        for s in ("RING", "NEST", c["schemes"][0]):
            h.change_scheme(s)
    else:
        h.set_map(data.copy(), scheme=c["schemes"][0])
    g[np.arange(g.npix())] = vals(r, g.npix(), np.dtype(dts[1]))
    call("from_hpm", g.from_hpm, h)
    q = Model(b, c["schemes"][1], dts[1], False)
    if a > b:
        np.add.at(q.v, q.at(*hpx.centres(a)), m.v.astype(q.v.dtype))
    else:
        q.v[:] = m.v if a == b else m.interpolated(*hpx.centres(b))
    require((g.nside(), g.scheme()) == (b, c["schemes"][1]), "from_hpm made a map of nside %d %s one of nside %r %r", b, c["schemes"][1], g.nside(), g.scheme())
    want = q.v[q.ring(np.arange(q.v.size))]
    got = np.asarray(g.get_map())
    require(got.dtype == want.dtype and np.allclose(got, want, rtol=1e-4, atol=1e-5 * np.abs(m.v).max()), "from_hpm (nside %d %s to nside %d %s): %r expected %r", a, c["schemes"][0], b, c["schemes"][1], got, want)
    require(np.array_equal(h.get_map(), data) and h.scheme() == c["schemes"][0], "from_hpm changed the map it read")
    rec.nt(a != b or len(set(c["schemes"])) > 1)


def subs():
    return [Sub("pairs", pcase(), pairs, quick=500, thorough=10000), Sub("histories", case(), histories, quick=900, thorough=40000), Sub("resolution", chain(), resolution, quick=300, thorough=6000)]
