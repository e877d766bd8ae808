"""C25: weighted sky maps."""
import copy
import math
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, hpx
from checks.c23 import inner

TECHNIQUE = "stateful property-based testing of histories of additions to weighted maps against per-pixel sums"
RULE = ("cases: up to 14 operations on weighted maps of nside 1-8, either ordering, float32/float64, 0-3 index maps, interpolation on or off: adding "
        "and putting data at pixels and directions (repeats, zero weights), reading averages and raw sums, resetting weights, copying into another "
        "resolution or ordering, changing the number of indices, copying the object; oracle: sums of weights and of weighted data per pixel; "
        "non-trivial: a repeated place within one addition or a conversion, and at least 3 changing operations")


@st.composite
def op(draw):
    return {"op": draw(st.sampled_from(["add", "add", "add", "put", "get", "read", "reset", "from", "nind", "interp", "copy", "readout"])), "seed": draw(gen.seeds),
            "count": draw(st.sampled_from([1, 2, 3, 12, 40])), "dup": draw(st.booleans()), "form": draw(st.sampled_from(["px", "ang", "vec", "list"])), "k": draw(st.integers(0, 3)),
            "scheme": draw(st.sampled_from(["RING", "NEST"])), "n": draw(st.integers(0, 3)), "on": draw(st.booleans()), "zero": draw(st.booleans()), "scalar": draw(st.booleans())}


@st.composite
def case(draw):
    return {"k": draw(st.integers(0, 3)), "scheme": draw(st.sampled_from(["RING", "NEST"])), "dt": draw(st.sampled_from(["float64", "float64", "float32"])),
            "nind": draw(st.sampled_from([None, 0, 1, 2, 3])), "interp": draw(st.booleans()), "ops": draw(st.lists(op(), min_size=1, max_size=14))}


class Model(object):
    def __init__(self, nside, scheme, nind, dt):
        self.nside, self.scheme = nside, scheme
        n = 12 * nside ** 2
        self.w, self.f, self.ind = np.zeros(n), np.zeros(n), [np.zeros(n) for i in range(nind)]
        self.interp = False

    def ring(self, px):
        return np.asarray(px) if self.scheme == "RING" else hpx.ring_of_nest(self.nside)[px]

    def at(self, th, ph):
        return np.array([hpx.pix(self.nside, "RING", math.cos(t), p, math.sin(t)) for t, p in zip(th, ph)], dtype=int)

    def all(self):
        return [self.w, self.f] + self.ind


def convert(v, n0, n1):
    """Values (RING) of nside n0 in another resolution."""
    if n0 == n1:
        return v.copy()
    th, ph = hpx.centres(max(n0, n1))
    out = np.zeros(12 * n1 ** 2)
    if n0 > n1:
        np.add.at(out, np.array([hpx.pix(n1, "RING", math.cos(t), p, math.sin(t)) for t, p in zip(th, ph)], dtype=int), v)
        return out
    for i, (t, p) in enumerate(zip(th, ph)):
        q, w = hpx.interpol(n0, float(t), float(p))
        out[i] = (v[q] * np.array(w)).sum()
    return out


def histories(c, rec):
    from aipy import map as amap
    kw = {"nside": 1 << c["k"], "scheme": c["scheme"], "dtype": np.dtype(c["dt"]).type}
    if c["nind"] is not None:
        kw["nindices"] = c["nind"]
    mp = call("Map", amap.Map, **kw)
    m = Model(1 << c["k"], c["scheme"], c["nind"] or 0, c["dt"])
    if c["interp"]:
        call("set_interpol", mp.set_interpol, True)
        m.interp = True
    dup = conv = changes = 0

    def check(mp, m, what):
        require((mp.nside(), mp.scheme(), mp.npix()) == (m.nside, m.scheme, 12 * m.nside ** 2), "after %s: nside %r, %r", what, mp.nside(), mp.scheme())
        require(len(mp.ind) == len(m.ind), "after %s: %d indices, expected %d", what, len(mp.ind), len(m.ind))
        for name, h, v in zip(["wgt", "map"] + ["ind"] * 9, [mp.wgt, mp.map] + list(mp.ind), m.all()):
            require((h.nside(), h.scheme()) == (m.nside, m.scheme), "after %s: %s is nside %r %s in a map of nside %d %s", what, name, h.nside(), h.scheme(), m.nside, m.scheme)
            got = np.asarray(h.get_map())
            if m.scheme == "NEST":
                x = np.empty_like(got)
                x[hpx.ring_of_nest(m.nside)] = got
                got = x
            require(np.allclose(got, v, rtol=1e-4, atol=1e-4 * (1 + np.abs(v).max())), "after %s: %s holds %r, expected %r", what, name, got, v)

    for o in c["ops"]:
        r = gen.rng(o["seed"])
        if o["form"] in ("px", "list"):
            px = r.integers(0, m.w.size, o["count"])
            if o["dup"]:
                px[: (o["count"] + 1) // 2] = px[-1]
            ring = m.ring(px)
            crd = px if o["form"] == "px" else px.tolist()
            if o["count"] == 1 and o["on"]:
                crd = int(px[0])
            # pixel centres
            th, ph = (v[ring] for v in hpx.centres(m.nside))
        else:
            th, ph = inner(r, m.nside, o["count"], o["dup"])
            ring = m.at(th, ph)
            crd = (th, ph) if o["form"] == "ang" else (np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th))
        n = ring.size
        what = o["op"]
        if o["op"] in ("add", "put"):
            w, f = r.uniform(.5, 3, n), r.normal(size=n) * 10
            if o["zero"]:
                w[r.integers(0, n)] = 0.
            inds = [r.normal(size=n) for i in range(o["n"] % (len(m.ind) + 1))]
            args = [w, f] + inds
            keep = [x.copy() for x in args]
            if o["scalar"] and n == 1:
                give = [float(x[0]) for x in args]
            else:
                give = args
            if inds or o["on"]:
                call(what, getattr(mp, what), crd, give[0], give[1], give[2:])
            else:
                call(what, getattr(mp, what), crd, give[0], give[1])
            require(all(np.array_equal(x, y) for x, y in zip(keep, args)), "%s changed the data given to it", what)
            if o["op"] == "put":
                for v in m.all()[: 2 + len(inds)]:
                    v[ring] = 0
            for v, x in zip(m.all(), [w, f * w] + [i * w for i in inds]):
                np.add.at(v, ring, x)
            dup += len(set(ring.tolist())) < n
            changes += 1
            # the weighted mean, as read back
            if not m.interp and o["op"] == "add":
                got = call("map[places]", mp.__getitem__, crd)
                fl = got[0] if m.ind else got
                W = np.where(m.w[ring] > 0, m.w[ring], 1)
                require(np.allclose(fl, m.f[ring] / W, rtol=1e-3, atol=1e-3 * (1 + np.abs(m.f).max())), "weighted mean %r at %r after adding, expected %r", fl, crd, m.f[ring] / W)
        elif o["op"] in ("get", "read"):
            if m.interp and o["form"] in ("ang", "vec"):
                iv = lambda v: np.array([(v[q] * np.array(w)).sum() for q, w in (hpx.interpol(m.nside, float(t), float(p)) for t, p in zip(th, ph))])
            else:
                iv = lambda v: v[ring]
            W, F, I = iv(m.w), iv(m.f), [iv(v) for v in m.ind]
            tol = dict(rtol=1e-3, atol=1e-3 * (1 + np.abs(m.f).max() + sum(np.abs(v).max() for v in m.ind)))
            if o["op"] == "get":
                got = call("get", mp.get, crd)
                require(len(got) == 3 and len(got[2]) == len(I), "get returned %d indices for %d", len(got[2]), len(I))
                require(np.allclose(got[0], W, **tol) and np.allclose(got[1], F, **tol) and all(np.allclose(a, b, **tol) for a, b in zip(got[2], I)), "get: %r, expected %r", got, (W, F, I))
            else:
                d = np.where(W > 0, W, 1)
                if m.interp and (W < .05).any():
                    continue
                got = call("map[places]", mp.__getitem__, crd)
                if len(I):
                    require(isinstance(got, tuple) and len(got[1]) == len(I), "map[places] without its indices: %r", got)
                    require(all(np.allclose(a, b / d, **tol) for a, b in zip(got[1], I)), "indices %r, expected %r", got[1], [b / d for b in I])
                    got = got[0]
                require(np.shape(got) == (n,) and np.allclose(got, F / d, **tol), "map[places] %r, expected %r", got, F / d)
        elif o["op"] == "reset":
            k = [1, 1, 2.5][o["n"] % 3]
            call("reset_wgt", *([mp.reset_wgt] if o["n"] == 0 else [mp.reset_wgt, k]))
            d = np.where(m.w > 0, m.w, 1)
            m.f = m.f / d
            m.ind = [v / d for v in m.ind]
            m.w = np.where(m.w > 0, k, 0.)
            changes += 1
        elif o["op"] == "from":
            g = call("Map", amap.Map, nside=1 << o["k"], scheme=o["scheme"], nindices=o["n"], dtype=np.dtype(c["dt"]).type)
            call("from_map", g.from_map, mp)
            check(mp, m, "being copied from")
            q = Model(1 << o["k"], o["scheme"], o["n"], c["dt"])
            q.w, q.f = convert(m.w, m.nside, q.nside), convert(m.f, m.nside, q.nside)
            for i in range(min(o["n"], len(m.ind))):
                q.ind[i] = convert(m.ind[i], m.nside, q.nside)
            what = "from_map (nside %d %s to %d %s)" % (m.nside, m.scheme, q.nside, q.scheme)
            mp, m = g, q
            check(mp, m, what)
            for v, h in zip(m.all(), [mp.wgt, mp.map] + list(mp.ind)):
                # rounding decides whether the weight beside the data is zero
                v[m.ring(np.arange(v.size))] = h.get_map()
            conv += 1
            changes += 1
        elif o["op"] == "nind":
            call("set_nindices", mp.set_nindices, o["n"])
            m.ind = m.ind[: o["n"]] + [np.zeros(m.w.size) for i in range(o["n"] - len(m.ind))]
            if m.interp:
                call("set_interpol", mp.set_interpol, True)
        elif o["op"] == "interp":
            call("set_interpol", mp.set_interpol, o["on"])
            m.interp = o["on"]
        elif o["op"] == "copy":
            g = call("copy of a map", copy.deepcopy, mp)
            call("adding to the copy", g.add, 0, 1., 5.)
            check(mp, m, "adding to a copy")
            mm = copy.deepcopy(m)
            k = int(mm.ring([0])[0])
            mm.w[k] += 1
            mm.f[k] += 5
            check(g, mm, "copying and adding to the copy")
        else:
            # attributes of the map itself are reached through the weighted map
            require(mp.npix() == m.w.size and np.array_equal(mp.px2crd(np.arange(3)), mp.map.px2crd(np.arange(3))), "npix or px2crd of the weighted map")
        check(mp, m, what)
    rec.nt(changes >= 3 and (dup or conv))
    for o in c["ops"]:
        rec.event(o["op"])


@st.composite
def mcase(draw):
    return {"k": draw(st.integers(0, 2)), "scheme": draw(st.sampled_from(["RING", "NEST"])), "nind": draw(st.integers(0, 2)), "seed": draw(gen.seeds), "adds": draw(st.integers(1, 5)), "n": draw(st.integers(1, 30)),
            "lo": draw(st.sampled_from([-12, -9, -5, -2, 0])), "span": draw(st.sampled_from([0, 1, 4])), "reset": draw(st.booleans())}


def means(c, rec):
    """Means over any scale of weights."""
    from aipy import map as amap
    mp = call("Map", amap.Map, nside=1 << c["k"], scheme=c["scheme"], nindices=c["nind"])
    r = gen.rng(c["seed"])
    N = 12 << (2 * c["k"])
    W, S, A = np.zeros(N), np.zeros((1 + c["nind"], N)), np.zeros((1 + c["nind"], N))
    for _ in range(c["adds"]):
        px = r.integers(0, N, c["n"])
        w = 10. ** (c["lo"] + c["span"] * r.uniform(size=c["n"]))
        f = r.normal(size=(1 + c["nind"], c["n"])) * 10
        call("add", mp.add, px, w, f[0], list(f[1:]))
        np.add.at(W, px, w)
        for k in range(1 + c["nind"]):
            np.add.at(S[k], px, f[k] * w)
            np.add.at(A[k], px, np.abs(f[k]) * w)
    every = np.arange(N)
    hit = W > 0
    for what in ("added", "reset"):
        got = call("map[pixels]", mp.__getitem__, every)
        got = [got[0]] + list(got[1]) if c["nind"] else [got]
        for k, g in enumerate(got):
            require(np.allclose(np.asarray(g)[hit], (S[k] / np.where(hit, W, 1))[hit], rtol=1e-9, atol=0) or (np.abs(np.asarray(g) * W - S[k])[hit] <= 1e-11 * A[k][hit]).all(), "weighted mean (%s, %s) %r expected %r of weights %r", what, "data" if k == 0 else "index %d" % (k - 1), np.asarray(g)[hit], S[k][hit] / W[hit], W[hit])
            require(not np.asarray(g)[~hit].any(), "a pixel without weight reads %r", g)
        if not c["reset"]:
            break
        call("reset_wgt", mp.reset_wgt, 1)
        require(np.array_equal(mp.wgt.get_map(), hit * 1.), "weights after reset_wgt: %r, data at %r", mp.wgt.get_map(), every[hit])
    rec.nt(c["adds"] * c["n"] > 1 and c["lo"] != 0)


def subs():
    return [Sub("means", mcase(), means, quick=500, thorough=10000), Sub("histories", case(), histories, quick=900, thorough=40000)]
