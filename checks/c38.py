"""C38: facet centres."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen

TECHNIQUE = "property-based testing of point sets against their definition, and of spacing and order as metamorphic relations"
RULE = ("cases: numbers of points 1-4000 (and some up to 100003), each form of coordinates, repeated calls; oracle: the spiral formula in exact index arithmetic, the set of "
        "facet centres equals the set of packed points, bit-reversed order up to a shuffle of neighbours; non-trivial: more than 2 points")


@st.composite
def case(draw):
    return {"n": draw(st.one_of(st.integers(1, 70), st.integers(1, 600), st.integers(1, 4000), st.sampled_from([64, 128, 256, 512, 1024, 2048, 4096, 2000, 3000, 32767, 32769, 40000, 65537, 100003]))), "again": draw(st.booleans())}


def facets(c, rec):
    from aipy import map as amap, coord
    n = c["n"]
    p = np.asarray(call("pack_sphere", amap.pack_sphere, n))
    require(p.shape == (3, n), "pack_sphere(%d): shape %r", n, p.shape)
    require(np.allclose((p ** 2).sum(axis=0), 1, rtol=0, atol=1e-9), "pack_sphere(%d): points off the unit sphere", n)
    k = np.arange(n)
    z = (2 * k + 1.) / n - 1
    ang = np.pi * (3 - np.sqrt(5)) * k
    want = np.array([np.sqrt(1 - z ** 2) * np.cos(ang), np.sqrt(1 - z ** 2) * np.sin(ang), z])
    require(np.allclose(p, want, rtol=0, atol=1e-8), "pack_sphere(%d) is not the spiral: %r expected %r", n, p[:, :3], want[:, :3])
    # spread: no two points closer, none of the sphere further from them, than about the spacing
    if n > 1:
        sub = p[:, :: max(1, n // 300)]
        d = np.sort(np.arccos(np.clip(sub.T.dot(p), -1, 1)), axis=1)[:, 1]
        s = np.sqrt(4 * np.pi / n)
        require(d.min() > .5 * s and d.max() < 2 * s, "pack_sphere(%d): nearest neighbours %g to %g apart, expected about %g", n, d.min(), d.max(), s)
    f = np.asarray(call("facet_centers", amap.facet_centers, n, ncrd=3))
    require(f.shape == (3, n), "facet_centers(%d, 3): shape %r", n, f.shape)
    # which point each of them is
    idx = np.rint((f[2] + 1) * n / 2 - .5).astype(int)
    require(sorted(idx.tolist()) == list(range(n)) and np.allclose(f, want[:, idx], rtol=0, atol=1e-8), "facet_centers(%d) are not the points of pack_sphere", n)
    # order: bit-reversed, up to a swap of neighbours 2k, 2k+1
    nbits = n.bit_length()
    rev = [int(format(i, "0%db" % nbits)[::-1], 2) for i in range(1 << nbits)]
    rev = [i for i in rev if i < n]
    require([i // 2 for i in idx.tolist()] == [i // 2 for i in rev], "facet_centers(%d): order %r, expected about %r", n, idx[:20], rev[:20])
    r = np.asarray(call("facet_centers", amap.facet_centers, n, *([2] if c["again"] else [])))
    require(r.shape == (2, n), "facet_centers(%d): shape %r", n, r.shape)
    require((np.abs(r[1]) <= np.pi / 2 + 1e-9).all(), "facet_centers(%d): declinations %r", n, r[1])
    v = np.array([np.cos(r[1]) * np.cos(r[0]), np.cos(r[1]) * np.sin(r[0]), np.sin(r[1])])
    idx = np.rint((v[2] + 1) * n / 2 - .5).astype(int)
    require(sorted(idx.tolist()) == list(range(n)) and np.allclose(v, want[:, idx], rtol=0, atol=1e-6), "facet_centers(%d) as ra, dec are not the points of pack_sphere", n)
    rec.nt(n > 2)
    rec.event("2^%d points" % (n.bit_length() - 1))


def subs():
    return [Sub("facets", case(), facets, quick=800, thorough=12000)]
