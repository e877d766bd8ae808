"""C22: sky pixelisation."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, raises_cleanly
from vlib import gen, hpx

TECHNIQUE = "property-based testing of every index and direction form against the HEALPix definition written out, and round trips"
RULE = ("cases: nside 1 to 8192 in both orderings; directions over the sphere, at the poles, on base-pixel boundaries, with negative or many-turn "
        "longitudes, as angles or vectors of any length; every pixel for nside <= 16, samples and extremes above; conversions back and forth, also "
        "after changing resolution and ordering of the object; interpolation weights against the bilinear rule; non-trivial: nside > 1")


@st.composite
def case(draw):
    k = draw(st.one_of(st.integers(0, 4), st.integers(0, 13)))
    return {"k": k, "scheme": draw(st.sampled_from(["RING", "NEST"])), "seed": draw(gen.seeds), "n": draw(st.sampled_from([1, 2, 3, 30])),
            "special": draw(st.lists(st.integers(0, 19), max_size=4)), "turns": draw(st.sampled_from([0, 0, 1, -1, 5])),
            "len": draw(st.sampled_from([1, 1, 3, 1e-3])), "prev": draw(st.one_of(st.none(), st.tuples(st.integers(0, 6), st.sampled_from(["RING", "NEST"])))),
            "px": draw(st.lists(fl01, max_size=6)), "set": draw(st.sampled_from(["both", "both", "apart"]))}


fl01 = gen.fl(0, 1)
SPECIAL = [(0., 0.), (math.pi, 1.), (math.pi, 0.), (math.pi / 2, 0.), (math.pi / 2, math.pi), (math.pi / 2, -math.pi / 2), (math.acos(2. / 3), .3), (math.acos(2. / 3), math.pi / 2),
           (math.acos(-2. / 3), 2.), (math.acos(-2. / 3), math.pi), (1., 0.), (1., math.pi / 2), (1., math.pi), (1., -math.pi / 2), (2.5, -1e-12), (2.5, math.pi / 4),
           (1e-9, 1.), (math.pi - 1e-9, 4.), (math.pi / 2, math.pi / 4), (.2, 2 * math.pi)]


def mkdirs(c):
    r = gen.rng(c["seed"])
    th, ph = np.arccos(r.uniform(-1, 1, c["n"])), r.uniform(0, 2 * np.pi, c["n"])
    ph += c["turns"] * 2 * np.pi
    sp = np.array([SPECIAL[i] for i in c["special"]]).reshape(-1, 2)
    return np.concatenate([th, sp[:, 0]]), np.concatenate([ph, sp[:, 1]])


def around(nside, scheme, th, ph):
    """Pixels which contain the direction, up to rounding."""
    s = set()
    for a in (-2e-11, 0, 2e-11):
        for b in (-1, 0, 1):
            t = min(max(th + a, 0.), math.pi)
            p = ph + b * (2e-11 + 4e-16 * abs(ph) * 8) / max(math.sin(t), 1e-11)
            s.add(hpx.pix(nside, scheme, math.cos(t), p, math.sin(t)))
    return s


def dirs(c, rec):
    from aipy import healpix
    nside = 1 << c["k"]
    npix = 12 * nside ** 2
    if c["prev"] is None:
        h = call("HealpixBase", healpix.HealpixBase, nside, c["scheme"])
    else:
        h = call("HealpixBase", healpix.HealpixBase, 1 << c["prev"][0], c["prev"][1])
        if c["set"] == "both":
            call("set_nside_scheme", h.set_nside_scheme, nside, c["scheme"])
        else:
            call("set_nside_scheme(nside)", h.set_nside_scheme, nside)
            require(h.scheme() == c["prev"][1], "setting nside changed the ordering")
            call("set_nside_scheme(scheme=)", h.set_nside_scheme, scheme=c["scheme"])
    require((h.nside(), h.scheme(), h.npix(), h.order(), h.npix2nside(npix)) == (nside, c["scheme"], npix, c["k"], nside),
            "nside, scheme, npix, order, npix2nside: %r for nside %d %s", (h.nside(), h.scheme(), h.npix(), h.order(), h.npix2nside(npix)), nside, c["scheme"])
    th, ph = mkdirs(c)
    x, y, z = [v * c["len"] for v in (np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th))]
    keep = [v.copy() for v in (th, ph, x, y, z)]
    pa = call("crd2px(th, phi)", h.crd2px, th, ph)
    pv = call("crd2px(x, y, z)", h.crd2px, x, y, z)
    require(np.shape(pa) == th.shape and np.shape(pv) == th.shape, "crd2px: shapes %r, %r for %d directions", np.shape(pa), np.shape(pv), th.size)
    for i in range(th.size):
        s = around(nside, c["scheme"], th[i], ph[i])
        require(int(pa[i]) in s, "crd2px(%r, %r) = %d at nside %d %s, expected %r", th[i], ph[i], pa[i], nside, c["scheme"], sorted(s))
        require(int(pv[i]) in s or abs(math.sin(th[i])) < 1e-7, "crd2px(%r, %r, %r) = %d at nside %d %s, expected %r", x[i], y[i], z[i], pv[i], nside, c["scheme"], sorted(s))
        one = call("crd2px of one direction", h.crd2px, th[i:i + 1], ph[i:i + 1])
        require(int(np.reshape(one, -1)[0]) == pa[i], "crd2px of one direction %r, among others %r", one, pa[i])
    # interpolation
    for what, args in (("angles", (th, ph)), ("vectors", (x, y, z))):
        px, w = call("crd2px with interpolation, " + what, h.crd2px, *args, interpolate=True)
        require(np.shape(px) == (th.size, 4) and np.shape(w) == (th.size, 4), "interpolation: shapes %r, %r for %d directions", np.shape(px), np.shape(w), th.size)
        require((np.asarray(w) >= -1e-9).all() and np.allclose(np.sum(w, axis=1), 1, rtol=0, atol=1e-9), "interpolation weights %r", w)
        require((np.asarray(px) >= 0).all() and (np.asarray(px) < npix).all(), "interpolation pixels %r of %d", px, npix)
        # sphere distance of each of the pixels that count
        cz = np.array(call("px2crd", h.px2crd, np.reshape(px, -1))).reshape(3, th.size, 4)
        d = np.arccos(np.clip(cz[0] * (np.sin(th) * np.cos(ph))[:, None] + cz[1] * (np.sin(th) * np.sin(ph))[:, None] + cz[2] * np.cos(th)[:, None], -1, 1))
        require((d * (np.asarray(w) > 1e-7) < 2.2 / nside).all(), "interpolation uses pixels %r away at nside %d", d.max(), nside)
        if nside <= 16:
            for i in range(th.size):
                want = {}
                for q, v in zip(*hpx.interpol(nside, float(th[i]), float(ph[i]))):
                    q = q if c["scheme"] == "RING" else int(np.flatnonzero(hpx.ring_of_nest(nside) == q)[0])
                    want[q] = want.get(q, 0) + v
                got = {}
                for q, v in zip(px[i], w[i]):
                    got[int(q)] = got.get(int(q), 0) + v
                if th[i] < 1e-6 or th[i] > math.pi - 1e-6:     # any longitude
                    continue
                require(all(abs(got.get(q, 0) - want.get(q, 0)) < 1e-6 for q in set(got) | set(want)), "interpolation toward (%r, %r) at nside %d %s: %r, expected %r", th[i], ph[i], nside, c["scheme"], got, want)
    require(all(np.array_equal(a, b) for a, b in zip(keep, (th, ph, x, y, z))), "crd2px changed its arguments")
    rec.nt(nside > 1)
    rec.event("%s order %d" % (c["scheme"], c["k"]))


def pixels(c, rec):
    from aipy import healpix
    nside = 1 << c["k"]
    npix = 12 * nside ** 2
    h = call("HealpixBase", healpix.HealpixBase, nside=nside, scheme=c["scheme"])
    if nside <= 8:
        px = np.arange(npix)
    else:
        px = np.unique(np.concatenate([[0, 1, 3, 4, npix - 1, npix - 4, npix - 5, 2 * nside * (nside - 1), 2 * nside * (nside - 1) - 1, npix // 2, 2 * nside * (nside + 1)],
                                       [min(npix - 1, int(f * npix)) for f in c["px"]], gen.rng(c["seed"]).integers(0, npix, 20)])).astype(int)
    gen.rng(c["seed"]).shuffle(px)
    th, ph = call("px2crd(ncrd=2)", h.px2crd, px, ncrd=2)
    v = call("px2crd", h.px2crd, px)
    require(len(v) == 3 and np.shape(th) == px.shape and np.shape(v[0]) == px.shape, "px2crd: %d components, shapes %r, %r", len(v), np.shape(th), np.shape(v[0]))
    require(np.allclose(v, [np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], rtol=0, atol=1e-8), "px2crd as vectors and as angles differ")
    require(np.array_equal(call("crd2px", h.crd2px, th, ph), px), "centres (angles) of %r map to %r", px, h.crd2px(th, ph))
    require(np.array_equal(call("crd2px", h.crd2px, *v), px), "centres (vectors) of %r map to %r", px, h.crd2px(*v))
    if nside <= 8:
        wt, wp = hpx.centres(nside)
        order = px if c["scheme"] == "RING" else hpx.ring_of_nest(nside)[px]
        require(np.allclose(th, wt[order], rtol=0, atol=1e-7) and np.allclose(np.exp(1j * ph), np.exp(1j * wp[order]), rtol=0, atol=1e-9), "pixel centres differ from the definition")
    # orderings
    other = "NEST" if c["scheme"] == "RING" else "RING"
    keep = px.copy()
    qx = call("nest_ring_conv", h.nest_ring_conv, px, other)
    require(h.scheme() == c["scheme"], "nest_ring_conv switched the ordering of the object")
    same = call("nest_ring_conv to its own ordering", h.nest_ring_conv, px, c["scheme"])
    require(np.array_equal(same, px), "conversion to its own ordering changed %r to %r", px, same)
    require(np.array_equal(px, keep), "nest_ring_conv changed its argument")
    g = healpix.HealpixBase(nside, other)
    require(np.array_equal(call("nest_ring_conv", g.nest_ring_conv, qx, c["scheme"]), px), "conversion to %s and back: %r from %r", other, g.nest_ring_conv(qx, c["scheme"]), px)
    require(len(set(qx.tolist())) == px.size, "conversion is not one to one")
    require(np.allclose(call("px2crd", g.px2crd, qx), v, rtol=0, atol=1e-9), "pixels %r %s and %r %s are at different places", px, c["scheme"], qx, other)
    k = c["seed"] % px.size
    f = hpx.nest2xyf(nside, int(px[k])) if c["scheme"] == "NEST" else None
    if f:
        require(hpx.xyf2ring(nside, *f) == qx[k], "NEST %d is RING %d, not %d at nside %d", px[k], hpx.xyf2ring(nside, *f), qx[k], nside)
    require(raises_cleanly(h.set_nside_scheme, 3 * nside), "nside %d was accepted", 3 * nside)
    require(raises_cleanly(h.set_nside_scheme, nside, "RONG"), "a scheme RONG was accepted")
    require(raises_cleanly(h.set_nside_scheme, 2 * nside, "RONG"), "a scheme RONG was accepted")
    require(raises_cleanly(h.npix2nside, npix + 1), "%d pixels were accepted", npix + 1)
    require((h.nside(), h.scheme()) == (nside, c["scheme"]), "refused settings changed the object")
    rec.nt(nside > 1)
    rec.event("%s order %d" % (c["scheme"], c["k"]))


def subs():
    return [Sub("directions", case(), dirs, quick=1500, thorough=60000), Sub("pixels", case(), pixels, quick=1500, thorough=60000)]
