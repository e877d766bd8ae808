"""C15: baselines and their projections (uvw)."""
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call, sut, Violation, raises_cleanly
from vlib import gen, arr

TECHNIQUE = "property-based testing against an independent projection formula, with antisymmetry, closure and length as metamorphic relations"
RULE = ("cases: arrays of 2-6 antennas (coincident ones included) at any place and time, with some channels selected, sources of every form "
        "(zenith, equatorial, unrotated, fixed bodies, planets, single vectors and arrays of vectors); oracle: projection by hour angle and "
        "declination written out; non-trivial: a source given as a body or vector and a baseline of non-zero length")


@st.composite
def case(draw):
    n = draw(st.integers(2, 6))
    return {"loc": draw(arr.location()), "jd": draw(arr.JD), "n": n, "seed": draw(gen.seeds), "f": draw(arr.freqs()),
            "cls": draw(st.sampled_from(["phs", "amp", "fit"])), "same": draw(st.booleans()), "own": draw(st.booleans()), "scale": draw(st.sampled_from([1., 100., 1e5])),
            "chans": draw(st.one_of(st.none(), st.lists(st.integers(0, 11), min_size=1, max_size=6))),
            "src": draw(st.sampled_from(["body", "horizon", "horizon", "special", "vec", "vec", "vecs", "vecs", "vecs1", "zenith", "pole"])), "nsrc": draw(st.integers(1, 7)),
            "name": draw(st.sampled_from(["Sun", "Moon", "Jupiter"]))}


def build(c):
    import aipy
    mod = getattr(aipy, c["cls"])
    fq = arr.mkfreqs(c["f"])
    beam = mod.Beam(fq)
    r = gen.rng(c["seed"])
    pos = r.normal(size=(c["n"], 3)) * c["scale"]
    if c["same"]:
        pos[1] = pos[0]
    aa = mod.AntennaArray(arr.loc(c["loc"]), [mod.Antenna(p[0], p[1], p[2], beam=mod.Beam(fq) if c["own"] else beam) for p in pos])
    if c["chans"] is not None:
        ch = np.array([k % len(fq) for k in c["chans"]])
        aa.select_chans(ch)
        fq = fq[ch]
    if c["seed"] % 2:
        aa.set_jultime(c["jd"] - (.003, 1.)[c["seed"] % 4 // 2])
    aa.set_jultime(c["jd"])
    return aa, pos, fq


def sources(c, aa):
    """-> (source argument, list of (ra, dec) or None if below the horizon)"""
    import aipy
    from aipy import phs
    r = gen.rng(c["seed"] + 1)
    mod = getattr(aipy, c["cls"])
    lst = float(aa.sidereal_time())
    k = c["src"]
    if k == "body":
        s = mod.RadioFixedBody(r.uniform(0, 2 * np.pi), r.uniform(-1.5, 1.5), name="s", **({} if c["cls"] == "phs" else {"jys": 1.}))
        s.compute(aa)
    elif k == "horizon":
        az, alt = r.uniform(0, 2 * np.pi), r.choice([-1., 1.]) * r.choice([1e-3, 5e-3, 2e-2])
        sd = np.sin(alt) * np.sin(aa.lat) + np.cos(alt) * np.cos(az) * np.cos(aa.lat)
        ha = np.arctan2(-np.sin(az) * np.cos(alt), np.sin(alt) * np.cos(aa.lat) - np.cos(alt) * np.cos(az) * np.sin(aa.lat))
        s = mod.RadioFixedBody(lst - ha, np.arcsin(np.clip(sd, -1, 1)), name="s", epoch=aa.epoch, **({} if c["cls"] == "phs" else {"jys": 1.}))
        s.compute(aa)
    elif k == "special":
        s = mod.RadioSpecial(c["name"])
        s.compute(aa)
    if k in ("body", "horizon", "special"):
        return s, [(float(s.ra), float(s.dec))], float(s.alt) < 0
    n = c["nsrc"] if k == "vecs" else 1
    v = r.normal(size=(3, n))
    v /= np.sqrt((v ** 2).sum(0))
    if k == "zenith":
        v = np.array([[np.cos(aa.lat) * np.cos(lst)], [np.cos(aa.lat) * np.sin(lst)], [np.sin(aa.lat)]])
    elif k == "pole":
        v = np.array([[0.], [0.], [1.]])
    rd = [(np.arctan2(v[1, i], v[0, i]), np.arctan2(v[2, i], np.hypot(v[0, i], v[1, i]))) for i in range(n)]
    if k not in ("vecs", "vecs1"):
        v = v[:, 0]
    return v, rd, False


def uvw(c, rec):
    from aipy import phs, miriad
    aa, pos, fq = call("building the array", build, c)
    lst, lat = float(aa.sidereal_time()), float(aa.lat)
    require(np.array_equal(aa.get_afreqs(), fq), "active frequencies %r expected %r", aa.get_afreqs(), fq)
    require(np.array_equal(aa.get_freqs(), arr.mkfreqs(c["f"])), "frequencies changed: %r", aa.get_freqs())
    src, rds, below = call("building the source", sources, c, aa)
    keep = src.copy() if isinstance(src, np.ndarray) else None
    n = c["n"]
    tol = 1e-9 * (np.abs(pos).max() + 1)
    e, z = arr.uvw_matrix(-lst - np.pi / 2, 0), arr.uvw_matrix(0., lat)
    cs, sn = np.cos(lst), np.sin(lst)
    e = np.array([[cs, sn, 0], [-sn, cs, 0], [0, 0, 1.]])
    B = {}
    for i in range(n):
        for j in range(n):
            bl = pos[j] - pos[i]
            for name, want in (("r", bl), ("e", e.dot(bl)), ("z", z.dot(bl))):
                got = call("get_baseline", aa.get_baseline, i, j, name)
                require(np.shape(got) == (3,) and np.allclose(got, want, rtol=0, atol=tol), "get_baseline(%d,%d,%r) = %r expected %r", i, j, name, got, want)
            if i == j:
                require(raises_cleanly(aa.get_baseline, i, (i + 1) % n, ["x", "E", "zen", ""][(i + n) % 4]), "get_baseline in unknown coordinates is accepted")
            want = z.dot(bl)[:, None, None] * fq
            got = call("gen_uvw", aa.gen_uvw, i, j) if (i + j) % 2 else call("gen_uvw", aa.gen_uvw, i, j, src="z")
            require(np.shape(got) == (3, 1, len(fq)) and np.allclose(got, want, rtol=1e-9, atol=tol), "zenith uvw of (%d,%d): %r expected %r", i, j, got, want)
            if below:
                for nm, f in (("get_baseline", aa.get_baseline), ("gen_uvw", aa.gen_uvw)):
                    try:
                        f(i, j, src=src)
                    except phs.PointingError:
                        continue
                    raise Violation("%s of a source %r below the horizon" % (nm, src.alt))
                continue
            got = call("get_baseline", aa.get_baseline, i, j, src)
            wants = np.array([arr.uvw_matrix(lst - ra, dec).dot(bl) for ra, dec in rds]).T
            if not (isinstance(src, np.ndarray) and src.ndim == 2):
                shp = (3,)
            else:
                shp = (3, len(rds))
            require(np.shape(got) == shp, "get_baseline(%d,%d) toward %s: shape %r expected %r", i, j, c["src"], np.shape(got), shp)
            require(np.allclose(np.reshape(got, wants.shape), wants, rtol=0, atol=tol), "get_baseline(%d,%d) toward %s = %r expected %r", i, j, c["src"], got, wants)
            require(np.allclose(np.sqrt((np.reshape(got, wants.shape) ** 2).sum(0)), np.linalg.norm(bl), rtol=1e-9, atol=tol), "a baseline changed length")
            B[i, j] = np.array(got)
            got = call("gen_uvw", aa.gen_uvw, i, j, src=src)
            w = call("gen_uvw", aa.gen_uvw, i, j, src=src, w_only=True)
            wu = wants[:, :, None] * fq
            require(np.shape(got) == wu.shape and np.allclose(got, wu, rtol=1e-9, atol=tol), "uvw of (%d,%d) toward %s: %r expected %r", i, j, c["src"], got, wu)
            require(np.shape(w) == wu.shape[1:] and np.allclose(w, got[2], rtol=1e-12, atol=tol), "w_only of (%d,%d): %r, w is %r", i, j, w, got[2])
    for (i, j), b in B.items():
        require(np.allclose(b, -B[j, i], rtol=0, atol=tol), "baseline (%d,%d) is not minus (%d,%d)", i, j, j, i)
        for k in range(n):
            require(np.allclose(B[i, k], b + B[j, k], rtol=0, atol=3 * tol), "baselines (%d,%d,%d) do not close", i, j, k)
    if keep is not None:
        require(np.array_equal(src, keep) and src.shape == keep.shape, "the source vector was changed")
    for i in range(n):
        require(np.array_equal(aa[i].pos, pos[i]), "antenna %d moved from %r to %r", i, pos[i], aa[i].pos)
    rec.nt(not below and c["src"] not in ("zenith",))
    rec.event(c["src"] + (" below" if below else ""))


@st.composite
def tables(draw):
    return {"n": draw(st.one_of(st.integers(1, 40), st.sampled_from([1, 2, 257]))), "auto": draw(st.booleans()), "cross": draw(st.booleans()),
            "ij": [draw(st.integers(0, 256)), draw(st.integers(0, 256))]}


def indices(c, rec):
    from aipy import phs
    beam = phs.Beam(np.array([.15]))
    aa = phs.AntennaArray((0., 0.), [phs.Antenna(k, 0, 0, beam=beam) for k in range(c["n"])])
    kw = {"auto": c["auto"], "cross": c["cross"]}
    if c["ij"][0] % 2:
        # both are taken by default
        kw = {k: v for k, v in kw.items() if not v}
    got = call("bl_indices", aa.bl_indices, **kw)
    want = {(i, j) for i in range(c["n"]) for j in range(i, c["n"]) if (c["auto"] if i == j else c["cross"])}
    pairs = [call("bl2ij", aa.bl2ij, b) for b in got]
    require(len(got) == len(set(got)) == len(want), "bl_indices: %d baselines, %d different, expected %d", len(got), len(set(got)), len(want))
    require({tuple(int(x) for x in p) for p in pairs} == want, "bl_indices names other pairs")
    i, j = c["ij"]
    if c["n"] >= 257:
        b = call("ij2bl", aa.ij2bl, i, j)
        require(tuple(aa.bl2ij(b)) in ((i, j), (j, i)), "bl2ij(ij2bl(%d,%d)) = %r", i, j, aa.bl2ij(b))
    # antennas as vectors
    a, b = aa[0], aa[c["n"] - 1]
    require(np.array_equal(b - a, b.pos - a.pos) and np.array_equal(a + b, a.pos + b.pos) and np.array_equal(-b, -b.pos) and list(b) == list(b.pos), "antenna arithmetic")
    class P(object):
        pos = np.array([3., -1., 2.])
    require(np.array_equal(P() - a, P.pos - a.pos) and np.array_equal(P() + a, P.pos + a.pos), "a position minus an antenna is %r expected %r", P() - a, P.pos - a.pos)
    require(len(aa) == c["n"] and [x for x in aa] == [aa[k] for k in range(c["n"])], "iteration over the array")
    rec.nt(c["n"] > 1)


def subs():
    return [Sub("uvw", case(), uvw, quick=900, thorough=20000, weight=3), Sub("indices", tables(), indices, quick=200, thorough=3000)]
