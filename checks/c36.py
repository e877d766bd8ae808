"""C36: polarised responses."""
import os
import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, arr

TECHNIQUE = "property-based testing of polarised antennas and arrays against per-feed references; round trips of names, codes and datasets; geometry for parallactic angles"
RULE = ("cases: arrays of 2-3 polarised antennas with different phase, passband and amplitude for each feed, every pair of feeds and Stokes parameter, "
        "channel selections and parameter changes; all polarisation names, codes and baselines; positions anywhere in the sky; datasets of "
        "records of random polarisations; non-trivial: feeds that differ")

LIN = ["xx", "xy", "yx", "yy"]


@st.composite
def acase(draw):
    n = draw(st.integers(2, 3))
    return {"ants": [[draw(arr.ant_spec()), draw(arr.ant_spec())] for _ in range(n)], "beams": [draw(arr.beam_spec()) for _ in range(draw(st.sampled_from([1, n])))], "f": draw(arr.freqs(8)),
            "loc": draw(arr.location()), "jd": draw(arr.JD), "seed": draw(gen.seeds), "nsrc": draw(st.integers(1, 4)), "chans": draw(st.one_of(st.none(), st.lists(st.integers(0, 7), min_size=1, max_size=4))),
            "ops": draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from("xy"), st.sampled_from(["dly", "off", "phsoff", "bp_r", "bp_i", "amp"]), gen.seeds).map(list), max_size=3)),
            "at": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from(LIN)).map(list), min_size=1, max_size=5))}


def build(c):
    from aipy import pol
    fq = arr.mkfreqs(c["f"])
    beams = [arr.mkbeam(pol.fit if hasattr(pol, "fit") else __import__("aipy").fit, b, fq) for b in c["beams"]]
    specs, ants = [], []
    for k, (a, b) in enumerate(c["ants"]):
        s = {"x": arr.mkant(a), "y": arr.mkant(dict(b, seed=b["seed"] + 17))}
        s["y"]["pos"], s["y"]["ptg"] = s["x"]["pos"], s["x"]["ptg"]
        specs.append(s)
        per = lambda q: {p: (list(s[p][q]) if isinstance(s[p][q], list) else s[p][q]) for p in "xy"}
        ants.append(pol.Antenna(*s["x"]["pos"], beam=beams[k % len(beams)], phsoff=per("phsoff"), bp_r=per("bp_r"), bp_i=per("bp_i"), amp=per("amp"), pointing=s["x"]["ptg"]))
    return specs, ants, fq


def change(c, specs, ants):
    for k, p, q, seed in c["ops"]:
        r = gen.rng(seed)
        s = specs[k][p]
        if q in ("dly", "off"):
            v = float(r.normal())
            s["phsoff"][-2 if q == "dly" else -1] = v
        elif q == "amp":
            v = s["amp"] = float(r.uniform(.2, 3))
        else:
            v = [float(x) for x in r.normal(size=int(r.integers(2, 4)))]
            s[q] = list(v)
        require(call("set_params", ants[k].set_params, {q + "_" + p: v}) is True, "set_params(%s_%s) does not report a change", q, p)


def t_antenna(c, rec):
    specs, ants, fq = build(c)
    change(c, specs, ants)
    if c["chans"] is not None:
        ch = [k % len(fq) for k in c["chans"]]
        for a in ants:
            a.select_chans(ch)
        fq = fq[ch]
    r = gen.rng(c["seed"])
    rec.nt(True)
    for k, a in enumerate(ants):
        s = specs[k]
        bm = c["beams"][k % len(c["beams"])]
        for p in "xy":
            g = arr.ref_gain(s[p], fq)
            tol = 1e-10 * (np.abs(g) + s[p]["amp"] * 10)
            require((np.abs(call("passband", a.passband, pol=p) - g) <= tol).all(), "passband of feed %s differs from its own parameters by %r", p, np.abs(a.passband(pol=p) - g).max())
            require((np.abs(call("passband", a.passband, conj=True, pol=p) - g.conj()) <= tol).all(), "conjugate passband of feed %s is not the conjugate", p)
            o = np.polyval(s[p]["phsoff"], fq)
            require(np.allclose(a.phsoff[p], o, rtol=1e-10, atol=1e-10), "phase of feed %s is %r, its parameters give %r", p, a.phsoff[p], o)
        require(np.allclose(call("passband", a.passband), arr.ref_gain(s["x"], fq), rtol=1e-9, atol=1e-9), "the default passband is not that of feed x")
        v = r.normal(size=(3, 5))
        v[2] = np.abs(v[2])
        v /= np.sqrt((v ** 2).sum(axis=0))
        B = {p: arr.ref_response(bm, s["x"]["ptg"], fq, v, p) for p in "xy"}
        B["I"] = B["Q"] = np.sqrt((B["x"] ** 2 + B["y"] ** 2) / 2)
        B["U"] = B["V"] = np.sqrt(B["x"] * B["y"])
        for p in B:
            got = call("bm_response", a.bm_response, v, pol=p)
            require(np.shape(got) == (len(fq), 5) and np.abs(got - B[p]).max() < 1e-7, "beam of %s differs by %r", p, np.abs(got - B[p]).max() if np.shape(got) == (len(fq), 5) else np.shape(got))
        require(np.allclose(call("bm_response", a.bm_response, v), B["x"], atol=1e-7), "the default beam is not that of feed x")


def t_array(c, rec):
    from aipy import pol
    specs, ants, fq = build(c)
    aa = pol.AntennaArray(arr.loc(c["loc"]), ants)
    change(c, specs, ants)
    if c["chans"] is not None:
        ch = [k % len(fq) for k in c["chans"]]
        aa.select_chans(ch)
        fq = fq[ch]
    r = gen.rng(c["seed"])
    aa.set_jultime(c["jd"])
    lst, lat = float(aa.sidereal_time()), float(aa.lat)
    eqs = r.normal(size=(3, c["nsrc"]))
    # at least one near the zenith
    eqs[:, 0] = np.array([np.cos(lat) * np.cos(lst), np.cos(lat) * np.sin(lst), np.sin(lat)]) + .1 * r.normal(size=3)
    eqs /= np.sqrt((eqs ** 2).sum(axis=0))
    for k in range(c["nsrc"]):      # nothing on the horizon itself
        if abs(arr.uvw_matrix(-lst, lat).dot(eqs[:, k])[2]) < 1e-6:
            eqs[:, k] = eqs[:, 0]
    jys = r.uniform(.1, 10, size=(c["nsrc"], len(fq)))
    call("sim_cache", aa.sim_cache, eqs.copy(), jys.copy())
    try:
        pol.AntennaArray(arr.loc(c["loc"]), ants).passband(0, 1)
        require(False, "no polarisation was chosen, and there is a passband")
    except RuntimeError:
        pass
    for i, j, p in c["at"] + [c["at"][0]]:
        call("set_active_pol", aa.set_active_pol, p)
        require(aa.get_active_pol() == p, "active polarisation is %r, not %r", aa.get_active_pol(), p)
        ai, aj = specs[i][p[0]], specs[j][p[1]]
        gi, gj = arr.ref_gain(ai, fq), arr.ref_gain(aj, fq)
        rec.nt(p[0] != p[1])
        rec.event(p)
        got = call("passband", aa.passband, i, j)
        size = (np.abs(gi) + 10 * ai["amp"]) * (np.abs(gj) + 10 * aj["amp"])
        require((np.abs(got - gj * gi.conj()) <= 1e-10 * size).all(), "passband of (%d, %d) in %s is %r, its feeds give %r", i, j, p, got, gj * gi.conj())
        off = np.polyval(aj["phsoff"], fq) - np.polyval(ai["phsoff"], fq)
        got = call("get_phs_offset", aa.get_phs_offset, i, j)
        require(np.allclose(got, off, rtol=1e-9, atol=1e-9), "phase offset of (%d, %d) in %s is %r, its feeds give %r", i, j, p, got, off)
        V, S = arr.ref_sim(ai, aj, c["beams"][i % len(c["beams"])], c["beams"][j % len(c["beams"])], fq, lst, lat, eqs, jys, p)
        got = call("sim", aa.sim, i, j)
        w = np.abs(np.array(aj["pos"]) - ai["pos"]).sum() * fq.max() + np.abs(off).max()
        require(np.shape(got) == V.shape and (np.abs(got - V) <= (1e-9 * (1 + w) + 1e-7) * (S + 1e-12)).all(), "visibility of (%d, %d) in %s differs from its feeds' by %r of %r", i, j, p,
                np.abs(got - V).max() if np.shape(got) == V.shape else np.shape(got), S.max())
        if p[0] != p[1]:        # the other antenna's feeds the other way round: the conjugate
            aa.set_active_pol(p[::-1])
            back = call("sim", aa.sim, j, i)
            require((np.abs(back - np.conj(got)) <= 1e-9 * (1 + w) * (S + 1e-12)).all(), "visibility (%d, %d) in %s is not the conjugate of (%d, %d) in %s", j, i, p[::-1], i, j, p)
    i, j, _ = c["at"][0]
    P = {k: {q: np.polyval(specs[k][q]["phsoff"], fq) for q in "xy"} for k in (i, j)}
    d = lambda q, s: P[j][q] - P[i][s]
    for p, ref in (("I", d("y", "y") + d("x", "x")), ("Q", d("y", "y") - d("x", "x")), ("U", d("y", "x") + d("x", "y")), ("V", d("y", "x") - d("x", "y"))):
        aa.set_active_pol(p)
        require(np.allclose(call("get_phs_offset", aa.get_phs_offset, i, j), ref, rtol=1e-9, atol=1e-9), "phase offset of Stokes %s is %r, not %r", p, aa.get_phs_offset(i, j), ref)
    for bad in ("xz", "x", "rr", "", None):
        try:
            aa.set_active_pol(bad)
        except AssertionError:
            continue
        require(False, "set_active_pol(%r) is accepted", bad)


CODES = {"I": 1, "Q": 2, "U": 3, "V": 4, "rr": -1, "ll": -2, "rl": -3, "lr": -4, "xx": -5, "yy": -6, "xy": -7, "yx": -8}


@st.composite
def ncase(draw):
    hi = draw(st.sampled_from([254, 254, 2046]))
    return {"i": draw(st.integers(0, hi)), "j": draw(st.integers(0, hi)), "pols": draw(st.lists(st.sampled_from(sorted(CODES) + [0]), min_size=1, max_size=4)), "np": draw(st.booleans())}


def t_names(c, rec):
    from aipy import pol, miriad
    require(dict(miriad.str2pol) == CODES and dict(miriad.pol2str) == {v: k for k, v in CODES.items()}, "names and codes of polarisations are %r and %r", miriad.str2pol, miriad.pol2str)
    i, j = sorted((c["i"], c["j"]))
    rec.nt(True)
    seen = {}
    for p in c["pols"]:
        code = CODES.get(p, 0)
        num = np.int32 if c["np"] else int
        v = call("ijp2blp", pol.ijp2blp, num(i), num(j), num(code))
        got = call("blp2ijp", pol.blp2ijp, v)
        require(tuple(int(x) for x in got) == (i, j, code), "baseline (%d, %d) with polarisation %d becomes %r and reads back as %r", i, j, code, v, got)
        # scripts keep it as text
        got = call("blp2ijp", pol.blp2ijp, int(str(v)))
        require(tuple(int(x) for x in got) == (i, j, code), "as text, %r reads back as %r", v, got)
        require(seen.setdefault(v, (i, j, code)) == (i, j, code), "%r stands for two baselines", v)
        w = pol.ijp2blp(i, j, code + (1 if code < 4 else -1))
        require(w != v, "polarisations %d and its neighbour have the same number %r", code, v)


@st.composite
def gcase(draw):
    return {"ha": draw(st.lists(gen.fl(-3.14, 3.14), min_size=1, max_size=5)), "dec": draw(gen.fl(-1.55, 1.55)), "lat": draw(gen.fl(-1.55, 1.55)), "scalar": draw(st.booleans())}


def t_parang(c, rec):
    """angle at the source from the pole to the zenith, positive after transit"""
    from aipy import pol
    dec, lat = c["dec"], c["lat"]
    ha = np.array(c["ha"])
    got = np.atleast_1d(call("ParAng", pol.ParAng, c["ha"][0] if c["scalar"] else ha, dec, lat))
    for k, h in enumerate(ha[:1] if c["scalar"] else ha):
        # directions in the frame (meridian, west, pole)
        s = np.array([np.cos(dec) * np.cos(h), np.cos(dec) * np.sin(h), np.sin(dec)])
        z = np.array([np.cos(lat), 0, np.sin(lat)])
        north = np.array([-np.sin(dec) * np.cos(h), -np.sin(dec) * np.sin(h), np.cos(dec)])
        west = np.array([-np.sin(h), np.cos(h), 0])
        a, b = z.dot(west), z.dot(north)
        if np.hypot(a, b) < 1e-6:
            continue
        ref = np.arctan2(-a, b)     # toward the east of north, as seen on the sky
        require(arr.wrap(got[k] - ref) < 1e-6 / np.hypot(a, b) * 1e-3 + 1e-9, "parallactic angle at hour angle %r, declination %r, latitude %r is %r, not %r", h, dec, lat, got[k], ref)
    rec.nt(len(ha) > 1)


@st.composite
def fcase(draw):
    return {"pols": draw(st.lists(st.sampled_from(sorted(CODES)), min_size=1, max_size=8)), "bad": draw(st.integers(0, 3)), "n": draw(st.integers(1, 6))}


def t_files(c, rec):
    from aipy import pol, miriad
    import contextlib, io
    path = os.path.join(rec.tmp(), "p.uv")
    uv = call("UV", pol.UV, path, "new")
    uv.add_var("pol", "i")
    for v, t in (("nchan", "i"), ("inttime", "r")):
        uv.add_var(v, t)
    uv["nchan"] = c["n"]
    uv["inttime"] = 1.
    for k, p in enumerate(c["pols"]):
        require(call("write_pol", uv.write_pol, p) is None, "write_pol returns something")
        if k == c["bad"]:
            with contextlib.redirect_stdout(io.StringIO()):
                uv.write_pol("zz")
        require(call("read_pol", uv.read_pol) == p, "polarisation %r is read back as %r before it is written out", p, uv.read_pol())
        call("write", uv.write, (np.array([1., 2, 3]), 2455000. + k, (0, k + 1)), np.full(c["n"], k + 1j, np.complex64), np.zeros(c["n"], int))
    del uv
    uv = call("UV", pol.UV, path)
    for k, p in enumerate(c["pols"]):
        (_, t, (i, j)), d, f = call("read", uv.read, raw=True)
        require(call("read_pol", uv.read_pol) == p and miriad.pol2str[uv["pol"]] == p and uv["pol"] == CODES[p], "record %d was written with polarisation %r and has %r (%r)", k, p, uv.read_pol(), uv["pol"])
    rec.nt(len(set(c["pols"])) > 1)


def subs():
    return [Sub("antennas", acase(), t_antenna, quick=150, thorough=5000), Sub("arrays", acase(), t_array, quick=250, thorough=8000), Sub("names", ncase(), t_names, quick=300, thorough=10000),
            Sub("parallactic", gcase(), t_parang, quick=300, thorough=10000), Sub("datasets", fcase(), t_files, quick=80, thorough=2000)]
