"""C35: command-line tools that select, combine, average, archive and list datasets."""
import ast
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st
from vlib.harness import Sub, require, call
from vlib import gen, tools as T, arr

TECHNIQUE = "property-based testing: generated datasets and option combinations are run through each tool as a main program in a scratch directory; every record of the output is compared with the documented transformation of the input's records, and digests show the inputs unchanged"
RULE = ("cases: datasets of 2-4 antennas, up to 4 integrations, 1-2 polarisations, with and without autocorrelations, missing records and five flagging patterns; "
        "every documented option of each tool; non-trivial: at least 2 output records that differ from the input's, or a listing of at least 1 source or key")
ASSUMPTIONS = ["the archive tool is run as an unprivileged user in a directory of its own", "records that tie between flagged and unflagged channels may be flagged or not"]


def many(c, d, n=1, items=None, name="in"):
    """n datasets in directory d; -> their names, records and digests."""
    names, recs, digs = [], [], []
    for k in range(n):
        p = os.path.join(d, "%s%d.uv" % (name, k))
        r = T.records(c, extra=k, t0=k * c["ntime"])
        T.write(p, c, r, items)
        names.append(os.path.basename(p))
        recs.append(T.read(p))
        digs.append(T.digest(p))
    return names, recs, digs


def untouched(d, names, digs):
    for n, g in zip(names, digs):
        require(T.digest(os.path.join(d, n)) == g, "the input %s has been changed", n)


def grown(head, old, what, want=()):
    h = head["history"]
    require(h.startswith(old["history"]) and len(h) > len(old["history"]), "%s: the history %r does not continue %r", what, h, old["history"])
    for w in want:
        require(w in h[len(old["history"]):], "%s: the history's addition %r does not name %r", what, h[len(old["history"]):], w)


def again(d, tool, args, outs):
    """What exists is skipped, not overwritten."""
    before = [T.digest(os.path.join(d, o)) for o in outs]
    T.run(tool, args, d)
    require([T.digest(os.path.join(d, o)) for o in outs] == before, "%s: running it again changes the existing output", tool)


def only(d, names):
    got = sorted(f for f in os.listdir(d) if f != "__pycache__")
    require(got == sorted(names), "the directory holds %r, expected %r", got, sorted(names))


base = st.fixed_dictionaries({"ds": T.dataset(), "again": st.sampled_from([False, False, True]), "nfiles": st.sampled_from([1, 1, 2])})


# ---- adding and subtracting
def addsub(c, rec):
    d = rec.tmp()
    names, recs, digs = many(c["ds"], d, 1)
    r2 = T.records(c["ds"], extra=0)
    rr = gen.rng(c["seed2"])
    other = [(u, t, ij, p, (x[::-1] * c["k"] + rr.normal(size=x.size)).astype(np.complex64), rr.uniform(size=x.size) < c["p2"], l) for u, t, ij, p, x, f, l in r2]
    more = [(u, t + 1, ij, p, x, f, l) for u, t, ij, p, x, f, l in other[:c["more"]]]
    T.write(os.path.join(d, "b.uv"), c["ds"], other + more)
    g2 = T.digest(os.path.join(d, "b.uv"))
    args = (["--sub"] if c["sub"] else []) + [names[0], "b.uv"]
    T.run("uv_addsub.py", args, d)
    out = names[0] + ("d" if c["sub"] else "a")
    only(d, [names[0], "b.uv", out])
    if c["again"]:
        again(d, "uv_addsub.py", args, [out])
    untouched(d, names + ["b.uv"], digs + [g2])
    got, head = T.read(os.path.join(d, out))
    want = []
    for w, o in zip(recs[0][0], other):
        f = w[5].astype(bool) | o[5]
        x = w[4] - o[4] if c["sub"] else w[4] + o[4]
        want.append(w[:4] + (np.where(f, 0, x), f))
    T.same_records(got, want, "uv_addsub.py", tol=1e-6)
    grown(head, recs[0][1], "uv_addsub.py", ["b.uv"])
    rec.nt(len(want) >= 2 and c["ds"]["flags"] != "all")


addsubs = st.fixed_dictionaries({"ds": T.dataset(), "again": st.booleans(), "sub": st.booleans(), "seed2": gen.seeds, "k": gen.fl(-2, 2), "p2": st.sampled_from([0., .3, 1.]), "more": st.integers(0, 2)})


# ---- selecting antennas and polarisations
def pull(c, rec):
    d = rec.tmp()
    n = c["nfiles"]
    names, recs, digs = many(c["ds"], d, n)
    if c["what"] == "ants":
        keep = [a for a in c["ants"]]
        args = ["-a", ",".join(str(a) for a in keep)] + names
        tool, ext = "pull_ants.py", "A"
        sel = lambda r: r[2][0] in keep and r[2][1] in keep
        hist = [str(a) for a in keep]
        if c["again"]:
            T.run(tool, names, d)       # which antennas?
            only(d, names)
    else:
        keep = c["pols"]
        args = ["-p", ",".join(keep)] + names
        tool, ext = "pull_pol.py", "P"
        codes = [T.POLS[p] for p in keep]
        sel = lambda r: r[3]["pol"] in codes
        hist = keep
    T.run(tool, args, d)
    outs = [x + ext for x in names]
    only(d, names + outs)
    if c["again"]:
        again(d, tool, args, outs)
    untouched(d, names, digs)
    for k in range(n):
        want = [r for r in recs[k][0] if sel(r)]
        if not want:            # a dataset without records cannot be opened
            rec.event("nothing selected")
            continue
        got, head = T.read(os.path.join(d, outs[k]))
        T.same_records(got, want, "%s %s" % (tool, args))
        grown(head, recs[k][1], tool, hist)
        rec.nt(2 <= len(want) < len(recs[k][0]))


pulls = st.fixed_dictionaries({"ds": T.dataset(), "again": st.booleans(), "nfiles": st.sampled_from([1, 1, 2]), "what": st.sampled_from(["ants", "ants", "pol"]),
                               "ants": st.lists(st.integers(0, 4), min_size=1, max_size=4, unique=True), "pols": st.lists(st.sampled_from(["xx", "yy", "xy", "yx"]), min_size=1, max_size=3, unique=True)})


# ---- averaging channels
def combine(c, rec):
    d = rec.tmp()
    ds = dict(c["ds"], nchan=c["n"] * c["navg"])
    names, recs, digs = many(ds, d, c["nfiles"])
    args = ["-n", str(c["n"])] + {"careful": ["-c"], "dont": ["-d"], "default": []}[c["mode"]] + (["-u"] if c["unify"] else []) + names
    T.run("combine_freqs.py", args, d)
    outs = [names[0] + "m"] if c["unify"] else [x + "m" for x in names]
    only(d, names + outs)
    if c["again"] and not c["unify"]:
        again(d, "combine_freqs.py", args, outs)
    untouched(d, names, digs)
    nav, n = c["navg"], c["n"]
    groups = [[r for x in recs for r in x[0]]] if c["unify"] else [x[0] for x in recs]
    for k, (o, ins) in enumerate(zip(outs, groups)):
        got, head = T.read(os.path.join(d, o))
        grown(head, recs[k][1], "combine_freqs.py")
        require(len(got) == len(ins), "combine_freqs.py: %d records, expected %d", len(got), len(ins))
        want = []
        for g, w in zip(got, ins):
            v = dict(w[3])
            if nav != 1:
                v.update(nchan=n, nschan=n, sdf=ds["sdf"] * nav)
                centre = ds["sfreq"] + (nav - 1) / 2. * ds["sdf"]
                for q in ("sfreq", "freq"):
                    require(abs(g[3][q] - centre) <= 1e-12, "combine_freqs.py: %s is %r, but the first averaged channel is centred on %r", q, g[3][q], centre)
                    v[q] = g[3][q]
                require(abs(g[3]["sdf"] - v["sdf"]) <= 1e-15, "combine_freqs.py: sdf is %r, expected %r", g[3]["sdf"], v["sdf"])
                v["sdf"] = g[3]["sdf"]
                f = w[5].astype(bool).reshape(n, nav)
                x = np.where(f, 0, w[4].reshape(n, nav).astype(complex)).sum(axis=1) / np.clip((~f).sum(axis=1), 1, None)
                nf = f.sum(axis=1)
                fl = {"careful": nf > 0, "dont": nf == nav, "default": 2 * nf > nav}[c["mode"]]
                if c["mode"] == "default":
                    fl = np.where(2 * nf == nav, g[5].astype(bool), fl)
                want.append(w[:3] + (v, np.where(fl, 0, x), fl))
            else:
                want.append(w)
        T.same_records(got, want, "combine_freqs.py %s" % args, tol=None if nav == 1 else 3e-6)
        rec.nt(len(want) >= 2 and nav > 1 and ds["flags"] != "all")


combines = st.fixed_dictionaries({"ds": T.dataset(maxtimes=3), "again": st.booleans(), "nfiles": st.sampled_from([1, 2, 2]), "n": st.integers(1, 6), "navg": st.sampled_from([1, 2, 3, 4, 5, 8]),
                                  "mode": st.sampled_from(["default", "careful", "dont"]), "unify": st.booleans()})


# ---- archives
def copied():
    """The tool needs nothing but Python."""
    s = os.path.join(tempfile.mkdtemp(prefix="aipy-c35-"), "work")
    os.mkdir(s)
    up = os.path.dirname(s)
    os.chmod(up, 0o755)
    while os.path.basename(os.path.dirname(up)).startswith("aipy-verif"):
        up = os.path.dirname(up)
        os.chmod(up, 0o711)             # this run's own scratch directory
    shutil.copy(T.script("compress_uv.py"), os.path.dirname(s))
    os.chmod(os.path.join(os.path.dirname(s), "compress_uv.py"), 0o644)
    return s


def unpriv(d, args):
    for b, ds, fs in os.walk(d):
        for f in ds + fs:
            os.chown(os.path.join(b, f), 65534, 65534)
    os.chown(d, 65534, 65534)
    return subprocess.run(["/usr/bin/env", "-i", "PATH=/usr/local/bin:/usr/bin:/bin", "python3", os.path.join(os.path.dirname(d), "compress_uv.py")] + args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          stdin=subprocess.DEVNULL, timeout=120, user=65534, group=65534, extra_groups=[])


def archive(c, rec):
    d = copied()
    try:
        made = []
        for k, nm in enumerate(c["names"]):
            p = os.path.join(d, nm)
            ds = dict(c["ds"], seed=c["ds"]["seed"] + k)
            T.write(p, ds, T.records(ds))
            made.append(T.digest(p))
        old = {}
        for k, nm in enumerate(c["names"]):
            if c["exists"] == k:
                with open(os.path.join(d, nm + ".tar.bz2"), "wb") as f:
                    f.write(b"not yours")
                old[nm] = 1
        args = (["-d"] if c["delete"] else []) + list(c["names"])
        bad = c["missing"]
        if bad is not None and bad <= len(c["names"]):
            args.insert(len(args) - len(c["names"]) + bad, "absent.uv")
        else:
            bad = None
        said = unpriv(d, args).stdout.decode("latin1")[-300:]
        done = [nm for k, nm in enumerate(c["names"]) if bad is None or k < bad]
        want = []
        for k, nm in enumerate(c["names"]):
            if nm in done or nm in old:
                want.append(nm + ".tar.bz2")
            if not (c["delete"] and nm in done and nm not in old):
                want.append(nm)
                require(os.path.isdir(os.path.join(d, nm)) and T.digest(os.path.join(d, nm)) == made[k], "compress_uv.py %r: %r has not been kept as it was", args, nm)
        require(sorted(os.listdir(d)) == sorted(want), "compress_uv.py %r leaves %r, expected %r: %s", args, sorted(os.listdir(d)), sorted(want), said)
        for nm in old:
            with open(os.path.join(d, nm + ".tar.bz2"), "rb") as f:
                require(f.read() == b"not yours", "compress_uv.py overwrites an existing archive")
        # everything that was archived comes back
        e = os.path.join(os.path.dirname(d), "back")
        os.mkdir(e)
        arch = [nm for nm in done if nm not in old]
        for nm in arch:
            shutil.copy(os.path.join(d, nm + ".tar.bz2"), e)
        if arch:
            r = unpriv(e, ["-x"] + [nm + ".tar.bz2" for nm in arch])
            require(sorted(os.listdir(e)) == sorted(arch + [nm + ".tar.bz2" for nm in arch]), "compress_uv.py -x leaves %r after archives of %r: %s", sorted(os.listdir(e)), arch, r.stdout.decode("latin1")[-300:])
            for k, nm in enumerate(c["names"]):
                if nm in arch:
                    require(T.digest(os.path.join(e, nm)) == made[k], "%r comes back from its archive changed", nm)
        rec.nt(bool(arch))
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)


archives = st.fixed_dictionaries({"ds": T.dataset(maxtimes=1), "names": st.lists(st.sampled_from(["a.uv", "b c.uv", "d$x.uv", "e;f.uv", "g'h.uv", "sub.uvcA"]), min_size=1, max_size=3, unique=True), "delete": st.booleans(),
                                  "exists": st.sampled_from([None, None, 0, 1]), "missing": st.sampled_from([None, None, None, 0, 1, 2])})


# ---- listing datasets
def uvlist(c, rec):
    d = rec.tmp()
    names, recs, digs = many(c["ds"], d, c["nfiles"])
    from aipy import miriad
    if c["keys"] is None:
        out = T.run("uvlist.py", names, d)
    else:
        out = T.run("uvlist.py", ["-k", ",".join(c["keys"])] + names, d)
    untouched(d, names, digs)
    parts = out.split("-----------------------------------------------------------\n")
    require(len(parts) == len(names) + 1 and parts[-1] == "", "uvlist.py: %d parts for %d files: %r", len(parts) - 1, len(names), out)
    vals = T.values(c["ds"])
    for n, p in zip(names, parts):
        require(p.startswith(n + "\n"), "uvlist.py: %r does not begin with the file's name %r", p, n)
        body = p[len(n) + 1:]
        if c["keys"] is None:
            got = ast.literal_eval(body.strip())
            want = set(vals) | {"lst", "ra", "pol", "temp", "obstype", "history", "vartable"}
            require(want <= set(got), "uvlist.py does not list %r (it lists %r)", sorted(want - set(got)), got)
            rec.nt()
            continue
        want = ""
        for k in c["keys"]:
            if k == "history":
                v = "made by hand\n"
            elif k == "antpos":
                v = np.array(vals[k])
            elif k == "inttime":
                v = np.float32(vals[k])
            else:
                v = vals[k]
            want += "     %s\n         %s\n" % (k, v)
        require(body.split() == want.split(), "uvlist.py prints %r, expected %r", body, want)
        rec.nt()


uvlists = st.fixed_dictionaries({"ds": T.dataset(maxtimes=1), "nfiles": st.integers(1, 2), "keys": st.one_of(st.none(), st.lists(st.sampled_from(["source", "nants", "nchan", "history", "antpos", "inttime", "telescop"]), min_size=1, max_size=4, unique=True))})


# ---- times and source positions
def sun_radec(jd):
    """apparent position of the Sun (low precision, 0.01 degrees)"""
    n = jd - 2451545.0 + 67 / 86400.
    L, g = np.deg2rad(280.460 + .9856474 * n), np.deg2rad(357.528 + .9856003 * n)
    lam = L + np.deg2rad(1.915) * np.sin(g) + np.deg2rad(.020) * np.sin(2 * g)
    eps = np.deg2rad(23.439 - 4e-7 * n)
    return np.arctan2(np.cos(eps) * np.sin(lam), np.cos(lam)), np.arcsin(np.sin(eps) * np.sin(lam))


def sexa(s, unit):
    """sexagesimal text in radians"""
    sign = -1 if s.strip().startswith("-") else 1
    p = [float(x) for x in s.strip().lstrip("-").split(":")]
    return sign * np.deg2rad((p[0] + p[1] / 60 + p[2] / 3600) * unit)


LAT, LON = np.deg2rad(38 + 25 / 60.), -np.deg2rad(79 + 51 / 60.)


def precess(ra, dec, jd):
    """J2000 to the mean equinox of jd (IAU 1976)"""
    t = (jd - 2451545.0) / 36525.
    zeta, z, th = [np.deg2rad(x / 3600.) for x in (2306.2181 * t + .30188 * t * t + .017998 * t ** 3, 2306.2181 * t + 1.09468 * t * t + .018203 * t ** 3, 2004.3109 * t - .42665 * t * t - .041833 * t ** 3)]
    A = np.cos(dec) * np.sin(ra + zeta)
    B = np.cos(th) * np.cos(dec) * np.cos(ra + zeta) - np.sin(th) * np.sin(dec)
    C = np.sin(th) * np.cos(dec) * np.cos(ra + zeta) + np.cos(th) * np.sin(dec)
    return np.arctan2(A, B) + z, np.arcsin(C)


def lst(c, rec):
    d = rec.tmp()
    name, spec, beams, srcs = T.cal(c["cal"], 2, d)
    sel = [s for k, s in enumerate(srcs) if c["pick"] >> k & 1]
    args = ["-C", name] + (["-s", ",".join(s[0] for s in sel)] if sel else []) + ["%r" % j for j in c["jds"]]
    out = T.run("lst", args, d)
    parts = out.split("-" * 70 + "\n")
    require(len(parts) == len(c["jds"]) + 1, "lst prints %d parts for %d dates", len(parts) - 1, len(c["jds"]))
    for jd, p in zip(c["jds"], parts):
        want = arr.gmst(jd) + LON
        l1 = sexa(re.search(r"LST: *(\S+)", p).group(1), 15)
        l2 = float(re.search(r"LST radians: *(\S+)", p).group(1))
        require(arr.wrap(l2 - want) < 2e-4 and arr.wrap(l1 - l2) < 1e-5, "lst: %r (%r) for the date %r, expected %r", l2, l1, jd, want)
        require(float(re.search(r"Julian Date: *(\S+)", p).group(1)) == jd, "lst prints another date: %r", p)
        m = re.search(r"Sun is at \(RA, DEC\): \('([^']*)', '([^']*)'\)", p)
        ra, dec = sun_radec(jd)
        gra, gdec = sexa(m.group(1), 15), sexa(m.group(2), 1)
        require(arr.wrap(gra - ra) < 5e-4 and abs(gdec - dec) < 5e-4, "lst: the Sun at %r, %r, expected %r, %r", gra, gdec, ra, dec)
        m = re.search(r"Moon is at \(RA, DEC\): \('([^']*)', '([^']*)'\)", p)
        gra, gdec = sexa(m.group(1), 15), sexa(m.group(2), 1)
        beta = np.arcsin(np.sin(gdec) * np.cos(.40909) - np.cos(gdec) * np.sin(.40909) * np.sin(gra))
        require(abs(beta) < np.deg2rad(6.5), "lst: the Moon at %r, %r is %r degrees from the ecliptic", gra, gdec, np.rad2deg(beta))
        got = {m.group(1): (sexa(m.group(2), 1), float(m.group(3))) for m in re.finditer(r"^(\S+) \tALT= *(\S+)\s*NEXT TRANSIT= *(\S+)", p, re.M)}
        require(sorted(got) == sorted(s[0] for s in sel), "lst lists %r, expected %r", sorted(got), sel)
        for s in sel:
            alt, tr = got[s[0]]
            ra, dec = precess(s[1], s[2], jd)
            H = want - ra
            sa = np.sin(LAT) * np.sin(dec) + np.cos(LAT) * np.cos(dec) * np.cos(H)
            if abs(sa) < .99:
                require(abs(alt - np.arcsin(sa)) < 1e-3, "lst: %s at altitude %r, expected %r", s[0], alt, np.arcsin(sa))
            require(jd - 2e-4 <= tr <= jd + 1.0, "lst: the next transit of %s after %r is %r", s[0], jd, tr)
            h = arr.wrap(arr.gmst(tr) + LON - ra)
            require(h * np.cos(dec) < 6e-4, "lst: %s at hour angle %r when it transits", s[0], h)
    rec.nt(bool(sel))


lsts = st.fixed_dictionaries({"cal": T.calspec(), "pick": st.integers(0, 15), "jds": st.lists(st.integers(0, 8000).map(lambda k: 2454000.5 + k / 2.), min_size=1, max_size=3)})


# ---- source lists
def sep(a, b):
    return np.arccos(np.clip(np.sin(a[2]) * np.sin(b[2]) + np.cos(a[2]) * np.cos(b[2]) * np.cos(a[1] - b[1]), -1, 1))


def hm(x, unit):
    """radians as sexagesimal text"""
    v = np.rad2deg(abs(x)) / unit
    h = int(v)
    m = int((v - h) * 60)
    return "%s%d:%02d:%07.4f" % ("-" if x < 0 else "", h, m, ((v - h) * 60 - m) * 60)


def srclist(c, rec):
    from aipy import scripting
    d = rec.tmp()
    name, spec, beams, srcs = T.cal(dict(c["cal"], nsrc=c["nsrc"]), 2, d)
    by = {s[0]: s for s in srcs}
    pick = [s[0] for k, s in enumerate(srcs) if c["pick"] >> k & 1] or [s[0] for s in srcs]
    args = ["-C", name, "-s", ",".join(pick)]
    left = set(pick)
    if c["excl"]:
        x = [s[0] for k, s in enumerate(srcs) if c["excl"] >> k & 1]
        if x:
            args += ["-x", ",".join(x)]
            left -= set(x)
    unsure = set()
    j = 2e-3
    if c["jd"] is not None:
        args += ["-j", "%r" % c["jd"]]
        place = {s: (s,) + precess(by[s][1], by[s][2], c["jd"]) for s in by}
    else:
        place = by
    if c["cen"]:
        x = [s[0] for k, s in enumerate(srcs) if c["cen"] >> k & 1]
        if x:
            args += ["-c", ",".join(x), "--sep=%r" % c["sep"]]
            for s in list(left):
                q = min(sep(place[s], place[y]) for y in x) - np.deg2rad(c["sep"])
                if abs(q) < j and s not in x:
                    unsure.add(s)
                elif q > 0:
                    left.discard(s)
    if c["ra"] is not None:
        lo, hi = c["ra"]
        args += ["--ra=%s_%s" % (hm(lo, 15), hm(hi, 15))]
        for s in list(left):
            r = place[s][1] % (2 * np.pi)
            if min(arr.wrap(r - lo), arr.wrap(r - hi)) * np.cos(place[s][2]) < j or abs(lo - hi) < 1e-5:
                unsure.add(s)
            elif not (lo < r < hi if lo < hi else r > lo or r < hi):
                left.discard(s)
    if c["dec"] is not None:
        lo, hi = c["dec"]
        args += ["--dec=%s_%s" % (hm(lo, 1), hm(hi, 1))]
        for s in list(left):
            r = place[s][2]
            if min(abs(r - lo), abs(r - hi)) < j or abs(lo - hi) < 1e-5:
                unsure.add(s)
            elif not (lo < r < hi if lo < hi else r > lo or r < hi):
                left.discard(s)
    sure = left - unsure
    if c["out"] == "names":
        if c["div"]:
            args += ["--divstr=%s" % c["div"]]
        out = T.run("srclist.py", args, d)
        got = [x for x in out.rstrip("\n").split(c["div"] or " ") if x]
        require(got == sorted(got), "srclist.py: %r is not in order", got)
        require(sure <= set(got) <= left and len(got) == len(set(got)), "srclist.py %r lists %r, expected %r (perhaps also %r)", args, got, sorted(sure), sorted(left & unsure))
    elif c["out"] == "fit":
        args += ["-P", ",".join(c["prms"]), "--fitprms"]
        out = T.run("srclist.py", args, d).strip()
        got = call("parse_prms of %r" % out, scripting.parse_prms, out) if out else {}
        require(sure <= set(got) <= left, "srclist.py %r lists %r, expected %r (perhaps also %r)", args, sorted(got), sorted(sure), sorted(left & unsure))
        for s in got:
            require(sorted(got[s]) == sorted(c["prms"]), "srclist.py: %s has the parameters %r, expected %r", s, sorted(got[s]), c["prms"])
    else:
        args += ["-P", ",".join(c["prms"])]
        out = T.run("srclist.py", args, d)
        got = {}
        for l in out.splitlines():
            w = l.split()
            if len(w) == 1:
                cur = got.setdefault(w[0], {})
            elif w:
                require(len(w) == 2 and got, "srclist.py prints %r, expected a name and its value", l)
                cur[w[0]] = w[1]
        require(sure <= set(got) <= left, "srclist.py %r lists %r, expected %r (perhaps also %r)", args, sorted(got), sorted(sure), sorted(left & unsure))
        for s in got:
            require(sorted(got[s]) == sorted(c["prms"]), "srclist.py: %s has the parameters %r, expected %r", s, sorted(got[s]), c["prms"])
            for k, v in got[s].items():
                w = by[s][{"ra": 1, "dec": 2, "jys": 3, "index": 4}[k]]
                g = sexa(v, 15) if k == "ra" else sexa(v, 1) if k == "dec" else float(v)
                require(abs(g - w) <= 1e-6 + 1e-6 * abs(w), "srclist.py: %s of %s is printed as %r, it is %r", k, s, v, w)
    rec.nt(bool(sure) and len(left) < len(srcs))


BUILT = ["cyg", "cas", "crab", "vir", "hyd", "for", "pic", "her", "cen"]
MOVING = ["Sun", "Moon", "Jupiter", "Venus", "Mars"]


def builtin(c, rec):
    """sources of the catalogues which come with the package, and of the solar system"""
    import ephem
    import aipy as a
    d = rec.tmp()
    cat = a.src.get_catalog(BUILT)
    names = BUILT + MOVING
    place = {}
    for s in BUILT:
        x = (float(cat[s]._ra), float(cat[s]._dec))
        place[s] = (s,) + (x if c["jd"] is None else precess(x[0], x[1], c["jd"]))
    if c["jd"] is not None:
        for s in MOVING:
            b = getattr(ephem, s)()
            b.compute(c["jd"] - 2415020, epoch=c["jd"] - 2415020)
            place[s] = (s, float(b.ra), float(b.dec))
    some = {k: [names[q % len(names)] for q in c[k]] for k in ("pick", "excl", "cen")}
    args = ["-s", ",".join(some["pick"])] + (["-v"] if c["verb"] else [])
    left, unsure = {s for s in some["pick"] if s in place}, set()

    def far(s):
        return .03 if s == "Moon" else 2e-3
    if c["jd"] is not None:
        args += ["-j", "%r" % c["jd"]]
    if some["excl"]:
        args += ["-x", ",".join(some["excl"])]
        left -= set(some["excl"])
    if some["cen"]:
        args += ["-c", ",".join(some["cen"]), "--sep=%r" % c["sep"]]
        cen = [x for x in some["cen"] if x in place]
        for s in sorted(left):
            q = [(0 if s == x else sep(place[s], place[x])) - np.deg2rad(c["sep"]) for x in cen]
            if s in cen or any(v < -far(s) - far(x) for v, x in zip(q, cen)):
                continue
            if any(v < far(s) + far(x) for v, x in zip(q, cen)):
                unsure.add(s)
            else:
                left.discard(s)
    if c["ra"] is not None:
        lo, hi = c["ra"]
        args += ["--ra=%s_%s" % (hm(lo, 15), hm(hi, 15))]
        for s in sorted(left):
            r = place[s][1] % (2 * np.pi)
            if min(arr.wrap(r - lo), arr.wrap(r - hi)) * np.cos(place[s][2]) < far(s) or abs(lo - hi) < 1e-5:
                unsure.add(s)
            elif not (lo < r < hi if lo < hi else r > lo or r < hi):
                left.discard(s)
    sure = left - unsure
    if c["out"]:
        args += ["-P", "jys,index"] + (["--fitprms"] if c["out"] == 2 else [])
    out = T.run("srclist.py", args, d)
    if c["out"] == 0:
        got = out.split()
    elif c["out"] == 2:
        got = sorted(call("parse_prms", a.scripting.parse_prms, out.strip())) if out.strip() else []
    else:
        got, val = [], {}
        for w in map(str.split, out.splitlines()):
            if len(w) == 1:
                got.append(w[0])
            elif w:
                val[got[-1], w[0]] = float(w[1])
        if sorted(val) == sorted((s, k) for s in got for k in ("jys", "index")):
            known = a.src.get_catalog(got)
            for (s, k), v in val.items():
                w = known[s].get_params([k])[k]
                require(abs(v - w) <= 1e-6 * abs(w), "srclist.py %r prints %r for %s of %s, which is %r", args, v, k, s, w)
        else:
            require(False, "srclist.py %r prints the parameters %r", args, sorted(val))
    require(got == sorted(set(got)) and sure <= set(got) <= left, "srclist.py %r lists %r, expected %r (perhaps also %r)", args, got, sorted(sure), sorted(left & unsure))
    rec.nt(bool(sure) and len(left) < len(set(some["pick"])))
    rec.event("moving sources listed" if set(MOVING) & set(got) else "fixed sources listed")


ang = st.integers(1, 200).map(lambda k: k * 2 * np.pi / 201)
srclists = st.fixed_dictionaries({"cal": T.calspec(), "nsrc": st.integers(2, 8), "pick": st.one_of(st.just(0), st.integers(0, 255)), "excl": st.one_of(st.just(0), st.integers(0, 255)), "cen": st.one_of(st.just(0), st.integers(0, 255)), "sep": gen.fl(1, 90),
                                  "ra": st.one_of(st.none(), st.tuples(ang, ang).map(list)), "dec": st.one_of(st.none(), st.tuples(gen.fl(-1.5, 1.5), gen.fl(-1.5, 1.5)).map(list)), "jd": st.sampled_from([None, None, 2454600.5, 2457000.25]),
                                  "out": st.sampled_from(["names", "names", "prms", "fit"]), "prms": st.lists(st.sampled_from(["ra", "dec", "jys", "index"]), min_size=1, max_size=4, unique=True), "div": st.sampled_from(["", ",", ";", "_"])})

several = st.lists(st.integers(0, 40), max_size=5)
builtins = st.fixed_dictionaries({"pick": st.lists(st.integers(0, 40), min_size=1, max_size=8), "excl": st.one_of(st.just([]), several), "cen": st.one_of(st.just([]), several), "sep": gen.fl(1, 120), "ra": st.one_of(st.none(), st.none(), st.tuples(ang, ang).map(list)),
                                  "jd": st.sampled_from([None, 2454600.5, 2457000.25, 2451545.]), "out": st.sampled_from([0, 0, 1, 2]), "verb": st.sampled_from([0, 0, 1])})


def subs():
    return [Sub("adding and subtracting", addsubs, addsub, quick=250), Sub("extracting", pulls, pull, quick=300), Sub("averaging channels", combines, combine, quick=400),
            Sub("archives", archives, archive, quick=25, thorough=300), Sub("listing datasets", uvlists, uvlist, quick=120), Sub("dates", lsts, lst, quick=150), Sub("source lists", srclists, srclist, quick=500), Sub("built-in sources", builtins, builtin, quick=400)]
