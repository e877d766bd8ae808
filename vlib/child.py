"""Entry point of the process that imports the built code under test.

usage: child.py CHECK MODE OUT.json   (MODE: explore | replay:FILE | finding)"""
import importlib
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    check, mode, out = sys.argv[1:4]
    root = os.environ["VERIF_ROOT"]
    scratch = os.environ["VERIF_SCRATCH"]
    seed = int(os.environ.get("VERIF_SEED") or "1") + (7919 if os.environ.get("VERIF_VARIANT", "plain") != "plain" else 0)
    tier = os.environ.get("VERIF_TIER") or "quick"
    forked = int(os.environ.get("VERIF_FORKED") or "0")
    budget = float(os.environ.get("VERIF_BUDGET") or "400")
    scale = float(os.environ.get("VERIF_SCALE") or "1")
    only = os.environ.get("VERIF_ONLY")
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if os.environ.get("VERIF_VARIANT") != "asan":
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.path.insert(0, root)
    sys.path.append(HERE)
    os.chdir(scratch)
    import warnings
    warnings.simplefilter("ignore")
    import aipy
    assert os.path.realpath(aipy.__file__).startswith(os.path.realpath(root) + "/"), aipy.__file__
    from vlib import codec, harness
    mod = importlib.import_module("checks." + check.lower())
    with open(os.path.join(HERE, "known_findings.json")) as f:
        findings = {x["id"]: x for x in json.load(f)["findings"] if x["property"] == check}
    rec = harness.Rec(scratch, findings)
    res = {"violation": None, "harness": None, "rule": mod.RULE, "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    t0 = time.time()
    try:
        subs = mod.subs()
        byname = {s.name: s for s in subs}
        if mode.startswith("replay:"):
            with open(mode[7:]) as f:
                r = json.load(f)
            s = byname[r["sub"]]
            case = codec.dec(r["case"])
            rec.begin()
            if r.get("isolated"):
                m = harness.run_forked(s, case, rec, root, forked or 300)
            else:
                m = harness.run_one(s, case, rec, root)
            rec.end(s.name, json.dumps(r["case"]))
            if m:
                res["violation"] = {"sub": s.name, "case": r["case"], "message": m}
        else:
            journal = harness.Journal(os.environ["VERIF_JOURNAL"]) if os.environ.get("VERIF_JOURNAL") else harness.NoJournal()
            left = sum(s.weight for s in subs)
            end = t0 + budget
            for s in subs:
                if only and s.name not in only.split(","):
                    left -= s.weight
                    continue
                now = time.time()
                dl = now + max(5.0, (end - now) * s.weight / left) if left > 0 else end
                left -= s.weight
                n = s.thorough if tier == "thorough" else s.quick
                n = max(1, int(n * scale))
                ts = time.time()
                v = harness.explore(s, n, seed, rec, journal, root, dl, forked)
                if os.environ.get("VERIF_VERBOSE"):
                    sys.stderr.write("  %-28s n=%d %.1fs\n" % (s.name, n, time.time() - ts))
                if v:
                    res["violation"] = {"sub": s.name, "case": json.loads(v[0]), "message": v[1], "isolated": bool(forked)}
                    break
            # the listed findings themselves, each from its recorded input
            res["known"] = []
            for fid, f in sorted(findings.items()):
                s = byname[f["sub"]]
                rec2 = harness.Rec(scratch, {})
                m = harness.run_forked(s, codec.dec(f["case"]), rec2, root, 120)
                res["known"].append([fid, f["what"], m])
    except BaseException:
        res["harness"] = traceback.format_exc()
    res.update(evals=rec.evals, nt=rec.nt_total, distinct=len(rec.distinct), events=rec.events,
               samples=rec.samples[:12], subs=rec.subs, excluded=rec.excluded, wall=time.time() - t0)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


main()
