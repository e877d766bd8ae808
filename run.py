#!/usr/bin/env python3
"""run.py CHECK [--tier quick|thorough] [--seed N] [--replay FILE]

Builds aipy from /repo's working tree, searches generated inputs for a
violation of property CHECK and rewrites evidence/CHECK.json.
Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself failed."""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import build  # noqa: E402

STALL_CPU = 90.0      # CPU seconds spent inside one case before it counts as hung
STALL_WALL = 240.0


def libasan():
    r = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE)
    s = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE)
    return os.path.realpath(r.stdout.decode().strip()) + " " + os.path.realpath(s.stdout.decode().strip())


def child_env(a, root, scratch, variant):
    env = build.build_env("plain")
    env.update(VERIF_ROOT=root, VERIF_SCRATCH=scratch, VERIF_SEED=str(a.seed), VERIF_TIER=a.tier,
               VERIF_BUDGET=str(a.budget), VERIF_VARIANT=variant, TMPDIR=scratch,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               XDG_CACHE_HOME=scratch, XDG_CONFIG_HOME=scratch, ASTROPY_CONFIGDIR=scratch,
               HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"))
    for k in ("VERIF_SCALE", "VERIF_ONLY", "VERIF_VERBOSE"):
        if os.environ.get(k):
            env[k] = os.environ[k]
    if variant == "asan":
        env["LD_PRELOAD"] = libasan()
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1"
        env["PYTHONMALLOC"] = "malloc"
    return env


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / float(os.sysconf("SC_CLK_TCK"))
    except (OSError, IndexError, ValueError):
        return None


def run_child(check, mode, env, scratch, journal=None):
    """-> (kind, payload): kind in ok, crash, hang, error"""
    out = os.path.join(scratch, "result.json")
    for p in (out,):
        if os.path.exists(p):
            os.unlink(p)
    env = dict(env)
    if journal:
        env["VERIF_JOURNAL"] = journal
        open(journal, "w").close()
    log = os.path.join(scratch, "child.log")
    with open(log, "wb") as lf:
        p = subprocess.Popen([build.PY, os.path.join(HERE, "vlib", "child.py"), check, mode, out],
                             env=env, stdout=lf, stderr=None if env.get("VERIF_VERBOSE") else lf, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        last, c0, w0 = None, 0.0, time.time()
        hung = False
        while True:
            try:
                p.wait(timeout=1.0)
                break
            except subprocess.TimeoutExpired:
                pass
            if os.path.getsize(log) > 64 << 20:      # a chatty child: keep the tail only
                os.truncate(log, 0)
            if not journal:
                if time.time() - w0 > STALL_WALL * 3:
                    hung = True
            else:
                try:
                    with open(journal, "rb") as f:
                        cur = f.readline()
                except OSError:
                    cur = b""
                c = cpu_of(p.pid)
                if cur != last or c is None:
                    last, c0, w0 = cur, c or 0.0, time.time()
                elif cur and (c - c0 > STALL_CPU or time.time() - w0 > STALL_WALL):
                    hung = True
            if hung:
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    tail = open(log, "rb").read()[-6000:].decode(errors="replace")
    if hung:
        return "hang", tail
    if p.returncode == 0 and os.path.exists(out):
        with open(out) as f:
            return "ok", json.load(f)
    if p.returncode < 0 and p.returncode != -signal.SIGKILL:
        return "crash", "signal %d (%s)\n%s" % (-p.returncode, signal.Signals(-p.returncode).name, tail)
    return "error", "child exit status %s\n%s" % (p.returncode, tail)


def read_journal(path):
    try:
        with open(path) as f:
            head = json.loads(f.readline())
            case = json.loads(f.read())
        return head["sub"], case
    except (OSError, ValueError):
        return None


def write_replay(check, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": check, "sub": v["sub"], "case": v["case"], "message": v["message"]}
    if v.get("isolated"):
        body["isolated"] = True
    body["variant"] = v.get("variant", "plain")
    t = json.dumps(body, indent=1)
    path = os.path.join(d, "%s-%s.json" % (check, hashlib.sha256(json.dumps([v["sub"], v["case"]]).encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(t + "\n")
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    if a.budget is None:
        a.budget = 330.0 if a.tier == "quick" else 7200.0
    check = a.check
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="aipy-verif-%s-" % check)
    code, agg, viol = 2, None, None
    try:
        with open(os.path.join(HERE, "checks", check.lower() + ".py")) as f:
            src = f.read()
        variants = ["plain"]
        for line in src.splitlines():
            if line.startswith("VARIANTS ="):
                variants = eval(line.split("=", 1)[1])
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            variants = [r.get("variant", variants[0])]
        total = a.budget
        for variant in variants:
            a.budget = total / len(variants)
            root = build.ensure(variant)
            env = child_env(a, root, scratch, variant)
            if a.replay:
                kind, res = run_child(check, "replay:" + os.path.abspath(a.replay), env, scratch)
                if kind == "ok" and res["violation"]:
                    print("VIOLATION property=%s replay=%s" % (check, a.replay))
                    print(res["violation"]["message"])
                    return 1
                if kind in ("crash", "hang"):
                    print("VIOLATION property=%s replay=%s" % (check, a.replay))
                    print(res[-1500:])
                    return 1
                if kind != "ok" or res["harness"]:
                    print(res if kind != "ok" else res["harness"])
                    return 2
                print("replay: property holds")
                return 0
            journal = os.path.join(scratch, "journal")
            kind, res = run_child(check, "explore", env, scratch, journal)
            if kind in ("crash", "hang"):
                # search again with every case in its own process, so that the
                # failing case is found, shrunk and confirmed
                first = read_journal(journal)
                env2 = dict(env)
                env2["VERIF_FORKED"] = "60"
                env2["VERIF_BUDGET"] = str(a.budget)
                kind2, res2 = run_child(check, "explore", env2, scratch, journal)
                if kind2 == "ok" and res2["violation"]:
                    kind, res = kind2, res2
                elif first:
                    v = {"sub": first[0], "case": first[1], "isolated": True,
                         "message": ("the interpreter crashed: " if kind == "crash" else "no answer: ") + res[-1500:]}
                    agg = agg or {}
                    viol = v
                    res = {"violation": v, "harness": None, "evals": 0, "nt": 0, "distinct": 0, "events": {}, "samples": [],
                           "subs": {}, "excluded": {}, "rule": "", "assumptions": [], "known": []}
                    kind = "ok"
            if kind != "ok":
                sys.stderr.write("%s: %s\n%s\n" % (check, kind, res))
                return 2
            if res["harness"]:
                sys.stderr.write("%s: harness fault\n%s\n" % (check, res["harness"]))
                return 2
            if agg is None or not agg:
                agg = res
            else:
                for k in ("evals", "nt", "distinct"):
                    agg[k] += res[k]
                agg["samples"] = (agg["samples"] + res["samples"])[:14]
                for k in ("events", "excluded"):
                    for n, v in res[k].items():
                        agg[k][variant + ":" + n] = v
                for n, v in res["subs"].items():
                    agg["subs"][variant + ":" + n] = v
            if res["violation"]:
                viol = res["violation"]
                viol["variant"] = variant
                break
        ev = {
            "property": check, "tier": a.tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": agg["evals"], "distinct_nontrivial": agg["distinct"],
                "nontrivial_total": agg["nt"],
                "rule": agg["rule"], "samples": agg["samples"] or [{"note": "none recorded"}],
                "searches": {k: {"cases": v[0], "distinct_nontrivial": v[1]} for k, v in sorted(agg["subs"].items())},
                "classes": dict(sorted(agg["events"].items())),
                "excluded_known_findings": agg["excluded"],
            },
            "assumptions": agg["assumptions"], "wall_s": round(time.time() - t0, 2),
            "violations": 1 if viol else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", check + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for fid, what, m in agg.get("known") or []:
            if m:
                print("KNOWN-FINDING: property=%s %s: %s" % (check, fid, what))
        if viol:
            path = write_replay(check, viol)
            print("VIOLATION property=%s replay=%s" % (check, path))
            print(viol["sub"] + ": " + viol["message"][:1500])
            code = 1
        else:
            print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (check, agg["evals"], agg["distinct"], time.time() - t0))
            code = 0
    except build.BuildError as e:
        sys.stderr.write(str(e) + "\n")
        code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.exit(main())
