#!/usr/bin/env python3
"""trial.py [-j N] [--checks C01,C02|own|all|none] ID...   tries planted bugs of seeded/ on copies.

Each trial runs in its own user and mount namespace in which a copy of /repo is laid over /repo,
so that the unmodified build, test and check commands work on the copy and /repo is never touched:
 demo on the clean copy (must be 0), patch, build, stable tests, demo (must not be 0), checks.
Results are appended to .runs/trials.jsonl.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open("/opt/vp/BASELINE.json"))
BASE = "/tmp/trials"


def sh(cmd, ns=None, timeout=900):
    if ns:
        inner = "mount --bind %s /repo && cd /repo && %s" % (ns, cmd)
        argv = ["unshare", "-Urm", "bash", "-c", inner]
    else:
        argv = ["bash", "-c", cmd]
    try:
        p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")


def stable_ids():
    for k in ("stable", "passed", "tests", "pass"):
        if k in STABLE and isinstance(STABLE[k], list):
            return set(STABLE[k])
    raise SystemExit("unknown baseline: %s" % list(STABLE))


def trial(sid, checks, again=False):
    out = {"id": sid}
    d = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = os.path.join(BASE, sid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    repo, ver, demo = w + "/repo", w + "/verif", w + "/demo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        shutil.copytree(HERE, ver, ignore=shutil.ignore_patterns(".git", "seeded", ".build", ".runs",
                                                                "evidence", "__pycache__"))
        out["demo_clean"], log = sh("bash %s/demo.sh" % demo, repo, 300)
        if out["demo_clean"]:
            out["log"] = log[-1500:]
            return out
        rc, log = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), repo)
        if rc:
            out["apply"] = log[-800:]
            return out
        if again:           # a bug already confirmed: only the checks are run
            out.update(build=0, lost_tests=[], demo_patched=1, demo_says="not run again")
        else:
            rc, log = sh("bash /opt/vp/build.sh", repo)
            out["build"] = rc
            if rc:
                out["log"] = log[-1500:]
                return out
            rc, log = sh("bash /opt/vp/test.sh %s/t.json" % w, repo)
            t = json.load(open(w + "/t.json"))
            out["lost_tests"] = sorted(stable_ids() - set(t["passed"]))
            out["demo_patched"], log = sh("bash %s/demo.sh" % demo, repo, 300)
            out["demo_says"] = log.strip()[-200:]
        want = [meta["property"]] if checks == "own" else \
            [] if checks == "none" else \
            [c["property"] if "property" in c else c["id"]
             for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]] if checks == "all" else \
            checks.split(",")
        out["checks"] = {}
        for c in want:
            rc, log = sh("cd %s && VERIF_SEED=%s VERIF_TIER=quick ./run.py %s" %
                         (ver, os.environ.get("VERIF_SEED", "1"), c), repo)
            v = [l for l in log.splitlines() if l.startswith("VIOLATION property=%s " % c)]
            out["checks"][c] = "caught" if rc == 1 and v else "quiet" if rc == 0 else \
                "no verdict %s: %s" % (rc, log[-300:])
        out["own"] = meta["property"]
        return out
    except Exception as e:                                  # noqa: BLE001
        out["error"] = repr(e)
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--checks", default="own")
    ap.add_argument("--again", action="store_true", help="bugs already confirmed: only the checks")
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(HERE, "seeded")))
    os.makedirs(HERE + "/.runs", exist_ok=True)
    with ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(lambda s: trial(s, a.checks, a.again), ids):
            ok = r.get("demo_clean") == 0 and r.get("build") == 0 and not r.get("lost_tests") and \
                r.get("demo_patched", 0) != 0 and "error" not in r
            print("OK " if ok else "BAD", r["id"], r.get("checks") if ok else r, flush=True)
            if not a.again:
                with open(HERE + "/.runs/trials.jsonl", "a") as f:
                    f.write(json.dumps(r) + "\n")


main()
