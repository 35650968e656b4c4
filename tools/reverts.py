#!/usr/bin/env python3
"""reverts.py [-j N] [COMMIT...]   undoes each repair of KNOWN_FINDINGS.txt on a copy of /repo and
runs the check of its property there: the check has to report the violation again."""
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/reverts"


def one(pair):
    h, pid = pair
    w = "%s/%s-%s" % (BASE, h, pid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
        shutil.copytree(HERE, w + "/verif", ignore=shutil.ignore_patterns(
            ".git", "seeded", ".build", ".runs", "evidence", "__pycache__"))
        p = subprocess.run(["git", "-C", w + "/repo", "revert", "-n", h], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode:
            return h, pid, "does not revert alone"
        p = subprocess.run(["./run.py", pid], cwd=w + "/verif", stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=900,
                           env=dict(os.environ, RANKEVAL_REPO=w + "/repo", VERIF_SEED="1",
                                    VERIF_TIER="quick"))
        out = p.stdout.decode(errors="replace")
        hit = re.search(r"^VIOLATION property=%s " % pid, out, re.M)
        return h, pid, "caught" if p.returncode == 1 and hit else "MISSED rc=%s %s" % (
            p.returncode, out[-300:])
    except Exception as e:                                   # noqa: BLE001
        return h, pid, repr(e)
    finally:
        shutil.rmtree(w, ignore_errors=True)


args = sys.argv[1:]
n = int(args.pop(args.index("-j") + 1)) if "-j" in args else 3
args = [a for a in args if a != "-j"]
pairs = re.findall(r"^fixed: property=(\w+) (\w+)", open(HERE + "/KNOWN_FINDINGS.txt").read(), re.M)
pairs = [(h, p) for p, h in pairs if not args or h in args]
with ThreadPoolExecutor(n) as ex:
    for h, pid, r in ex.map(one, pairs):
        print(h, pid, r, flush=True)
