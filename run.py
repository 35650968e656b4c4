#!/usr/bin/env python3
"""run.py <PROPERTY> [--replay FILE]: builds what the check needs from /repo's working tree,
runs the monitored workload in supervised worker processes, writes evidence/<PROPERTY>.json.

exit 0: held on everything explored     exit 1: VIOLATION line     other: no verdict
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
STUCK_S = 200              # a worker that slept through this long in one case is stuck
GCC_LIB = "/usr/lib/gcc/x86_64-linux-gnu/13/"


def base_env():
    keep = ("VERIF_SEED", "VERIF_TIER", "RANKEVAL_REPO", "TMPDIR", "LANG", "MON_SCALE")
    env = {k: os.environ[k] for k in keep if k in os.environ}
    env.update(HOME=os.environ.get("HOME", "/root"), LC_ALL="C.UTF-8",
               PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               PYTHONPATH=HERE, OMP_NUM_THREADS="4", OPENBLAS_NUM_THREADS="1",
               OMP_WAIT_POLICY="passive",
               MON_ENTERED="1")
    return env


if os.environ.get("MON_ENTERED") != "1":
    os.chdir(HERE)
    os.execve(PY, [PY, os.path.join(HERE, "run.py")] + sys.argv[1:], base_env())

sys.path.insert(0, HERE)
import importlib                                               # noqa: E402

from mon import build as B                                     # noqa: E402


def sanitizer_env(variant):
    if variant == "asan":
        return {"LD_PRELOAD": ":".join(GCC_LIB + n for n in ("libasan.so", "libubsan.so")),
                "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=66:"
                                "allocator_may_return_null=1:detect_odr_violation=0:"
                                "quarantine_size_mb=64",
                "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=66",
                "PYTHONMALLOC": "malloc"}
    if variant == "tsan":
        return {"LD_PRELOAD": GCC_LIB + "libtsan.so",
                "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:"
                                "report_thread_leaks=0:history_size=4"}
    return {}


class Run(object):
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.mod = importlib.import_module("mon.checks." + pid.lower())
        self.runs = os.path.join(HERE, ".runs")
        os.makedirs(self.runs, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + "_", dir=self.runs)
        self.violations, self.errors = [], []
        self.counters, self.distinct, self.samples = {}, set(), []
        self.evaluations = 0
        self.notebook = self.elsewhere = False
        self.per_variant = {}

    def merge(self, res, variant):
        self.evaluations += res["evaluations"]
        for k, v in res["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.distinct.update(res["distinct"])
        self.samples += res["samples"]
        self.violations += res["violations"]
        if res["error"]:
            self.errors.append(res["error"])

    def variant(self, variant, env_extra, only=None):
        """Runs the workload under one build variant, sharded over worker processes."""
        pv = self.per_variant.setdefault(variant, {"workers": 0, "evaluations": 0})
        try:
            bdir = B.build(variant)
        except B.BuildError as e:
            self.errors.append("the extensions do not build: %s" % e)
            return
        shards = 1 if only else getattr(self.mod, "SHARDS", {}).get(
            self.tier, 3 if self.tier == "quick" else 6)
        cap = getattr(self.mod, "CAP", {}).get(self.tier, 240 if self.tier == "quick" else 3000)
        procs = []
        for s in range(shards):
            wdir = os.path.join(self.dir, "%s_%d" % (variant, s))
            os.makedirs(wdir, exist_ok=True)
            a = dict(pid=self.pid, tier=self.tier, seed=self.seed, variant=variant, shard=s,
                     shards=shards, build=bdir, dir=wdir, only=only, cap_s=cap,
                     notebook=self.notebook if only else shards > 1 and s == shards - 1,
                     elsewhere=self.elsewhere if only else shards > 2 and s == shards - 2,
                     result=os.path.join(wdir, "result.json"),
                     journal=os.path.join(wdir, "journal"), log=os.path.join(wdir, "log"))
            env = dict(base_env(), **sanitizer_env(variant))
            env.update(env_extra)
            if a["elsewhere"]:
                env["LOCPATH"] = B.comma_locale() or ""
            env["MON_ARGS"] = json.dumps(a)
            log = open(a["log"], "wb")
            cmd = [PY, "-c", "import json,os;from mon.harness import run_worker;"
                             "run_worker(json.loads(os.environ['MON_ARGS']))"]
            if variant == "tsan":
                cmd = ["setarch", "-R"] + cmd
            procs.append((subprocess.Popen(cmd, cwd=wdir, env=env, stdout=log, stderr=log,
                                           start_new_session=True), a))
        deadline = time.time() + cap + 240
        for p, a in procs:
            pv["workers"] += 1
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                stuck = time.time() - os.path.getmtime(a["journal"]) \
                    if os.path.exists(a["journal"]) else 0
                if stuck > STUCK_S:
                    kind = self.case_of(a)
                    self.violations.append({
                        "kind": kind[0], "i": kind[1], "variant": variant,
                        "notebook": a["notebook"], "elsewhere": a["elsewhere"],
                        "message": "no progress: the case (they take milliseconds) had not ended "
                                   "after %d s" % stuck, "details": {}})
                    continue
                self.errors.append("watchdog: worker still running after %d s (case %s)" %
                                   (cap + 240, self.case_of(a)))
                continue
            text = open(a["log"], "rb").read().decode("utf-8", "replace")
            res = None
            if os.path.exists(a["result"]):
                res = json.load(open(a["result"]))
                self.merge(res, variant)
                pv["evaluations"] += res["evaluations"]
            if hasattr(self.mod, "judge_log"):
                # monitors which read the log of the worker (sanitizer reports)
                for v in self.mod.judge_log(self, variant, a, text):
                    self.violations.append(v)
            if res is None:
                kind = self.case_of(a)
                if kind is None:
                    self.errors.append("worker failed before the first case (rc %s): %s" %
                                       (rc, text[-3000:]))
                elif rc < 0 or rc == 66 or "ERROR: AddressSanitizer" in text \
                        or "runtime error:" in text:
                    self.violations.append({
                        "kind": kind[0], "i": kind[1], "variant": variant,
                        "notebook": a["notebook"], "elsewhere": a["elsewhere"],
                        "message": "the process died in this case (%s): %s" % (
                            "SIGXCPU: no end in sight" if rc == -signal.SIGXCPU else
                            "signal %d" % -rc if rc < 0 else "rc %d" % rc, headline(text)),
                        "details": {"log": text[-6000:]}})
                else:
                    self.errors.append("worker failed (rc %s) in case %s: %s" %
                                       (rc, kind, text[-3000:]))

    def case_of(self, a):
        try:
            kind, i = open(a["journal"]).read().split()[:2]
            return kind, int(i)
        except (OSError, ValueError):
            return None

    def finish(self):
        mod, pid = self.mod, self.pid
        missing = []
        known = load_known(pid)
        seen_known, fresh = [], []
        for v in self.violations:
            match = [k for k in known if k["needle"] in v["message"]]
            (seen_known if match else fresh).append((v, match))
        for k in known:
            hit = any(k in m for _, m in seen_known)
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if not fresh and not self.errors and "MON_SCALE" not in os.environ:
            missing = [c for c in getattr(mod, "REQUIRED", []) if not self.counters.get(c)]
        coverage = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": mod.RULE,
            "samples": self.samples[:4],
            "monitor_counters": dict(sorted(self.counters.items())),
            "per_variant": self.per_variant,
            "exhaustive": False,
        }
        ev = {"property": pid, "tier": self.tier, "seed": self.seed,
              "level": getattr(mod, "LEVEL", "exploration"), "coverage": coverage,
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        if self.errors or missing:
            ev["inconclusive"] = self.errors[:3] + ["never observed: %s" % c for c in missing]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s tier=%s seed=%d evaluations=%d distinct=%d checks=%d wall=%.1fs" % (
            pid, self.tier, self.seed, self.evaluations, len(self.distinct),
            self.counters.get("oracle_checks", 0), time.time() - self.t0))
        shutil.rmtree(self.dir, ignore_errors=True)
        if fresh:
            for n, (v, _) in enumerate(fresh[:3]):
                rdir = os.path.join(HERE, "evidence", "replays")
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s_%d.json" % (pid, n))
                with open(path, "w") as f:
                    json.dump(dict(v, property=pid, seed=self.seed, tier=self.tier), f, indent=1)
                print("  case %s/%s [%s]: %s" % (v["kind"], v["i"], v["variant"], v["message"]))
                for k, val in (v.get("details") or {}).items():
                    print("    %s: %s" % (k, str(val)[-1500:]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if self.errors or missing:
            for e in self.errors[:3]:
                print("INCONCLUSIVE: %s" % e)
            for c in missing:
                print("INCONCLUSIVE: the monitor never observed '%s'" % c)
            return 3
        return 0


def headline(text):
    for line in text.splitlines():
        if "ERROR: AddressSanitizer" in line or "runtime error:" in line or \
                "Fatal Python error" in line or "terminate called" in line:
            return line.strip()[:300]
    return ""


def load_known(pid):
    """Known findings: lines 'known: property=<id> needle=<text of the report> :: <what fails>'."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                rest = line.split("needle=", 1)[1]
                needle, what = rest.split(" :: ", 1)
                out.append({"needle": needle.strip(), "what": what.strip()})
    return out


def main(argv):
    pid = argv[0].upper()
    run = Run(pid)
    only = None
    variants = getattr(run.mod, "VARIANTS", [("plain", {})])
    if callable(variants):
        variants = variants(run.tier)
    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        run.seed, run.tier = r["seed"], r["tier"]
        only = [r["kind"], r["i"]]
        run.notebook, run.elsewhere = r.get("notebook", False), r.get("elsewhere", False)
        variants = [v for v in variants if v[0] == r["variant"]][:1] or variants[:1]
    for variant, env in variants:
        run.variant(variant, env, only)
        if run.violations:
            break
    return run.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
