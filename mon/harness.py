"""Case runner, oracles' bookkeeping and verdicts.

A check module defines
    ID, RULE                    property id, how cases are made / what counts as non trivial
    KINDS(tier) -> [(kind, n)]  the workload
    case(ctx, rng, kind, i)     drives the real code for one case and judges what it observed
    REQUIRED                    counters which must not be zero (otherwise: inconclusive)
    VARIANTS (optional)         list of (variant, environment) the workload is repeated under
The last of several worker processes runs its cases as inside a Jupyter notebook (boot.notebook),
the one before in an application with another locale, no assertions and read-only arrays (boot.elsewhere).
"""
import contextlib
import faulthandler
import hashlib
import importlib
import io
import json
import os
import signal
import sys
import tempfile
import time
import traceback
import zlib

CASE_CPU_S = 150        # CPU seconds granted to one case (they take milliseconds)


class Violation(Exception):
    pass


def jsonable(o, depth=0):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:200]]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist(), depth + 1) if o.size <= 400 else \
            {"shape": list(o.shape), "dtype": str(o.dtype), "head": jsonable(o.ravel()[:50].tolist())}
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, bytes):
        return o.decode("latin-1")[:4000]
    if isinstance(o, float):
        return o if o == o and abs(o) != float("inf") else repr(o)
    if isinstance(o, (int, str, bool)) or o is None:
        return o if not isinstance(o, str) else o[:4000]
    return repr(o)[:400]


class Ctx(object):
    """What a case sees."""

    def __init__(self, pid, tier, seed, variant, scratch):
        self.pid, self.tier, self.seed, self.variant = pid, tier, seed, variant
        self.scratch = scratch
        self.counters, self.distinct_keys, self.samples = {}, set(), []
        self.case_key = None
        self.details = {}

    # -- bookkeeping
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def distinct(self, *key):
        """Registers the current case as non trivial, under a content key."""
        h = hashlib.blake2b(digest_size=8)
        for k in key:
            h.update(k.tobytes() if hasattr(k, "tobytes") else repr(k).encode())
            h.update(b"|")
        self.distinct_keys.add(h.hexdigest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    def note(self, **kw):
        """Details reported with a violation of this case."""
        self.details.update(kw)

    # -- judging
    def check(self, cond, msg, **kw):
        self.count("oracle_checks")
        if not cond:
            self.details.update(kw)
            raise Violation(msg)

    def equal(self, got, want, msg, **kw):
        import numpy as np
        self.count("oracle_checks")
        got_a, want_a = np.asarray(got), np.asarray(want)
        ok = got_a.shape == want_a.shape
        if ok:
            if got_a.dtype.kind in "fc" or want_a.dtype.kind in "fc":
                ok = bool(np.array_equal(got_a, want_a, equal_nan=True))
            else:
                ok = bool(np.array_equal(got_a, want_a))
        if not ok:
            self.details.update(kw, got=got, want=want)
            raise Violation(msg)

    def close(self, got, want, msg, rtol=1e-5, atol=1e-6, **kw):
        import numpy as np
        self.count("oracle_checks")
        got_a, want_a = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got_a.shape != want_a.shape or not np.allclose(
                got_a, want_a, rtol=rtol, atol=atol, equal_nan=True):
            self.details.update(kw, got=got, want=want)
            raise Violation(msg)

    def raises(self, exc, fn, msg, **kw):
        self.count("oracle_checks")
        try:
            out = fn()
        except exc as e:
            return e
        except Exception as e:
            self.details.update(kw, raised=repr(e))
            raise Violation(msg + " (a different exception was raised: %s)" % type(e).__name__)
        self.details.update(kw, returned=out)
        raise Violation(msg + " (no exception was raised)")

    def path(self, name):
        return os.path.join(self.scratch, name)


@contextlib.contextmanager
def quiet():
    """Hides what the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def rng_for(seed, pid, kind, i):
    import numpy as np
    return np.random.default_rng([int(seed) & 0x7fffffff, zlib.crc32(pid.encode()),
                                  zlib.crc32(kind.encode()), int(i)])


def run_worker(args):
    """Body of a worker process: runs a shard of the cases, writes the outcome as JSON."""
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    faulthandler.enable(open(args["log"], "a"))
    from .boot import boot, elsewhere, notebook
    comma = args.get("elsewhere") and elsewhere()
    boot(args["build"])
    if args.get("elsewhere"):
        from . import gen
        gen.FROZEN[0] = True
    bars = notebook() if args.get("notebook") else None
    import numpy as np
    mod = importlib.import_module("mon.checks." + args["pid"].lower())
    scratch = tempfile.mkdtemp(prefix="case_", dir=args["dir"])
    ctx = Ctx(args["pid"], args["tier"], args["seed"], args["variant"], scratch)
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    out = {"violations": [], "evaluations": 0, "error": None, "complete": False}
    if args.get("only"):
        todo = [tuple(args["only"])]
    else:
        # only tools/mutate.py asks for a part of the workload
        scale, todo = float(os.environ.get("MON_SCALE", "1")), []
        for kind, n in mod.KINDS(args["tier"]):
            todo += [(kind, i) for i in range(max(1, int(n * scale)))]
        todo = todo[args["shard"]::args["shards"]]
    journal = open(args["journal"], "w")
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    faulthandler_file = open(args["log"], "a")

    def on_prof(signum, frame):
        out["violations"].append({
            "kind": cur[0], "i": cur[1], "variant": args["variant"],
            "message": "no progress: the case used %d s of CPU (they take milliseconds)" % CASE_CPU_S,
            "details": {"stack": "".join(traceback.format_stack(frame))[-3000:]}})
        finish()
        os._exit(0)

    def finish():
        if bars is not None:
            for k in ("made", "steps", "closed"):
                ctx.count("notebook_bars_" + k, getattr(bars, k))
            for v in out["violations"]:
                v["notebook"] = True
        if args.get("elsewhere"):
            ctx.count("cases_elsewhere", out["evaluations"])
            ctx.count("cases_in_a_comma_locale", out["evaluations"] if comma else 0)
            for v in out["violations"]:
                v["elsewhere"] = True
        out.update(counters=ctx.counters, distinct=sorted(ctx.distinct_keys),
                   samples=ctx.samples)
        tmp = args["result"] + ".part"
        with open(tmp, "w") as f:
            json.dump(jsonable_result(out), f)
        os.rename(tmp, args["result"])

    signal.signal(signal.SIGPROF, on_prof)
    t0 = time.time()
    cur = (None, None)
    retried = False
    for n_case, (kind, i) in enumerate(todo):
        if time.time() - t0 > args["cap_s"]:
            ctx.count("stopped_by_time_cap")
            break
        cur = (kind, i)
        journal.seek(0)
        journal.write("%s %d        \n" % (kind, i))
        journal.flush()
        rng = rng_for(args["seed"], args["pid"], kind, i)
        np.random.seed(zlib.crc32(("%s/%s/%s" % (args["seed"], kind, i)).encode()))
        ctx.details = {}
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        # a handler written in Python cannot interrupt native code: past this the process dies
        used = resource.getrusage(resource.RUSAGE_SELF)
        resource.setrlimit(resource.RLIMIT_CPU,
                           (int(used.ru_utime + used.ru_stime) + CASE_CPU_S + 30,
                            resource.RLIM_INFINITY))
        try:
            with quiet():
                mod.case(ctx, rng, kind, i)
            out["evaluations"] += 1
            ctx.count("cases_" + kind)
        except Violation as e:
            out["violations"].append({"kind": kind, "i": i, "variant": args["variant"],
                                      "message": str(e), "details": jsonable(ctx.details)})
        except MemoryError as e:
            # memory may be short for a moment; twice in a row it is the code that wants too much
            import gc
            gc.collect()
            if not retried:
                retried = True
                todo.insert(n_case + 1, (kind, i))
                time.sleep(2)
                continue
            out["violations"].append({"kind": kind, "i": i, "variant": args["variant"],
                                      "message": "unexpected exception: %r" % (e,),
                                      "details": jsonable(dict(ctx.details,
                                                               traceback=traceback.format_exc()[-3000:]))})
        except OSError as e:
            import errno
            if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EROFS):
                out["error"] = "case %s/%d: %s" % (kind, i, traceback.format_exc()[-3000:])
                break
            out["violations"].append({"kind": kind, "i": i, "variant": args["variant"],
                                      "message": "unexpected exception: %r" % (e,),
                                      "details": jsonable(dict(ctx.details,
                                                               traceback=traceback.format_exc()[-3000:]))})
        except Exception as e:
            out["violations"].append({"kind": kind, "i": i, "variant": args["variant"],
                                      "message": "unexpected exception: %r" % (e,),
                                      "details": jsonable(dict(ctx.details,
                                                               traceback=traceback.format_exc()[-3000:]))})
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        if len(out["violations"]) >= 3:
            break
    if hasattr(mod, "teardown"):
        try:
            with quiet():
                mod.teardown(ctx)
        except Violation as e:
            out["violations"].append({"kind": cur[0], "i": cur[1], "variant": args["variant"],
                                      "message": str(e), "details": jsonable(ctx.details)})
    out["complete"] = True
    finish()
    sys.stdout.flush()
    os._exit(0)      # sanitizer runtimes and plotting libraries need no teardown


def jsonable_result(out):
    o = dict(out)
    o["violations"] = jsonable(out["violations"])
    return o
