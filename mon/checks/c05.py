"""C05: loaded arrays own their memory; loading and dumping do not leak."""
import gc
import io
import os
import sys
import weakref

import numpy as np

from mon import svm
from .c02 import FaultyStream, FaultyWriter, small_text

ID = "C05"
RULE = ("random histories over a pool of loaded arrays and views (load, failing load, dump, drop "
        "base, keep view, collect): every live array is compared with a shadow copy after each "
        "step; repetitions of one operation measured by allocated blocks and RSS; non trivial: at "
        "least one view outlives its base; distinct by history")
REQUIRED = ["shadow_comparisons", "views_outliving_base", "leak_measurements",
            "streams_released", "loads", "files_loaded_again"]
ASSUMPTIONS = ["an operation leaks if it retains more than 0.5 allocated blocks or 64 bytes of RSS "
               "per byte-normalized repetition on average, after warm-up"]


def KINDS(tier):
    k = 1 if tier == "quick" else 10
    return [("history", 120 * k), ("blocks", 32 * k), ("rss", 16 * (1 if tier == "quick" else 3)),
            ("stream", 60 * k), ("again", 60 * k)]


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


class Stream(object):
    def __init__(self, data):
        self.b = io.BytesIO(data)

    def read(self, *a):
        return self.b.read(*a)

    def readline(self, *a):
        return self.b.readline(*a)


def operation(ctx, rng, i, big=False):
    """(name, callable) of one repeatable operation."""
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file, dump_svmlight_file
    names = ["load", "load_noqid", "dataset", "malformed", "stream_error", "dump", "writer_error",
             "path", "dump_fail_shape", "text_without_qids", "no_features", "late_features",
             "bad_qid", "text_mode", "dump_noqid", "dump_path"]
    name = names[i % len(names)]
    n = 4000 if big else 20
    rows = ["%d qid:%d %s" % (r % 5, r // 7, " ".join("%d:%d.5" % (j, r) for j in range(1, 15)))
            for r in range(n)]
    text = ("\n".join(rows) + "\n").encode()
    bad = ("\n".join(rows + ["1 qid:3 foo"]) + "\n").encode()
    X = rng.normal(size=(n, 14)).astype(np.float32)
    y = np.zeros(n, dtype=np.float32)
    q = np.arange(n, dtype=np.int32)
    path = ctx.path("rss.txt")
    open(path, "wb").write(text)
    noqid = ("\n".join(" ".join(w for w in r.split() if "qid" not in w) for r in rows)
             + "\n").encode()
    nofeat = ("\n".join(" ".join(r.split()[:2]) for r in rows) + "\n").encode()
    late = ("\n".join(rows + ["1 qid:%d 30:4" % n]) + "\n").encode()
    badqid = ("\n".join(rows + ["1 3:4"]) + "\n").encode()
    lines = [l + b"\n" for l in text.splitlines()]

    def failing(f):
        try:
            f()
        except Exception:
            return
        raise AssertionError("the operation was expected to fail")
    ops = {
        "load": lambda: load_svmlight_file(io.BytesIO(text), query_id=True),
        "load_noqid": lambda: load_svmlight_file(io.BytesIO(text)),
        "dataset": lambda: Dataset.load(io.BytesIO(text)),
        "path": lambda: load_svmlight_file(path, query_id=True),
        "malformed": lambda: failing(lambda: load_svmlight_file(io.BytesIO(bad), query_id=True)),
        "stream_error": lambda: failing(lambda: load_svmlight_file(
            FaultyStream(lines, len(lines) - 1, OSError(5, "x")), query_id=True)),
        "text_without_qids": lambda: load_svmlight_file(io.BytesIO(noqid), query_id=True),
        "no_features": lambda: load_svmlight_file(io.BytesIO(nofeat), query_id=True),
        "late_features": lambda: load_svmlight_file(io.BytesIO(late), query_id=True),
        "bad_qid": lambda: failing(lambda: load_svmlight_file(io.BytesIO(badqid))),
        "text_mode": lambda: failing(lambda: load_svmlight_file(io.StringIO(text.decode()))),
        "dump_noqid": lambda: dump_svmlight_file(X, y, io.StringIO()),
        "dump_path": lambda: dump_svmlight_file(X, y, path + ".out", q),
        "dump": lambda: dump_svmlight_file(X, y, io.StringIO(), q),
        "writer_error": lambda: failing(lambda: dump_svmlight_file(
            X, y, FaultyWriter(n - 1), q)),
        "dump_fail_shape": lambda: failing(lambda: dump_svmlight_file(
            X, y[:-1], io.StringIO(), q)),
    }
    return name, ops[name], len(text)


def case(ctx, rng, kind, i):
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file, dump_svmlight_file
    if kind == "history":
        pool, log = [], []            # (array or view, shadow)
        outlive = False
        for step in range(int(rng.integers(10, 30))):
            u = rng.random()
            if u < 0.4 or not pool:
                rows = svm.random_rows(rng)
                arrs = load_svmlight_file(io.BytesIO(svm.render(rng, rows).encode()), query_id=True)
                ctx.count("loads")
                for a in arrs:
                    if rng.random() < 0.7:
                        pool.append((a, np.array(a)))
                del arrs
                log.append("load")
            elif u < 0.6:
                k = int(rng.integers(0, len(pool)))
                a, s = pool.pop(k)
                if a.ndim == 2 and a.size:
                    r = int(rng.integers(0, a.shape[0]))
                    v = [a[r:], a[r], a[:, ::2], a.T, a[::-1]][int(rng.integers(0, 5))]
                else:
                    v = a[int(rng.integers(0, max(1, a.size))):]
                outlive |= bool(v.size)
                pool.append((v, np.array(v)))
                del a, s, v
                log.append("view")
            elif u < 0.75:
                pool.pop(int(rng.integers(0, len(pool))))
                log.append("drop")
            elif u < 0.85:
                try:
                    load_svmlight_file(io.BytesIO(b"1 qid:1 1:2\n2 qid:1 boo\n" * 50), query_id=True)
                except RuntimeError:
                    pass
                log.append("fail")
            else:
                a, s = pool[int(rng.integers(0, len(pool)))]
                if a.ndim == 2:
                    dump_svmlight_file(a, np.zeros(a.shape[0], np.float32), io.StringIO())
                log.append("dump")
            if rng.random() < 0.4:
                gc.collect()
                junk = [np.full(int(rng.integers(1, 4000)), 77, np.float32) for _ in range(8)]
                del junk
            for a, s in pool:
                ctx.check(np.array_equal(np.asarray(a), s, equal_nan=True),
                          "a live array changed behind the user's back", history=log)
                ctx.count("shadow_comparisons")
        # arrays are writable and independent of each other
        for a, s in pool:
            if a.flags.writeable and a.size:
                a[...] = 5
        fresh = load_svmlight_file(io.BytesIO(b"1 qid:1 1:2\n"), query_id=True)
        ctx.check(fresh[0][0, 0] == 2 and fresh[1][0] == 1, "a load was affected by other arrays")
        ctx.count("views_outliving_base", outlive)
        if outlive:
            ctx.distinct(i, log)
        ctx.sample({"history": log})
    elif kind == "blocks":
        name, op, _ = operation(ctx, rng, i)
        ctx.note(operation=name)
        for _ in range(30):
            op()
        n, best = 200, None
        for attempt in range(3):
            gc.collect()
            a = sys.getallocatedblocks()
            for _ in range(n):
                op()
            gc.collect()
            d = sys.getallocatedblocks() - a
            best = d if best is None else min(best, d)
        ctx.check(best < n * 0.5, "Python objects are retained at every repetition of '%s'" % name,
                  growth=best, repetitions=n)
        ctx.count("leak_measurements")
        ctx.distinct(name, i)
    elif kind == "rss":
        name, op, size = operation(ctx, rng, i, big=True)
        ctx.note(operation=name)
        for _ in range(8):
            op()
        gc.collect()
        n, growth = 40, None
        for attempt in range(3):
            a = rss()
            for _ in range(n):
                op()
            gc.collect()
            d = (rss() - a) / float(n)
            growth = d if growth is None else min(growth, d)
        ctx.note(bytes_per_repetition=growth, text_bytes=size)
        # a leak of any of the arrays (16 KB the smallest) shows up as n times its size
        ctx.check(growth < 12000, "memory grows at every repetition of '%s'" % name)
        ctx.count("leak_measurements")
        ctx.distinct(name, i)
    elif kind == "again":
        # the arrays of every load are its own, also when the same data is loaded again
        rows = svm.random_rows(rng)
        text = svm.render(rng, rows).encode()
        path = ctx.path("again.txt")
        open(path, "wb").write(text)
        how = int(rng.integers(0, 4))
        keep = io.BytesIO(text)

        def load():
            if how == 0:
                return list(load_svmlight_file(path, query_id=True))
            if how == 1:
                d = Dataset.load(path)
                return [d.X, d.y, d.query_ids, d.query_offsets]
            if how == 2:
                with open(path, "rb") as f:
                    return list(load_svmlight_file(f, query_id=True))
            keep.seek(0)
            return list(load_svmlight_file(keep, query_id=True))
        first = load()
        want = [np.array(a) for a in first]
        loads = [first]
        for _ in range(int(rng.integers(1, 4))):
            for a in loads[-1]:
                if rng.random() < 0.7 and a.size:
                    a[...] = 7 if a.dtype.kind == "f" else 3
            marks = [[np.array(a) for a in arrs] for arrs in loads]
            again = load()
            for a, w in zip(again, want):
                ctx.equal(np.asarray(a), w, "what a load returns was changed through an earlier one")
            for arrs, ms in zip(loads, marks):
                for a, m in zip(arrs, ms):
                    ctx.check(np.array_equal(np.asarray(a), m, equal_nan=True),
                              "a load changed the arrays of an earlier one")
                for a in arrs:
                    ctx.check(not any(np.shares_memory(a, b) for b in again),
                              "two loads share memory")
            loads.append(again)
            ctx.count("files_loaded_again")
        ctx.distinct(how, text)
    else:
        text = small_text(rng).encode()
        mode = str(rng.choice(["ok", "bad", "error"]))
        lines = [l + b"\n" for l in text.splitlines()]
        exc = KeyError("x")
        s = Stream(text + (b"zzz\n" if mode == "bad" else b""))
        if mode == "error":
            s = FaultyStream(lines, len(lines) - 1, exc)
        base = sys.getrefcount(s)
        ref = weakref.ref(s)
        for _ in range(5):
            try:
                if hasattr(s, "b"):
                    s.b.seek(0)
                out = load_svmlight_file(s, query_id=True)
            except Exception:
                out = None
        exc.__traceback__ = None          # its frames reference the stream
        gc.collect()
        ctx.check(sys.getrefcount(s) == base, "the loader keeps references to the stream",
                  mode=mode, got=sys.getrefcount(s), want=base)
        del s
        gc.collect()
        ctx.check(ref() is None, "the stream is kept alive by the loader or by its arrays", mode=mode)
        if out is not None:
            ctx.check(out[0].shape[0] == len(lines), "wrong rows")
            # the three arrays are released independently
            X, y, q = out
            sx = X.copy()
            del out, y, q
            gc.collect()
            ctx.equal(X, sx, "the matrix depends on the other arrays")
        w = FaultyWriter(2) if rng.random() < 0.5 else io.StringIO()
        b = sys.getrefcount(w)
        for _ in range(4):
            try:
                dump_svmlight_file(np.ones((4, 2), np.float32), np.ones(4, np.float32), w)
            except Exception:
                pass
        ctx.check(sys.getrefcount(w) == b, "the writer keeps references to the stream")
        ctx.count("streams_released")
        ctx.distinct(mode, text)
