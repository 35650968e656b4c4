"""C04: the native extensions, instrumented by ASan and UBSan, under all the workloads."""
import importlib
import io

import numpy as np

from mon import gen, svm
from mon.harness import Ctx, Violation

ID = "C04"
RULE = ("extensions built with ASan+UBSan; the workloads of the other properties (loads, malformed "
        "texts, faulty streams, dumps, histories, scoring, topology, feature importance) plus "
        "byte-level fuzzing of texts, odd arrays (types, layouts, no rows or columns, other "
        "lengths) and models on datasets lacking features; every sanitizer report or crash is a "
        "violation; distinct by case")
SOURCES = [("c01", "load", 120), ("c01", "dataset", 40), ("c02", "malformed", 150),
           ("c02", "mutation", 500), ("c02", "stream", 150), ("c02", "missing", 4),
           ("c02", "writer", 80), ("c03", "dump", 250), ("c03", "dataset", 100), ("c03", "chain", 10),
           ("c05", "history", 10), ("c05", "stream", 15), ("c10", "container", 10),
           ("c11", "QuickRank", 40), ("c11", "Jforests", 40), ("c12", "LightGBM", 40),
           ("c12", "XGBoost", 40), ("c12", "ScikitLearn", 40), ("c13", "sklearn", 4),
           ("c14", "coreml", 15), ("c16", "any", 60), ("c17", "limit", 25), ("c17", "history", 25),
           ("c18", "dyadic", 100), ("c18", "wild", 40), ("c18", "many_docs", 1), ("c18", "wide", 3),
           ("c19", "detailed", 80), ("c20", "history", 30), ("c20", "reject", 50),
           ("c28", "tree_wise", 15), ("c34", "forest", 120), ("c34", "chain", 30),
           ("c35", "mse", 150), ("c35", "reject", 30), ("c35", "large", 1), ("c36", "history", 10)]
REQUIRED = ["driven_" + m for m in sorted({s[0] for s in SOURCES})] + [
    "fuzz_loaded", "fuzz_rejected", "odd_loaded", "odd_dumped", "odd_scored", "odd_refused",
    "importance_computed", "texts_mostly_digits"]
ASSUMPTIONS = ["well-formed model files (child indices within the tree)",
               "red zones catch overflows of up to some hundred bytes; leaks are judged by C05",
               "32-bit overflows that need more than the memory at hand are out of reach"]
VARIANTS = [("asan", {"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"})]
SHARDS = {"quick": 6, "thorough": 7}
CAP = {"quick": 150, "thorough": 2400}


def KINDS(tier):
    k = 1 if tier == "quick" else 40
    own = [("fuzz", 1500 * k), ("arrays", 300 * k), ("mismatch", 150 * k)]
    return own + [("%s:%s" % (m, kind), n * k) for m, kind, n in SOURCES]


NUMS = ["0", "1", "-1", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "18446744073709551616", "1e308", "1e309",
        "-1e309", "1e-320", "nan", "inf", "-inf", "-nan", "0x1p3", "1e", ".", "+", "1.5", "7", "12",
        "300", "1e5", "1e38", "4e38", "-4e38"]
GLUE = [" ", "  ", "\t", ":", "::", " qid:", "qid", "#", "\r", "\n", "\n\n", "\0", ",", ";", "\xff",
        "\v", "\f", "-", "e"]


def fuzz_text(rng):
    u = rng.random()
    if u < 0.4:
        out = []
        for _ in range(int(rng.integers(1, 40))):
            v = rng.random()
            if v < 0.45:
                out.append(str(rng.choice(NUMS)))
            elif v < 0.9:
                out.append(GLUE[int(rng.integers(0, len(GLUE)))])
            else:
                out.append("%d qid:%d %d:%g" % tuple(rng.integers(0, 30, size=4)))
        return "".join(out).encode("latin-1")
    if u < 0.6:        # accepted: extreme but well-formed tokens, ascending features
        few = [str(x) for x in rng.choice(NUMS[:22] + NUMS[-8:], size=int(rng.integers(1, 4)))]
        lines, q = [], str(rng.choice(["0", "7", "2147483646", "2147483647", "4294967295"]))
        for r in range(int(rng.integers(1, 30))):
            feats = [j for j in range(1, int(rng.choice([2, 9, 9, 300]))) if rng.random() < 0.4]
            lines.append("%s qid:%s %s" % (
                rng.choice(few), q, " ".join("%d:%s" % (j, rng.choice(few))
                                                   for j in feats)))
        return ("\n".join(lines) + "\n").encode()
    if u < 0.75:
        lines = []
        for r in range(int(rng.integers(1, 12))):
            lines.append("%s qid:%s %s" % (
                rng.choice(NUMS), rng.choice(NUMS[:8] + ["3", "4"]), " ".join(
                    "%d:%s" % (j, rng.choice(NUMS)) for j in range(1, 9) if rng.random() < 0.4)))
        return ("\n".join(lines) + str(rng.choice(["", "\n", "\n\n", " "]))).encode()
    from .c02 import mutate, small_text
    b = small_text(rng).encode() if rng.random() < 0.5 else \
        svm.render(rng, svm.random_rows(rng)).encode()[:4000]
    for _ in range(int(rng.integers(1, 4))):
        b = mutate(rng, b)
    return b


def huge_id(data):
    """Would the text ask for a matrix of hundreds of megabytes?"""
    import re
    top = max([int(t) for t in re.findall(rb"(\d+)\s*:", data)] or [0])
    return 2 * 10 ** 5 < top < 2 ** 31


def fuzz(ctx, rng):
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import dump_svmlight_file, load_svmlight_file
    data = fuzz_text(rng)
    if huge_id(data):
        ctx.count("fuzz_skipped")
        return
    ctx.count("texts_mostly_digits", sum(48 <= b < 58 for b in data) * 2 > len(data))
    ctx.distinct(data)
    try:
        if rng.random() < 0.3:
            d = Dataset.load(io.BytesIO(data))
            X, y, q = d.X, d.y, d.get_qids_dataset()
        elif rng.random() < 0.8:
            X, y, q = load_svmlight_file(io.BytesIO(data), query_id=True)
        else:
            (X, y), q = load_svmlight_file(io.BytesIO(data)), None
    except Exception:
        ctx.count("fuzz_rejected")
        return
    ctx.count("fuzz_loaded")
    float(np.asarray(X, dtype=float).sum()) + float(np.asarray(y, dtype=float).sum())
    if q is not None:
        int(np.asarray(q).sum())
    dump_svmlight_file(X, y, io.StringIO(), q if q is not None and len(q) == len(y) else None)


def odd_array(rng, n, m=None):
    shape = (n,) if m is None else (n, m)
    kind = str(rng.choice(["f4", "f8", "f2", "i1", "i4", "i8", "u8", "bool", "be", "F", "neg",
                           "step", "bcast", "list", "object", "readonly", "masked"]))
    a = rng.integers(-3, 90, size=shape)
    if kind in ("f4", "f8", "f2", "i1", "i4", "i8", "u8", "bool"):
        return a.astype(kind)
    a = a.astype(np.float32)
    if kind == "be":
        return a.astype(">f8")
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "neg":
        return a[::-1]
    if kind == "step":
        b = np.zeros([3 * s for s in shape], dtype=np.float32)
        b = b[tuple(slice(1, None, 3) for _ in shape)]
        b[...] = a
        return b
    if kind == "bcast":
        return np.broadcast_to(np.float32(3), shape)
    if kind == "list":
        return a.tolist()
    if kind == "object":
        return a.astype(object)
    if kind == "masked":
        return np.ma.masked_equal(a, 3)
    a.flags.writeable = False
    return a


def arrays(ctx, rng):
    """Any array may be refused, but none may be read or written out of its bounds."""
    from rankeval.analysis.feature import feature_importance
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import dump_svmlight_file
    n = int(rng.choice([0, 1, 2, 3, 7, 40]))
    m = int(rng.choice([0, 1, 2, 5, 33]))
    off = [int(rng.choice([0, 0, 0, -1, 1, -n, 5])) for _ in range(2)]
    X = odd_array(rng, n, m)
    y, q = odd_array(rng, max(0, n + off[0])), odd_array(rng, max(0, n + off[1]))
    ctx.distinct(n, m, off, repr(X), repr(y), repr(q))
    ctx.note(n=n, m=m, off=off, X=X, y=y, q=q)
    for _ in range(2):
        try:
            out = io.StringIO()
            dump_svmlight_file(X, y, out, *([q] if rng.random() < 0.7 else []))
            ctx.count("odd_dumped")
        except Exception:
            ctx.count("odd_refused")
    try:
        d = Dataset(X, y, np.asarray(q) if rng.random() < 0.7 else q)
    except Exception:
        ctx.count("odd_refused")
        return
    ctx.count("odd_loaded")
    model = gen.model(ctx, gen.forest(rng, max(1, m), max_trees=4))
    for f in (lambda: model.score(d, detailed=False), lambda: model.score(d, detailed=True)):
        try:
            f()
            ctx.count("odd_scored")
        except Exception:
            ctx.count("odd_refused")
    try:
        feature_importance(model, d)
        ctx.count("importance_computed")
    except Exception:
        ctx.count("odd_refused")
    try:
        d.dump(io.StringIO())
        d.dump(io.StringIO())
    except Exception:
        pass


def mismatch(ctx, rng):
    """Models on datasets with fewer, equal and more features; single-leaf and empty models."""
    from rankeval.analysis.feature import feature_importance
    from rankeval.analysis.topological import topological_analysis
    from rankeval.metrics import MSE, RMSE
    nf = int(rng.integers(1, 9))
    fo = gen.forest(rng, nf, max_trees=5)
    model = gen.model(ctx, fo)
    ctx.distinct(repr(fo))
    for have in {1, nf, max(1, gen.max_feature(fo)), gen.max_feature(fo) + 1, nf + 3}:
        if have < 1:
            continue
        d = gen.dataset(gen.raw_dataset(rng, max_queries=3, max_size=5, n_features=have))
        for f in (lambda: model.score(d, detailed=True), lambda: model.score(d),
                  lambda: feature_importance(model, d, metric=MSE()),
                  lambda: feature_importance(model, d, metric=RMSE(), normalize=False)):
            try:
                f()
                ctx.count("importance_computed")
            except RuntimeError:
                ctx.count("odd_refused")
    for k in (0, 1, 2, 100, -1):
        try:
            c = model.copy(n_trees=k)
            topological_analysis(c)
            c.score(d)
            feature_importance(c, d)
        except Exception:
            ctx.count("odd_refused")


def case(ctx, rng, kind, i):
    if ":" not in kind:
        return globals()[kind](ctx, rng)
    mod, sub = kind.split(":")
    m = importlib.import_module("mon.checks." + mod)
    sub_ctx = Ctx(ctx.pid, ctx.tier, ctx.seed, ctx.variant, ctx.scratch)
    try:
        m.case(sub_ctx, rng, sub, i)
    except Violation:
        # wrong, but not a memory error: the property of that workload reports it
        ctx.count("functional_alarms_ignored")
    except MemoryError:
        ctx.count("memory_errors")
    except Exception:
        ctx.count("exceptions_ignored")
    ctx.count("driven_" + mod)
    ctx.count("oracle_checks", sub_ctx.counters.get("oracle_checks", 0))
    ctx.distinct_keys |= sub_ctx.distinct_keys
