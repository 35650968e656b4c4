"""C20: scoring is pure: incompatible data is rejected, caching is transparent."""
import gc
import weakref

import numpy as np

from mon import gen, ref
from mon.faults import interrupted

ID = "C20"
RULE = ("histories of score/detailed/cached/clear_cache/copy/prune over pools of models and of "
        "nearly identical datasets (same values, other query ids, one cell changed, another "
        "layout or name, equal twins); every result compared with the reference evaluator; datasets "
        "with too few features must be rejected; distinct by history")
REQUIRED = ["histories", "cached_hits", "equal_twins", "near_twins", "rejected", "cleared",
            "boundary_features", "detailed_after_basic",
            "replaced", "interrupted", "wrong_type_refused", "not_retained", "released",
            "recycled_identities"]
ASSUMPTIONS = ["datasets are not modified after their first use"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("history", 300 * k), ("reject", 300 * k), ("release", 20 * k), ("recycled", 20 * k)]


def case(ctx, rng, kind, i):
    return globals()[kind](ctx, rng)


def reject(ctx, rng):
    from rankeval.dataset import Dataset
    nf = int(rng.integers(1, 12))
    fo = gen.forest(rng, nf, allow_leaf=False)
    need = gen.max_feature(fo) + 1
    model = gen.model(ctx, fo)
    n = int(rng.integers(1, 10))
    y, q = np.zeros(n, dtype=np.float32), np.sort(rng.integers(1, 4, size=n))
    for have in sorted({1, need - 1, need, need + 1}):
        if have < 1:
            continue
        X = gen.probes(rng, [(t, w) for t, w in fo], max(need, have), n)[:, :have]
        d = Dataset(np.ascontiguousarray(X), y, q)
        det, cache = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
        ctx.note(forest=fo, have=have, need=need)
        if have < need:
            for _ in range(2):
                ctx.raises(RuntimeError, lambda: model.score(d, detailed=det, cache=cache),
                           "a dataset lacking the features of the model was scored")
            ctx.count("rejected")
        else:
            s = model.score(d, detailed=det, cache=cache)
            ctx.equal(np.asarray(s[0] if det else s, dtype=float), ref.scores(fo, X), "wrong scores")
        ctx.count("boundary_features", have in (need - 1, need))
    ctx.distinct("r", repr(fo), need)


def release(ctx, rng):
    """What is not to be cached, or is forgotten, is not kept alive by the model."""
    nf = int(rng.integers(1, 5))
    fo = gen.forest(rng, nf)
    model = gen.model(ctx, fo)
    raw = gen.raw_dataset(rng, n_features=nf)
    ask = [(bool(rng.random() < 0.5), bool(rng.random() < 0.5)) for _ in range(int(rng.integers(1, 5)))]
    d = gen.dataset(raw)
    for det, cache in ask:
        model.score(d, detailed=det, cache=cache)
    cleared = any(c for _, c in ask) or rng.random() < 0.3
    if cleared:
        model.clear_cache()
    alive = weakref.ref(d)
    del d
    gc.collect()
    ctx.note(calls=ask, cleared=cleared)
    ctx.check(alive() is None, "the model keeps a dataset it was not asked to keep")
    ctx.count("released" if cleared else "not_retained")
    want = ref.scores(fo, raw["X"])
    ctx.equal(np.asarray(model.score(gen.dataset(raw)), dtype=float), want, "wrong scores afterwards")
    ctx.distinct("k", ask, repr(fo))


def recycled(ctx, rng):
    """Datasets and models made and released one after the other: each takes the memory, hence the
    identity, of the one before."""
    nf = int(rng.integers(1, 4))
    raw = gen.raw_dataset(rng, n_features=nf)
    fos = [gen.forest(rng, nf, X=raw["X"], max_trees=4) for _ in range(2)]
    n, models = len(raw["y"]), [gen.model(ctx, fo) for fo in fos]
    todo = []
    for _ in range(10):
        X = raw["X"][rng.permutation(n)] if rng.random() < 0.5 else gen.probes(rng, fos[0], nf, n)
        X = np.ascontiguousarray(X, dtype=np.float32)
        j = int(rng.integers(0, 2))
        todo.append((X, j, bool(rng.random() < 0.5), bool(rng.random() < 0.4),
                     ref.scores(fos[j], X)))
    keep = rng.random() < 0.3
    held, results = set(), []
    from rankeval.dataset import Dataset
    for X, j, detailed, cache, _ in todo:
        d = Dataset(X, raw["y"], raw["qid"])
        m = models[j].copy() if keep else models[j]
        held.add(id(m) if keep else id(d))
        s = m.score(d, detailed=detailed, cache=cache)
        if cache and not keep:
            m.clear_cache()
        results.append(np.array(s[0] if detailed else s, dtype=float))
        del d, m
    ctx.count("recycled_identities", len(todo) - len(held))
    ctx.note(forests=fos, calls=[t[1:4] for t in todo])
    for t, s in zip(todo, results):
        ctx.equal(s, t[4], "wrong scores of a dataset made after the release of another", X=t[0])
    ctx.distinct("y", repr(fos), [t[0].tobytes() for t in todo])


def history(ctx, rng):
    from rankeval.dataset import Dataset
    from .c03 import layout
    from .c10 import change, CHANGES
    nf = int(rng.integers(1, 6))
    raws = [gen.raw_dataset(rng, max_queries=4, max_size=4, n_features=nf)]
    ds = [gen.dataset(raws[0])]
    for _ in range(int(rng.integers(1, 6))):
        j = int(rng.integers(0, len(raws)))
        how = str(rng.choice([c for c in CHANGES if c != "shape"] + ["none"]))
        r, lay = change(rng, raws[j], how)
        if r is None:
            continue
        raws.append(r)
        ds.append(Dataset(layout(rng, r["X"], lay), r["y"], r["qid"]))
        ctx.count("equal_twins" if how in ("none", "layout", "name") else "near_twins")
    models = []
    for _ in range(int(rng.integers(1, 3))):
        fo = gen.forest(rng, nf, X=raws[0]["X"], max_trees=5)
        lr, base = float(rng.choice([1, 0.5])), (0.75 if rng.random() < 0.5 else None)
        models.append((gen.model(ctx, fo, learning_rate=lr, base_score=base), fo, lr, base))
    trace, hits, seen = [], set(), {}
    for step in range(int(rng.integers(5, 25))):
        j, k = int(rng.integers(0, len(models))), int(rng.integers(0, len(ds)))
        m, fo, lr, base = models[j]
        op = str(rng.choice(["s", "sc", "d", "dc", "clear", "copy", "prune", "replace"],
                            p=[.18, .24, .18, .18, .05, .05, .05, .07]))
        at = int(rng.integers(1, 9)) if op[0] in "sd" and rng.random() < 0.15 else 0
        trace.append((op, j, k))
        ctx.note(trace=trace)
        if op == "clear":
            m.clear_cache()
            hits = {h for h in hits if h[0] != j}
            seen = {h: v for h, v in seen.items() if h[0] != j}
            ctx.count("cleared")
            continue
        if op == "replace":         # the old dataset is released, a new one takes its place
            r, lay = change(rng, raws[k], str(rng.choice(["cell", "label", "qid", "permrows"])))
            hits = {h for h in hits if h[1] != k}
            seen = {h: v for h, v in seen.items() if h[1] != k}
            ds[k] = None
            raws[k] = r
            ds[k] = Dataset(r["X"].copy(), r["y"].copy(), r["qid"].copy())
            ctx.count("replaced")
            continue
        if op in ("copy", "prune"):
            if len(models) < 5:
                n = len(fo) if op == "copy" else int(rng.integers(1, len(fo) + 1))
                models.append((m.copy(n_trees=None if op == "copy" else n), fo[:n], lr, base))
            continue
        det, cache = op[0] == "d", op.endswith("c")
        X = raws[k]["X"]
        want = ref.partials(fo, X) * lr
        if base:
            want[:, 0] += base
        if at:
            trace.append(("interrupted", at))
            if interrupted(lambda: m.score(ds[k], detailed=det, cache=cache), at)[0]:
                ctx.count("interrupted")
        if rng.random() < 0.1:          # a dataset of the wrong type is refused, every time
            bad = Dataset(raws[k]["X"].astype(np.float64), raws[k]["y"], raws[k]["qid"])
            for _ in range(2):
                r = None
                try:
                    r = m.score(bad, detailed=det, cache=cache)
                except Exception:
                    ctx.count("wrong_type_refused")
                else:
                    r = np.asarray(r[0] if det else r)
                    ctx.check(r.dtype.kind == "f" and np.array_equal(r.astype(float), want.sum(axis=1)),
                              "wrong scores for a double precision dataset", got=r)
        out = m.score(ds[k], detailed=det, cache=cache)
        y = np.asarray(out[0] if det else out)
        ctx.equal(y.astype(float), want.sum(axis=1), "a score of the history differs from an "
                  "uncached scoring")
        if det:
            ctx.equal(np.asarray(out[1]).astype(float), want, "partial scores of the history differ "
                      "from an uncached scoring")
            ids = [ref.walk(m, a, t, ctx.check) for a, (t, _) in enumerate(fo)]
            wl = [[ids[a][ref.route(t, x)[1]] for a, (t, _) in enumerate(fo)] for x in X]
            ctx.equal(np.asarray(out[2]), wl, "leaves of the history differ")
            ctx.count("detailed_after_basic", seen.get((j, k)) == "s")
        ctx.count("cached_hits", (j, k) in hits)
        if cache:
            hits.add((j, k))
            seen[(j, k)] = op[0]
    ctx.count("histories")
    ctx.distinct("h", trace, raws[0]["X"])
    ctx.sample({"datasets": len(ds), "trace": trace})
