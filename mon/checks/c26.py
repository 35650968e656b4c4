"""C26: metrics aggregate per query, independently of ids and history."""
import numpy as np

from mon import gen, mets, ref
from mon.faults import interrupted

ID = "C26"
RULE = ("histories of eval/eval_per_query of shared metric objects over pools of nearly identical "
        "datasets (other query ids, one label changed, queries reordered, equal twins), with "
        "evaluations that fail or are interrupted in between, and datasets released and made again "
        "at the same address; each result compared with the definition and with fresh "
        "objects on each query in isolation; distinct by history")
REQUIRED = ["histories", "evals", "per_query_after_eval", "near_twins", "undefined_queries",
            "renumbered", "failed_evals", "interrupted_evals", "subset_evals", "huge_datasets", "names",
            "derived_metrics", "recycled_identities"]
ASSUMPTIONS = ["scores without ties", "datasets are not modified after their first use"]


def KINDS(tier):
    k = 3 if tier == "quick" else 135
    return [("history", 350 * k), ("huge", 2 * k), ("recycled", 60 * k)]


def nanmean(v):
    v = [x for x in v if x == x]
    return sum(v) / len(v) if v else float("nan")


def expected(name, f, y, p, sizes):
    per, s = [], 0
    for k in sizes:
        a, b = y[s:s + k], p[s:s + k]
        per.append(f(a, b, list(np.argsort(-b, kind="stable"))))
        s += k
    if name == "MSE":
        per = [v / len(y) for v in per]
        return sum(per), per
    return nanmean(per), per


def huge(ctx, rng):
    """More rows, or more queries, than 16 bits count."""
    from rankeval.dataset import Dataset
    raw = gen.big_dataset(rng, top_rows=80000, n_features=1)
    n = len(raw["y"])
    d = Dataset(raw["X"], raw["y"], raw["qid"])
    name = str(rng.choice([m for m in mets.ORDERED if m != "PrecisionMax"]))
    cls, kw, f = mets.make(rng, name)
    p = (rng.permutation(n) * 0.25 - 1).astype(np.float32)
    ctx.note(metric=name, params=kw, sizes=raw["sizes"][:40], rows=n)
    avg, det = cls(**kw).eval(d, p)
    want_avg, want = expected(name, f, raw["y"], p, raw["sizes"])
    ctx.close(det, want, "the detailed scores of %s are not those of the queries" % name,
              rtol=1e-3, atol=1e-6)
    ctx.check(mets.same(avg, want_avg, 1e-3, 1e-6), "wrong overall %s" % name, got=float(avg),
              want=want_avg)
    ctx.count("huge_datasets")
    ctx.distinct("huge", name, raw["sizes"])


def recycled(ctx, rng):
    """Datasets of as many rows made and released one after the other: each takes the memory,
    hence the identity, of the one before."""
    from rankeval.dataset import Dataset
    raw = gen.raw_dataset(rng, max_queries=4, max_size=5, max_features=1)
    n = len(raw["y"])
    name = str(rng.choice(mets.ALL if rng.random() < 0.5 else ["NDCG", "DCG", "MAP", "Recall"]))
    cls, kw, f = mets.make(rng, name)
    obj, todo = cls(**kw), []
    moved = rng.random() < 0.5      # the boundaries of the queries differ, too
    qids = raw["qid"][[s for _, s, _ in gen.blocks(raw)]]
    for _ in range(12):
        y = rng.permutation(raw["y"]) if rng.random() < 0.5 else \
            rng.integers(0, 5, size=n).astype(np.float32)
        p = (rng.permutation(n) * 0.25 - 1).astype(np.float32)
        sizes = [int(k) for k in (rng.permutation(raw["sizes"]) if moved else raw["sizes"])]
        todo.append((y, p, expected(name, f, y, p, sizes), np.repeat(qids, sizes)))
    held, results = set(), []
    for y, p, _, q in todo:
        d = Dataset(raw["X"], y, q)
        held.add(id(d))
        results.append(obj.eval(d, p))
        del d
    ctx.note(metric=name, params=kw, sizes=raw["sizes"])
    ctx.count("recycled_identities", len(todo) - len(held))
    for (y, p, (want_avg, want), _), (avg, det) in zip(todo, results):
        ctx.note(y=y, y_pred=p)
        ctx.close(det, want, "the detailed scores of %s are not those of the queries" % name,
                  rtol=1e-4, atol=1e-6)
        ctx.check(mets.same(avg, want_avg, 1e-4, 1e-6), "wrong overall %s" % name,
                  got=float(avg), want=want_avg)
    ctx.distinct("r", name, [t[0].tobytes() for t in todo])


def case(ctx, rng, kind, i):
    if kind == "huge":
        return huge(ctx, rng)
    if kind == "recycled":
        return recycled(ctx, rng)
    from rankeval.dataset import Dataset
    from .c10 import change
    raws = [gen.raw_dataset(rng, max_queries=5, max_size=5, max_features=2)]
    for _ in range(int(rng.integers(1, 6))):
        how = str(rng.choice(["label", "qid", "rename_all", "order", "boundary", "none", "cell"]))
        r, _ = change(rng, raws[int(rng.integers(0, len(raws)))], how)
        if r is not None:
            raws.append(r)
            ctx.count("renumbered" if how in ("qid", "rename_all", "order") else "near_twins")
    ds = [Dataset(r["X"], r["y"], r["qid"]) for r in raws]
    objs = []
    for name in rng.choice(mets.ALL, size=int(rng.integers(1, 4))):
        cls, kw, f = mets.make(rng, str(name))
        if rng.random() < 0.25:       # a metric derived by the user
            cls = type("Derived" + cls.__name__, (cls,), {})
            ctx.count("derived_metrics")
        obj = cls(**kw)
        title = obj.name
        if rng.random() < 0.3:
            title = "my metric"
            obj = cls(name=title, **kw)
        # two configurations of a metric are told apart by their names
        want = title + ("@%d" % kw["cutoff"] if "cutoff" in kw else "") + (
            "[>%s]" % kw["threshold"] if "threshold" in kw else "")
        ctx.check(str(obj) == want, "the name of the metric does not tell its cutoff and "
                  "threshold", got=str(obj), want=want)
        ctx.count("names")
        objs.append((str(name), cls, kw, f, obj))
    kept, trace = [], []
    for step in range(int(rng.integers(4, 16))):
        name, cls, kw, f, obj = objs[int(rng.integers(0, len(objs)))]
        j = int(rng.integers(0, len(ds)))
        r, d = raws[j], ds[j]
        n = len(r["y"])
        p = (rng.permutation(n) * 0.25 - 1).astype(rng.choice([np.float32, np.float64]))
        op = str(rng.choice(["eval", "query", "fail", "subset"], p=[.6, .2, .1, .1]))
        trace.append((op, name, j))
        ctx.note(trace=trace, params=kw, y=r["y"], qid=r["qid"], y_pred=p)
        want_avg, want = expected(name, f, r["y"], p, r["sizes"])
        if op == "eval":
            yb, pb = r["y"].tobytes(), p.tobytes()
            avg, det = obj.eval(d, p)
            ctx.check(np.asarray(det).shape == (len(r["sizes"]),), "wrong number of query scores",
                      got=np.asarray(det).shape)
            ctx.close(det, want, "the detailed scores of %s are not those of the queries" % name,
                      rtol=1e-4, atol=1e-6)
            ctx.check(mets.same(avg, want_avg, 1e-4, 1e-6), "wrong overall %s" % name,
                      got=float(avg), want=want_avg)
            ctx.check(yb == d.y.tobytes() and pb == p.tobytes(), "evaluating modified the inputs")
            kept.append((det, np.array(det)))
            iso = []
            for _, s, e in gen.blocks(r):
                iso.append(cls(**kw).eval_per_query(r["y"][s:e], p[s:e]) / (n if name == "MSE" else 1))
            ctx.close(det, iso, "%s of a query depends on its dataset" % name, rtol=1e-4, atol=1e-6)
            ctx.count("evals")
            ctx.count("undefined_queries", any(v != v for v in want))
        elif op == "query":
            k = int(rng.integers(0, len(r["sizes"])))
            _, s, e = gen.blocks(r)[k]
            v = obj.eval_per_query(r["y"][s:e], p[s:e])
            w = want[k] * (n if name == "MSE" else 1)
            ctx.check(mets.same(v, w, 1e-4, 1e-6), "%s of a query depends on the history" % name,
                      got=float(v), want=w)
            ctx.count("per_query_after_eval", any(t[0] == "eval" and t[1] == name for t in trace[:-1]))
        elif op == "fail":
            # scores that cannot be evaluated: the next evaluations are unaffected
            u = rng.random()
            if u < 0.5:
                if interrupted(lambda: obj.eval(d, p), int(rng.integers(1, 25)))[0]:
                    ctx.count("interrupted_evals")
                continue
            try:
                obj.eval(d, None if u < 0.75 else p[:0].astype(str))
            except Exception:
                ctx.count("failed_evals")
        else:
            k = int(rng.integers(0, len(r["sizes"])))
            q, s, e = gen.blocks(r)[k]
            avg, det = obj.eval(d.subset(np.array([q])), p[s:e])
            w = want[k] * (n / (e - s) if name == "MSE" else 1)
            ctx.check(len(det) == 1 and mets.same(det[0], w, 1e-4, 1e-6),
                      "%s of a query alone in a dataset differs" % name, got=det, want=w)
            ctx.count("subset_evals")
        for arr, copy in kept:
            ctx.check(np.array_equal(arr, copy, equal_nan=True),
                      "a later evaluation changed scores returned before")
    ctx.count("histories")
    ctx.distinct(trace, raws[0]["y"], raws[0]["qid"])
    ctx.sample({"trace": trace})
