"""C35: feature importance against its definition."""
import numpy as np

from mon import gen, mets, ref

ID = "C35"
RULE = ("random forests, datasets and layouts, MSE/RMSE (native code), user-defined smooth metrics "
        "and ranking metrics, normalized or not; gains recomputed node by node in double precision; "
        "distinct by forest and dataset")
REQUIRED = ["features_mse", "features_rmse", "features_smooth", "features_ranking", "normalized",
            "rejected", "weighted_trees", "single_leaf_trees", "unreached_nodes", "layout_F",
            "layout_strided", "negative_gain", "wide", "default_metric", "one_instance",
            "over_65535_uses", "over_65535_generic", "odd_vectors"]
ASSUMPTIONS = ["splits reached by fewer than two documents may or may not be counted by MSE and RMSE "
               "(they have no gain)", "where predictions tie within 1e-5, ranking metrics must lie "
               "between the tie-breaks"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("mse", 420 * k), ("smooth", 200 * k), ("ranking", 150 * k), ("reject", 30 * k),
            ("large", 3 * k), ("counts", max(1, k // 4)),
            ("virtual", 1 if tier == "quick" else 6)]


def smooth(kind):
    from rankeval.metrics.metric import Metric

    class Smooth(Metric):
        """Defined by the user: not a ranking metric."""
        def __init__(self):
            super(Smooth, self).__init__("smooth%d" % kind)
            self.calls = 0

        def value(self, y, p):
            y, p = np.asarray(y, dtype=float), np.asarray(p, dtype=float)
            w = 1 + np.arange(len(y)) % 5
            return float((w * np.abs(y - p)).mean() if kind == 0 else (w * y * p).mean())

        def eval(self, dataset, y_pred):
            self.calls += 1
            if len(y_pred) != dataset.n_instances:
                raise ValueError("scores of other documents")
            if kind == 2:
                return 0.5, None
            return self.value(dataset.y, y_pred), None

        def eval_per_query(self, y, y_pred):
            return self.value(y, y_pred)

        def __str__(self):
            return self.name
    return Smooth()


def levels(t):
    """Split nodes of a tree, level by level."""
    cur, d = [(t, "")], 0
    while cur:
        yield d, [(nd, path) for nd, path in cur if nd[0] == "split"]
        cur = [c for nd, path in cur if nd[0] == "split"
               for c in ((nd[3], path + "L"), (nd[4], path + "R"))]
        d += 1


def walk_tree(t, X, target, visit):
    """Level-wise mean-residual predictions; visit(feature, docs, before, after) for each split."""
    pred = np.full(len(target), target.mean())
    docs = {"": np.arange(len(target))}
    for _, nodes in levels(t):
        after_level = pred.copy()
        for nd, path in nodes:
            idx = docs[path]
            go = X[idx, nd[1]] <= np.float32(nd[2])
            l, r = idx[go], idx[~go]
            docs[path + "L"], docs[path + "R"] = l, r
            after = pred.copy()
            for side in (l, r):
                if len(side):
                    after[side] = target[side].mean()
            visit(nd[1], idx, pred, after)
            after_level[idx] = after[idx]
        pred = after_level
    return pred


def virtual(ctx, rng):
    """More than 2^32 cells: a matrix of zeros whose pages are never touched but for a few rows."""
    from rankeval.analysis.feature import feature_importance
    from rankeval.dataset import Dataset
    from rankeval.metrics import MSE
    nf = int(rng.integers(28000, 32000))
    n = 2 ** 32 // nf + int(rng.integers(2000, 6000))
    f = int(rng.integers(0, nf))
    try:
        X = np.zeros((n, nf), dtype=np.float32)
    except MemoryError:
        ctx.count("virtual_skipped")
        return
    last, first = int(rng.integers(500, 1500)), int(rng.integers(100, 400))
    y = np.zeros(n, dtype=np.float32)
    rows = np.concatenate([np.arange(first), np.arange(n - last, n)])
    X[rows, f] = 1
    y[rows] = 1
    d = Dataset(X, y, np.arange(n) // 100)
    model = gen.model(ctx, [(("split", f, 0.5, ("leaf", 0.0), ("leaf", 1.0)), 1.0)])
    out = feature_importance(model, d, metric=MSE(), normalize=False)
    p = len(rows) / float(n)
    ctx.close(out.values[0][f], p * (1 - p), "wrong importance in a dataset with over 2^32 cells",
              rtol=1e-3, n=n, nf=nf, feature=f)
    ctx.check(out.values[1][f] == 1 and np.count_nonzero(out.values) == 2, "wrong counts")
    ctx.count("over_2_32_cells")


def counts(ctx, rng):
    """A feature used by more splits than 16 bits count, all of them reached by documents."""
    from rankeval.analysis.feature import feature_importance
    from rankeval.dataset import Dataset
    depth = int(rng.choice([7, 8]))
    nt = int(rng.integers(65600, 70000)) // (2 ** depth - 1) + 1
    n = 2 ** (depth + 1)

    def build(a, b, d):
        if d == depth:
            return ("leaf", gen.leaf_value(rng))
        m = (a + b) // 2
        return ("split", 1, float(m) - 0.5, build(a, m, d + 1), build(m, b, d + 1))
    fo = [(build(0, n, 0), 1.0) for _ in range(nt)]
    fo.append((("split", 0, 0.5, ("leaf", 1.0), ("leaf", 2.0)), 1.0))
    X = np.zeros((n, 3), dtype=np.float32)
    X[:, 1] = np.arange(n)
    X[::2, 0] = 1
    d = Dataset(X, rng.integers(0, 5, size=n).astype(np.float32), np.arange(n) // 7)
    for generic in (False, True):
        one_count(ctx, feature_importance(gen.model(ctx, fo), d, **(
            {"metric": smooth(2), "normalize": False} if generic else {})), nt, depth)
        ctx.count("over_65535_generic", generic)


def one_count(ctx, out, nt, depth):
    want = [1, nt * (2 ** depth - 1), 0]
    ctx.check(out.values[1].tolist() == want, "wrong counts of the splits", got=out.values[1],
              want=want)
    ctx.count("over_65535_uses", want[1])
    ctx.distinct("counts", nt, depth)


def case(ctx, rng, kind, i):
    if kind == "counts":
        return counts(ctx, rng)
    if kind == "virtual":
        return virtual(ctx, rng)
    from rankeval.analysis.feature import feature_importance
    from rankeval.dataset import Dataset
    from .c03 import layout, vector
    nf = int(rng.integers(1, 9))
    if kind == "large":
        raw = gen.raw_dataset(rng, min_queries=100, max_queries=150, max_size=30, n_features=nf)
    elif kind == "ranking":
        raw = gen.raw_dataset(rng, max_queries=6, max_size=4, n_features=nf)
    else:
        raw = gen.raw_dataset(rng, max_queries=6, max_size=10, n_features=nf)
    if rng.random() < 0.3:
        raw["y"] = raw["y"] + np.float32(gen.dyadic(rng))
        if kind == "ranking":
            raw["y"] = np.abs(np.rint(raw["y"])).astype(np.float32)
    n = len(raw["y"])
    wide = nf + int(rng.integers(0, 3))
    if kind == "mse" and n <= 12 and rng.random() < 0.2:
        wide += int(rng.integers(65530, 70000))
        ctx.count("wide", wide > 65536)
    fo = gen.forest(rng, nf, X=raw["X"], max_trees=6 if kind != "large" else 20, max_depth=6)
    if kind == "reject":
        worst = nf + int(rng.integers(0, 4))
        fo[int(rng.integers(0, len(fo)))] = (
            ("split", worst, 0.5, ("leaf", 1.0), ("split", 0, 0.0, ("leaf", 2.0), ("leaf", 0.5))), 1.0)
        d = gen.dataset(raw)
        model = gen.model(ctx, fo)
        ctx.raises(RuntimeError, lambda: feature_importance(model, d, *( [] if i % 2 else [smooth(0)])),
                   "a model with features the dataset does not have was accepted", worst=worst, nf=nf)
        ctx.count("rejected")
        return
    X = np.hstack([raw["X"], gen.dyadic(rng, (n, wide - nf))]).astype(np.float32)
    lay = str(rng.choice(["C", "C", "F", "strided", "T"]))
    Xl = layout(rng, X, lay)
    if rng.random() < 0.1:
        Xl = Xl.astype(np.float64)
    d = Dataset(Xl, vector(ctx, rng, raw["y"]), vector(ctx, rng, raw["qid"]))
    model = gen.model(ctx, fo, learning_rate=float(rng.choice([1, 1, 0.5])))
    normalize = bool(rng.random() < 0.4)
    ctx.note(forest=fo if kind != "large" else len(fo), X=X, y=raw["y"], qid=raw["qid"],
             normalize=normalize, layout=lay)
    nodes = np.zeros(wide, dtype=int)        # splits per feature
    reached = np.zeros(wide, dtype=int)      # those reached by two documents or more
    lo, hi = np.zeros(wide), np.zeros(wide)
    metric, kw = None, {}
    if kind in ("mse", "large"):
        from rankeval.metrics import MSE, RMSE
        u = rng.random()
        metric = RMSE() if u < 0.35 else MSE() if u < 0.7 else None
        ctx.count("default_metric", metric is None)

        def gain(target, before, after, y_pred):
            g = ((target - before) ** 2 - (target - after) ** 2).sum() / n
            return g, g
    elif kind == "smooth":
        metric = smooth(int(rng.integers(0, 2)))

        def gain(target, before, after, y_pred):
            g = metric.value(raw["y"], before + y_pred) - metric.value(raw["y"], after + y_pred)
            return g, g
    else:
        name = str(rng.choice(["NDCG", "DCG", "MAP", "Precision", "MRR", "ERR"]))
        cls, mkw, f = mets.make(rng, name)
        metric = cls(**mkw)

        def value(p):
            q = np.round(p / 2e-5)              # ties up to rounding
            # values within 1e-5 may fall in adjacent cells: merge them
            s = np.sort(p)
            cell = np.zeros(len(p))
            cuts = np.concatenate([[0], np.cumsum(np.diff(s) > 1e-5)])
            cell[np.argsort(p, kind="stable")] = cuts
            out = []
            for _, a, b in gen.blocks(raw):
                v = [f(raw["y"][a:b], p[a:b], o) for o in ref.rankings(cell[a:b])]
                out.append((min(v), max(v)))
            return np.mean([x[0] for x in out]), np.mean([x[1] for x in out])

        def gain(target, before, after, y_pred):
            a, b = value(before + y_pred), value(after + y_pred)
            return a[0] - b[1], a[1] - b[0]
        ctx.note(metric=str(metric))
    if metric is not None:
        kw["metric"] = metric
    if not normalize or rng.random() < 0.5:
        kw["normalize"] = normalize
    else:
        normalize = True
    y_pred = np.zeros(n)
    y64 = raw["y"].astype(float)
    for t, w in fo:
        target = y64 - y_pred

        def visit(feature, idx, before, after):
            nodes[feature] += 1
            reached[feature] += len(idx) >= 2
            g = gain(target, before, after, y_pred)
            lo[feature] += g[0]
            hi[feature] += g[1]
        last = walk_tree(t, X, target, visit)
        y_pred = y_pred + last * w
    yb, Xb = d.y.copy(), np.array(d.X)
    out = feature_importance(model, d, **kw)
    ctx.check(tuple(out.dims) == ("type", "feature") and list(out.coords["type"].values) ==
              ["importance", "count"] and
              [int(v) for v in out.coords["feature"].values] == list(range(wide)),
              "wrong coordinates", dims=out.dims)
    imp, cnt = out.values[0].astype(float), out.values[1].astype(float)
    scale = max(float(np.mean(y64 ** 2)), float(np.abs(lo).max()), float(np.abs(y_pred).max()) ** 2,
                1e-3)
    tol = 2e-5 * scale * max(1, len(fo))
    ctx.note(imp=imp, lo=lo, hi=hi, count=cnt, nodes=nodes)
    if kind in ("smooth", "ranking"):
        ctx.equal(cnt, nodes.astype(float), "wrong counts of the splits")
    else:
        root = np.zeros(wide)
        ctx.check(((reached <= cnt) & (cnt <= nodes)).all(), "wrong counts of the splits",
                  reached=reached)
    rmse = metric is not None and type(metric).__name__ == "RMSE"
    if rmse:
        lo, hi = np.sqrt(np.maximum(lo - tol, 0)), np.sqrt(np.maximum(hi + tol, 0))
    else:
        lo, hi = lo - tol, hi + tol
    if normalize:
        if lo.max() > 20 * tol and lo.max() > 0:
            # the largest lies in [max(lo), max(hi)]
            ctx.check(abs(imp.max() - 1) < 1e-5, "the largest importance is not 1")
            a, b = lo.max(), hi.max()
            lo = np.where(lo >= 0, lo / b, lo / a)
            hi = np.where(hi >= 0, hi / a, hi / b)
            ctx.count("normalized")
        else:
            return
    eps = 1e-5 + 1e-4 * np.maximum(np.abs(lo), np.abs(hi)) if normalize else \
        1e-4 * np.maximum(np.abs(lo), np.abs(hi))
    ctx.check(((imp >= lo - eps) & (imp <= hi + eps)).all(), "wrong feature importance", want_lo=lo,
              want_hi=hi)
    ctx.count({"mse": "features_rmse" if rmse else "features_mse", "large": "features_large",
               "smooth": "features_smooth", "ranking": "features_ranking"}[kind], wide)
    ctx.check(np.array_equal(d.y, yb) and np.array_equal(d.X, Xb), "the dataset was modified")
    ctx.count("weighted_trees", sum(w != 1 for _, w in fo))
    ctx.count("single_leaf_trees", sum(t[0] == "leaf" for t, _ in fo))
    ctx.count("unreached_nodes", int((nodes - reached).sum()))
    ctx.count("negative_gain", int((hi < 0).sum()))
    ctx.count("one_instance", n == 1)
    ctx.count("layout_" + lay)
    ctx.distinct(repr(fo), X, raw["y"], str(metric))
    ctx.sample({"metric": str(metric), "trees": len(fo), "importance": imp, "count": cnt})
