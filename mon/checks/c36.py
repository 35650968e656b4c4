"""C36: analyses leave their inputs untouched and are repeatable, whatever ran before."""
import hashlib

import numpy as np

from mon import ana, gen, mets
from mon.faults import interrupted

ID = "C36"
RULE = ("random histories of scoring, metrics and analyses over shared datasets, models, metrics and "
        "score vectors; byte digests of every input around every call, every result compared with "
        "that of the same call at any other point of the history (cache on or off, or after the "
        "call was interrupted at a random internal call) and on fresh "
        "copies of the objects; distinct by history")
REQUIRED = ["calls", "digests_compared", "repetitions", "cache_crossed", "fresh_objects",
            "op_score", "op_metric", "op_model_performance", "op_tree_wise_performance",
            "op_tree_wise_average_contribution", "op_query_wise_performance",
            "op_query_class_performance", "op_document_graded_relevance",
            "op_rank_confusion_matrix", "op_statistical_significance", "op_bias_variance",
            "op_feature_importance", "op_topological_analysis", "op_export_graphviz", "op_plot",
            "op_prune", "op_save", "op_dataset", "interrupted", "interrupted_score",
            "interrupted_metric"]
ASSUMPTIONS = ["the randomized analyses draw from numpy's global generator, seeded before each call",
               "the importance computed by threads is compared up to rounding"]


def KINDS(tier):
    k = 3 if tier == "quick" else 45
    return [("history", 200 * k)]


def digest(o):
    h = hashlib.blake2b(digest_size=16)

    def feed(v):
        if isinstance(v, np.ndarray):
            h.update(repr((v.dtype.str, v.shape, v.strides)).encode())
            h.update(np.ascontiguousarray(v).tobytes())
        else:
            h.update(repr(v).encode())
    if isinstance(o, (np.ndarray, list)):
        feed(o)
        return h.hexdigest()
    for k in sorted(vars(o)):
        v = vars(o)[k]
        if isinstance(v, (np.ndarray, int, float, str, type(None), np.generic)) \
                and k != "_hash_cached":
            feed(k)
            feed(v)
    return h.hexdigest()


def plain(r):
    """A result as nested tuples of arrays and values, comparable by content."""
    import xarray
    if isinstance(r, xarray.DataArray):
        return ("xarray", tuple(r.dims), np.array(r.values, copy=True),
                tuple((d, tuple(str(getattr(c, "name", c)) for c in r.coords[d].values))
                      for d in r.dims if d in r.coords))
    if isinstance(r, np.ndarray):
        return np.array(r, copy=True)
    if hasattr(r, "toarray"):
        return np.array(r.toarray())
    if isinstance(r, (list, tuple)):
        return tuple(plain(x) for x in r)
    if isinstance(r, dict):
        return tuple((str(k), plain(v)) for k, v in sorted(r.items(), key=lambda t: str(t[0])))
    return r


def same(a, b, tol):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(a, (float, np.generic)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind == "f":
            big = tol * (1 + np.nanmax(np.abs(a), initial=0))
            return bool(np.allclose(a, b, rtol=tol, atol=big, equal_nan=True)) if tol \
                else bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    return a == b


class World(object):
    """The shared objects; a second one is built from the same recipe with fresh objects."""

    def __init__(self, s):
        self.datasets = [gen.dataset(r, name=s.datasets[k].name)
                         for k, r in enumerate(s.raws)]
        self.metrics, self.s = s.metric_objs, s
        self.models = s.models
        self.classes = s.classes
        self.preds = [p.copy() for p in s.preds]

    def inputs(self):
        return self.datasets + self.models + self.preds + self.classes


def learner(train_X, train_y, train_q, test_X):
    return (np.asarray(test_X)[:, 0] * 0.5 + np.float32(np.mean(train_y))).astype(np.float32)


def learner2(train_X, train_y, train_q, test_X):
    return np.argsort(np.argsort(np.asarray(test_X)[:, -1])).astype(np.float64)


OPS = ["score", "score", "metric", "metric", "model_performance", "tree_wise_performance",
       "tree_wise_average_contribution", "query_wise_performance", "query_class_performance",
       "document_graded_relevance", "rank_confusion_matrix", "statistical_significance",
       "bias_variance", "feature_importance", "topological_analysis", "export_graphviz", "prune",
       "save", "dataset", "plot"]


def draw(rng, s):
    """A call as a recipe, so that it can be repeated: (name, cacheable, parameters)."""
    name = OPS[int(rng.integers(0, len(OPS)))]
    if name == "plot" and rng.random() < 0.6:
        name = "metric"
    j, k = int(rng.integers(0, len(s.raws))), int(rng.integers(0, len(s.models)))
    k2, m = int(rng.integers(0, len(s.models))), int(rng.integers(0, len(s.metrics)))
    a, seed = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    sub = None if rng.random() < 0.5 else (j, k, m)
    return (name, j, k, k2, m, a, seed, sub)


def call(ctx, w, op, cache):
    """Runs a recipe; returns (result, tolerance)."""
    import rankeval.analysis.effectiveness as E
    from rankeval.analysis.feature import feature_importance
    from rankeval.analysis.statistical import bias_variance, statistical_significance
    from rankeval.analysis.topological import topological_analysis
    from rankeval.visualization.topological import export_graphviz
    from rankeval.metrics import MSE, RMSE
    name, j, k, k2, m, a, seed, sub = op
    D, M, T = w.datasets, w.models, w.metrics
    if sub:
        D, M, T = [D[j]], [M[k]], [T[m]]
    if name == "score":
        if a == 0:
            r = w.models[k].score(w.datasets[j], detailed=True, cache=cache)
            return (plain(r[0]), plain(r[1]), plain(r[2])), 0
        return plain(w.models[k].score(w.datasets[j], cache=cache)), 0
    if name == "metric":
        if a == 0:
            off = w.datasets[j].query_offsets
            return w.metrics[m].eval_per_query(w.datasets[j].y[off[0]:off[1]],
                                               w.preds[j][off[0]:off[1]]), 0
        return plain(w.metrics[m].eval(w.datasets[j], w.preds[j])), 0
    if name == "model_performance":
        return plain(E.model_performance(D, M, T, cache=cache)), 0
    if name == "tree_wise_performance":
        return plain(E.tree_wise_performance(D, M, T, step=[1, 3, 10][a], cache=cache)), 0
    if name == "tree_wise_average_contribution":
        return plain(E.tree_wise_average_contribution(D, M, cache=cache)), 0
    if name == "query_wise_performance":
        return plain(E.query_wise_performance(D, M, T, bins=[None, 5, 20][a], cache=cache)), 0
    if name == "query_class_performance":
        return plain(E.query_class_performance(w.datasets, M, T, w.classes, cache=cache)), 0
    if name == "document_graded_relevance":
        return plain(E.document_graded_relevance(D, M, bins=[100, 7, 1][a], cache=cache)), 0
    if name == "rank_confusion_matrix":
        return plain(E.rank_confusion_matrix(D, M, skip_same_label=a == 0, cache=cache)), 0
    if name == "statistical_significance":
        np.random.seed(seed)
        return plain(statistical_significance(D, w.models[k], w.models[k2], T, n_perm=60 + a,
                                              cache=cache)), 0
    if name == "bias_variance":
        np.random.seed(seed)
        return plain(bias_variance(D, [learner, learner2][:1 + a % 2], T, L=2 + a, k=2)), 0
    if name == "feature_importance":
        if sub is None:                        # a metric evaluated by the Python code
            r = feature_importance(w.models[k], w.datasets[j], metric=w.metrics[m], normalize=False)
            if w.s.metrics[m][0] == "RMSE":
                return (np.square(r.values[0]), plain(r.values[1])), 1e-4
            return plain(r), 1e-4 if w.s.metrics[m][0] == "MSE" else 0
        raw = feature_importance(w.models[k], w.datasets[j], metric=MSE(), normalize=False)
        if a == 0 and raw.values[0].max() > 1e-3:
            return plain(feature_importance(w.models[k], w.datasets[j])), 1e-4
        if a == 1:          # the square root of a rounding error is not small
            r = feature_importance(w.models[k], w.datasets[j], metric=RMSE(), normalize=False)
            return (np.square(r.values[0]), plain(r.values[1])), 1e-4
        return plain(raw), 1e-4
    if name == "topological_analysis":
        r = topological_analysis(w.models[k], include_leaves=a != 0)
        return (plain(r.topology), plain(r.height_trees), plain(r.avg_tree_shape()),
                plain(r.fullness_per_level()), plain(tuple(r.describe_tree_height()))), 0
    if name == "export_graphviz":
        leaves = w.models[k].score(w.datasets[j], detailed=True, cache=cache)[2]
        return export_graphviz(w.models[k], output_leaves=leaves, label_show=True,
                               proportion=a == 0, max_depth=[None, 2, 5][a]), 0
    if name == "prune":
        c = w.models[k].copy(n_trees=1 + a % w.models[k].n_trees)
        return (plain(c.score(w.datasets[j])), c.n_trees, plain(c.num_leaves())), 0
    if name == "save":
        path = ctx.path("saved")
        w.models[k].save(path)
        return open(path, "rb").read(), 0
    if name == "dataset":
        d = w.datasets[j]
        if a == 0:
            path = ctx.path("dumped")
            d.dump(path, format="svmlight")
            return open(path, "rb").read(), 0
        if a == 1:
            x = d.split(0.5, 0.25, random_state=seed)
            return tuple((plain(p.X), plain(p.y)) for p in x), 0
        x = d.subset_features([0])
        return (plain(x.X), plain(x.y), d == d), 0
    if name == "plot":
        import matplotlib.pyplot as plt
        import rankeval.visualization.effectiveness as V
        arrays = [E.model_performance(w.datasets, w.models, w.metrics, cache=cache),
                  E.tree_wise_average_contribution(w.datasets, w.models, cache=cache),
                  E.tree_wise_performance(w.datasets, w.models, w.metrics, step=2, cache=cache)]
        r = arrays[a]
        before = plain(r)
        try:
            if a == 0:
                V.plot_model_performance(r, compare="models")
            elif a == 1:
                V.plot_tree_wise_average_contribution(r)
            else:
                V.plot_tree_wise_performance(r)
        finally:
            plt.close("all")
        ctx.check(same(before, plain(r), 0), "a plot modified the performance it was given")
        return before, 0
    raise AssertionError(name)


def case(ctx, rng, kind, i):
    s = ana.setting(ctx, rng, max_queries=5, max_size=6, max_trees=5, spread=bool(rng.random() < 0.5))
    s.classes = [[int(rng.integers(0, 3)) for _ in r["sizes"]] for r in s.raws]
    s.preds = []
    for r in s.raws:
        n = len(r["y"])
        p = gen.dyadic(rng, n) if rng.random() < 0.5 else rng.permutation(n) * 0.5
        s.preds.append(p.astype([np.float32, np.float64][int(rng.integers(0, 2))]))
    w = World(s)
    before = [digest(o) for o in w.inputs()]
    pool = [draw(rng, s) for _ in range(int(rng.integers(3, 9)))]
    known, log = {}, []
    ctx.note(history=log)
    for step in range(int(rng.integers(6, 18))):
        op = pool[int(rng.integers(0, len(pool)))]
        cache = bool(rng.random() < 0.5)
        log.append((op, cache))
        at = int(10 ** rng.uniform(0, 2.5)) if rng.random() < 0.25 else 0
        if at:                       # the call is interrupted, then made again
            log.append(("interrupted at call", at))
            if interrupted(lambda: call(ctx, w, op, cache), at)[0]:
                ctx.count("interrupted")
                ctx.count("interrupted_" + op[0])
        r, tol = call(ctx, w, op, cache)
        after = [digest(o) for o in w.inputs()]
        names = ["dataset %d" % q for q in range(len(w.datasets))] + \
                ["model %d" % q for q in range(len(w.models))] + \
                ["scores %d" % q for q in range(len(w.preds))] + ["classes"] * len(w.classes)
        changed = [n for n, x, y in zip(names, before, after) if x != y]
        ctx.check(not changed, "an analysis modified its inputs", op=op, changed=changed)
        ctx.count("digests_compared", len(after))
        ctx.count("calls")
        ctx.count("op_" + op[0])
        if op in known:
            ctx.check(same(known[op][0], r, tol), "repeating an analysis gives another result",
                      op=op, cache=(known[op][1], cache), first=known[op][0], now=r)
            ctx.count("repetitions")
            ctx.count("cache_crossed", known[op][1] != cache)
        else:
            known[op] = (r, cache)
    # the same calls, each on its own, over objects nothing else was run on
    ops = [op for op in known]
    for op in ops[:4]:
        s2 = ana.Setting()
        s2.__dict__.update(s.__dict__)
        s2.models = []
        for q, fo in enumerate(s.forests):
            lr, base = s.params[q]
            s2.models.append(gen.model(ctx, fo, name=s.models[q].name, fname="m%d.xml" % q,
                                       learning_rate=lr, base_score=base or None))
        s2.metric_objs = [type(x)(**params(x)) for x in s.metric_objs]
        r, tol = call(ctx, World(s2), op, False)
        ctx.check(same(known[op][0], r, tol), "an analysis depends on what ran before",
                  op=op, shared=known[op][0], fresh=r)
        ctx.count("fresh_objects")
    ctx.distinct(repr(log), repr(s.forests), *[r["y"] for r in s.raws])
    ctx.sample({"history": log})


def params(metric):
    return dict(metric.mon_params)
