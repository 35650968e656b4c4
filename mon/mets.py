"""The metrics under test with their reference definitions."""
import numpy as np

from . import ref


def cut(rng, p=0.5):
    return None if rng.random() < p else int(rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 100, 1000]))


def make(rng, name):
    """(class, kwargs, reference(y, p, order)) of a random configuration of the metric."""
    import rankeval.metrics as M
    k = cut(rng)
    kw = {} if k is None else {"cutoff": k}
    th = float(rng.choice([1, 1, 1, 2, 3, 4, 0, 0.5, 2.5, 9]))
    if th == int(th) and rng.random() < 0.8:
        th = int(th)
    if name == "DCG":
        impl = str(rng.choice(["flat", "exp", "default"]))
        if impl != "default":
            kw["implementation"] = impl
        f = lambda y, p, o: ref.m_dcg(y, p, o, k, "flat" if impl == "default" else impl)
    elif name == "NDCG":
        impl = str(rng.choice(["flat", "exp", "default"]))
        if impl != "default":
            kw["implementation"] = impl
        nr = float(rng.choice([1.0, 0.0, 0.5]))
        if nr != 1.0 or rng.random() < 0.5:
            kw["no_relevant_results"] = nr
        f = lambda y, p, o: ref.m_ndcg(y, p, o, k, "exp" if impl == "default" else impl, nr)
    elif name == "ERR":
        f = lambda y, p, o: ref.m_err(y, p, o, k)
    elif name == "Pfound":
        pa = float(rng.choice([0.15, 0.15, 0.5, 0.0, 0.9, 1.0]))
        if pa != 0.15 or rng.random() < 0.5:
            kw["p_abandonment"] = pa
        f = lambda y, p, o: ref.m_pfound(y, p, o, k, pa)
    elif name == "RBP":
        pp = float(rng.choice([0.5, 0.5, 0.8, 0.95, 0.1, 0.0, 1.0]))
        if th != 1:
            kw["threshold"] = th
        if pp != 0.5:
            kw["p"] = pp
        f = lambda y, p, o: ref.m_rbp(y, p, o, k, th, pp)
    elif name == "Precision":
        if th != 1:
            kw["threshold"] = th
        f = lambda y, p, o: ref.m_precision(y, p, o, k, th)
    elif name == "PrecisionMax":
        f = lambda y, p, o: ref.m_precision_max(y, p, o, k)
    elif name == "Recall":
        nr = float(rng.choice([0.0, 0.0, 1.0, 0.25]))
        if th != 1:
            kw["threshold"] = th
        if nr != 0.0:
            kw["no_relevant_results"] = nr
        f = lambda y, p, o: ref.m_recall(y, p, o, k, th, nr)
    elif name == "MAP":
        nr = float(rng.choice([1.0, 1.0, 0.0, 0.25]))
        if nr != 1.0:
            kw["no_relevant_results"] = nr
        f = lambda y, p, o: ref.m_map(y, p, o, k, nr)
    elif name == "MRR":
        if th != 1:
            kw["threshold"] = th
        f = lambda y, p, o: ref.m_mrr(y, p, o, k, th)
    elif name == "MSE":
        f = lambda y, p, o: ref.m_sse(y, p, o, k)
    elif name == "RMSE":
        f = lambda y, p, o: ref.m_rmse(y, p, o, k)
    elif name == "Kendalltau":
        kw = {}
        f = lambda y, p, o: ref.kendall(y, p)
    elif name == "SpearmanRho":
        kw = {}
        f = lambda y, p, o: ref.spearman(y, p)
    else:
        raise ValueError(name)
    if name == "PrecisionMax":
        from rankeval.metrics.precision_max import PrecisionMax
        return PrecisionMax, kw, f
    return getattr(M, name), kw, f


RANKING = ["DCG", "NDCG", "ERR", "Pfound", "RBP", "Precision", "PrecisionMax", "Recall", "MAP", "MRR"]
ALL = RANKING + ["MSE", "RMSE", "Kendalltau", "SpearmanRho"]
ORDERED = RANKING + ["MSE", "RMSE"]


def query(rng, max_docs=9, ties=None, max_label=None):
    """(labels, scores) of a query."""
    from . import gen
    n = int(rng.integers(1, max_docs + 1))
    if max_label is None:             # binary, the usual five grades, or many grades
        max_label = int(rng.choice([4, 4, 4, 1, 2, 9, 17, 30]))
    y = gen.labels(rng, n, max_label).astype(np.float32)
    mode = rng.random()
    if ties is False or (ties is None and mode < 0.45):
        p = rng.permutation(np.arange(n)) * rng.choice([1, 0.25, -3.5]) + rng.choice([0, -2.5, 100])
    elif mode < 0.85:
        p = rng.integers(0, max(2, n), size=n).astype(float) - 2
    elif mode < 0.93:
        p = np.zeros(n)
    else:
        p = y.astype(float).copy()
    if rng.random() < 0.25:           # scores of any magnitude, with the same ordering
        p = p * 10.0 ** int(rng.integers(-12, 7))
    dt = [np.float32, np.float32, np.float64, np.int64, np.float32, np.float64, np.int32, np.int16,
          ][int(rng.integers(0, 8))]
    if np.issubdtype(dt, np.integer) and (not np.array_equal(p, np.rint(p)) or
                                          np.abs(p).max() >= 2 ** (8 * np.dtype(dt).itemsize - 2)):
        dt = np.float64
    return y, p.astype(dt)


def adversarial(rng, y):
    """Scores ranking the documents by increasing label: the worst ordering."""
    o = np.argsort(y, kind="stable")
    p = np.empty(len(y))
    p[o] = -np.arange(len(y))
    return p.astype(np.float32)


def same(a, b, rtol=1e-5, atol=1e-6):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def judge(ctx, rng, names, extra=None):
    """One query against the definition, alone and inside a dataset."""
    from rankeval.dataset import Dataset
    name = names[int(rng.integers(0, len(names)))]
    cls, kw, f = make(rng, name)
    u = rng.random()
    if u < 0.03:
        y, p = query(rng, 3000 if u < 0.005 else 300, ties=False)
        ctx.count("long_queries")
    else:
        y, p = query(rng, 9)
    if u > 0.9:
        p = adversarial(rng, y)
    if name in ("Kendalltau", "SpearmanRho") and len(y) > 60:
        y, p = y[:60], p[:60]
    if name in ("MSE", "RMSE", "Kendalltau", "SpearmanRho") and rng.random() < 0.5:
        y = y + np.float32(rng.choice([-2, 0.5, 0.25]))
    if rng.random() < 0.12:           # grades between two others
        y = y * np.float32(rng.choice([0.5, 0.25, 1.5]))
        ctx.count("fractional_labels", not np.array_equal(y, np.rint(y)))
    scale = 1.0
    if rng.random() < 0.1 and (name in ("MAP", "MSE", "RMSE") or
                               kw.get("implementation", name == "DCG") in ("flat", True)):
        scale = 2.0 ** -int(rng.integers(6, 40))          # click rates, normalized gains
        y = y * np.float32(scale)
        if name in ("MSE", "RMSE"):
            p, scale = (p * scale).astype(np.float64), scale * scale if name == "MSE" else scale
        ctx.count("tiny_labels")
    orders = ref.rankings(p)
    if orders is None:
        return None
    v = rng.random()
    if v < 0.1:                       # labels of another type, or vectors that are not contiguous
        if np.array_equal(y, np.rint(y)):
            y = y.astype([np.int32, np.int64, np.float64, np.uint8][int(rng.integers(0, 4))]
                         if (y >= 0).all() else np.int64)
        ctx.count("other_label_types")
    elif v < 0.2:
        y = np.stack([y, -y], axis=1)[:, 0]
        p = np.stack([p, -p], axis=1)[:, 0]
        ctx.count("strided_vectors")
    yb, pb = y.copy(), p.copy()
    m = cls(**kw)
    got = m.eval_per_query(y, p)
    wants = [f(y, p, o) for o in orders]
    ctx.note(metric=name, params=kw, y=y, y_pred=p)
    ctx.check(any(same(got, w, atol=1e-6 * scale) for w in wants), "%s is not its definition" % name,
              got=float(got), want=sorted(set(wants))[:6] if wants[0] == wants[0] else wants[:1])
    # inside a dataset, between two other queries
    k1, k2 = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    Y = np.concatenate([np.arange(k1) % 3, y, np.arange(k2) % 2]).astype(np.float32)
    P = np.concatenate([np.arange(k1) * 1.5, p, -np.arange(k2) - 0.5]).astype(np.float64)
    q = np.concatenate([np.full(k1, 7), np.full(len(y), 3), np.full(k2, 11)]).astype(int)
    d = Dataset(np.zeros((len(Y), 1), dtype=np.float32), Y, q)
    avg, det = cls(**kw).eval(d, P)
    at = 1 if k1 else 0
    div = len(Y) if name == "MSE" else 1
    ctx.check(any(same(det[at], w / div, atol=1e-6 * scale) for w in wants),
              "%s inside a dataset is not its definition" % name, got=float(det[at]),
              n_before=k1, n_after=k2)
    ctx.check(np.array_equal(y, yb) and np.array_equal(p, pb), "the metric modified its inputs")
    if extra:
        extra(ctx, rng, name, cls, kw, f, y, p, float(got), orders)
    ctx.count("metric_" + name)
    ctx.count("tied", len(orders) > 1)
    ctx.count("with_cutoff", kw.get("cutoff") is not None)
    ctx.count("cutoff_below_size", kw.get("cutoff") is not None and kw["cutoff"] < len(y))
    ctx.count("no_relevant", not (y > 0).any())
    ctx.count("default_parameters", not kw)
    if len(y) > 1:
        ctx.distinct(name, sorted(kw.items()), y, p)
    ctx.sample({"metric": name, "params": kw, "y": y, "y_pred": p, "value": float(got)})
    return name
