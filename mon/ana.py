"""Settings and oracles shared by the checks of the analyses."""
import numpy as np

from . import gen, mets, ref


class Setting(object):
    """Datasets, models (with their forests) and metrics (with their definitions)."""
    pass


def setting(ctx, rng, max_datasets=3, max_models=3, metrics=None, max_metrics=3, max_trees=8,
            max_queries=8, max_size=8, spread=True, models=None, clash=True):
    s = Setting()
    nf = int(rng.integers(2, 6))
    s.nf = nf
    s.raws = [gen.raw_dataset(rng, max_queries=max_queries, max_size=max_size, n_features=nf)
              for _ in range(int(rng.integers(1, max_datasets + 1)))]
    if rng.random() < 0.12:                      # grades between two others
        for r in s.raws:
            r["y"] *= np.float32(rng.choice([0.5, 0.25]))
    if spread:          # distinct documents, so that scores are often distinct
        for r in s.raws:
            n = r["X"].shape[0]
            r["X"] = (rng.permutation(n * nf).reshape(n, nf) * 0.125 - n * nf / 16).astype(np.float32)
    clash = (rng.random(3) < 0.3) & clash         # names are labels: several objects may share one
    s.datasets = [gen.dataset(r, name="ds" if clash[0] else "ds%d" % k)
                  for k, r in enumerate(s.raws)]
    s.models, s.forests, s.params = [], [], []
    X = np.vstack([r["X"] for r in s.raws])
    # scores which differ by little, all of them sums without rounding
    tiny = -int(rng.integers(10, 60)) if rng.random() < 0.12 else None
    for k in range(int(models or rng.integers(1, max_models + 1))):
        nt = int(rng.integers(1, max_trees + 1))
        fo = gen.forest(rng, nf, n_trees=nt, X=X, max_depth=6)
        if rng.random() < 0.7:
            fo = [(t, w) for t, w in gen.distinct_leaves(fo)]
        if tiny is not None:
            fo = gen.scaled_leaves(fo, tiny)
            ctx.count("tiny_scores")
        lr = float(rng.choice([1, 1, 0.5]))
        base = float(gen.dyadic(rng)) * 2.0 ** (tiny or 0) if rng.random() < 0.4 else None
        s.models.append(gen.model(ctx, fo, name="m" if clash[1] else "m%d" % k,
                                  fname="m%d.xml" % k, learning_rate=lr,
                                  base_score=base))
        s.forests.append(fo)
        s.params.append((lr, base or 0))
    names = list(metrics or mets.ALL)
    s.metrics = []
    for k in range(int(rng.integers(1, max_metrics + 1))):
        name = str(names[int(rng.integers(0, len(names)))])
        if clash[2] and k and rng.random() < 0.7:
            name = s.metrics[0][0]
        cls, kw, f = mets.make(rng, name)
        if not clash[2]:
            kw["name"] = "%s%d" % (name, k)
        obj = cls(**kw)
        obj.mon_params = kw
        s.metrics.append((name, obj, f))
    s.metric_objs = [m for _, m, _ in s.metrics]
    for what, objs in (("datasets", s.datasets), ("models", s.models), ("metrics", s.metric_objs)):
        ctx.count("same_name_" + what, len({str(o) for o in objs}) < len(objs))
    ctx.note(qids=[r["qid"] for r in s.raws], y=[r["y"] for r in s.raws],
             trees=[len(f) for f in s.forests], metrics=[str(m) for m in s.metric_objs],
             params=s.params)
    return s


def scores(s, j, k, n_trees=None):
    """Reference scores of model k on dataset j (with its first trees only)."""
    lr, base = s.params[k]
    return ref.scores(s.forests[k][:n_trees], s.raws[j]["X"], lr, base)


def bounds(s, j, name, f, p, obj=None):
    """Per query: (lowest, highest) value of the metric over the tie-breaks; None: not judged."""
    r = s.raws[j]
    out = []
    for _, a, b in gen.blocks(r):
        orders = ref.rankings(p[a:b])
        if orders is None:
            if name in ("Kendalltau", "SpearmanRho") or \
                    name in ("MSE", "RMSE") and getattr(obj, 'cutoff', 0) is None:
                orders = [list(np.argsort(-p[a:b]))]
            else:
                out.append(None)
                continue
        v = [f(r["y"][a:b], p[a:b], o) for o in orders]
        if name == "MSE":
            v = [x / len(r["y"]) for x in v]
        out.append((min(v), max(v)) if v[0] == v[0] else (float("nan"),) * 2)
    return out


def overall(name, bs):
    """(lowest, highest) overall value."""
    if any(b is None for b in bs):
        return None
    ok = [b for b in bs if b[0] == b[0]]
    if not ok:
        return (float("nan"),) * 2
    lo, hi = sum(b[0] for b in ok), sum(b[1] for b in ok)
    return (lo, hi) if name == "MSE" else (lo / len(ok), hi / len(ok))


def within(v, b, rtol=1e-4, atol=1e-5):
    v = float(v)
    if b[0] != b[0]:
        return v != v
    return b[0] - atol - rtol * abs(b[0]) <= v <= b[1] + atol + rtol * abs(b[1])


def coords(ctx, arr, dims, **want):
    """Dimension names, and the coordinates of each axis in order."""
    ctx.check(tuple(arr.dims) == tuple(dims), "wrong dimensions", got=arr.dims, want=dims)
    for d, w in want.items():
        got = list(arr.coords[d].values)
        ok = len(got) == len(w) and all(a is b for a, b in zip(got, w))
        ctx.check(ok, "the coordinates of '%s' are not the objects given, in order" % d,
                  got=[str(g) for g in got], want=[str(x) for x in w])
