"""C32: the randomization test against the enumeration of all exchanges."""
import itertools

import numpy as np
import scipy.stats

from mon import ana, gen, mets

ID = "C32"
RULE = ("random pairs of models and user-defined per-query metric vectors (1 to 11 queries), seeded "
        "permutations; p-values compared with the exact distribution over all 2^N exchanges, within "
        "an exact binomial confidence interval (tails 1e-12); distinct by the vectors compared")
REQUIRED = ["significance_cells", "identical_systems", "swapped_models", "second_is_better",
            "exact_ties", "several_datasets", "several_metrics", "default_n_perm", "few_permutations", "tiny_p",
            "one_query", "tiny_differences", "same_name_datasets", "same_name_metrics",
            "undefined_scores", "nothing_to_compare"]
ASSUMPTIONS = ["exchanges whose difference equals the observed one up to 1e-9 may count or not, "
               "unless sums are exact", "false alarm probability below 1e-11 per p-value"]
TAIL = 1e-12


def KINDS(tier):
    k = 3 if tier == "quick" else 40
    return [("vectors", 210 * k), ("models", 60 * k), ("default", 2 * min(k, 10))]


def exact(a, b, ties_exact):
    """(lowest, highest) probability of reaching the observed difference, one- and two-sided."""
    d = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
    n = len(d)
    obs = abs(d.sum())
    signs = np.array(list(itertools.product([1.0, -1.0], repeat=n)))
    sums = signs @ d * (1 if d.sum() >= 0 else -1)
    eps = 0.0 if ties_exact else 1e-9 * max(obs, np.abs(a).sum(), np.abs(b).sum())
    out = []
    for v in (sums, np.abs(sums)):
        out.append(((v >= obs + eps).mean() if eps else (v >= obs).mean(), (v >= obs - eps).mean()))
    return out, bool((np.abs(sums - obs) <= eps).sum() > 1)


def judge(ctx, p, n_perm, bounds, **kw):
    names = ("one-sided", "two-sided")
    for v, (lo, hi), name in zip(p, bounds, names):
        v = float(v)
        ctx.check(0 <= v <= 1, "a p-value outside [0,1]", got=v, which=name, **kw)
        k = int(round(v * n_perm))
        ctx.check(abs(v * n_perm - k) < 0.51, "p", got=v)
        ctx.check(scipy.stats.binom.cdf(k, n_perm, lo) > TAIL and
                  scipy.stats.binom.sf(k - 1, n_perm, hi) > TAIL,
                  "the %s p-value is not that of the randomization test" % name, got=v,
                  exact=(lo, hi), n_perm=n_perm, **kw)
    ctx.check(p[0] <= p[1], "the one-sided p-value exceeds the two-sided one", got=p)
    ctx.count("significance_cells")
    ctx.count("tiny_p", bounds[0][1] < 0.02)


def defined(ctx, p, a, b):
    """The scores of the queries on which both systems have one; without any, no p-value."""
    ok = ~(np.isnan(a) | np.isnan(b))
    if not ok.any():
        ctx.check(np.isnan(p).all(), "a p-value without any score to compare", got=p)
        ctx.count("nothing_to_compare")
    ctx.count("undefined_scores", not ok.all())
    return a[ok], b[ok]


def vector_metric():
    from rankeval.metrics.metric import Metric

    class Vectors(Metric):
        """A metric defined by the user: per-query values looked up by the first score."""
        def __init__(self, table, name):
            super(Vectors, self).__init__(name)
            self.table = table

        def eval(self, dataset, y_pred):
            v = np.asarray(self.table[id(dataset), int(round(float(y_pred[0])))], dtype=np.float32)
            return v.mean(), v

        def eval_per_query(self, y, y_pred):
            raise NotImplementedError()

        def __str__(self):
            return self.name
    return Vectors


def pair(rng, n):
    """Two vectors of n values; exact: sums and their means are exact."""
    u = rng.random()
    exact_ = u < 0.6
    if exact_:
        a, b = gen.dyadic(rng, n, 0, 4, 4), gen.dyadic(rng, n, 0, 4, 4)
        if rng.random() < 0.3:
            b = a + np.float32(rng.choice([-0.25, 0.25, 0.5])) * (rng.random(n) < 0.7)
    else:
        a, b = rng.random(n).astype(np.float32), rng.random(n).astype(np.float32)
        if rng.random() < 0.3:
            b = (a + np.float32(0.1) * (rng.random(n) < 0.8)).astype(np.float32)
        elif rng.random() < 0.5:          # differences that cancel out: many exact ties
            p = rng.permutation(n)
            b[p[:n // 2 * 2].reshape(-1, 2)] = a[p[:n // 2 * 2].reshape(-1, 2)[:, ::-1]]
    v = rng.random()
    if v < 0.1:
        b = a.copy()
    elif v < 0.2:
        b = rng.permutation(a)
    elif v < 0.3:
        b[rng.random(n) < 0.6] = a[0]
        a[rng.random(n) < 0.6] = a[0]
    elif v < 0.35:
        a, b = -a, -b
    if rng.random() < 0.3:                # of any magnitude
        scale = np.float32(2.0 ** rng.integers(-60, 61))
        a, b = a * scale, b * scale
    # in double precision the sums of these values are exact
    return a.astype(np.float32), b.astype(np.float32), n in (1, 2, 4, 8)


def case(ctx, rng, kind, i):
    return vectors(ctx, rng, 1) if kind == "vectors" else vectors(ctx, rng, 0) \
        if kind == "default" else models(ctx, rng)


def vectors(ctx, rng, small):
    from rankeval.analysis.statistical import statistical_significance
    Vectors = vector_metric()
    nd, nm = (int(rng.integers(1, 3)), int(rng.integers(1, 3))) if small else (1, 1)
    raws = [gen.raw_dataset(rng, min_queries=1, max_queries=11, max_size=2, n_features=1)
            for _ in range(nd)]
    if not small:
        raws = [gen.raw_dataset(rng, min_queries=6, max_queries=10, max_size=1, n_features=1)]
    datasets = [gen.dataset(r, name="d%d" % k) for k, r in enumerate(raws)]
    A = gen.model(ctx, [(("leaf", 1.0), 1.0)], name="A", fname="a.xml")
    B = gen.model(ctx, [(("leaf", 2.0), 1.0)], name="B", fname="b.xml")
    tables, metrics, truth = [], [], {}
    for m in range(nm):
        t = {}
        for j, d in enumerate(datasets):
            a, b, ex = pair(rng, d.n_queries)
            if small and rng.random() < 0.15:         # undefined on some queries
                for v in (a, b):
                    v[rng.random(len(v)) < float(rng.choice([0.2, 0.2, 1]))] = np.nan
                ex = False
            t[id(d), 1], t[id(d), 2] = a, b
            truth[j, m] = (a, b, ex)
        metrics.append(Vectors(t, "v%d" % m))
    n_perm = int(rng.choice([400, 700, 1000, rng.integers(1, 20)])) if small else 100000
    ctx.note(vectors=[(a, b) for a, b, _ in truth.values()], n_perm=n_perm)
    kw = {"n_perm": n_perm} if small else {}
    turns = [(A, B)] if not small or rng.random() < 0.6 else [(A, B), (B, A)]
    for first, second in turns:
        out = statistical_significance(datasets, first, second, metrics, **kw)
        ana.coords(ctx, out, ("dataset", "metric", "p-value"), dataset=datasets, metric=metrics)
        ctx.check(list(out.coords["p-value"].values) == ["one-sided", "two-sided"],
                  "wrong names of the p-values", got=list(out.coords["p-value"].values))
        for (j, m), (a, b, ex) in truth.items():
            p = out.values[j, m]
            a, b = defined(ctx, p, a, b)
            if not len(a):
                continue
            bounds, tie = exact(a, b, ex)
            judge(ctx, p, n_perm, bounds, a=a, b=b, swapped=first is B)
            if np.array_equal(a, b):
                ctx.check(p[0] == 1 and p[1] == 1, "identical systems do not have p-value 1", got=p)
                ctx.count("identical_systems")
            ctx.count("exact_ties", tie and ex)
            ctx.count("second_is_better", b.sum() > a.sum())
            ctx.count("one_query", len(a) == 1)
            ctx.count("tiny_differences", 0 < np.abs(a - b).max() < 1e-7)
            ctx.distinct(a, b)
        ctx.count("swapped_models", first is B)
    ctx.count("several_datasets", nd > 1)
    ctx.count("several_metrics", nm > 1)
    ctx.count("default_n_perm", not small)
    ctx.sample({"a": truth[0, 0][0], "b": truth[0, 0][1], "p": out.values[0, 0]})


def models(ctx, rng):
    from rankeval.analysis.statistical import statistical_significance
    s = ana.setting(ctx, rng, max_datasets=2, models=2, max_queries=9, metrics=mets.RANKING +
                    ["Kendalltau", "SpearmanRho"],
                    max_metrics=2)
    n_perm = int(rng.choice([300, 500, rng.integers(1, 20)]))
    ctx.count("few_permutations", n_perm < 10)
    same = rng.random() < 0.15
    A, B = s.models[0], s.models[0] if same else s.models[1]
    vals = {}
    for j, d in enumerate(s.datasets):
        for m, obj in enumerate(s.metric_objs):
            vals[j, m] = tuple(np.array(obj.eval(d, M.score(d))[1]) for M in (A, B))
    out = statistical_significance(s.datasets, A, B, s.metric_objs, n_perm=n_perm,
                                   cache=bool(rng.random() < 0.5))
    ana.coords(ctx, out, ("dataset", "metric", "p-value"), dataset=s.datasets, metric=s.metric_objs)
    for (j, m), (a, b) in vals.items():
        a, b = defined(ctx, out.values[j, m], a, b)
        if not len(a):
            continue
        bounds, _ = exact(a, b, False)
        judge(ctx, out.values[j, m], n_perm, bounds, a=a, b=b)
        if np.array_equal(a, b):
            ctx.check((out.values[j, m] == 1).all(), "identical systems do not have p-value 1")
            ctx.count("identical_systems")
        ctx.distinct(a, b)
