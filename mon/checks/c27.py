"""C27: metrics only look at the ranking, labels and the top documents."""
import numpy as np

from mon import gen, mets

ID = "C27"
RULE = ("random queries with distinct scores transformed by increasing functions, document "
        "permutations, shuffles below the cutoff, large cutoffs and adjacent swaps; the values of "
        "the metric before and after are related; distinct by query and transformation")
REQUIRED = ["increasing", "permutation", "below_cutoff", "large_cutoff", "swap", "strict_swaps",
            "infinite_scores"] + ["m_" + n for n in mets.RANKING]
ASSUMPTIONS = ["distinct scores"]


def KINDS(tier):
    k = 3 if tier == "quick" else 135
    return [("meta", 5000 * k)]


def case(ctx, rng, kind, i):
    name = mets.RANKING[int(rng.integers(0, len(mets.RANKING)))]
    cls, kw, f = mets.make(rng, name)
    y, p = mets.query(rng, 40 if rng.random() < 0.1 else 10, ties=False)
    p = p.astype(np.float64)
    n = len(y)
    how = str(rng.choice(["increasing", "permutation", "below_cutoff", "large_cutoff", "swap"]))
    base = float(cls(**kw).eval_per_query(y, p))
    ctx.note(metric=name, params=kw, y=y, y_pred=p, how=how)

    def same(v, msg):
        ctx.check(mets.same(v, base, 1e-6, 1e-6), "%s: %s" % (name, msg), got=float(v), want=base)
    if how == "increasing":
        r = np.argsort(np.argsort(p)).astype(float)
        g = [lambda: p * 3 + 7, lambda: np.exp(np.clip(p, -50, 50) / 16), lambda: r ** 3 - 40,
             lambda: np.arctan(r - n / 2), lambda: r - 1000, lambda: r.astype(np.float32) * 1e-30,
             lambda: inf(r)][int(rng.integers(0, 7))]()
        if len(np.unique(g)) < n:
            g = r
        ctx.count("infinite_scores", bool(np.isinf(g).any()))
        same(cls(**kw).eval_per_query(y, g), "changes under an increasing transformation")
    elif how == "permutation":
        s = rng.permutation(n)
        same(cls(**kw).eval_per_query(y[s], p[s]), "changes when the documents are permuted")
    elif how == "below_cutoff":
        k = int(rng.integers(1, n + 1))
        kw["cutoff"] = k
        base = float(cls(**kw).eval_per_query(y, p))
        o = np.argsort(-p)
        tail = o[k:]
        q = p.copy()
        q[tail] = p[tail[rng.permutation(len(tail))]] if len(tail) else []
        same(cls(**kw).eval_per_query(y, q), "looks below the cutoff")
    elif how == "large_cutoff":
        kw.pop("cutoff", None)
        base = float(cls(**kw).eval_per_query(y, p))
        kw["cutoff"] = n + int(rng.integers(0, 5))
        same(cls(**kw).eval_per_query(y, p), "a cutoff beyond the size of the query matters")
    else:
        if name in ("ERR", "Pfound") or n < 2:
            ctx.count("m_" + name)
            return
        o = list(np.argsort(-p))
        cand = [k for k in range(n - 1) if y[o[k]] < y[o[k + 1]]]
        if not cand:
            return
        k = cand[int(rng.integers(0, len(cand)))]
        q = p.copy()
        q[o[k]], q[o[k + 1]] = p[o[k + 1]], p[o[k]]
        v = float(cls(**kw).eval_per_query(y, q))
        ctx.check(v >= base - 1e-9, "%s is lower after moving a more relevant document up" % name,
                  got=v, want=base)
        ctx.count("strict_swaps", v > base)
    ctx.count(how)
    ctx.count("m_" + name)
    if n > 1:
        ctx.distinct(name, how, sorted(kw.items()), y, p)
    ctx.sample({"metric": name, "how": how, "y": y, "value": base})


def inf(r):
    g = r.copy()
    g[r == r.max()] = np.inf
    g[r == r.min()] = -np.inf if len(r) > 1 else 0
    return g
