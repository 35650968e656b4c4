"""C19: detailed scores, partial scores and leaves are consistent."""
import numpy as np

from mon import gen, ref

ID = "C19"
RULE = ("as C18, scored through RTEnsemble.score(detailed) and the Scorer accessors in any order; "
        "leaves, contributions and sums compared with the reference evaluator per document and "
        "tree; distinct by forest and matrix")
REQUIRED = ["cells", "base_score", "learning_rate", "accessors", "single_leaf_trees",
            "weighted_trees", "cached", "huge_datasets", "colossal_models", "tiny_or_huge_leaves"]
ASSUMPTIONS = ["single-precision feature matrices"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("detailed", 700 * k), ("accessors", 200 * k), ("large", 4 * k), ("huge", 2 * k),
            ("colossal", 1 if tier == "quick" else 12)]


def reference(fo, X, ids):
    part, leaves = np.zeros((len(X), len(fo))), np.zeros((len(X), len(fo)), dtype=int)
    for j, (t, w) in enumerate(fo):
        stack = [(t, "", np.arange(len(X)))]
        while stack:
            nd, path, idx = stack.pop()
            if not len(idx):
                continue
            if nd[0] == "leaf":
                part[idx, j] = float(np.float32(nd[1])) * float(np.float32(w))
                leaves[idx, j] = ids[j][path]
            else:
                left = X[idx, nd[1]] <= np.float32(nd[2])
                stack += [(nd[3], path + "L", idx[left]), (nd[4], path + "R", idx[~left])]
    return part, leaves


def case(ctx, rng, kind, i):
    from rankeval.dataset import Dataset
    from rankeval.scoring.scorer import Scorer
    from .c03 import layout
    nf = int(rng.integers(1, 9))
    kw = dict(n_trees=int(rng.integers(100, 300))) if kind == "large" else \
        dict(n_trees=int(rng.integers(1, 5))) if kind == "huge" else {}
    fo = gen.forest(rng, nf, **kw) if kind != "colossal" else gen.colossal(rng, nf)
    ctx.count("colossal_models", kind == "colossal")
    tiny = kind != "colossal" and rng.random() < 0.15
    if tiny:                          # outputs of any magnitude, on one scale
        fo = gen.scaled_leaves(fo, int(rng.choice([-110, -60, -30, 30, 60, 100])))
        ctx.count("tiny_or_huge_leaves")
    lr = float(rng.choice([1, 0.5, 0.25, 2, 0, -1]))
    base = float(gen.dyadic(rng)) if rng.random() < 0.6 else None
    base = base if not tiny else None
    model = gen.model(ctx, fo, learning_rate=lr, base_score=base)
    n = int(rng.integers(1, 25)) if kind != "large" else 2000
    if kind == "huge":                # more documents than 16 bits count
        n = int(rng.choice([rng.integers(33000, 65000), rng.integers(65537, 140000)]))
        ctx.count("huge_datasets")
    X = gen.probes(rng, fo, nf + int(rng.integers(0, 3)), n)
    lay = str(rng.choice(["C", "F", "strided", "T"]))
    d = Dataset(layout(rng, X, lay), np.zeros(n, dtype=np.float32), np.sort(rng.integers(1, 5, size=n)))
    ids = [ref.walk(model, k, t, ctx.check) for k, (t, _) in enumerate(fo)]
    part, leaves = reference(fo, X, ids)
    ctx.note(forest=fo if len(fo) < 100 else len(fo), X=X, lr=lr, base=base)
    if kind == "accessors":
        s = Scorer(model, d)
        ops = list(rng.choice(["scores", "partial", "leaves", "score", "detailed"], size=4))
        for op in ops:
            if op == "scores":
                ctx.equal(np.asarray(s.get_predicted_scores(), dtype=float), part.sum(axis=1),
                          "wrong scores of the scorer", ops=ops)
            elif op == "partial":
                ctx.equal(np.asarray(s.get_partial_predicted_scores(), dtype=float), part,
                          "wrong partial scores of the scorer", ops=ops)
            elif op == "leaves":
                ctx.equal(np.asarray(s.get_predicted_leaves()), leaves,
                          "wrong leaves of the scorer", ops=ops)
            else:
                ctx.equal(np.asarray(s.score(op == "detailed"), dtype=float), part.sum(axis=1),
                          "wrong scores of Scorer.score", ops=ops)
        ctx.count("accessors")
        ctx.distinct("a", repr(fo), X, ops)
        return
    cache = bool(rng.random() < 0.3)
    if cache and rng.random() < 0.5:
        model.score(d, detailed=False, cache=True)
    y, p, l = [np.asarray(v) for v in model.score(d, detailed=True, cache=cache)]
    want = part * lr
    if base:
        want[:, 0] += base
    ctx.check(p.shape == (n, len(fo)) and l.shape == (n, len(fo)) and y.shape == (n,),
              "wrong shapes", got=(p.shape, l.shape, y.shape))
    ctx.equal(p.astype(float), want, "wrong partial scores")
    ctx.equal(l, leaves, "wrong leaves")
    for v in np.unique(l):
        ctx.check(bool(model.is_leaf_node(v)), "a document ends in a node that is not a leaf")
    ctx.equal(y.astype(float), want.sum(axis=1), "the partial scores do not sum to the score")
    ctx.equal(np.asarray(model.score(d, cache=cache)).astype(float), want.sum(axis=1),
              "basic and detailed scores differ")
    if cache:
        y, p, l = [np.asarray(v) for v in model.score(d, detailed=True, cache=True)]
        ctx.equal(p.astype(float), want, "wrong cached partial scores")
        ctx.equal(l, leaves, "wrong cached leaves")
        ctx.count("cached")
    ctx.count("cells", p.size)
    ctx.count("learning_rate", lr != 1)
    ctx.count("base_score", bool(base))
    ctx.count("single_leaf_trees", sum(t[0] == "leaf" for t, _ in fo))
    ctx.count("weighted_trees", sum(w != 1 for _, w in fo))
    ctx.distinct(repr(fo), X)
    ctx.sample({"trees": len(fo), "docs": n, "lr": lr, "base": base, "cache": cache})
