"""C18: scores equal the weighted sum of the leaves reached."""
import numpy as np

from mon import gen, ref

ID = "C18"
RULE = ("random forests (chains, perfect, single leaves, up to hundreds of trees, weights, feature "
        "ids up to 32766) over documents equal/adjacent to the thresholds, infinities and huge "
        "values, any layout, up to thousands of documents, learning rates and base scores; exact "
        "comparison with the reference evaluator on dyadic values; distinct by forest and matrix")
REQUIRED = ["documents_scored", "value_equals_threshold", "adjacent_values", "layout_F",
            "layout_strided", "many_documents", "many_trees", "wide", "single_leaf_trees",
            "learning_rate", "base_score", "loaded_dataset", "infinite_values", "XGBoost",
            "huge_datasets", "colossal_models", "tiny_or_huge_leaves",
            "no_learning_rate", "zero_or_negative_rate"]
ASSUMPTIONS = ["single-precision feature matrices"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("dyadic", 700 * k), ("wild", 200 * k), ("many_docs", 6 * k), ("many_trees", 4 * k),
            ("wide", 15 * k), ("huge", 2 * k),
            ("colossal", 1 if tier == "quick" else 12)]


def vector_scores(fo, X):
    """The reference, vectorised over the documents."""
    out = np.zeros(len(X))
    for t, w in fo:
        stack = [(t, np.arange(len(X)))]
        while stack:
            nd, idx = stack.pop()
            if not len(idx):
                continue
            if nd[0] == "leaf":
                out[idx] += float(np.float32(nd[1])) * float(np.float32(w))
            else:
                left = X[idx, nd[1]] <= np.float32(nd[2])
                stack += [(nd[3], idx[left]), (nd[4], idx[~left])]
    return out


def case(ctx, rng, kind, i):
    from rankeval.dataset import Dataset
    from .c03 import layout
    from .c11 import relabel
    from .c12 import strict_to_le
    nf = int(rng.integers(1, 9))
    kw = {}
    if kind == "many_trees":
        kw = dict(n_trees=int(rng.integers(200, 500)))
        ctx.count("many_trees")
    fo = gen.forest(rng, nf, **kw) if kind != "colossal" else gen.colossal(rng, nf)
    ctx.count("colossal_models", kind == "colossal")
    if kind == "wild":
        fo = gen.wild(fo, rng, leaves=False)
    if kind == "wide":
        nf = int(rng.choice([400, 4000, 32767]))
        fo = relabel(fo, rng, nf)
        ctx.count("wide")
    tiny = kind != "colossal" and rng.random() < 0.15
    if tiny:                          # outputs of any magnitude, on one scale
        fo = gen.scaled_leaves(fo, int(rng.choice([-110, -60, -30, 30, 60, 100])))
        ctx.count("tiny_or_huge_leaves")
    fmt = "QuickRank"
    lr = float(rng.choice([1, 1, 0.5, 0.25, 2, 1, 4, 0, -0.5, -1]))
    base = float(gen.dyadic(rng)) if rng.random() < 0.5 else None
    base = base if not tiny else None
    unset = lr == 1 and rng.random() < 0.2        # no shrinking
    if rng.random() < 0.15 and not tiny:
        fmt, fo = "XGBoost", [(t, 1.0) for t, _ in fo]
        ctx.count("XGBoost")
    model = gen.model(ctx, fo, fmt, learning_rate=None if unset else lr, base_score=base)
    ctx.count("no_learning_rate", unset)
    if fmt == "XGBoost":
        fo = strict_to_le(fo)
        base = 0.5 if base is None else base
    extra = int(rng.integers(0, 4)) if kind != "wide" else 0
    n = int(rng.integers(1, 25))
    if kind == "many_docs":
        n = int(rng.integers(3000, 9000))
        ctx.count("many_documents")
    if kind == "huge":                # more documents than 16 bits count
        n = int(rng.choice([rng.integers(33000, 65000), rng.integers(65537, 140000)]))
        ctx.count("huge_datasets")
    if kind == "wide":
        n = 4
    raw = gen.raw_dataset(rng, max_queries=1, max_size=1, n_features=nf + extra)
    X = gen.probes(rng, fo, nf + extra, n)
    if rng.random() < 0.1:
        X[rng.random(X.shape) < 0.05] = np.inf
        X[rng.random(X.shape) < 0.05] = -np.inf
        ctx.count("infinite_values", int(np.isinf(X).sum()))
    lay = str(rng.choice(["C", "F", "strided", "T", "neg"]))
    y, q = np.zeros(n, dtype=np.float32), np.sort(rng.integers(1, 5, size=n))
    loaded = kind == "dyadic" and rng.random() < 0.1 and np.isfinite(X).all()
    if loaded:
        import io
        raw = dict(X=X, y=y, qid=q)
        lines = gen.svmlight_lines(raw, sparse=False)
        d = Dataset.load(io.BytesIO(("\n".join(lines) + "\n").encode()))
        ctx.count("loaded_dataset")
    else:
        d = Dataset(layout(rng, X, lay), y, q)
        ctx.count("layout_" + lay)
    ctx.note(forest=fo if len(fo) < 100 else len(fo), X=X, lr=lr, base=base, layout=lay)
    got = np.asarray(model.score(d))
    want = vector_scores(fo, X) * lr + (base or 0)
    ctx.check(got.shape == (n,) and got.dtype == np.float32, "wrong shape or type of the scores",
              shape=got.shape, dtype=str(got.dtype))
    ctx.equal(got.astype(float), want, "wrong scores")
    ctx.check(np.array_equal(np.asarray(d.X), X), "scoring modified the features")
    for t, _ in fo[:3]:
        for nd, _, _ in gen.nodes_dfs(t)[:4]:
            if nd[0] == "split":
                col, th = X[:, nd[1]], np.float32(nd[2])
                ctx.count("value_equals_threshold", int((col == th).sum()))
                ctx.count("adjacent_values", int((col == np.nextafter(th, np.float32(np.inf))).sum()))
    ctx.count("documents_scored", n)
    ctx.count("learning_rate", lr != 1)
    ctx.count("zero_or_negative_rate", lr <= 0)
    ctx.count("base_score", bool(base))
    ctx.count("single_leaf_trees", sum(t[0] == "leaf" for t, _ in fo))
    ctx.distinct(repr(fo), X, lay)
    ctx.sample({"trees": len(fo), "docs": n, "layout": lay, "lr": lr, "base": base})
