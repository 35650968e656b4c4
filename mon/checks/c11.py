"""C11: QuickRank and Jforests models load as the forest in the file."""
import numpy as np

from mon import gen, ref

ID = "C11"
RULE = ("random forests (perfect, chain, unbalanced, single-leaf trees; thresholds and outputs "
        "of any single-precision magnitude, feature ids up to 32766, any weight) written by "
        "independent writers; the loaded arrays are walked from the roots and compared node by "
        "node; routing of documents compared; distinct by file content")
REQUIRED = ["QuickRank", "Jforests", "single_leaf_trees", "chains", "wild_values", "big_feature_ids",
            "padded", "colossal_models", "any_order", "compact", "no_header", "any_tree_ids",
            "nodes_compared", "routed"]
ASSUMPTIONS = ["Jforests trees have at least one split, lists are separated by single blanks"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("QuickRank", 700 * k), ("Jforests", 700 * k), ("large", 3 * k),
            ("colossal", 2 if tier == "quick" else 12)]


def relabel(forest_, rng, n_features):
    """Spreads the feature ids up to n_features - 1."""
    m = rng.integers(0, n_features, size=64)

    def go(t):
        return t if t[0] == "leaf" else ("split", int(m[t[1] % 64]), t[2], go(t[3]), go(t[4]))
    return [(go(t), w) for t, w in forest_]


def judge_routing(ctx, model, forest_, ids, X):
    from rankeval.dataset import Dataset
    d = Dataset(X, np.zeros(len(X), dtype=np.float32), np.ones(len(X), dtype=int))
    _, _, leaves = model.score(d, detailed=True)
    leaves = np.asarray(leaves)
    for r in range(len(X)):
        for j, (t, _) in enumerate(forest_):
            ctx.check(int(leaves[r, j]) == ids[j][ref.route(t, X[r])[1]],
                      "a document takes another path than in the file", tree=j, doc=X[r][:20])
    ctx.count("routed", leaves.size)


def case(ctx, rng, kind, i):
    from rankeval.model import RTEnsemble
    fmt = kind
    nf = int(rng.integers(1, 9))
    kw = {}
    if kind == "colossal":
        fmt = "QuickRank" if i % 2 else "Jforests"
    if kind == "large":
        fmt = "QuickRank" if i % 2 else "Jforests"
        kw = dict(n_trees=int(rng.integers(100, 250)))
    fo = gen.forest(rng, nf, allow_leaf=fmt == "QuickRank", **kw)
    if kind == "colossal":
        fo = gen.colossal(rng, nf)
        ctx.count("colossal_models")
    elif rng.random() < 0.5:
        fo = gen.wild(fo, rng)
        ctx.count("wild_values")
    if rng.random() < 0.3 and kind != "colossal":
        fo = [(t, float(gen.wild_f32(rng)) if rng.random() < 0.5 else w) for t, w in fo]
    if rng.random() < 0.25 and kind != "colossal":
        nf = int(rng.choice([300, 5000, 32767]))
        fo = relabel(fo, rng, nf)
        ctx.count("big_feature_ids")
    path = ctx.path("m.xml")
    if fmt == "QuickRank":
        pad = bool(rng.random() < 0.3)
        any_order = bool(rng.random() < 0.5)
        compact = bool(rng.random() < 0.2)
        gen.write_quickrank(fo, path, pad=pad, num=gen.num_style(rng), compact=compact,
                            rng=rng if any_order else None)
        ctx.count("padded", pad)
        ctx.count("any_order", any_order)
        ctx.count("compact", compact)
        text = open(path).read()
        ctx.count("no_header", "<info>" not in text)
        ctx.count("any_tree_ids", text.find('<tree id="1"') != text.find("<tree "))
    else:
        gen.write_jforests(fo, path, order=str(rng.choice(["bfs", "dfs"])), rng=rng,
                           num=gen.num_style(rng))
    model = RTEnsemble(path, format=fmt, name="a")
    ctx.note(file=open(path).read()[:3000], format=fmt)
    ids = ref.check_model(ctx, model, fo)
    nX = max(nf, 1)
    if nX <= 400:
        judge_routing(ctx, model, fo, ids, gen.probes(rng, fo, nX, 3))
    ctx.check(model.name == "a" and model.file == path, "wrong name or file of the model")
    ctx.count(fmt)
    ctx.count("single_leaf_trees", sum(t[0] == "leaf" for t, _ in fo))
    ctx.count("chains", sum(gen.height(t) >= 3 and gen.n_leaves(t) == gen.height(t) + 1
                            for t, _ in fo))
    ctx.distinct(fmt, open(path).read())
    ctx.sample({"format": fmt, "trees": len(fo), "nodes": model.n_nodes})
