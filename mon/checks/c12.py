"""C12: LightGBM, XGBoost and scikit-learn models load as the forest in the file."""
import numpy as np

from mon import gen, ref

ID = "C12"
RULE = ("random forests (any numbering of nodes and leaves, single-leaf trees, chains, thresholds "
        "of any magnitude, feature values equal or adjacent to the thresholds) written in the "
        "three formats; node by node comparison, routing with the comparison of the source "
        "system, base score and learning rate; distinct by file content")
REQUIRED = ["LightGBM", "XGBoost", "ScikitLearn", "wild_values", "single_leaf_trees",
            "value_equals_threshold", "routed", "default_base_score", "given_base_score",
            "huge_thresholds", "file_parameters", "wild_parameters", "crlf", "colossal_models"]
ASSUMPTIONS = ["thresholds are single-precision values", "XGBoost and scikit-learn list the "
               "nodes depth-first (their dump order)"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("LightGBM", 600 * k), ("XGBoost", 700 * k), ("ScikitLearn", 600 * k),
            ("colossal", 3 if tier == "quick" else 18)]


def strict_to_le(forest_):
    """x < t  ==  x <= the single-precision value before t."""
    def go(t):
        if t[0] == "leaf":
            return t
        th = float(np.nextafter(np.float32(t[2]), np.float32(-np.inf), dtype=np.float32))
        return ("split", t[1], th, go(t[3]), go(t[4]))
    return [(go(t), w) for t, w in forest_]


def case(ctx, rng, kind, i):
    from rankeval.dataset import Dataset
    from rankeval.model import RTEnsemble
    from .c11 import relabel
    nf = int(rng.integers(1, 9))
    big = kind == "colossal"
    if big:
        kind = ["LightGBM", "XGBoost", "ScikitLearn"][i % 3]
        ctx.count("colossal_models")
    fo = gen.forest(rng, nf, weights=False) if not big else gen.colossal(rng, nf)
    wild = rng.random() < 0.4 and not big
    if wild:
        fo = gen.wild(fo, rng, leaves=bool(rng.random() < 0.5))
        ctx.count("wild_values")
    elif rng.random() < 0.2 and not big:
        s = float(2.0 ** rng.integers(18, 60))
        fo = [(scale(t, s), w) for t, w in fo]
    if rng.random() < 0.15 and not big:
        nf = 300
        fo = relabel(fo, rng, nf)
    path = ctx.path("m.txt")
    kw, lr, base = {}, 1, 0
    if kind == "XGBoost":
        base = 0.5
        ctx.count("default_base_score")
    if rng.random() < 0.4:
        base = float(gen.dyadic(rng))
        kw["base_score"] = base
        ctx.count("given_base_score")
    if rng.random() < 0.4:
        lr = float(rng.choice([0.5, 0.25, 2.0, 0.0, -1.0]))
        kw["learning_rate"] = lr
    style = dict(num=gen.num_style(rng), eol="\r\n" if rng.random() < 0.15 else "\n")
    ctx.count("crlf", style["eol"] != "\n")
    if kind == "LightGBM":
        gen.write_lightgbm(fo, path, order=str(rng.choice(["bfs", "dfs"])), rng=rng,
                           extra=bool(rng.random() < 0.7), **style)
    elif kind == "XGBoost":
        gen.write_xgboost(fo, path, stats=bool(rng.random() < 0.5), **style)
    else:
        a = b = None
        if rng.random() < 0.7:
            a, b = float(gen.dyadic(rng)), float(rng.choice([0.5, 0.125, 1.0, 0.0]))
            if rng.random() < 0.4:
                # parameters of any magnitude, as repr or %.17g write them
                a = float(rng.normal() * 10.0 ** rng.integers(-12, 13))
                b = float(rng.random() * 10.0 ** rng.integers(-9, 3)) or 1.0
                wild = True
                ctx.count("wild_parameters")
            base, lr = a, b
            ctx.count("file_parameters")
        gen.write_scikit(fo, path, base_score=a, learning_rate=b, **style)
    model = RTEnsemble(path, format=kind, **kw)
    ctx.note(file=open(path).read()[:3000], params=kw)
    want = strict_to_le(fo) if kind == "XGBoost" else fo
    ids = ref.check_model(ctx, model, want)
    ctx.check(float(model.base_score or 0) == base, "wrong base score", got=model.base_score, want=base)
    ctx.check(float(model.learning_rate) == lr, "wrong learning rate", got=model.learning_rate)
    # routing, with the comparison operator of the source system
    X = gen.probes(rng, fo, nf, 4)
    d = Dataset(X, np.zeros(len(X), dtype=np.float32), np.ones(len(X), dtype=int))
    sc, part, leaves = [np.asarray(v) for v in model.score(d, detailed=True)]
    for r in range(len(X)):
        for j, (t, _) in enumerate(fo):
            path_ = ""
            while t[0] == "split":
                x, th = np.float32(X[r, t[1]]), np.float32(t[2])
                ctx.count("value_equals_threshold", x == th)
                ctx.count("huge_thresholds", abs(th) > 1e8)
                left = x < th if kind == "XGBoost" else x <= th
                path_, t = path_ + ("L" if left else "R"), t[3] if left else t[4]
            ctx.check(int(leaves[r, j]) == ids[j][path_],
                      "a document takes another path than in the source system", tree=j,
                      doc=X[r][:20], want=path_)
    ctx.count("routed", leaves.size)
    if not wild:
        ctx.close(sc, ref.scores(want, X, lr, base), "wrong scores", rtol=1e-5, atol=1e-5)
    ctx.count(kind)
    ctx.count("single_leaf_trees", sum(t[0] == "leaf" for t, _ in fo))
    ctx.distinct(kind, open(path).read())
    ctx.sample({"format": kind, "trees": len(fo), "nodes": model.n_nodes})


def scale(t, s):
    if t[0] == "leaf":
        return t
    return ("split", t[1], t[2] * s, scale(t[3], s), scale(t[4], s))
