"""C13: scikit-learn export and CatBoost models reproduce the source predictions."""
import numpy as np

from mon import gen, ref

ID = "C13"
RULE = ("gradient boosting regressors fitted on random data (depth, leaves, learning rate, loss, "
        "subsampling, init), exported, loaded and compared with predict(); oblivious and "
        "non-oblivious forests of mixed depths in CoreML files compared node by node and by "
        "routing; distinct by model")
REQUIRED = ["sklearn_predictions", "sklearn_deep", "sklearn_any_magnitude",
            "sklearn_consecutive_values", "sklearn_thresholds_rounded_up", "coreml_models", "coreml_mixed_depths",
            "coreml_bias", "coreml_mixed_behaviors",
            "coreml_single_leaves", "routed"]
ASSUMPTIONS = ["a regressor whose initial estimator is not a constant may be refused "
               "(TypeError), never exported with other scores"]


def KINDS(tier):
    k = 4 if tier == "quick" else 40
    return [("sklearn", 60 * k), ("coreml", 150 * k)]


def case(ctx, rng, kind, i):
    return sk(ctx, rng) if kind == "sklearn" else coreml(ctx, rng)


def sk(ctx, rng):
    from sklearn.dummy import DummyRegressor
    from sklearn.ensemble import GradientBoostingRegressor
    from rankeval.dataset import Dataset
    from rankeval.model import ProxyScikitLearn, RTEnsemble
    n, m = int(rng.integers(5, 80)), int(rng.integers(1, 7))
    mode = rng.random()
    if mode < 0.5:
        X = gen.dyadic(rng, (n, m))
    elif mode < 0.75:
        X = (rng.normal(size=(n, m)) * 10.0 ** rng.integers(-6, 7, size=m)).astype(np.float32)
    else:
        # consecutive single precision numbers, large enough for scikit-learn to split them
        base = np.float32(rng.choice([1.0, -1.0]) * rng.integers(1, 9) * 2.0 ** rng.integers(4, 40))
        X = (base.view(np.int32) + rng.integers(-4, 5, size=(n, m)).astype(np.int32)).view(np.float32)
        ctx.count("sklearn_consecutive_values")
    y = rng.normal(size=n) * 10.0 ** rng.integers(-3, 4)
    if rng.random() < 0.5:
        y = y + rng.normal() * 10
    elif rng.random() < 0.5:
        # predictions far from one, around zero
        y = (y - np.median(y)) * 10.0 ** rng.integers(-20, 13)
        ctx.count("sklearn_any_magnitude")
    depth = int(rng.choice([1, 2, 3, 6]))
    kw = dict(n_estimators=int(rng.integers(1, 15)), max_depth=depth,
              learning_rate=float(rng.choice([0.1, 0.05, 1.0, 0.0001234567, 0.3])),
              random_state=int(rng.integers(0, 1000)),
              loss=str(rng.choice(["squared_error", "absolute_error", "huber", "quantile"])))
    if rng.random() < 0.3:
        kw["subsample"] = 0.6
    if rng.random() < 0.3:
        kw["init"] = DummyRegressor(strategy=str(rng.choice(["mean", "median"])))
    if rng.random() < 0.3:
        kw.update(max_leaf_nodes=int(rng.integers(2, 9)), max_depth=None)
    other = rng.random()
    if other < 0.12:                  # initial predictions that are not a plain constant
        from sklearn.linear_model import LinearRegression, QuantileRegressor
        from sklearn.tree import DecisionTreeRegressor
        kw["init"] = [LinearRegression(), DecisionTreeRegressor(max_depth=2), "zero",
                      QuantileRegressor(quantile=float(rng.choice([0.5, 0.25])), alpha=0.0),
                      DummyRegressor(strategy="quantile", quantile=0.7),
                      DummyRegressor(strategy="constant", constant=2.5)][int(rng.integers(0, 6))]
    g = GradientBoostingRegressor(**kw).fit(X, y)
    path = ctx.path("sk.txt")
    try:
        ProxyScikitLearn.export_scikit_model(g, path)
    except TypeError:
        # it may be refused if it cannot be represented, but not exported wrongly
        if other >= 0.12 or isinstance(kw["init"], DummyRegressor):
            raise
        ctx.count("sklearn_refused")
        return
    model = RTEnsemble(path, format="ScikitLearn")
    ctx.check(model.n_trees == g.estimators_.size, "wrong number of trees", got=model.n_trees)
    T = np.vstack([X, np.ascontiguousarray(X[::-1]) + np.float32(0.25)]).astype(np.float32)
    # feature values at the thresholds, and next to them
    for e in g.estimators_.ravel():
        t = e.tree_
        for f, th in zip(t.feature, t.threshold):
            if f < 0:
                continue
            r = np.float32(th)
            ctx.count("sklearn_thresholds_rounded_up", float(r) > th)
            if rng.random() < 0.5:
                r = np.nextafter(r, np.float32(rng.choice([-np.inf, np.inf])))
            if rng.random() < 0.7:
                T[rng.integers(0, len(T)), f] = r
    d = Dataset(T, np.zeros(len(T), dtype=np.float32), np.ones(len(T), dtype=int))
    want = g.predict(T)
    # bound of the rounding of a sum in single precision
    scale = float(np.abs(getattr(g.init_, "constant_", 0)).max()) + g.learning_rate * sum(
        float(np.abs(e.tree_.value).max()) for e in g.estimators_.ravel())
    ctx.note(params=kw, n=n)
    ctx.close(np.asarray(model.score(d)), want, "scores differ from predict()", rtol=1e-6,
              atol=2e-6 * scale + 1e-42)
    ctx.count("sklearn_predictions", len(T))
    ctx.count("sklearn_deep", depth == 6)
    ctx.distinct("sk", open(path).read())


def coreml(ctx, rng):
    from rankeval.model import RTEnsemble
    from .c11 import judge_routing
    nf = int(rng.integers(1, 7))
    nt = int(rng.integers(1, 8))
    fo = []
    for _ in range(nt):
        if rng.random() < 0.75:
            t = gen.oblivious(rng, nf, int(rng.integers(1, 5)))
        elif rng.random() < 0.4:
            t = ("leaf", gen.leaf_value(rng))
        else:
            t = gen.tree(rng, nf, 4, min_depth=1)
        fo.append((t, 1.0))
    if rng.random() < 0.3:
        fo = gen.wild(fo, rng)
    beh = [("BranchOnValueGreaterThan",), ("BranchOnValueLessThanEqual",),
           ("BranchOnValueGreaterThan", "BranchOnValueLessThanEqual")][int(rng.integers(0, 3))]
    bias = [None, 0.0, float(rng.integers(-8, 9)), 0.1, 1e10][int(rng.integers(0, 5))]
    given = [None, None, 0.0, -3.25][int(rng.integers(0, 4))]
    path = gen.write_coreml(fo, ctx.path("c.mlmodel"), nf, behaviors=beh, rng=rng, bias=bias)
    model = RTEnsemble(path, format="CatBoost", base_score=given)
    ctx.note(forest=fo, behaviors=beh, bias=bias, given=given)
    want = (bias or 0.0) if given is None else given
    ctx.check((model.base_score or 0.0) == want, "wrong base score", got=model.base_score, want=want)
    ctx.count("coreml_bias", want != 0)
    ids = ref.check_model(ctx, model, fo)
    judge_routing(ctx, model, fo, ids, gen.probes(rng, fo, nf, 3))
    ctx.count("coreml_models")
    ctx.count("coreml_single_leaves", sum(t[0] == "leaf" for t, _ in fo))
    ctx.count("coreml_mixed_depths", len({gen.n_nodes(t) for t, _ in fo}) > 1)
    ctx.count("coreml_mixed_behaviors", len(beh) > 1)
    ctx.distinct("ml", repr(fo))
    ctx.sample({"behaviors": beh, "nodes": [gen.n_nodes(t) for t, _ in fo]})
