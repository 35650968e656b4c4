"""C15: saving a model to QuickRank and loading it back preserves it."""
import xml.etree.ElementTree as ET

import numpy as np

from mon import gen, ref

ID = "C15"
RULE = ("models of all formats (wild magnitudes, single-leaf trees, chains), pruned/copied or not, "
        "with learning rate and base score, saved and loaded back, up to three generations; arrays "
        "compared with the forest, scores compared bit by bit, second save byte by byte; distinct by "
        "file content")
REQUIRED = ["from_QuickRank", "from_LightGBM", "from_XGBoost", "from_ScikitLearn", "from_Jforests",
            "from_CatBoost", "wild_values", "pruned", "scores_identical", "with_learning_rate",
            "single_leaf_trees", "colossal_models", "big_feature_ids", "headers"]
ASSUMPTIONS = ["the learning rate and base score are given again when loading (the format does not "
               "hold them)"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("save", 900 * k), ("catboost", 60 * k),
            ("colossal", 2 if tier == "quick" else 12)]


def case(ctx, rng, kind, i):
    from rankeval.dataset import Dataset
    from rankeval.model import RTEnsemble
    from .c11 import relabel
    from .c12 import strict_to_le
    fmt = "CatBoost" if kind == "catboost" else \
        ["QuickRank", "LightGBM", "XGBoost", "ScikitLearn", "Jforests"][int(rng.integers(0, 5))]
    nf = int(rng.integers(1, 9))
    fo = gen.forest(rng, nf, weights=fmt in ("QuickRank", "Jforests"),
                    allow_leaf=fmt != "Jforests", max_trees=9)
    if kind == "colossal":
        fo = gen.colossal(rng, nf)
        ctx.count("colossal_models")
    elif rng.random() < 0.5:
        fo = gen.wild(fo, rng)
        ctx.count("wild_values")
    if fmt in ("QuickRank", "Jforests") and kind != "colossal" and rng.random() < 0.3:
        fo = [(t, float(gen.wild_f32(rng))) for t, w in fo]
    if kind == "save" and rng.random() < 0.06:
        nf = int(rng.choice([40, 300, 5000, 32767]))
        fo = relabel(fo, rng, nf)
        ctx.count("big_feature_ids")
    lr = float(rng.choice([1, 1, 0.5, 0.1, 2.0, 0.0, -1.0]))
    base = float(gen.dyadic(rng)) if rng.random() < 0.4 else None
    kw = dict(learning_rate=lr, base_score=base)
    if fmt == "CatBoost":
        path = gen.write_coreml(fo, ctx.path("c.mlmodel"), nf, rng=rng)
    else:
        path = ctx.path("m.txt")
        gen.WRITERS[fmt](fo, path)
    model = RTEnsemble(path, format=fmt, **kw)
    if fmt == "XGBoost":
        fo = strict_to_le(fo)
        kw["base_score"] = base = model.base_score
    u = rng.random()
    if u < 0.25 and len(fo) > 1:
        k = int(rng.integers(1, len(fo)))
        model, fo = model.copy(n_trees=k), fo[:k]
        ctx.count("pruned")
    elif u < 0.4:
        model = model.copy()
    ctx.note(format=fmt, forest=fo if len(fo) < 100 else len(fo), params=kw)
    raw = gen.raw_dataset(rng, n_features=nf, **({"max_queries": 2, "max_size": 2} if nf > 9 else {}))
    X = gen.probes(rng, fo, nf, raw["X"].shape[0], base=raw["X"])
    d = Dataset(X, raw["y"], raw["qid"])
    s0 = np.array(model.score(d))
    out = ctx.path("saved.xml")
    first = None
    gens = int(rng.integers(1, 4)) if kind != "colossal" else 1
    for g in range(gens):
        ctx.check(bool(model.save(out)), "save did not report success")
        text = open(out, "rb").read()
        if first is None:
            first = text
            root = ET.fromstring(text)
            ctx.equal([int(t.get("id")) for t in root.iter("tree")], list(range(1, len(fo) + 1)),
                      "the trees are not numbered from 1")
            for tag, want in (("trees", len(fo)), ("leaves", max(gen.n_leaves(t) for t, _ in fo))):
                got = root.findtext("info/" + tag)
                ctx.check(got is None or int(got) == want, "wrong header of the saved model",
                          tag=tag, got=got, want=want)
            ctx.count("headers")
        ctx.check(text == first, "saving again gives another file", generation=g)
        back = RTEnsemble(out, format="QuickRank", **kw)
        ref.check_model(ctx, back, fo)
        s1 = np.asarray(back.score(d))
        ctx.check(s0.tobytes() == s1.tobytes(), "the saved model gives other scores",
                  got=s1, want=s0)
        ctx.count("scores_identical", len(s1))
        model = back
    ctx.check(np.asarray(model.score(d)).tobytes() == s0.tobytes(), "saving changed the model")
    ctx.count("from_" + fmt)
    ctx.count("with_learning_rate", lr != 1)
    ctx.count("single_leaf_trees", sum(t[0] == "leaf" for t, _ in fo))
    ctx.distinct(first)
    ctx.sample({"format": fmt, "generations": gens, "trees": len(fo), "bytes": len(first)})
