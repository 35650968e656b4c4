"""C16: node, leaf and height counts match the trees."""
import numpy as np

from mon import gen, ref

ID = "C16"
RULE = ("forests in all formats (any numbering of nodes), with single-leaf trees, chains, perfect "
        "trees, deep chains; counts recomputed on the reference forest; distinct by forest and format")
REQUIRED = ["fmt_QuickRank", "fmt_LightGBM", "fmt_XGBoost", "fmt_ScikitLearn", "fmt_Jforests",
            "fmt_CatBoost", "single_leaf_trees", "deep_trees", "after_pruning", "colossal_models",
            "giant_trees"]
ASSUMPTIONS = []


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("any", 900 * k), ("catboost", 60 * k), ("deep", 40 * k),
            ("colossal", 2 if tier == "quick" else 12), ("giant", 2 if tier == "quick" else 12)]


def judge(ctx, model, fo, nodes=True):
    want_n = [gen.n_nodes(t) for t, _ in fo]
    want_l = [gen.n_leaves(t) for t, _ in fo]
    want_h = [gen.height(t) for t, _ in fo]
    ctx.equal(np.asarray(model.num_nodes()), want_n, "wrong number of nodes per tree")
    ctx.equal(np.asarray(model.num_leaves()), want_l, "wrong number of leaves per tree")
    ctx.equal(np.asarray(model.height_trees()), want_h, "wrong heights")
    ctx.check(int(model.max_leaves()) == max(want_l), "wrong maximum number of leaves",
              got=int(model.max_leaves()), want=max(want_l))
    ctx.check(int(model.n_trees) == len(fo) and int(model.n_nodes) == sum(want_n),
              "wrong total counts", got=(model.n_trees, model.n_nodes))
    n_leaves = sum(bool(model.is_leaf_node(k)) for k in range(int(model.n_nodes)))
    ctx.check(n_leaves == sum(want_l), "the leaf test disagrees with the trees", got=n_leaves)
    if nodes:
        ref.check_model(ctx, model, fo)


def case(ctx, rng, kind, i):
    from rankeval.model import RTEnsemble
    from .c12 import strict_to_le
    nf = int(rng.integers(1, 6))
    fmt = "CatBoost" if kind == "catboost" else \
        ["QuickRank", "LightGBM", "XGBoost", "ScikitLearn", "Jforests"][int(rng.integers(0, 5))]
    if kind == "deep":
        fmt = ["QuickRank", "LightGBM", "Jforests", "XGBoost", "ScikitLearn"][i % 5]
        fo = [(gen.tree(rng, nf, int(rng.integers(20, 200)), p_leaf=0.0,
                        chain=str(rng.choice(["left", "right", "zig"]))), 1.0)
              for _ in range(int(rng.integers(1, 4)))]
        ctx.count("deep_trees", len(fo))
    elif kind == "colossal":
        fo = gen.colossal(rng, nf)
        ctx.count("colossal_models")
    elif kind == "giant":             # one tree has more nodes than 15 or 16 bits can count
        n = int(rng.integers(34000, 60000) if i % 2 else rng.integers(66000, 90000))
        fo = gen.forest(rng, nf, max_trees=3, allow_leaf=fmt != "Jforests", weights=False)
        fo.insert(int(rng.integers(0, len(fo) + 1)), (gen.giant(rng, nf, n), 1.0))
        ctx.count("giant_trees")
    else:
        fo = gen.forest(rng, nf, allow_leaf=fmt != "Jforests",
                        weights=fmt in ("QuickRank", "Jforests"))
    if fmt == "CatBoost":
        path = gen.write_coreml(fo, ctx.path("c.mlmodel"), nf, rng=rng)
    else:
        path = ctx.path("m.txt")
        kw = {"order": str(rng.choice(["bfs", "dfs"])), "rng": rng} \
            if fmt in ("LightGBM", "Jforests") else {}
        gen.WRITERS[fmt](fo, path, **kw)
    model = RTEnsemble(path, format=fmt)
    if fmt == "XGBoost":
        fo = strict_to_le(fo)
    ctx.note(forest=fo if len(fo) < 100 else len(fo), format=fmt)
    judge(ctx, model, fo)
    if len(fo) > 1 and rng.random() < 0.3:
        k = int(rng.integers(1, len(fo)))
        judge(ctx, model.copy(n_trees=k), fo[:k])
        judge(ctx, model, fo, nodes=False)
        ctx.count("after_pruning")
    ctx.count("fmt_" + fmt)
    ctx.count("single_leaf_trees", sum(t[0] == "leaf" for t, _ in fo))
    ctx.distinct(fmt, repr(fo))
    ctx.sample({"format": fmt, "nodes": [gen.n_nodes(t) for t, _ in fo]})
