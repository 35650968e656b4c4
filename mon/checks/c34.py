"""C34: the topological analysis against a recount on the reference forest."""
import collections

import numpy as np

from mon import gen

ID = "C34"
RULE = ("random forests in every node numbering (five formats, copies, pruned copies), perfect "
        "trees, single leaves, chains down to depth 60; exact recount of every position and height "
        "with and without leaves; distinct by forest")
REQUIRED = ["cells", "without_leaves", "deep_chains", "single_leaf_trees", "pruned_copies",
            "derived_statistics", "fmt_LightGBM", "fmt_XGBoost", "repeated", "depth_60",
            "default_include_leaves"]
ASSUMPTIONS = ["trees of depth at most 60"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("forest", 600 * k), ("chain", 120 * k), ("large", 4 * k)]


def chain(rng, depth, nf):
    """A path of the given depth with random turns; the last split is at depth-1."""
    turns = rng.random(depth) < float(rng.choice([0.0, 1.0, 0.5, 0.1]))
    t = ("leaf", gen.leaf_value(rng))
    for right in turns:
        leaf = ("leaf", gen.leaf_value(rng))
        f = int(rng.integers(0, nf))
        t = ("split", f, 0.5, leaf, t) if right else ("split", f, 0.5, t, leaf)
    return t


def positions(t, leaves):
    for nd, d, path in gen.nodes_dfs(t):
        if leaves or nd[0] == "split" or d == 0:
            yield d, int(path.replace("L", "0").replace("R", "1") or "0", 2)


def case(ctx, rng, kind, i):
    from rankeval.analysis.topological import topological_analysis
    nf = int(rng.integers(1, 7))
    fmt = ["QuickRank", "LightGBM", "XGBoost", "ScikitLearn", "Jforests"][int(rng.integers(0, 5))]
    if kind == "forest":
        fo = gen.forest(rng, nf, allow_leaf=fmt != "Jforests", max_depth=7, weights=False)
    elif kind == "large":
        fo = gen.forest(rng, nf, n_trees=int(rng.integers(300, 800)), allow_leaf=fmt != "Jforests",
                        max_depth=9, weights=False)
    else:
        depths = [int(rng.choice([60, 60, 59, 47, 33, 32, 31, 30, 17, 16, 15]))
                  for _ in range(int(rng.integers(1, 4)))]
        fo = [(chain(rng, d, nf), 1.0) for d in depths]
        if rng.random() < 0.5:
            fo += gen.forest(rng, nf, n_trees=2, allow_leaf=fmt != "Jforests", weights=False)
        ctx.count("deep_chains")
        ctx.count("depth_60", 60 in depths)
    model = gen.model(ctx, fo, fmt)
    if rng.random() < 0.2 and len(fo) > 1:
        k = int(rng.integers(1, len(fo)))
        model, fo = model.copy(n_trees=k), fo[:k]
        ctx.count("pruned_copies")
    ctx.note(format=fmt, forest=fo if kind != "large" else len(fo))
    order = [True, False] if rng.random() < 0.5 else [False, True, False]
    ctx.count("repeated", len(order) == 3)
    for leaves in order:
        if leaves and rng.random() < 0.5:
            res = topological_analysis(model)
            ctx.count("default_include_leaves")
        else:
            res = topological_analysis(model, include_leaves=leaves)
        want = collections.Counter(p for t, _ in fo for p in positions(t, leaves))
        top = res.topology.tocoo()
        got = collections.Counter()
        for r, c, v in zip(top.row.tolist(), top.col.tolist(), top.data.tolist()):
            got[int(r), int(c)] += v
        ctx.check({k: v for k, v in got.items() if v} == dict(want), "wrong counts of positions",
                  leaves=leaves, extra={str(k): v for k, v in list(got.items()) if want.get(k) != v},
                  missing={str(k): v for k, v in want.items() if got.get(k) != v})
        ctx.count("cells", len(want))
        ctx.count("without_leaves", not leaves)
        ctx.check(res.topology.shape[0] == max(d for d, _ in want) + 1, "wrong number of levels",
                  got=res.topology.shape)
        heights = [gen.height(t) for t, _ in fo]
        ctx.equal(np.asarray(res.height_trees).astype(int), heights, "wrong heights of the trees",
                  leaves=leaves)
        d = res.describe_tree_height()
        ctx.check(d.nobs == len(fo) and tuple(int(x) for x in d.minmax) ==
                  (min(heights), max(heights)), "wrong description of the heights", got=d)
        ctx.close(d.mean, np.mean(heights), "wrong mean height")
        if len(fo) > 1:
            ctx.close(d.variance, np.var(heights, ddof=1), "wrong variance of the heights")
        shape = res.avg_tree_shape().tocoo()
        ctx.check(shape.shape == res.topology.shape, "wrong shape of the average tree")
        avg = {(int(r), int(c)): v for r, c, v in zip(shape.row, shape.col, shape.data) if v}
        ctx.check(set(avg) == set(want) and
                  all(abs(avg[k] - want[k] / len(fo)) < 1e-6 for k in want),
                  "wrong average tree shape", got={str(k): v for k, v in list(avg.items())[:20]})
        level = collections.defaultdict(list)
        for (r, _), v in want.items():
            level[r].append(v)
        ctx.close(np.asarray(res.fullness_per_level()).ravel(),
                  [np.sum(level[r]) / len(level[r]) / len(fo) for r in range(len(level))],
                  "wrong fullness of the levels", leaves=leaves)
        ctx.count("derived_statistics")
    ctx.count("fmt_" + fmt)
    ctx.count("single_leaf_trees", sum(t[0] == "leaf" for t, _ in fo))
    ctx.distinct(repr(fo))
    ctx.sample({"format": fmt, "trees": len(fo), "heights": heights[:20]})
