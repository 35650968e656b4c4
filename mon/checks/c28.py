"""C28: model and tree-wise performance equal direct evaluation."""
import numpy as np

from mon import ana, gen, ref

ID = "C28"
RULE = ("random lists of datasets (different sizes), models (different numbers of trees, learning "
        "rates, base scores) and metrics, steps below/at/above the number of trees, cache on or off; "
        "every cell compared with the reference scores of the leading trees and the metric "
        "definitions; distinct by setting")
REQUIRED = ["cells_model", "cells_tree_wise", "cells_contribution", "nan_cells", "step_above_trees",
            "several_datasets", "several_models", "cached", "base_score", "last_tree_off_step", "default_step",
            "same_name_datasets", "same_name_models", "same_name_metrics"]
ASSUMPTIONS = ["where scores tie, the value must lie between those of the tie-breaks"]


def KINDS(tier):
    k = 3 if tier == "quick" else 45
    return [("model", 150 * k), ("tree_wise", 200 * k), ("contribution", 100 * k)]


def case(ctx, rng, kind, i):
    import rankeval.analysis.effectiveness as E
    long = kind == "tree_wise" and rng.random() < 0.25
    s = ana.setting(ctx, rng, max_trees=26 if long else 8)
    cache = bool(rng.random() < 0.5)
    nt = [len(f) for f in s.forests]
    ctx.count("several_datasets", len(s.datasets) > 1)
    ctx.count("several_models", len(s.models) > 1)
    ctx.count("cached", cache)
    ctx.count("base_score", any(p[1] for p in s.params))
    ctx.distinct(kind, repr(s.forests), [r["X"] for r in s.raws], [str(m) for m in s.metric_objs])
    for turn in range(2 if cache else 1):
        if kind == "model":
            out = E.model_performance(s.datasets, s.models, s.metric_objs, cache=cache)
            ana.coords(ctx, out, ("dataset", "model", "metric"), dataset=s.datasets, model=s.models,
                       metric=s.metric_objs)
            v = out.values
            for j in range(len(s.datasets)):
                for k in range(len(s.models)):
                    p = ana.scores(s, j, k)
                    for m, (name, obj, f) in enumerate(s.metrics):
                        b = ana.overall(name, ana.bounds(s, j, name, f, p, obj))
                        if b is not None:
                            ctx.check(ana.within(v[j, k, m], b), "wrong performance of a model",
                                      dataset=j, model=k, metric=name, got=float(v[j, k, m]), want=b)
                            ctx.count("cells_model")
        elif kind == "tree_wise":
            step = 10 if long else int(rng.choice([1, 2, 3, 4, 7, 10, 50]))
            ctx.note(step=step)
            kw = {"step": step} if step != 10 or rng.random() < 0.5 else {}
            ctx.count("default_step", not kw and max(nt) > 11)
            out = E.tree_wise_performance(s.datasets, s.models, s.metric_objs, cache=cache, **kw)
            ks = list(range(step, max(nt) + 1, step))
            if not ks or ks[-1] != max(nt):
                ks.append(max(nt))
                ctx.count("last_tree_off_step")
            ana.coords(ctx, out, ("dataset", "model", "k", "metric"), dataset=s.datasets,
                       model=s.models, metric=s.metric_objs)
            ctx.equal(np.asarray(out.coords["k"].values).astype(int), ks, "wrong numbers of trees")
            v = out.values
            for j in range(len(s.datasets)):
                for k in range(len(s.models)):
                    for q, kk in enumerate(ks):
                        past = q > 0 and ks[q - 1] >= nt[k]
                        p = None if past else ana.scores(s, j, k, min(kk, nt[k]))
                        for m, (name, obj, f) in enumerate(s.metrics):
                            if past:
                                ctx.check(np.isnan(v[j, k, q, m]), "a value past the last tree of "
                                          "the model", got=float(v[j, k, q, m]), k=kk, model=k)
                                ctx.count("nan_cells")
                                continue
                            b = ana.overall(name, ana.bounds(s, j, name, f, p, obj))
                            if b is not None:
                                ctx.check(ana.within(v[j, k, q, m], b),
                                          "wrong performance of the leading trees", dataset=j,
                                          model=k, k=kk, metric=name, got=float(v[j, k, q, m]), want=b)
                                ctx.count("cells_tree_wise")
            ctx.count("step_above_trees", step > min(nt))
        else:
            out = E.tree_wise_average_contribution(s.datasets, s.models, cache=cache)
            ana.coords(ctx, out, ("dataset", "model", "trees"), dataset=s.datasets, model=s.models)
            ctx.equal(np.asarray(out.coords["trees"].values).astype(int), np.arange(max(nt)),
                      "wrong coordinates of the trees")
            v = out.values
            for j in range(len(s.datasets)):
                for k in range(len(s.models)):
                    lr, base = s.params[k]
                    part = ref.partials(s.forests[k], s.raws[j]["X"]) * lr
                    part[:, 0] += base
                    want = np.full(max(nt), np.nan)
                    want[:nt[k]] = np.abs(part).mean(axis=0)
                    ctx.close(v[j, k], want, "wrong average contribution of the trees", dataset=j,
                              model=k)
                    ctx.count("cells_contribution", nt[k])
                    ctx.count("nan_cells", max(nt) - nt[k])
    ctx.sample({"kind": kind, "trees": nt, "metrics": [str(m) for m in s.metric_objs]})
