"""C25: error and rank-correlation metrics follow their definitions."""
import numpy as np

from mon import gen, mets, ref

ID = "C25"
RULE = ("random queries (ties, constant labels or scores, single documents, negative and fractional "
        "labels) and cutoffs against independent implementations (tau-b by pair counting); whole "
        "datasets for the overall MSE; distinct by query and configuration")
REQUIRED = ["metric_MSE", "metric_RMSE", "metric_Kendalltau", "metric_SpearmanRho", "tied",
            "cutoff_below_size", "undefined", "datasets"]
ASSUMPTIONS = []


def KINDS(tier):
    k = 3 if tier == "quick" else 135
    return [("query", 3000 * k), ("dataset", 400 * k)]


def extra(ctx, rng, name, cls, kw, f, y, p, got, orders):
    ctx.count("undefined", got != got)
    if name in ("Kendalltau", "SpearmanRho"):
        ctx.check(got != got or abs(got) <= 1 + 1e-6, "a correlation out of [-1,1]", got=got)


def case(ctx, rng, kind, i):
    if kind == "query":
        mets.judge(ctx, rng, ["MSE", "RMSE", "Kendalltau", "SpearmanRho"], extra)
        return
    raw = gen.raw_dataset(rng)
    d = gen.dataset(raw)
    n = len(raw["y"])
    p = (rng.permutation(n) * 0.25 - 3).astype(np.float32)
    name = str(rng.choice(["MSE", "RMSE"]))
    cls, kw, f = mets.make(rng, name)
    per = []
    for _, s, e in gen.blocks(raw):
        per.append(f(raw["y"][s:e], p[s:e], list(np.argsort(-p[s:e]))))
    avg, det = cls(**kw).eval(d, p)
    ctx.note(metric=name, params=kw, y=raw["y"], y_pred=p, qid=raw["qid"])
    if name == "MSE":
        ctx.close(det, np.array(per) / n, "wrong per-query errors", rtol=1e-5, atol=1e-7)
        ctx.check(mets.same(avg, sum(per) / n), "wrong overall MSE", got=float(avg), want=sum(per) / n)
        if not kw:
            ctx.check(mets.same(avg, ((raw["y"].astype(float) - p) ** 2).mean()), "MSE is not the "
                      "mean of the squared errors of the instances")
    else:
        ctx.close(det, per, "wrong per-query errors", rtol=1e-5, atol=1e-7)
        ctx.check(mets.same(avg, np.mean(per)), "wrong overall RMSE", got=float(avg))
    ctx.count("datasets")
    ctx.distinct("d", name, raw["y"], p)
