"""C22: DCG and NDCG follow their definitions."""
import numpy as np

from mon import mets, ref

ID = "C22"
RULE = ("random queries (ties, no relevant documents, single documents, worst and ideal orderings, "
        "long lists) and configurations (cutoff, gain, default value) against an independent "
        "implementation, any tie-break accepted; alone and inside a dataset; NDCG bounds and ideal "
        "orderings; distinct by query and configuration")
REQUIRED = ["metric_DCG", "metric_NDCG", "tied", "cutoff_below_size", "no_relevant",
            "default_parameters", "ideal_orderings", "long_queries", "fractional_labels"]
ASSUMPTIONS = ["non-negative labels"]


def KINDS(tier):
    k = 3 if tier == "quick" else 135
    return [("query", 4000 * k)]


def extra(ctx, rng, name, cls, kw, f, y, p, got, orders):
    if name == "NDCG":
        ctx.check(-1e-6 <= got <= 1 + 1e-6 or not (y > 0).any(), "NDCG out of [0,1]", got=got)
        ideal = np.empty(len(y))
        ideal[ref.ideal_order(y)] = -np.arange(len(y)) * 0.5
        v = float(cls(**kw).eval_per_query(y, ideal))
        want = 1.0 if (y > 0).any() else kw.get("no_relevant_results", 1.0)
        ctx.check(mets.same(v, want), "NDCG of an ideal ordering", got=v, want=want)
        ctx.count("ideal_orderings")


def case(ctx, rng, kind, i):
    mets.judge(ctx, rng, ["DCG", "NDCG"], extra)
