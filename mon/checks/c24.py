"""C24: Precision, Recall, MAP and MRR follow their definitions."""
from mon import mets

ID = "C24"
RULE = ("random queries (ties, no relevant documents, single documents, worst orderings, long "
        "lists) and configurations (cutoff, threshold, default value) against an independent "
        "implementation, any tie-break accepted; alone and inside a dataset; distinct by query and "
        "configuration")
REQUIRED = ["metric_Precision", "metric_PrecisionMax", "metric_Recall", "metric_MAP", "metric_MRR",
            "tied", "cutoff_below_size", "no_relevant", "default_parameters", "long_queries", "fractional_labels",
            "relevant_not_retrieved"]
ASSUMPTIONS = ["non-negative labels"]


def KINDS(tier):
    k = 3 if tier == "quick" else 135
    return [("query", 5000 * k)]


def extra(ctx, rng, name, cls, kw, f, y, p, got, orders):
    ctx.check(-1e-6 <= got <= 1 + 1e-6, "%s out of [0,1]" % name, got=got)
    if name == "MAP":
        top = orders[0][:kw.get("cutoff")]
        ctx.count("relevant_not_retrieved", (y > 0).any() and not any(y[d] > 0 for d in top))


def case(ctx, rng, kind, i):
    mets.judge(ctx, rng, ["Precision", "PrecisionMax", "Recall", "MAP", "MRR"], extra)
