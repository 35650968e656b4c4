"""C23: ERR, Pfound and RBP follow their definitions."""
from mon import mets

ID = "C23"
RULE = ("random queries (ties, no relevant documents, single documents, worst orderings, long "
        "lists) and configurations (cutoff, abandonment, persistence, threshold) against an "
        "independent implementation, any tie-break accepted; alone and inside a dataset; distinct "
        "by query and configuration")
REQUIRED = ["metric_ERR", "metric_Pfound", "metric_RBP", "tied", "cutoff_below_size", "no_relevant",
            "default_parameters", "long_queries", "fractional_labels"]
ASSUMPTIONS = ["non-negative labels"]


def KINDS(tier):
    k = 3 if tier == "quick" else 135
    return [("query", 4000 * k)]


def extra(ctx, rng, name, cls, kw, f, y, p, got, orders):
    ctx.check(-1e-6 <= got <= 1 + 1e-6, "%s out of [0,1]" % name, got=got)


def case(ctx, rng, kind, i):
    mets.judge(ctx, rng, ["ERR", "Pfound", "RBP"], extra)
