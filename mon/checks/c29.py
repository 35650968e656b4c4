"""C29: cumulative distributions report the right fractions."""
import numpy as np

from mon import ana, gen, ref

ID = "C29"
RULE = ("random datasets (different sizes), models, metrics (undefined values included), bins, "
        "ranges and default ranges; bin edges, exact fractions for values strictly inside bins, "
        "monotonicity and completeness; distinct by setting")
REQUIRED = ["query_wise_curves", "graded_curves", "default_range", "given_range", "undefined_metric",
            "edges_checked", "fractions_checked", "missing_labels", "default_bins",
            "several_datasets", "late_starts", "same_name_datasets",
            "same_name_models", "same_name_metrics", "fractional_labels", "tiny_scores",
            "ends_at_zero"]
ASSUMPTIONS = ["a value equal to an inner edge may "
               "count in either adjacent bin"]


def KINDS(tier):
    k = 3 if tier == "quick" else 45
    return [("query_wise", 300 * k), ("graded", 300 * k)]


def judge_curve(ctx, curve, values, edges, total, what, lo, hi, **kw):
    """values: those observed (finite); total: the denominator; edges: bins + 1 numbers."""
    ctx.check(bool((np.diff(curve) >= -1e-6).all()), "%s decreases" % what, got=curve, **kw)
    eps = 1e-5 * max(np.abs(edges).max(), abs(lo), abs(hi))
    # edges equal to the observed extremes: the fractions are the exact ones there
    for q, e in enumerate(edges[1:]):
        low = np.sum(values < e - eps) / total
        high = np.sum(values <= e + eps) / total
        ctx.check(low - 1e-5 <= curve[q] <= high + 1e-5, "wrong fraction in %s" % what,
                  bin=q, edge=float(e), got=float(curve[q]), want=(low, high), **kw)
        ctx.count("fractions_checked")


def pick_range(ctx, rng, lo, hi):
    kw = {}
    if rng.random() < 0.5:
        kw["start"] = float(lo - rng.choice([0, 0.5, 3, -(hi - lo) / 4, -(hi - lo) / 2]))
        ctx.count("late_starts", kw["start"] > lo)
    if rng.random() < 0.5:
        kw["end"] = float(hi + rng.choice([0, 0.5, 3, -(hi - lo) / 2]))
    if rng.random() < 0.2:
        kw = {"start": float(min(0, lo)), "end": float(max(1, hi))}
    elif rng.random() < 0.25 and lo < 0:        # up to zero, which is not to say no end
        kw["end"] = 0.0
        if kw.get("start", lo) >= 0:
            kw["start"] = float(lo)
        ctx.count("ends_at_zero")
    ctx.count("given_range" if kw else "default_range")
    return kw


def case(ctx, rng, kind, i):
    return globals()[kind](ctx, rng)


def query_wise(ctx, rng):
    import rankeval.analysis.effectiveness as E
    s = ana.setting(ctx, rng, spread=True)
    vals, lo, hi, undefined = {}, np.inf, -np.inf, False
    for j in range(len(s.datasets)):
        for k in range(len(s.models)):
            p = np.asarray(s.models[k].score(s.datasets[j]))
            for m, (name, obj, f) in enumerate(s.metrics):
                det = np.array(obj.eval(s.datasets[j], p)[1], dtype=float)
                bs = ana.bounds(s, j, name, f, ana.scores(s, j, k), obj)
                for q, b in enumerate(bs):
                    if b is not None:
                        ctx.check(ana.within(det[q], b), "wrong metric of a query", metric=name)
                vals[j, k, m] = det
                if np.isfinite(det).any():
                    lo, hi = min(lo, np.nanmin(det)), max(hi, np.nanmax(det))
                undefined |= bool(np.isnan(det).any())
    if not np.isfinite(lo):
        return
    kw = pick_range(ctx, rng, lo, hi)
    bins = None
    if rng.random() < 0.6:
        bins = kw["bins"] = int(rng.choice([1, 2, 5, 10, 100]))
    else:
        bins = max(d.n_queries for d in s.datasets)
        ctx.count("default_bins")
    start, end = kw.get("start", lo), kw.get("end", hi)
    if end < start or (end == start and kw):
        return
    ctx.note(range=kw, bins=bins)
    out = E.query_wise_performance(s.datasets, s.models, s.metric_objs,
                                   cache=bool(rng.random() < 0.5), **kw)
    ana.coords(ctx, out, ("dataset", "model", "metric", "bin"), dataset=s.datasets, model=s.models,
               metric=s.metric_objs)
    edges = np.linspace(start, end, bins + 1)
    got = np.asarray(out.coords["bin"].values, dtype=float)
    ctx.check(got.shape == (bins,), "wrong number of bins", got=got.shape, want=bins)
    ctx.close(got, edges[1:], "the coordinates of the bins are not their upper edges", rtol=1e-5,
              atol=1e-6)
    ctx.count("edges_checked")
    for (j, k, m), det in vals.items():
        if np.isnan(det).any():
            ctx.count("undefined_metric")
            curve = out.values[j, k, m]
            ctx.check(bool((np.diff(curve[np.isfinite(curve)]) >= -1e-6).all()),
                      "a cumulative distribution decreases", got=curve)
            # queries whose metric is undefined may or may not be in the total
            fin = det[np.isfinite(det)]
            if len(fin):
                eps = 1e-5 * max(np.abs(edges).max(), abs(lo), abs(hi))
                for q, e in enumerate(edges[1:]):
                    low = np.sum(fin < e - eps) / len(det)
                    high = np.sum(fin <= e + eps) / len(fin)
                    ctx.check(low - 1e-5 <= curve[q] <= high + 1e-5, "wrong fraction of the "
                              "queries", bin=q, got=float(curve[q]), want=(low, high), metric=m)
            continue
        judge_curve(ctx, out.values[j, k, m], det, edges, len(det),
                    "the cumulative distribution of the queries", lo, hi, dataset=j, model=k, metric=m)
        if end >= hi:
            ctx.check(abs(out.values[j, k, m][-1] - 1) < 1e-5, "the distribution does not reach 1",
                      got=out.values[j, k, m])
        ctx.count("query_wise_curves")
    ctx.count("several_datasets", len(s.datasets) > 1)
    ctx.distinct("q", repr(kw), [r["X"] for r in s.raws], repr(s.forests))
    ctx.sample({"bins": bins, "range": kw, "metrics": [str(m) for m in s.metric_objs]})


def graded(ctx, rng):
    import rankeval.analysis.effectiveness as E
    s = ana.setting(ctx, rng)
    if rng.random() < 0.3:
        for r in s.raws:
            r["y"] = (r["y"] * rng.choice([1, 2, 5, 0.5, 0.25, 1.5])).astype(np.float32)
        s.datasets = [gen.dataset(r) for r in s.raws]
    ps = {(j, k): ana.scores(s, j, k) for j in range(len(s.datasets)) for k in range(len(s.models))}
    lo, hi = min(p.min() for p in ps.values()), max(p.max() for p in ps.values())
    kw = pick_range(ctx, rng, lo, hi)
    bins = 100
    if rng.random() < 0.7:
        bins = kw["bins"] = int(rng.choice([1, 2, 5, 10, 200]))
    start, end = kw.get("start", lo), kw.get("end", hi)
    if end < start or (end == start and ("start" in kw or "end" in kw)):
        return
    ctx.note(range=kw, bins=bins)
    out = E.document_graded_relevance(s.datasets, s.models, cache=bool(rng.random() < 0.5), **kw)
    ana.coords(ctx, out, ("dataset", "model", "label", "bin"), dataset=s.datasets, model=s.models)
    labels = sorted({float(v) for r in s.raws for v in r["y"]})
    ctx.equal(np.asarray(out.coords["label"].values, dtype=float), labels, "wrong labels")
    edges = np.linspace(start, end, bins + 1)
    got = np.asarray(out.coords["bin"].values, dtype=float)
    ctx.check(got.shape == (bins,), "wrong number of bins", got=got.shape)
    ctx.close(got, edges[1:], "the coordinates of the bins are not their upper edges", rtol=1e-5,
              atol=1e-6 * np.abs(edges).max())
    ctx.count("edges_checked")
    for (j, k), p in ps.items():
        for a, lab in enumerate(labels):
            sel = p[s.raws[j]["y"] == lab]
            curve = out.values[j, k, a]
            if not len(sel):
                ctx.check(bool((np.isnan(curve) | (curve == 0)).all()),
                          "a fraction for a label the dataset does not have", got=curve)
                ctx.count("missing_labels")
                continue
            judge_curve(ctx, curve, sel, edges, len(sel), "the distribution of a label", lo, hi,
                        dataset=j, model=k, label=lab)
            if end >= hi:
                ctx.check(abs(curve[-1] - 1) < 1e-5, "the distribution does not reach 1", got=curve)
            ctx.count("graded_curves")
    ctx.count("fractional_labels", any(v % 1 for v in labels))
    ctx.count("several_datasets", len(s.datasets) > 1)
    ctx.distinct("g", repr(kw), [r["X"] for r in s.raws], repr(s.forests))
