"""C37: the artists drawn by the plotting functions against the values given."""
import re

import numpy as np

from mon import ana, gen, mets

ID = "C37"
RULE = ("results of the analyses on random settings, with values replaced by random ones (negative, "
        "undefined, all undefined) half of the times; every bar, line, cell and text of the figures "
        "read back and matched with its label; distinct by values and options")
REQUIRED = ["bars", "bar_texts", "lines", "max_markers", "cells", "feature_bars", "shape_cells",
            "undefined_values", "all_undefined", "negative_values", "single_label", "deep_shapes",
            "several_models", "several_datasets", "log_matrices", "rejected_options",
            "real_values", "named_features", "max_features_all", "style", "inputs_compared", "fractional_labels",
            "points_in_view", "uneven_last_step", "other_figures_open"]
ASSUMPTIONS = ["headless backend; colours, fonts and placement of legends are not judged",
               "models and datasets have different names, and datasets different contents (the "
               "results are looked up by dataset)"]


def KINDS(tier):
    k = 2 if tier == "quick" else 40
    return [("model_performance", 22 * k), ("tree_wise", 36 * k), ("contribution", 10 * k),
            ("query_wise", 16 * k), ("graded", 12 * k), ("confusion", 16 * k),
            ("query_class", 20 * k), ("features", 40 * k), ("shape", 16 * k), ("options", 6)]


def case(ctx, rng, kind, i):
    import matplotlib.pyplot as plt
    del GIVEN[:]
    try:
        others = {}
        if rng.random() < 0.3 and kind != "options":    # with other figures open
            if rng.random() < 0.5:
                globals()[kind](ctx, rng)               # ... of an earlier call
            else:
                fig, axes = plt.subplots(2)
                axes[0].plot([1, 2], [3, 4], label="mine")
                axes[1].bar([1, 2], [3, 4])
                axes[1].set_title("mine")
            others = {k: (plt.figure(k), drawn(plt.figure(k))) for k in plt.get_fignums()}
            ctx.count("other_figures_open", len(others))
        globals()[kind](ctx, rng)
        for k, (fig, was) in others.items():
            ctx.check(plt.fignum_exists(k) and plt.figure(k) is fig and drawn(fig) == was,
                      "a plot drew on, or closed, a figure that was already there",
                      before=was, after=drawn(fig))
        for given, copy in GIVEN:
            ctx.check(np.array_equal(given.values, copy, equal_nan=True),
                      "plotting the results of an analysis modified them")
            ctx.count("inputs_compared")
    finally:
        plt.close("all")


def drawn(fig):
    """What a figure shows, as far as another plot could have added to it or changed it."""
    sup = fig._suptitle.get_text() if fig._suptitle is not None else None
    return (sup, [(a.get_title(), a.get_xlabel(), a.get_ylabel(), a.get_xlim(), a.get_ylim(),
                   len(a.lines), len(a.patches), len(a.collections), len(a.images), len(a.texts),
                   [t.get_text() for t in a.get_legend().get_texts()] if a.get_legend() else None)
                  for a in fig.axes])


# ------------------------------------------------------------------------ settings

def settings(ctx, rng, **kw):
    while True:
        s = ana.setting(ctx, rng, max_queries=4, max_size=5, max_trees=6, metrics=mets.RANKING +
                        ["Kendalltau"], clash=False, **kw)
        if all(a is b or a != b for a in s.datasets for b in s.datasets):
            break
    seen = {}
    for name, obj, f in s.metrics:
        seen.setdefault(str(obj), (name, obj, f))
    s.metrics = list(seen.values())
    s.metric_objs = [m for _, m, _ in s.metrics]
    ctx.count("several_models", len(s.models) > 1)
    ctx.count("several_datasets", len(s.datasets) > 1)
    return s


GIVEN = []


def given(perf):
    GIVEN.append((perf, perf.values.copy()))
    return perf


def disturb(ctx, rng, perf, low=-2.0, nan_axis=None):
    """Replaces the values of an analysis by others that tell every cell from the others."""
    u = rng.random()
    v = perf.values
    if u < 0.4:
        ctx.count("real_values")
        return given(perf)
    v = rng.permutation(v.size).reshape(v.shape) / float(v.size) + 0.01
    if u < 0.6:
        v = v + low / 2 * rng.random()
        ctx.count("negative_values", bool((v < 0).any()))
    if u > 0.7:
        v[rng.random(v.shape) < 0.3] = np.nan
    if u > 0.8:
        v[:, int(rng.integers(0, v.shape[1]))] = np.nan
    if u > 0.93:
        v[:] = np.nan
        ctx.count("all_undefined")
    ctx.count("undefined_values", bool(np.isnan(v).any()))
    perf = perf.copy()
    perf.values[...] = v.astype(perf.values.dtype)
    return given(perf)


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-7, equal_nan=True)


def title(fig, ax=None):
    t = fig._suptitle.get_text() if fig._suptitle is not None else ""
    return t + " " + (ax.get_title() if ax is not None else "")


def figures(ctx, figs, names):
    ctx.check(isinstance(figs, list) and len(figs) == len(names), "wrong number of figures",
              got=len(figs), want=names)
    ctx.check(len({id(f) for f in figs}) == len(figs), "a figure is returned twice")
    for f in figs:
        f.canvas.draw()


def legend(ax):
    """{colour: label} of the legend of the axes."""
    import matplotlib.colors as C
    lg = ax.get_legend()
    out = []
    for h, t in zip(lg.legend_handles, lg.get_texts()):
        c = h.get_facecolor() if hasattr(h, "get_facecolor") else h.get_color()
        out.append((C.to_hex(c), t.get_text()))
    return out


def in_view(ctx, ax, xs, ys, what):
    """Whether the finite points fall in the axes' limits."""
    ok = np.isfinite(np.asarray(xs, dtype=float)) & np.isfinite(np.asarray(ys, dtype=float))
    for (lo, hi), v in ((sorted(ax.get_xlim()), np.asarray(xs, dtype=float)[ok]),
                        (sorted(ax.get_ylim()), np.asarray(ys, dtype=float)[ok])):
        m = (hi - lo) / 100
        ctx.check(bool(((lo - m <= v) & (v <= hi + m)).all()), what + " out of view", view=(lo, hi),
                  values=v)
        ctx.count("points_in_view", len(v))


def bars(ctx, ax, lg, want, groups, labels, ylim_values, show):
    """want: {(label, group): value}."""
    import matplotlib.colors as C
    ctx.check([t for _, t in lg] == labels, "the legend does not list what is compared",
              got=lg, want=labels)
    ctx.check(len({c for c, _ in lg}) == len(lg), "two entries of the legend look the same", got=lg)
    ticks = ax.get_xticks()
    names = [t.get_text() for t in ax.get_xticklabels()]
    ctx.check(names == groups, "wrong labels of the groups of bars", got=names, want=groups)
    by_colour = dict(lg)
    rects = [p for p in ax.patches if hasattr(p, "get_height")]
    got, centers = {}, {}
    for r in rects:
        x = r.get_x() + r.get_width() / 2
        g = int(np.argmin(np.abs(np.asarray(ticks) - x)))
        key = (by_colour.get(C.to_hex(r.get_facecolor())), names[g])
        ctx.check(key not in got, "two bars for the same value", key=key)
        got[key] = r.get_height() if r.get_y() == 0 else np.inf
        centers[key] = x
    ctx.check(set(got) == set(want), "wrong set of bars", got=sorted(map(str, got)),
              want=sorted(map(str, want)))
    spans = sorted((r.get_x(), r.get_x() + r.get_width()) for r in rects)
    ctx.check(all(a[1] <= b[0] + 1e-9 for a, b in zip(spans, spans[1:])), "bars overlap")
    lo, hi = sorted(ax.get_ylim())
    for k, v in want.items():
        ctx.check(same(got[k], v), "a bar does not show its value", bar=k, got=got[k], want=float(v))
        ctx.check(v != v or lo - (hi - lo) / 100 <= v <= hi + (hi - lo) / 100, "a bar is out of view", bar=k, value=float(v),
                  view=(lo, hi))
        ctx.count("bars")
    for r in rects:
        in_view(ctx, ax, [r.get_x(), r.get_x() + r.get_width()], [0 * r.get_height()] * 2, "a bar is")
    if show:
        for t in ax.texts:
            x, y = t.get_position()
            k = min(centers, key=lambda k: abs(centers[k] - x))
            r = max(s[1] - s[0] for s in spans)
            ctx.check(abs(centers[k] - x) <= r / 2 + 1e-9 and
                      (want[k] != want[k] or abs(y - want[k]) <= (hi - lo) / 20),
                      "the text of a bar is not over it", bar=k, text=(x, y), value=float(want[k]))
        texts = {}
        for t in ax.texts:
            x = t.get_position()[0]
            texts.setdefault(min(centers, key=lambda k: abs(centers[k] - x)), []).append(t.get_text())
        for k, v in want.items():
            ctx.check(len(texts.get(k, [])) == 1, "wrong number of texts on a bar", bar=k,
                      got=texts.get(k))
            t = float(texts[k][0])
            ctx.check((t != t and v != v) or abs(t - v) <= 0.0005001 + 1e-6 * abs(v),
                      "the text on a bar is not its value", bar=k, got=t, want=float(v))
            ctx.count("bar_texts")
    else:
        ctx.check(not ax.texts, "texts on the bars were not asked for")


def data_lines(ax):
    return [l for l in ax.lines if not l.get_label().startswith("_") and l.get_label() != "Max"]


# ------------------------------------------------------------------------ effectiveness

def model_performance(ctx, rng):
    import rankeval.analysis.effectiveness as E
    from rankeval.visualization import effectiveness as V
    s = settings(ctx, rng)
    perf = disturb(ctx, rng, E.model_performance(s.datasets, s.models, s.metric_objs))
    compare = str(rng.choice(["models", "metrics"]))
    show = bool(rng.random() < 0.5)
    ctx.note(compare=compare, show=show, values=perf.values)
    figs = V.plot_model_performance(perf, compare=compare, show_values=show)
    figures(ctx, figs, s.datasets)
    mo, me = [str(m) for m in s.models], [str(m) for m in s.metric_objs]
    for j, fig in enumerate(figs):
        ax = fig.axes[0]
        ctx.check(s.datasets[j].name in title(fig, ax), "the figure does not name its dataset")
        v = perf.values[j]
        if compare == "models":
            want = {(a, b): v[x, y] for x, a in enumerate(mo) for y, b in enumerate(me)}
            bars(ctx, ax, legend(ax), want, me, mo, v, show)
        else:
            want = {(b, a): v[x, y] for x, a in enumerate(mo) for y, b in enumerate(me)}
            bars(ctx, ax, legend(ax), want, mo, me, v, show)
    ctx.distinct("mp", compare, show, perf.values)


def query_class(ctx, rng):
    import rankeval.analysis.effectiveness as E
    from rankeval.visualization import effectiveness as V
    s = settings(ctx, rng)
    pool = ["nav", "info", "z"] if rng.random() < 0.5 else [3, 0, 11]
    classes = [[pool[int(rng.integers(0, 3))] for _ in r["sizes"]] for r in s.raws]
    perf = disturb(ctx, rng, E.query_class_performance(s.datasets, s.models, s.metric_objs, classes))
    compare = str(rng.choice(["models", "metrics"]))
    show = bool(rng.random() < 0.5)
    ctx.note(compare=compare, show=show, values=perf.values)
    figs = V.plot_query_class_performance(perf, compare=compare, show_values=show)
    figures(ctx, figs, s.datasets)
    mo, me = [str(m) for m in s.models], [str(m) for m in s.metric_objs]
    cl = [str(c) for c in perf.coords["classes"].values]
    for j, fig in enumerate(figs):
        ctx.check(s.datasets[j].name in title(fig), "the figure does not name its dataset")
        panels, series = (mo, me) if compare == "metrics" else (me, mo)
        ctx.check(len(fig.axes) == len(panels), "wrong number of panels", got=len(fig.axes))
        lg = legend(fig.axes[-1])
        for x, ax in enumerate(fig.axes):
            label = ax.get_ylabel() + " " + ax.get_title()
            ctx.check(panels[x] in label, "a panel does not name what it shows", got=label,
                      want=panels[x])
            v = perf.values[j][x] if compare == "metrics" else perf.values[j][:, x]
            want = {(a, c): v[y, z] for y, a in enumerate(series) for z, c in enumerate(cl)}
            bars(ctx, ax, lg, want, cl, series, v, show)
        ctx.check(s.datasets[j].name in title(fig) and
                  not any(m in title(fig) for m in mo if len(mo) > 1),
                  "the title of the figure names a single model", got=title(fig))
    ctx.distinct("qc", compare, show, perf.values)


def curves(ctx, fig, panels, series, xs, values, markers=False):
    """values[panel][series]: the curve."""
    ctx.check(len(fig.axes) == len(panels), "wrong number of panels", got=len(fig.axes),
              want=panels)
    for a, ax in enumerate(fig.axes):
        lines = data_lines(ax)
        ctx.check([l.get_label() for l in lines] == series, "wrong curves",
                  got=[l.get_label() for l in lines], want=series)
        for b, l in enumerate(lines):
            ctx.check(same(l.get_xdata(), xs), "wrong abscissas of a curve", got=l.get_xdata(),
                      want=xs)
            ctx.check(same(l.get_ydata(), values[a][b]), "a curve does not show its values",
                      panel=panels[a], curve=series[b], got=l.get_ydata(), want=values[a][b])
            in_view(ctx, ax, l.get_xdata(), l.get_ydata(), "points of a curve are")
            ctx.count("lines")
        cols = [l.get_color() for l in lines]
        ctx.check(len(set(cols)) == len(cols), "two curves look the same")
        if markers:
            got = sorted((float(x), float(y)) for l in ax.lines if l.get_label().startswith("_")
                         for x, y in zip(l.get_xdata(), l.get_ydata()))
            for b in range(len(series)):
                v = np.asarray(values[a][b], dtype=float)
                if np.isfinite(v).any():
                    best = [(float(x), float(y)) for x, y in zip(xs, v) if y == np.nanmax(v)]
                    ctx.check(any(p in got for p in best), "the maximum of a curve is not marked",
                              got=got, want=best)
                    ctx.count("max_markers")
            n = sum(np.isfinite(np.asarray(values[a][b], dtype=float)).any()
                    for b in range(len(series)))
            ctx.check(len(got) == n, "wrong number of maxima", got=got, want=n)
    import matplotlib.colors as C
    lg = [x for x in legend(fig.axes[-1]) if x[1] != "Max"]
    ctx.check([t for _, t in lg] == series, "the legend does not list the curves", got=lg,
              want=series)
    for l, (c, t) in zip(data_lines(fig.axes[-1]), lg):
        ctx.check(C.to_hex(l.get_color()) == c, "the legend does not match the curves")


def tree_wise(ctx, rng):
    import rankeval.analysis.effectiveness as E
    from rankeval.visualization import effectiveness as V
    s = settings(ctx, rng)
    top = max(m.n_trees for m in s.models)
    steps = [1, 2, 10]
    # a last number of trees that does not follow the step
    uneven = [k for k in range(2, top) if top % k]
    if uneven and rng.random() < 0.6:
        steps = uneven
        ctx.count("uneven_last_step")
    perf = disturb(ctx, rng, E.tree_wise_performance(s.datasets, s.models, s.metric_objs,
                                                     step=int(rng.choice(steps))))
    compare = str(rng.choice(["models", "metrics", "datasets"]))
    ctx.note(compare=compare, values=perf.values)
    figs = V.plot_tree_wise_performance(perf, compare=compare)
    ds, mo, me = ([d.name for d in s.datasets], [str(m) for m in s.models],
                  [str(m) for m in s.metric_objs])
    ks = np.asarray(perf.coords["k"].values, dtype=float)
    v = perf.values                      # dataset, model, k, metric
    if compare == "datasets":
        figures(ctx, figs, mo)
        spec = [(mo[x], me, ds, v[:, x].transpose(2, 0, 1)) for x in range(len(mo))]
    elif compare == "models":
        figures(ctx, figs, ds)
        spec = [(ds[x], me, mo, v[x].transpose(2, 0, 1)) for x in range(len(ds))]
    else:
        figures(ctx, figs, ds)
        spec = [(ds[x], mo, me, v[x].transpose(0, 2, 1)) for x in range(len(ds))]
    for fig, (name, panels, series, val) in zip(figs, spec):
        ctx.check(name in title(fig), "the figure does not name what it shows", got=title(fig))
        for a, ax in enumerate(fig.axes):
            ctx.check(ax.get_ylabel() == panels[a], "a panel does not name what it shows",
                      got=ax.get_ylabel(), want=panels[a])
        curves(ctx, fig, panels, series, ks, val, markers=True)
    ctx.distinct("tw", compare, perf.values)


def query_wise(ctx, rng):
    import rankeval.analysis.effectiveness as E
    from rankeval.visualization import effectiveness as V
    s = settings(ctx, rng)
    perf = E.query_wise_performance(s.datasets, s.models, s.metric_objs,
                                    bins=int(rng.choice([1, 3, 20])), start=-1.0, end=20.0)
    perf = disturb(ctx, rng, perf, low=0)
    compare = str(rng.choice(["models", "metrics"]))
    ctx.note(compare=compare, values=perf.values)
    figs = V.plot_query_wise_performance(perf, compare=compare)
    figures(ctx, figs, s.datasets)
    mo, me = [str(m) for m in s.models], [str(m) for m in s.metric_objs]
    xs = np.asarray(perf.coords["bin"].values, dtype=float)
    for j, fig in enumerate(figs):
        ctx.check(s.datasets[j].name in title(fig), "the figure does not name its dataset")
        v = perf.values[j].astype(float) * 100
        if compare == "metrics":
            curves(ctx, fig, mo, me, xs, v)
        else:
            curves(ctx, fig, me, mo, xs, v.transpose(1, 0, 2))
            # the last panel at least names its metric
            ctx.check(fig.axes[-1].get_xlabel() == me[-1], "a panel does not name its metric")
    ctx.distinct("qw", compare, perf.values)


def contribution(ctx, rng):
    import rankeval.analysis.effectiveness as E
    from rankeval.visualization import effectiveness as V
    s = settings(ctx, rng)
    perf = disturb(ctx, rng, E.tree_wise_average_contribution(s.datasets, s.models))
    ctx.note(values=perf.values)
    figs = V.plot_tree_wise_average_contribution(perf)
    figures(ctx, figs, s.datasets)
    for j, fig in enumerate(figs):
        ctx.check(s.datasets[j].name in title(fig), "the figure does not name its dataset")
        ctx.check(len(fig.axes) == len(s.models), "wrong number of panels", got=len(fig.axes))
        for k, ax in enumerate(fig.axes):
            ctx.check(len(ax.lines) == 1, "wrong number of curves", got=len(ax.lines))
            ctx.check(same(ax.lines[0].get_ydata(), perf.values[j, k]),
                      "a curve does not show its values", got=ax.lines[0].get_ydata(),
                      want=perf.values[j, k])
            ctx.check(same(ax.lines[0].get_xdata(), np.arange(perf.values.shape[2])),
                      "wrong abscissas of a curve", got=ax.lines[0].get_xdata())
            in_view(ctx, ax, ax.lines[0].get_xdata(), ax.lines[0].get_ydata(), "points of a curve are")
            ctx.check([t for _, t in legend(ax)] == [str(s.models[k])],
                      "a panel does not name its model", got=legend(ax))
            ctx.count("lines")
    ctx.distinct("co", perf.values)


def graded(ctx, rng):
    import matplotlib.colors as C
    import rankeval.analysis.effectiveness as E
    from rankeval.visualization import effectiveness as V
    s = settings(ctx, rng, max_metrics=1)
    if rng.random() < 0.3:
        for d in s.datasets:
            d.y = d.y / d.y.dtype.type(4)
        ctx.count("fractional_labels", any((d.y % 1).any() for d in s.datasets))
    perf = disturb(ctx, rng, E.document_graded_relevance(s.datasets, s.models,
                                                         bins=int(rng.choice([1, 5, 30]))), low=0)
    ctx.note(values=perf.values)
    figs = V.plot_document_graded_relevance(perf)
    figures(ctx, figs, s.datasets)
    labels = [float(v) for v in perf.coords["label"].values]
    xs = np.asarray(perf.coords["bin"].values, dtype=float)
    for j, fig in enumerate(figs):
        ctx.check(len(fig.axes) == len(s.models), "wrong number of panels", got=len(fig.axes))
        lg = legend(fig.axes[-1])
        ctx.check(all(re.match(r"^Label \S+$", t) for _, t in lg) and
                  [float(t.split()[1]) for _, t in lg] == labels,
                  "the legend does not list the labels", got=lg, want=labels)
        for k, ax in enumerate(fig.axes):
            t = title(fig, ax)
            ctx.check(s.datasets[j].name in t and s.models[k].name in t,
                      "a panel does not name its dataset and model", got=t)
            ctx.check(len(ax.lines) == len(labels), "wrong number of curves", got=len(ax.lines))
            by = {C.to_hex(l.get_color()): l for l in ax.lines}
            for a, (c, t) in enumerate(lg):
                ctx.check(c in by, "no curve has the colour of the legend")
                ctx.check(same(by[c].get_ydata(), perf.values[j, k, a]) and
                          same(by[c].get_xdata(), xs), "a curve does not show its values", label=t,
                          got=by[c].get_ydata(), want=perf.values[j, k, a])
                in_view(ctx, ax, by[c].get_xdata(), by[c].get_ydata(), "points of a curve are")
                ctx.count("lines")
    ctx.distinct("gr", perf.values)


def confusion(ctx, rng):
    import rankeval.analysis.effectiveness as E
    from matplotlib.collections import QuadMesh
    from rankeval.visualization import effectiveness as V
    s = settings(ctx, rng, max_metrics=1)
    if rng.random() < 0.25:
        lab = float(rng.integers(0, 3))
        for d in s.datasets:
            d.y = np.full_like(d.y, lab)
        ctx.count("single_label")
    perf = E.rank_confusion_matrix(s.datasets, s.models)
    if rng.random() < 0.5:
        perf = perf.copy()
        perf.values[...] = rng.permutation(perf.values.size).reshape(perf.values.shape) * 3 + 1
        if rng.random() < 0.5:
            perf.values.reshape(-1)[int(rng.integers(0, perf.values.size))] = 10 ** 6
    ctx.note(values=perf.values)
    given(perf)
    figs = V.plot_rank_confusion_matrix(perf)
    figures(ctx, figs, s.datasets)
    n = perf.values.shape[2]
    for j, fig in enumerate(figs):
        ctx.check(len(fig.axes) == len(s.models), "wrong number of panels", got=len(fig.axes))
        for k, ax in enumerate(fig.axes):
            t = title(fig, ax)
            ctx.check(s.datasets[j].name in t and s.models[k].name in t,
                      "a panel does not name its dataset and model", got=t)
            mesh = [c for c in ax.collections if isinstance(c, QuadMesh)]
            ctx.check(len(mesh) == 1, "wrong number of matrices", got=len(mesh))
            got = np.ma.filled(np.ma.asarray(mesh[0].get_array()).astype(float), -np.inf).reshape(n, n)
            names = (ax.get_ylabel().strip().lower()[-1:], ax.get_xlabel().strip().lower()[-1:])
            ctx.check(names in (("i", "j"), ("j", "i")), "the axes are not named", got=names)
            want = perf.values[j, k].astype(float)
            if names == ("j", "i"):
                want = want.T
            with np.errstate(divide="ignore"):
                logs = [np.log(want), np.log2(want), np.log10(want)]
            plain = np.allclose(got, want)
            ctx.check(plain or any(np.allclose(got, l) for l in logs),
                      "the cells of the matrix are not its values", got=got, want=want)
            ctx.count("log_matrices", not plain)
            ctx.count("cells", n * n)
    ctx.distinct("cm", perf.values)


# ------------------------------------------------------------------------ features and shape

def features(ctx, rng):
    import xarray as xr
    from rankeval.analysis.feature import feature_importance
    from rankeval.visualization.feature import plot_feature_importance
    n = int(rng.choice([1, 2, 3, 5, 8, 15, 40]))
    if rng.random() < 0.4:
        raw = gen.raw_dataset(rng, n_features=n)
        fo = gen.forest(rng, n, X=raw["X"])
        perf = feature_importance(gen.model(ctx, fo), gen.dataset(raw),
                                  normalize=bool(rng.random() < 0.5))
        ctx.count("real_values")
    else:
        imp = rng.permutation(n) / 8.0 - float(rng.choice([0, 0, 1]))
        cnt = rng.permutation(n) * float(rng.choice([1, 1000, 65530])) + rng.integers(0, 2)
        if rng.random() < 0.2:
            imp[rng.random(n) < 0.5] = 0.5
        perf = xr.DataArray(np.array([imp, cnt], dtype=np.float64),
                            coords=[["importance", "count"], np.arange(n, dtype=np.uint16)],
                            dims=["type", "feature"], name="Feature Importance Analysis")
    given(perf)
    imp, cnt = perf.values[0].astype(float), perf.values[1].astype(float)
    kw, top = {}, 10
    u = rng.random()
    if u < 0.3:
        kw["max_features"] = top = int(rng.choice([1, 2, 3, 10, 100]))
    elif u < 0.5:
        kw["max_features"] = None
        top = n
        ctx.count("max_features_all")
    by = "gain"
    if rng.random() < 0.6:
        kw["sort_by"] = by = str(rng.choice(["gain", "count"]))
    names = None
    if rng.random() < 0.4:
        names = ["feat_%c%d" % (97 + k % 26, k) for k in range(n)]
        kw["feature_names"] = names
        ctx.count("named_features")
    ctx.note(imp=imp, cnt=cnt, options=kw)
    fig = plot_feature_importance(perf, **kw)
    fig.canvas.draw()
    ctx.check(len(fig.axes) == 2, "wrong number of axes", got=len(fig.axes))
    ax1, ax2 = (fig.axes if "Importance" in fig.axes[0].get_ylabel() else fig.axes[::-1])
    ctx.check("Importance" in ax1.get_ylabel() and "Count" in ax2.get_ylabel(),
              "the axes are not named", got=(ax1.get_ylabel(), ax2.get_ylabel()))
    k = min(top, n)
    b1 = sorted(ax1.patches, key=lambda p: p.get_x())
    b2 = sorted(ax2.patches, key=lambda p: p.get_x())
    ctx.check(len(b1) == k and len(b2) == k, "wrong number of features shown",
              got=(len(b1), len(b2)), want=k)
    ticks = [t.get_text().strip() for t in ax1.get_xticklabels()]
    pos = list(ax1.get_xticks())
    ctx.check(len(ticks) == k, "wrong number of labels of the features", got=ticks)
    ident = [names.index(t) if names else int(t) - 1 for t in ticks]
    ctx.check(len(set(ident)) == k, "a feature is shown twice", got=ticks)
    key = imp if by == "gain" else cnt
    for a, f in enumerate(ident):
        ctx.check(same(b1[a].get_height(), imp[f]) and same(b2[a].get_height(), cnt[f]),
                  "the bars of a feature do not show its values", feature=f,
                  got=(b1[a].get_height(), b2[a].get_height()), want=(imp[f], cnt[f]))
        left, right = b1[a].get_x(), b2[a].get_x() + b2[a].get_width()
        ctx.check(left - 0.2 <= pos[a] <= right + 0.3, "a label is not below its bars",
                  label=pos[a], bars=(left, right))
        in_view(ctx, ax1, [left, right], [0 * imp[f]] * 2, "a bar is")
        for ax, v in ((ax1, imp[f]), (ax2, cnt[f])):
            lo, hi = sorted(ax.get_ylim())
            ctx.check(v != v or lo - (hi - lo) / 100 <= v <= hi + (hi - lo) / 100, "a bar is out of view", value=v,
                      view=(lo, hi))
        ctx.count("feature_bars")
    shown = key[ident]
    ctx.check(bool((np.diff(shown) <= 0).all()) or np.isnan(key).any(), "the features are not in decreasing order", got=shown)
    rest = np.delete(key, ident)
    ctx.check(np.isnan(key).any() or not len(rest) or rest.max() <= shown.min(), "the features shown are not the top ones",
              shown=shown, left_out=rest)
    ctx.check(("Count" if by == "count" else "Importance") in ax1.get_title(),
              "the title does not say how the features are sorted", got=ax1.get_title())
    lg = legend(ax1)
    import matplotlib.colors as C
    want = [(C.to_hex(b1[0].get_facecolor()), "Importance"), (C.to_hex(b2[0].get_facecolor()), "Count")]
    ctx.check(sorted(lg) == sorted(want), "the legend does not match the bars", got=lg, want=want)
    ctx.distinct("fi", imp, cnt, repr(kw))
    ctx.sample({"options": {a: b for a, b in kw.items() if a != "feature_names"}, "shown": ticks})


def shape(ctx, rng):
    import matplotlib.pyplot as plt
    from matplotlib.collections import QuadMesh
    from rankeval.analysis.topological import topological_analysis
    from rankeval.visualization.topological import plot_shape
    if rng.random() < 0.4:
        plt.figure()            # another figure of the user
    seen = []
    for turn in range(2):
        fo = gen.forest(rng, 3, max_trees=5, max_depth=8)
        model = gen.model(ctx, fo, name="shape%d" % turn)
        res = topological_analysis(model, bool(rng.random() < 0.6))
        kw = {}
        level = 10
        if rng.random() < 0.5:
            kw["max_level"] = level = int(rng.choice([0, 1, 2, 5, 9]))
        ctx.note(forest=fo, max_level=level)
        fig = plot_shape(res, **kw)
        fig.canvas.draw()
        ctx.check(fig not in seen, "two models are drawn on the same figure")
        seen.append(fig)
        ts = res.avg_tree_shape().toarray()
        rows = min(ts.shape[0], level + 1)
        axes = list(fig.axes)
        for a in fig.axes:
            axes += list(getattr(a, "parasites", []))
        meshes = [c for a in axes for c in a.get_children() if isinstance(c, QuadMesh) and
                  c.get_coordinates().shape[1] > 2 or isinstance(c, QuadMesh) and
                  type(a).__name__ != "Axes"]
        meshes = list({id(m): m for m in meshes}.values())
        ctx.check(len(meshes) == 1, "wrong number of shapes in the figure", got=len(meshes))
        m = meshes[0]
        xy = m.get_coordinates()                 # (M+1, N+1, 2): theta, radius
        val = np.ma.filled(np.ma.asarray(m.get_array()).astype(float), 0).reshape(
            xy.shape[0] - 1, xy.shape[1] - 1)
        vmin, vmax = m.get_clim()
        ctx.check(vmin == 0 and vmax == 1, "wrong scale of the frequencies", got=(vmin, vmax))
        th, rad = xy[:, 0, 0], xy[0, :, 1]
        for lv in range(rows):
            for node in range(2 ** lv):
                want = float(ts[lv, node]) if node < ts.shape[1] else 0.0
                for q in (0.25, 0.5, 0.75) if lv < 6 else (0.5,):
                    x = (node + q) * np.pi / 2 ** lv
                    a = int(np.searchsorted(th, x)) - 1
                    b = int(np.searchsorted(rad, lv + 0.5)) - 1
                    ctx.check(0 <= a < val.shape[0] and 0 <= b < val.shape[1],
                              "a position is out of the figure", level=lv, node=node)
                    ctx.check(abs(val[a, b] - want) < 1e-6, "wrong frequency of a position",
                              level=lv, node=node, got=val[a, b], want=want)
                ctx.count("shape_cells")
        ctx.check(rad.max() <= rows + 1e-9 or not val[:, rows:].any(), "levels beyond the limit")
        text = " ".join(a.get_title() for a in axes)
        ctx.check("shape%d" % turn in text, "the figure does not name the model", got=text)
        ctx.count("deep_shapes", rows > 6)
        ctx.distinct("sh", ts, level)


def options(ctx, rng):
    import rankeval.analysis.effectiveness as E
    from rankeval.visualization import effectiveness as V
    from rankeval.visualization.feature import plot_feature_importance
    import matplotlib.pyplot as plt
    s = settings(ctx, rng, max_datasets=1)
    perf = E.model_performance(s.datasets, s.models, s.metric_objs)
    for fn in (V.plot_model_performance, V.plot_tree_wise_performance, V.plot_query_wise_performance,
               V.plot_query_class_performance):
        ctx.raises(RuntimeError, lambda: fn(perf, compare="nothing"), "an unknown option was accepted")
    from rankeval.analysis.feature import feature_importance
    fi = feature_importance(s.models[0], s.datasets[0])
    ctx.raises(RuntimeError, lambda: plot_feature_importance(fi, sort_by="x"),
               "an unknown option was accepted")
    ctx.count("rejected_options")
    with plt.rc_context():
        V.init_plot_style()
        ctx.count("style")
