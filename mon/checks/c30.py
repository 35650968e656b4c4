"""C30: query-class performance averages the metric within each class."""
import numpy as np

from mon import ana, gen

ID = "C30"
RULE = ("random classes (strings or integers, lists or arrays, absent from some datasets, singletons) "
        "over several datasets; per-class means of the reference metric values; distinct by setting")
REQUIRED = ["cells", "absent_cells", "string_classes", "int_classes", "list_classes",
            "array_classes", "several_datasets", "unjudged_or_judged",
            "same_name_datasets", "same_name_models", "same_name_metrics", "partly_undefined_classes"]
ASSUMPTIONS = ["classes of queries with undefined metrics are not judged",
               "where scores tie, the value must lie between those of the tie-breaks"]


def KINDS(tier):
    k = 3 if tier == "quick" else 45
    return [("classes", 400 * k)]


def case(ctx, rng, kind, i):
    import rankeval.analysis.effectiveness as E
    s = ana.setting(ctx, rng)
    strings = bool(rng.random() < 0.5)
    pool = ["nav", "info", "trans", "a", "Z z", "10", "9"] if strings else [0, 1, 2, 7, -3, 10, 100]
    classes, raw_classes = [], []
    for r in s.raws:
        sub = rng.choice(len(pool), size=int(rng.integers(1, 5)), replace=False)
        c = [pool[int(sub[int(rng.integers(0, len(sub)))])] for _ in r["sizes"]]
        raw_classes.append(c)
        u = rng.random()
        classes.append(c if u < 0.4 else np.array(c) if u < 0.8 else tuple(c))
        ctx.count("list_classes" if u < 0.4 else "array_classes")
    ctx.note(classes=raw_classes)
    out = E.query_class_performance(s.datasets, s.models, s.metric_objs, classes,
                                    cache=bool(rng.random() < 0.5))
    ana.coords(ctx, out, ("dataset", "model", "metric", "classes"), dataset=s.datasets,
               model=s.models, metric=s.metric_objs)
    names = list(out.coords["classes"].values)
    want_names = sorted({c for cs in raw_classes for c in cs})
    ctx.check(sorted(map(str, names)) == sorted(map(str, want_names)), "wrong classes",
              got=names, want=want_names)
    v = out.values
    for j in range(len(s.datasets)):
        for k in range(len(s.models)):
            p = ana.scores(s, j, k)
            for m, (name, obj, f) in enumerate(s.metrics):
                bs = ana.bounds(s, j, name, f, p, obj)
                for c, cls in enumerate(names):
                    sel = [b for b, x in zip(bs, raw_classes[j]) if str(x) == str(cls)]
                    if not sel:
                        ctx.check(np.isnan(v[j, k, m, c]), "a value for a class the dataset does "
                                  "not have", got=float(v[j, k, m, c]))
                        ctx.count("absent_cells")
                        continue
                    ctx.count("unjudged_or_judged")
                    if any(b is None for b in sel):
                        continue
                    n = len(sel)
                    sel = [b for b in sel if b[0] == b[0]]
                    ctx.count("partly_undefined_classes", 0 < len(sel) < n)
                    if not sel:
                        ctx.check(np.isnan(v[j, k, m, c]), "a value for a class whose queries are "
                                  "all undefined", got=float(v[j, k, m, c]))
                        continue
                    b = (np.mean([x[0] for x in sel]), np.mean([x[1] for x in sel]))
                    ctx.check(ana.within(v[j, k, m, c], b), "wrong performance of a query class",
                              dataset=j, model=k, metric=name, cls=str(cls),
                              got=float(v[j, k, m, c]), want=b)
                    ctx.count("cells")
    ctx.count("string_classes" if strings else "int_classes")
    ctx.count("several_datasets", len(s.datasets) > 1)
    ctx.distinct(repr(raw_classes), repr(s.forests), [r["y"] for r in s.raws])
    ctx.sample({"classes": raw_classes})
