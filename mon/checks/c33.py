"""C33: the bias/variance analysis: the calls its learners receive, and the decomposition."""
import math

import numpy as np

from mon import ana, gen, mets, ref

ID = "C33"
RULE = ("random datasets whose rows carry a unique id, recording learners, folds, iterations and "
        "metrics; every call of every learner judged for leakage, alignment and partition, the "
        "decomposition recomputed from the scores returned; distinct by setting")
REQUIRED = ["calls_judged", "iterations_judged", "cells_mse", "cells_metric", "several_algos",
            "several_datasets", "several_metrics", "uneven_folds", "more_folds_than_queries",
            "random_folds_judged", "default_arguments", "duplicated_learner_names",
            "scores_of_large_magnitude"]
ASSUMPTIONS = ["datasets have at least two queries",
               "besides MSE, metrics whose ideal value is 1 (IR quality measures) are judged"]


def KINDS(tier):
    k = 4 if tier == "quick" else 40
    return [("history", 250 * k)]


def case(ctx, rng, kind, i):
    from rankeval.analysis.statistical import bias_variance
    nd = int(rng.integers(1, 3))
    raws = [gen.raw_dataset(rng, min_queries=2, max_queries=14, max_size=6, n_features=2)
            for _ in range(nd)]
    base = 0
    for r in raws:
        n = len(r["y"])
        r["ids"] = base + np.arange(n)
        r["X"][:, 0] = r["ids"]
        base += n
    datasets = [gen.dataset(r, name="d%d" % k) for k, r in enumerate(raws)]
    metrics = []
    for m in range(int(rng.integers(1, 3))):
        name = str(rng.choice(["MSE", "MSE"] + mets.RANKING))
        cls, kw, f = mets.make(rng, name)
        if name == "MSE":
            kw = {}
        metrics.append((name, cls(name="%s%d" % (name, m), **kw), f))
    L, k = int(rng.integers(2, 6)), int(rng.integers(2, 7))
    if rng.random() < 0.15:
        L, k = 10, 2
        ctx.count("default_arguments")
        opts = {}
    else:
        opts = {"L": L, "k": k}
    n_algos = int(rng.integers(1, 4))
    calls = [[] for _ in range(n_algos)]
    seed = int(rng.integers(0, 2 ** 31))
    # scores far from the labels: whole multiples of 1/8 single precision still holds
    level = float(rng.integers(1000, 60000)) if rng.random() < 0.3 else 0.0
    ctx.count("scores_of_large_magnitude", level > 0)

    def learner(a):
        r = np.random.RandomState(seed + a)
        shape = int(rng.integers(0, 3))

        def algo(train_X, train_y, train_q, test_X):
            n = test_X.shape[0]
            # all different within a call and across calls
            s = (r.permutation(n) + r.permutation(n * 7)[:n] / 1024.0).astype(np.float32) * 0.5 - 2
            s = np.argsort(np.argsort(s)) * 0.25 + float(r.randint(0, 8)) / 8 - 3
            s = (s[r.permutation(n)] + level).astype([np.float32, np.float64, np.float32][shape])
            calls[a].append((train_X.copy(), train_y.copy(), np.array(train_q), test_X.copy(),
                             np.array(s)))
            return s if shape < 2 else list(s)
        return algo

    algos = [learner(a) for a in range(n_algos)]
    dup = n_algos > 1 and rng.random() < 0.3
    names = ["learner%d" % (0 if dup else a) for a in range(n_algos)]
    for a, fn in enumerate(algos):
        fn.__name__ = names[a]
    ctx.count("duplicated_learner_names", dup)
    ctx.note(sizes=[r["sizes"] for r in raws], L=L, k=k, metrics=[str(m) for _, m, _ in metrics])
    out = bias_variance(datasets, algos, [m for _, m, _ in metrics], **opts)
    ana.coords(ctx, out, ("dataset", "metric", "algo", "error"), dataset=datasets,
               metric=[m for _, m, _ in metrics])
    ctx.check(list(out.coords["algo"].values) == names, "wrong names of the learners",
              got=list(out.coords["algo"].values))
    ctx.check(list(out.coords["error"].values) == ["Error", "Bias", "Variance"], "wrong error names",
              got=list(out.coords["error"].values))
    row_of = {int(v): (j, p) for j, r in enumerate(raws) for p, v in enumerate(r["ids"])}
    qrow = [np.repeat(np.arange(len(r["sizes"])), r["sizes"]) for r in raws]
    for a in range(n_algos):
        # groups the calls into iterations: a dataset is covered once by each of them
        scores = {j: [] for j in range(nd)}
        partitions = {j: [] for j in range(nd)}
        cur, cover, folds = None, None, None
        for train_X, train_y, train_q, test_X, s in calls[a]:
            test = [row_of[int(v)] for v in test_X[:, 0]]
            train = [row_of[int(v)] for v in train_X[:, 0]]
            ctx.check(len(test) > 0, "a learner is asked to score nothing")
            js = {j for j, _ in test + train}
            ctx.check(len(js) == 1, "a learner receives rows of two datasets", got=js)
            j = js.pop()
            r = raws[j]
            if cur is None:
                cur, cover, folds = j, np.full(len(r["y"]), np.nan), []
            ctx.check(j == cur, "an iteration does not score every instance", dataset=cur)
            t_rows, s_rows = [p for _, p in train], [p for _, p in test]
            for rows, X in ((t_rows, train_X), (s_rows, test_X)):
                ctx.equal(X, r["X"][rows], "the features passed to a learner are not those of the rows")
            ctx.equal(np.asarray(train_y), r["y"][t_rows], "labels and rows are not aligned")
            tq, sq = set(qrow[j][t_rows]), set(qrow[j][s_rows])
            ctx.check(not tq & sq, "a query is both in the training and in the test fold",
                      train=tq, test=sq)
            ctx.check(sorted(t_rows + s_rows) == list(range(len(r["y"]))),
                      "training and test folds do not partition the instances", train=t_rows,
                      test=s_rows)
            ctx.check(int(np.sum(train_q)) == len(t_rows), "query sizes and rows do not agree",
                      got=train_q, rows=len(t_rows))
            p = 0
            for size in train_q:
                qs = set(qrow[j][t_rows[p:p + int(size)]])
                ctx.check(len(qs) == 1 and r["sizes"][list(qs)[0]] == size,
                          "query sizes and rows are not aligned", got=train_q, queries=qs)
                p += int(size)
            ctx.check(np.isnan(cover[s_rows]).all(), "an instance is scored twice in an iteration",
                      rows=s_rows)
            cover[s_rows] = s
            folds.append(frozenset(sq))
            ctx.count("calls_judged")
            if not np.isnan(cover).any():
                scores[j].append(cover)
                partitions[j].append(frozenset(folds))
                nq = len(r["sizes"])
                ctx.check(2 <= len(folds) <= k and max(map(len, folds)) <= math.ceil(nq / k),
                          "wrong number or size of the folds", got=[sorted(f) for f in folds], k=k)
                ctx.count("uneven_folds", len(set(map(len, folds))) > 1)
                ctx.count("more_folds_than_queries", k > nq)
                ctx.count("iterations_judged")
                cur = None
        ctx.check(cur is None, "an iteration does not score every instance", dataset=cur)
        for j, r in enumerate(raws):
            it = scores[j]
            ctx.check(len(it) % L == 0 and len(it) >= L, "wrong number of iterations",
                      got=len(it), L=L)
            if len(r["sizes"]) >= 12 and len(it) >= 4 and k == 2:
                ctx.check(len(set(partitions[j])) > 1, "the folds are not drawn anew")
                ctx.count("random_folds_judged")
            # iterations may be shared by the metrics, or made anew for each of them
            for m, (name, obj, f) in enumerate(metrics):
                S = np.array(it[:L] if len(it) == L else it[m * L:(m + 1) * L]).T
                if len(it) > L:
                    ctx.check(len(it) == L * len(metrics), "wrong number of iterations",
                              got=len(it), L=L)
                if name == "MSE":
                    v = S
                    t = r["y"].astype(float).reshape(-1, 1)
                else:
                    v = np.array([[f(r["y"][x:z], S[x:z, l], ref.rankings(S[x:z, l])[0])
                                   for l in range(L)] for _, x, z in gen.blocks(r)])
                    t = 1.0
                mean = v.mean(axis=1, keepdims=True)
                want = [np.mean((v - t) ** 2), np.mean((mean - t) ** 2), np.mean((v - mean) ** 2)]
                got = out.values[j, m, a].astype(float)
                # single precision arithmetic on the predictions is what a cell may be off by
                top = float(np.max(np.abs(v)))
                scale = max(1e-6, 4e-6 * want[0], 2e-7 * top * np.sqrt(want[0]) + (1e-7 * top) ** 2)
                ctx.check(np.allclose(got, want, rtol=2e-5, atol=scale),
                          "the decomposition is not that of the scores", got=got, want=want,
                          metric=str(obj), dataset=j, algo=a)
                ctx.check(abs(got[0] - got[1] - got[2]) <= 2e-5 * abs(got[0]) + scale,
                          "error is not bias plus variance", got=got)
                ctx.count("cells_mse" if name == "MSE" else "cells_metric")
    ctx.count("several_algos", n_algos > 1)
    ctx.count("several_datasets", nd > 1)
    ctx.count("several_metrics", len(metrics) > 1)
    ctx.distinct([r["sizes"] for r in raws], [str(m) for _, m, _ in metrics], L, k, seed)
    ctx.sample({"sizes": [r["sizes"] for r in raws], "L": L, "k": k,
                "metrics": [str(m) for _, m, _ in metrics], "value": out.values[0, 0, 0]})
