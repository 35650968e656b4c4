"""C31: the rank confusion matrix counts every document pair once."""
import numpy as np

from mon import ana, gen

ID = "C31"
RULE = ("random datasets (non-contiguous labels, labels missing from some datasets, one-document "
        "queries) and models with tied scores; cells bounded by the pair counts with ties counted "
        "either way, conservation of pairs exact; distinct by setting")
REQUIRED = ["cells", "pairs", "tied_pairs", "sparse_labels", "skip_same_label",
            "several_datasets", "untied_matrices", "long_queries", "fractional_labels",
            "same_name_datasets", "same_name_models"]
ASSUMPTIONS = ["non-negative labels", "the diagonal may count each document with itself"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("matrix", 400 * k), ("long", 4 * k), ("longest", 1)]


def case(ctx, rng, kind, i):
    import rankeval.analysis.effectiveness as E
    kw = {}
    if kind == "longest":
        kind, longest = "long", True
    else:
        longest = False
    if kind == "long":                # more pairs in a cell than 15 or 16 bits can count
        kw = dict(max_datasets=1, models=1, max_queries=1)
    s = ana.setting(ctx, rng, max_metrics=1, spread=bool(rng.random() < 0.7), **kw)
    if kind == "long":
        n, top = int(rng.integers(*((1100, 1400) if longest else (380, 620)))), int(rng.integers(2, 4))
        X = (rng.permutation(n * s.nf).reshape(n, s.nf) * 0.125 - n * s.nf / 16).astype(np.float32)
        q = np.arange(1, 3)
        s.raws = [{"X": X, "y": rng.integers(0, top, size=n).astype(np.float32), "qids": q,
                   "sizes": np.array([n - 2, 2]), "qid": np.repeat(q, [n - 2, 2])}]
        s.datasets = [gen.dataset(s.raws[0])]
        ctx.count("long_queries")
    sparse = bool(rng.random() < 0.4)
    if sparse:
        lut = np.sort(rng.choice(60, size=5, replace=False)).astype(np.float32)
        if rng.random() < 0.4:
            lut /= np.float32(rng.choice([2, 4, 7, 16]))
            ctx.count("fractional_labels")
        for r in s.raws:
            r["y"] = lut[r["y"].astype(int)]
        s.datasets = [gen.dataset(r) for r in s.raws]
    skip = bool(rng.random() < 0.4)
    out = E.rank_confusion_matrix(s.datasets, s.models, skip_same_label=skip,
                                  cache=bool(rng.random() < 0.5))
    ana.coords(ctx, out, ("dataset", "model", "label_i", "label_j"), dataset=s.datasets,
               model=s.models)
    labels = sorted({float(v) for r in s.raws for v in r["y"]})
    ctx.equal(np.asarray(out.coords["label_i"].values).astype(float), labels, "wrong labels (rows)")
    ctx.equal(np.asarray(out.coords["label_j"].values).astype(float), labels, "wrong labels (columns)")
    for j, r in enumerate(s.raws):
        for k in range(len(s.models)):
            p = ana.scores(s, j, k)
            n = len(labels)
            strict, ties, per_q = np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n))
            for _, a, b in gen.blocks(r):
                at = [np.flatnonzero(r["y"][a:b] == v) + a for v in labels]
                for lx in range(n):
                    for ly in range(n):
                        one, two = p[at[lx]][:, None], p[at[ly]][None, :]
                        same = len(at[lx]) if lx == ly else 0       # a document with itself
                        strict[lx, ly] += int((one < two).sum())
                        ties[lx, ly] += int((one == two).sum()) - same
                        per_q[lx, ly] += one.size * two.size - same
            M = out.values[j, k].astype(float)
            ctx.note(matrix=M, scores=p, dataset=j, model=k, skip=skip)
            # same-label pairs counted once (x<y and y<x halves), plus possibly each document
            docs = np.array([np.sum(r["y"] == v) for v in labels])
            for a in range(n):
                if skip:
                    ctx.check(M[a, a] == 0, "same-label pairs were not left out", label=labels[a])
                else:
                    ctx.check(M[a, a] - per_q[a, a] / 2 in (0, docs[a]),
                              "wrong number of same-label pairs", label=labels[a],
                              got=M[a, a], want=per_q[a, a] / 2)
                for b in range(n):
                    if a == b:
                        continue
                    ctx.check(strict[a, b] <= M[a, b] <= strict[a, b] + ties[a, b],
                              "wrong count of pairs", low=labels[a], high=labels[b],
                              got=M[a, b], want=(strict[a, b], strict[a, b] + ties[a, b]))
                    ctx.check(M[a, b] + M[b, a] == per_q[a, b], "pairs lost or counted twice",
                              a=labels[a], b=labels[b], got=M[a, b] + M[b, a], want=per_q[a, b])
                    ctx.count("cells")
            ctx.count("pairs", int(per_q.sum() / 2))
            ctx.count("tied_pairs", int(ties.sum() / 2))
            ctx.count("untied_matrices", not ties.any())
    ctx.count("sparse_labels", sparse)
    ctx.count("skip_same_label", skip)
    ctx.count("several_datasets", len(s.datasets) > 1)
    ctx.distinct(repr(s.forests), [r["y"] for r in s.raws], skip)
    ctx.sample({"labels": labels, "skip": skip})
