"""C01: what is loaded from svmlight text is exactly what the text says."""
import io

import numpy as np

from mon import gen, svm

ID = "C01"
RULE = ("random svmlight texts (sparsity patterns, growing/shrinking rows, empty first rows, "
        "comments, layouts, number notations) loaded from paths/.gz/.bz2/fds/file-likes and "
        "compared cell by cell with a reference parser; non trivial: at least one stored value, "
        "distinct by text and source")
REQUIRED = ["cells_compared", "column_growth_seen", "empty_leading_rows_seen", "source_gz",
            "source_fd", "source_path", "source_bytesio", "huge_datasets",
            "long_lines", "infinite_values", "files_in_any_order"]
ASSUMPTIONS = ["rows list their features in ascending 1-based order",
               "query ids in [0, 2^31-1), rows of a query contiguous"]


def KINDS(tier):
    k = 3 if tier == "quick" else 108
    return [("load", 500 * k), ("dataset", 250 * k), ("files", 60 * k), ("huge", 2 * k), ("wide", 2 * k)]


def judge(ctx, rows, X, y, q):
    eX, ey, eq = svm.expected(rows)
    ctx.count("infinite_values", np.isinf(eX).sum())
    # plus infinity is the largest number for the models (see load_svmlight_file)
    eX = np.where(eX == np.inf, np.finfo(np.float32).max, eX)
    ctx.check(X.shape == eX.shape, "wrong shape of the matrix", got=X.shape, want=eX.shape)
    ctx.check(X.dtype == np.float32, "the matrix is not float32", got=str(X.dtype))
    ctx.equal(X, eX, "wrong feature values")
    ctx.equal(y, ey, "wrong labels")
    if q is not None:
        ctx.equal(np.asarray(q).astype(np.int64), eq, "wrong query ids")
    ctx.count("cells_compared", eX.size)
    top, grew = 0, False
    for _, _, f in rows:
        m = max(f) if f else 0
        grew |= top and m > top
        top = max(top, m)
    ctx.count("column_growth_seen", bool(grew))
    ctx.count("empty_leading_rows_seen", bool(not rows[0][2] and top))


def case(ctx, rng, kind, i):
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file, load_svmlight_files
    if kind == "files":
        many = [svm.random_rows(rng) for _ in range(int(rng.integers(1, 5)))]
        paths = []
        names = rng.permutation(len(many))
        for n, rows in enumerate(many):
            p = ctx.path("f%d.txt" % names[n])
            text = svm.render(rng, rows)
            open(p, "w", newline="").write(text)
            paths.append(p if rng.random() < 0.8 else io.BytesIO(text.encode()))
        ctx.count("files_in_any_order", list(names) != sorted(names))
        with_qid = rng.random() < 0.7
        got = load_svmlight_files(paths if rng.random() < 0.6 else (p for p in paths),
                                  query_id=bool(with_qid))
        w = 3 if with_qid else 2
        ctx.check(len(got) == w * len(many), "wrong number of arrays", got=len(got))
        for n, rows in enumerate(many):
            judge(ctx, rows, *(list(got[w * n:w * n + w]) + [None])[:3])
        return
    if kind == "huge":                # more rows than 16 bits count
        raw = gen.big_dataset(rng, n_features=1)
        rows = [(float(l), int(q), {1: float(x)} if x else {})
                for l, q, x in zip(raw["y"], raw["qid"], raw["X"][:, 0])]
        kind = str(rng.choice(["dataset", "load"]))
        ctx.count("huge_datasets")
    elif kind == "wide":              # lines of any length
        rows = []
        for _ in range(int(rng.integers(1, 4))):
            m = int(rng.choice([9000, 40000, 150000]))
            at = np.arange(1, m + 1)[rng.random(m) < rng.choice([1.0, 0.5, 0.001])]
            rows.append((float(rng.integers(0, 5)), len(rows) + 3,
                         {int(j): float(j % 50 + 1) / 4 for j in at}))
        kind = str(rng.choice(["dataset", "load"]))
        ctx.count("long_lines", max(len(f) for _, _, f in rows) > 20000)
    else:
        rows = svm.random_rows(rng, infinities=rng.random() < 0.05)
    with_qid = kind == "dataset" or rng.random() < 0.8
    if not with_qid:
        rows = [r for r in rows if r[2]] or [(1.0, 0, {1: 2.0})]
    text = svm.render(rng, rows, with_qid)
    ctx.note(text=text[:1500])
    src, f, still_open = svm.source(ctx, rng, text.encode())
    ctx.note(source=src)
    ctx.count("source_" + src)
    if kind == "dataset":
        ds = Dataset.load(f, name="D")
        judge(ctx, rows, ds.X, ds.y, ds.get_qids_dataset(np.int64))
        ctx.check(ds.name == "D" and ds.n_instances == len(rows)
                  and ds.n_features == ds.X.shape[1], "wrong dataset attributes")
    elif with_qid and rng.random() < 0.8:
        X, y, q = load_svmlight_file(f, query_id=True)
        judge(ctx, rows, X, y, q)
    else:
        out = load_svmlight_file(f, query_id=False)
        ctx.check(len(out) == 2, "query ids returned without being requested")
        judge(ctx, rows, out[0], out[1], None)
    ctx.check(still_open(), "the loader closed a file it does not own", source=src)
    if any(f for _, _, f in rows):
        ctx.distinct(src, text)
    ctx.sample({"source": src, "text": text[:300]})
