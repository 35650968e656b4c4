"""C06: the query partition of a dataset is complete and consistent."""
import numpy as np

from mon import gen, svm

ID = "C06"
RULE = ("random groupings (ascending, descending, shuffled, sparse, huge query ids; sizes from 1) "
        "built by constructor or loaded from text; all accessors compared with the grouping; non "
        "trivial: at least two queries; distinct by the sequence of query ids")
REQUIRED = ["unsorted_ids", "huge_ids", "lookups", "missing_lookups", "wrong_sizes", "huge_datasets"]
ASSUMPTIONS = ["rows grouped by query"]


def KINDS(tier):
    k = 4 if tier == "quick" else 144
    return [("build", 900 * k), ("load", 150 * k), ("bad", 60 * k), ("large", 4 * k), ("huge", 3 * k)]


def judge(ctx, d, raw):
    bl = gen.blocks(raw)
    n = raw["X"].shape[0]
    ctx.check(d.n_queries == len(bl) and d.n_instances == n
              and d.n_features == raw["X"].shape[1], "wrong sizes of the dataset",
              got=(d.n_queries, d.n_instances, d.n_features))
    got = [(int(q), int(s), int(e)) for q, s, e in d.query_iterator()]
    ctx.check(got == bl, "the query iterator does not follow the rows", got=got[:20], want=bl[:20])
    ctx.check(got == [(int(q), int(s), int(e)) for q, s, e in d.query_iterator()],
              "the query iterator is not repeatable")
    ctx.equal(np.asarray(d.query_ids).astype(np.int64), np.asarray(raw["qids"]), "wrong query ids")
    ctx.equal(np.asarray(d.query_offsets), np.concatenate([[0], np.cumsum(raw["sizes"])]),
              "wrong query offsets")
    ctx.equal(np.asarray(d.get_query_sizes()), raw["sizes"], "wrong query sizes")
    ctx.equal(np.asarray(d.get_qids_dataset()).astype(np.int64), raw["qid"], "wrong ids per row")
    ctx.equal(d.get_qids_dataset(np.int64), raw["qid"], "wrong ids per row (int64)")
    ctx.check(d.get_qids_dataset(np.int64).dtype == np.int64, "requested dtype ignored")
    for q, s, e in bl[:40]:
        o = d.get_query_offsets(q)
        ctx.check((int(o[0]), int(o[1])) == (s, e), "wrong offsets of a query", qid=q, got=o)
        ctx.count("lookups")
    known = set(int(v) for v in raw["qids"])
    for q, s, e in bl[-20:]:
        o = d.get_query_offsets(q)
        ctx.check((int(o[0]), int(o[1])) == (s, e), "wrong offsets of a query", qid=q, got=o)
    miss = int(max(raw["qids"])) + 1 if max(raw["qids"]) < 2 ** 31 - 2 else None
    if miss is None or miss in known:
        miss = next(v for v in range(10 ** 6) if v not in known)
    ctx.raises(LookupError, lambda: d.get_query_offsets(miss),
               "the lookup of a missing query did not fail")
    ctx.count("missing_lookups")


def case(ctx, rng, kind, i):
    from rankeval.dataset import Dataset
    if kind == "bad":
        raw = gen.raw_dataset(rng)
        n = raw["X"].shape[0]
        k = int(rng.choice([0, n - 1, n + 1, 2 * n]))
        if k == n:
            k = n + 1
        q = np.resize(raw["qid"], k) if k else np.array([], dtype=int)
        ctx.raises(Exception, lambda: Dataset(raw["X"], raw["y"], q),
                   "query ids of the wrong length were accepted", n=n, k=k)
        y = np.resize(raw["y"], k) if k else np.array([], dtype=np.float32)
        ctx.raises(Exception, lambda: Dataset(raw["X"], y, raw["qid"]),
                   "labels of the wrong length were accepted", n=n, k=k)
        ctx.count("wrong_sizes")
        return
    if kind == "huge":
        raw = gen.big_dataset(rng)
        ctx.count("huge_datasets")
    elif kind == "large":
        raw = gen.raw_dataset(rng, max_queries=3000, max_size=8, min_queries=1000, max_features=2)
    else:
        raw = gen.raw_dataset(rng, max_queries=14)
    ctx.note(qid=raw["qid"][:60])
    if kind == "load":
        import io
        text = "\n".join(gen.svmlight_lines(raw, sparse=False)) + "\n"
        nm = str(rng.choice(["n", "a name"])) if rng.random() < 0.5 else None
        d = Dataset.load(io.BytesIO(text.encode()), name=nm)
    else:
        dt = rng.choice([np.int32, np.int64, np.uint32])
        q = raw["qid"].astype(dt)
        if rng.random() < 0.2:
            q = np.repeat(q, 2)[::2]
        nm = str(rng.choice(["n", "a name"])) if rng.random() < 0.5 else None
        d = Dataset(raw["X"], raw["y"], q, name=nm)
        ctx.equal(d.X, raw["X"], "the constructor changed the features")
        ctx.equal(d.y, raw["y"], "the constructor changed the labels")
    ctx.check(str(d) == nm if nm else len(str(d)) > 0, "wrong name of the dataset", got=d.name)
    judge(ctx, d, raw)
    ctx.count("unsorted_ids", bool((np.diff(raw["qids"]) < 0).any()))
    ctx.count("huge_ids", int(max(raw["qids"])) > 2 ** 24)
    if len(raw["qids"]) > 1:
        ctx.distinct(raw["qid"])
    ctx.sample({"qid": raw["qid"][:30]})
