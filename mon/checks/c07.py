"""C07: split partitions the queries with the requested proportions."""
import numpy as np

from mon import gen

ID = "C07"
RULE = ("random datasets whose first column is a unique row id, split with random sizes (0 and 1 "
        "included) and seeds; oracle: conservation of rows, disjoint queries, rounded counts; "
        "distinct by partition obtained")
REQUIRED = ["splits_2", "splits_3", "rejected_sizes", "same_seed_pairs", "empty_test", "empty_train", "seed_zero",
            "global_state", "huge_datasets", "other_seeds"]
ASSUMPTIONS = ["rows grouped by query"]


def KINDS(tier):
    k = 4 if tier == "quick" else 144
    return [("split", 1200 * k), ("bad", 60 * k), ("many", 12 * k), ("huge", 2 * k)]


def with_ids(raw):
    n = raw["X"].shape[0]
    raw["X"] = np.column_stack([np.arange(n, dtype=np.float32), raw["X"]]).astype(np.float32)
    return raw


def rows_of(raw, qids):
    """Row numbers of the given queries, in file order."""
    return np.flatnonzero(np.isin(raw["qid"], np.array(list(qids), dtype=np.int64))).tolist()


def judge_part(ctx, raw, part, qids, what):
    want = rows_of(raw, qids)
    ctx.check(part.n_instances == len(want), "%s: rows lost or added" % what,
              got=part.n_instances, want=len(want))
    ids = part.X[:, 0].astype(int).tolist() if len(want) else []
    ctx.check(ids == want, "%s: wrong rows or wrong order" % what, got=ids[:50], want=want[:50])
    if want:
        ctx.equal(part.X, raw["X"][want], "%s: feature values changed" % what)
        ctx.equal(part.y, raw["y"][want], "%s: labels changed" % what)
        ctx.equal(part.get_qids_dataset(np.int64), raw["qid"][want], "%s: query ids changed" % what)
    chosen = set(int(v) for v in qids)
    order = [int(q) for q in raw["qids"] if int(q) in chosen]
    ctx.check([int(q) for q in part.query_ids] == order, "%s: wrong queries" % what,
              got=part.query_ids, want=order)


def case(ctx, rng, kind, i):
    if kind == "huge":
        raw = with_ids(gen.big_dataset(rng, n_features=1))
        ctx.count("huge_datasets")
    elif kind == "many":
        raw = with_ids(gen.raw_dataset(rng, max_queries=400, min_queries=200, max_size=4))
    else:
        raw = with_ids(gen.raw_dataset(rng, max_queries=12))
    d = gen.dataset(raw, name="N", qid_dtype=rng.choice([np.int32, np.int64]))
    if kind == "bad":
        a, b = [(-0.1, 0), (1.2, 0), (0.7, 0.5), (1.0, 0.3), (2, 0), (-1, 0.5), (0.5, -0.2), (1, -0.4),
                (0.3, -1), (0, -0.5)][int(rng.integers(0, 10))]
        ctx.raises(Exception, lambda: d.split(a, b), "invalid sizes were accepted", sizes=(a, b))
        ctx.count("rejected_sizes")
        bad = ["12", 1.5, [1, 2], {"seed": 1}, -1, -12345, 2 ** 32, 2 ** 40][int(rng.integers(0, 8))]
        ctx.raises((ValueError, TypeError), lambda: d.split(0.5, random_state=bad),
                   "something that cannot seed a generator was accepted", seed=bad)
        return
    tr = float(rng.choice([0.0, 1.0, 0.5, 1 / 3., 0.8, rng.random()]))
    va = 0 if rng.random() < 0.4 else float(rng.choice([1 - tr, (1 - tr) / 2, rng.random() * (1 - tr)]))
    if tr + va > 1:
        va = 0
    n = d.n_queries
    want_tr, want_va = int(round(tr * n)), int(round(va * n))
    seed_kind = str(rng.choice(["int", "numpy int", "state", "none", "module"]))
    seed = int(rng.choice([0, 1, 2 ** 32 - 1, rng.integers(0, 10 ** 6)]))

    def rs():
        if seed_kind == "state":
            return np.random.RandomState(seed)
        if seed_kind == "int":
            return seed
        if seed_kind == "numpy int":
            return (np.int64 if seed != 1 else np.uint8)(seed)
        np.random.seed(seed)             # None and the module stand for the global generator
        return None if seed_kind == "none" else np.random
    ctx.note(sizes=(tr, va), n_queries=n, qid=raw["qid"][:60], seed=seed, how=seed_kind)
    parts = d.split(tr, va, random_state=rs())
    ctx.check(len(parts) == (3 if va else 2), "wrong number of parts", got=len(parts))
    ctx.count("splits_%d" % len(parts))
    sets = [[int(q) for q in p.query_ids] for p in parts]
    flat = [q for s in sets for q in s]
    ctx.check(len(flat) == len(set(flat)), "a query is in two parts", parts=sets)
    ctx.check(sorted(flat) == sorted(int(q) for q in raw["qids"]), "queries lost by the split",
              parts=sets)
    for p, s, what in zip(parts, sets, ["train", "vali", "test"] if va else ["train", "test"]):
        judge_part(ctx, raw, p, s, what)
    # round half to even or up: both are "rounded"
    ctx.check(abs(len(sets[0]) - tr * n) <= 0.5 + 1e-9, "wrong number of training queries",
              got=len(sets[0]), want=want_tr)
    if va:
        # when both are rounded up there may be one query less left for the validation
        left = n - len(sets[0])
        ctx.check(abs(len(sets[1]) - va * n) <= 0.5 + 1e-9 or len(sets[1]) == left,
                  "wrong number of validation queries", got=len(sets[1]), want=want_va)
    ctx.count("empty_test", not sets[-1])
    ctx.count("empty_train", not sets[0])
    again = d.split(tr, va, random_state=rs())
    ctx.check([[int(q) for q in p.query_ids] for p in again] == sets,
              "the same seed gives different splits", seed=seed, how=seed_kind)
    ctx.count("same_seed_pairs")
    names = [str(p) for p in parts]
    ctx.check(len(set(names)) == len(names) and all(v.startswith("N") for v in names),
              "the parts cannot be told apart by their names", got=names)
    if kind == "many" and 0.2 < tr < 0.8:
        # 200 or more queries: no two independent shuffles agree
        seed2 = seed ^ int(rng.choice([77, 1 << int(rng.integers(0, 32)), 0xffff0000]))
        other = [[int(q) for q in p.query_ids] for p in d.split(tr, va, random_state=seed2)]
        ctx.check(other != sets, "another seed gives the same split", seed=seed, other=seed2)
        first = [int(q) for q in raw["qids"][:len(sets[0])]]
        ctx.check(sets[0] != first and sets[0] != sorted(int(q) for q in raw["qids"])[:len(sets[0])],
                  "the queries were not shuffled")
        ctx.count("other_seeds")
    ctx.count("seed_zero", seed == 0 and seed_kind == "int")
    ctx.count("global_state", seed_kind in ("none", "module"))
    ctx.equal(d.X, raw["X"], "split modified the dataset")
    ctx.equal(d.get_qids_dataset(np.int64), raw["qid"], "split modified the dataset")
    ctx.distinct(tr, va, [tuple(s) for s in sets])
    ctx.sample({"sizes": (tr, va), "queries": n, "parts": sets})


def teardown(ctx):
    pass
