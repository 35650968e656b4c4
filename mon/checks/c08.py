"""C08: k-fold iteration covers every query exactly once per role."""
import numpy as np

from mon import gen
from .c07 import judge_part, with_ids

ID = "C08"
RULE = ("all (n_queries, n_folds) pairs up to 14 (quick) or 40 (thorough) queries, shuffled or "
        "not, query ids only; random datasets with a unique row id column for the dataset mode; "
        "every iteration is judged as a whole; distinct by the folds yielded")
REQUIRED = ["folds_judged", "remainder_folds", "dataset_folds", "shuffled", "unshuffled",
            "huge_datasets", "shuffles_judged"]
ASSUMPTIONS = ["2 <= n_folds <= n_queries"]


def pairs(tier):
    top = 14 if tier == "quick" else 40
    return [(n, k, s) for n in range(2, top + 1) for k in range(2, n + 1) for s in (0, 1)]


def KINDS(tier):
    return [("ids", len(pairs(tier))),
            ("data", 700 if tier == "quick" else 9000),
            ("many", 80 if tier == "quick" else 400), ("huge", 3 if tier == "quick" else 40)]


def judge(ctx, folds, qids, k):
    allq = sorted(int(q) for q in qids)
    ctx.check(len(folds) == k, "wrong number of folds", got=len(folds), want=k)
    for role, name in ((1, "validation"), (2, "test")):
        seen = sorted(q for f in folds for q in f[role])
        ctx.check(seen == allq, "the queries are not in the %s set exactly once" % name,
                  got=seen, want=allq)
    for n, f in enumerate(folds):
        flat = [q for part in f for q in part]
        ctx.check(len(flat) == len(set(flat)), "a query has two roles in a fold", fold=n, folds=f)
        ctx.check(sorted(flat) == allq, "a fold does not cover all the queries", fold=n, folds=f)
        if k > 2:
            ctx.check(len(f[0]) > 0, "empty training set", fold=n)
    ctx.count("folds_judged", len(folds))
    ctx.count("remainder_folds", len(allq) % k != 0)


def case(ctx, rng, kind, i):
    if kind == "ids":
        n, k, shuffle = pairs(ctx.tier)[i]
        raw = gen.raw_dataset(rng, max_queries=n, min_queries=n, max_size=3, max_features=2)
    elif kind == "huge":
        raw = with_ids(gen.big_dataset(rng, n_features=1))
        while len(raw["qids"]) < 2:
            raw = with_ids(gen.big_dataset(rng, n_features=1))
        n = len(raw["qids"])
        k, shuffle = int(rng.integers(2, min(n, 5) + 1)), int(rng.integers(0, 2))
        ctx.count("huge_datasets")
    else:
        many = kind == "many"
        raw = with_ids(gen.raw_dataset(rng, max_queries=300 if many else 12,
                                       min_queries=60 if many else 2, max_size=3 if many else 15))
        n = len(raw["qids"])
        k, shuffle = int(rng.integers(2, min(n, 40) + 1)), int(rng.integers(0, 2))
    d = gen.dataset(raw)
    ctx.note(n_queries=n, n_folds=k, shuffle=shuffle, qids=raw["qids"])
    ctx.count("shuffled" if shuffle else "unshuffled")
    if kind == "ids":
        folds = [[[int(q) for q in part] for part in f]
                 for f in d.kfold(k, qids_only=True, shuffle=bool(shuffle))]
    else:
        folds = []
        for f in d.kfold(k, shuffle=bool(shuffle)):
            ids = [[int(q) for q in part.query_ids] for part in f]
            for part, q, what in zip(f, ids, ("train", "vali", "test")):
                judge_part(ctx, raw, part, q, what)
            folds.append(ids)
            ctx.count("dataset_folds")
    judge(ctx, folds, raw["qids"], k)
    # the order of the queries: the one of the dataset, or a shuffle by the global generator
    state = int(rng.integers(0, 2 ** 31))
    once, again = [], []
    for out in (once, again):
        np.random.seed(state)
        for f in d.kfold(k, qids_only=True, shuffle=bool(shuffle)):
            out.append([[int(q) for q in part] for part in f])
    ctx.check(once == again, "the folds are not reproducible", once=once[:3], again=again[:3])
    judge(ctx, once, raw["qids"], k)
    allq = [int(q) for q in raw["qids"]]
    pos = {q: j for j, q in enumerate(allq)}

    def in_order(folds):
        return all([(pos[b] - pos[a]) % n for a, b in zip(f[r], f[r][1:])] == [1] * (len(f[r]) - 1)
                   for f in folds for r in (1, 2))
    runs = in_order(once)
    if not shuffle:
        ctx.check(runs, "the folds do not follow the order of the queries", folds=once[:3])
    elif n >= 60 and k < n // 4:
        np.random.seed(state ^ 99)
        other = [[[int(q) for q in part] for part in f] for f in d.kfold(k, qids_only=True)]
        ctx.check(not runs and not in_order(other) and other != once,
                  "the queries were not shuffled", folds=once[:2])
        ctx.check(len(list(d.kfold(qids_only=True))) == 5, "not five folds by default")
        ctx.count("shuffles_judged")
    ctx.equal(d.get_qids_dataset(np.int64), raw["qid"], "kfold modified the dataset")
    ctx.equal(np.asarray(d.query_ids).astype(np.int64), raw["qids"], "kfold modified the dataset")
    ctx.distinct(n, k, shuffle, folds)
    ctx.sample({"n": n, "k": k, "test_sets": [f[2] for f in folds]})
