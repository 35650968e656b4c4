"""C09: subsets keep exactly the selected queries or features."""
import numpy as np

from mon import gen
from .c07 import judge_part, with_ids

ID = "C09"
RULE = ("random datasets with a unique row id column; random selections of queries (lists, arrays, "
        "sets as lists, unknown ids, duplicates, any order, any integer type) and of features "
        "(any order, repeated, boolean masks, slices); subsets of subsets; distinct by "
        "dataset and selection")
REQUIRED = ["query_subsets", "feature_subsets", "unknown_ids", "other_numbers", "nested", "independence",
            "feature_slices", "many_queries", "huge_datasets"]
ASSUMPTIONS = ["at least one requested query exists"]


def KINDS(tier):
    k = 4 if tier == "quick" else 144
    return [("queries", 700 * k), ("features", 500 * k), ("nested", 150 * k),
            ("many", 25 * k), ("huge", 2 * k)]


def pick(ctx, rng, raw):
    qs = [int(q) for q in raw["qids"]]
    known = set(qs)
    sel = [q for q in qs if rng.random() < 0.5] or [qs[0]]
    rng.shuffle(sel)
    req = list(sel)
    if rng.random() < 0.4:
        unknown = [v for v in (max(qs) + 1 if max(qs) < 2 ** 31 - 3 else 5, 3, 77) if v not in known]
        req += unknown
        ctx.count("unknown_ids", bool(unknown))
    if rng.random() < 0.3:
        req.append(req[0])
    u = rng.random()
    if u < 0.3:
        return sel, req
    if u < 0.5:
        return sel, tuple(req)
    u = rng.random()
    if u < 0.5:
        return sel, np.array(req, dtype=rng.choice([np.int32, np.int64]))
    # numbers that no query has, though close to those of some of them
    qs = [q for q in qs if q not in sel] or qs
    if u < 0.75:
        far = qs[int(rng.integers(0, len(qs)))] + (int(rng.integers(-3, 4)) or 7) * 2 ** 32
        ctx.count("other_numbers")
        return sel, [req + [far], np.array(req + [far], dtype=np.int64)][int(rng.integers(0, 2))]
    half = qs[int(rng.integers(0, len(qs)))] + float(rng.choice([0.5, 0.25, -0.5]))
    ctx.count("other_numbers")
    return sel, [req + [half], np.array(req + [half])][int(rng.integers(0, 2))]


def case(ctx, rng, kind, i):
    if kind == "huge":
        raw = with_ids(gen.big_dataset(rng, n_features=1))
        ctx.count("huge_datasets")
    elif kind == "many":
        raw = with_ids(gen.raw_dataset(rng, max_queries=400, min_queries=40, max_size=4))
        ctx.count("many_queries")
    else:
        raw = with_ids(gen.raw_dataset(rng, max_queries=10))
    d = gen.dataset(raw, name="base")
    digest = (d.X.tobytes(), d.y.tobytes(), d.query_ids.tobytes(), d.query_offsets.tobytes())
    if kind in ("queries", "many", "huge"):
        sel, req = pick(ctx, rng, raw)
        ctx.note(request=list(req), qids=raw["qids"])
        name = None if rng.random() < 0.3 else "S"
        s = d.subset(req, name=name)
        judge_part(ctx, raw, s, sel, "subset")
        if name:
            ctx.check(s.name == "S", "name ignored")
        ctx.check(isinstance(str(s), str) and str(s), "a subset without a name")
        s.X[...] = -1
        s.y[...] = -1
        ctx.count("query_subsets")
        ctx.count("independence")
        ctx.distinct("q", raw["qid"], list(req))
        ctx.sample({"qids": raw["qids"], "request": list(req)})
    elif kind == "features":
        nf = d.n_features
        u = rng.random()
        if u < 0.2:
            feats = np.flatnonzero(rng.random(nf) < 0.5)
            req = np.isin(np.arange(nf), feats)
        elif u < 0.4:                 # a range, as a slice
            a, b = sorted(int(v) for v in rng.integers(0, nf + 1, size=2))
            req = slice(a or None, b if b < nf else None, int(rng.integers(1, 3)))
            feats = np.arange(nf)[req]
            if not feats.size:
                req, feats = slice(None), np.arange(nf)
            ctx.count("feature_slices")
        elif u < 0.65:
            feats = rng.permutation(nf)[:int(rng.integers(1, nf + 1))]
            req = [int(f) for f in feats]
        else:
            feats = rng.integers(0, nf, size=int(rng.integers(1, 2 * nf)))
            req = feats.copy()
        ctx.note(features=req)
        s = d.subset_features(req)
        ctx.equal(s.X, raw["X"][:, feats], "wrong columns selected")
        ctx.equal(s.y, raw["y"], "labels changed by the selection of features")
        ctx.equal(s.get_qids_dataset(np.int64), raw["qid"], "queries changed by the selection")
        ctx.equal(np.asarray(s.query_offsets), np.asarray(d.query_offsets), "offsets changed")
        ctx.check(s.n_features == len(feats) and s.n_queries == d.n_queries, "wrong sizes")
        ctx.check(str(s) == "base", "the selection of features changed the name", got=str(s))
        s.X[...] = -1
        s.y[...] = -1
        ctx.count("feature_subsets")
        ctx.distinct("f", raw["X"], str(req))
    else:
        cur = dict(raw)
        s = d
        for _ in range(3):
            if rng.random() < 0.6:
                sel, req = pick(ctx, rng, cur)
                s = s.subset(req)
                rows = [r for r, q in enumerate(cur["qid"]) if int(q) in set(sel)]
                keep = [n for n, q in enumerate(cur["qids"]) if int(q) in set(sel)]
                cur = {"X": cur["X"][rows], "y": cur["y"][rows], "qid": cur["qid"][rows],
                       "qids": cur["qids"][keep], "sizes": cur["sizes"][keep]}
            else:
                cols = rng.permutation(cur["X"].shape[1])[:max(1, cur["X"].shape[1] - 1)]
                s = s.subset_features(cols)
                cur = dict(cur, X=cur["X"][:, cols])
            ctx.equal(s.X, cur["X"], "wrong features after nested selections")
            ctx.equal(s.y, cur["y"], "wrong labels after nested selections")
            ctx.equal(s.get_qids_dataset(np.int64), cur["qid"], "wrong ids after nested selections")
            ctx.check([(int(a), int(b), int(c)) for a, b, c in s.query_iterator()]
                      == gen.blocks(cur), "wrong partition after nested selections")
        ctx.count("nested")
        ctx.distinct("n", cur["X"], cur["qid"])
    ctx.check((d.X.tobytes(), d.y.tobytes(), d.query_ids.tobytes(), d.query_offsets.tobytes())
              == digest, "the source dataset was modified")
