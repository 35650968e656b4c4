"""C17: pruning and copying keep the leading trees unchanged."""
import numpy as np

from mon import gen, ref

ID = "C17"
RULE = ("random sequences of copy(n_trees), loads with n_trees, scorings (cached or not), saves and "
        "changes of the copies; after every step the touched model and the original are compared "
        "with the prefix of the reference forest (nodes, statistics, detailed scores, export); "
        "distinct by forest and sequence")
REQUIRED = ["load_limit", "copies", "pruned_copies", "limit_not_below_size", "mutated_copies",
            "rescaled_copies",
            "scored_before_copy", "exports", "originals_rechecked", "sent_copies", "colossal_models"]
ASSUMPTIONS = ["limits are at least 1"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("limit", 250 * k), ("history", 250 * k),
            ("colossal", 1 if tier == "quick" else 12)]


def full(ctx, model, fo, d, X, lr, base):
    from .c16 import judge
    judge(ctx, model, fo)
    ids = [ref.walk(model, k, t, ctx.check) for k, (t, _) in enumerate(fo)]
    want = ref.partials(fo, X)
    y, part, leaves = [np.asarray(v) for v in model.score(d, detailed=True)]
    w = want * lr
    if base:
        w[:, 0] += base
    ctx.check(part.shape == (len(X), len(fo)) and leaves.shape == part.shape,
              "wrong shape of the detailed scores", got=part.shape)
    ctx.equal(part.astype(float), w, "wrong partial scores")
    ctx.equal(y.astype(float), w.sum(axis=1), "wrong detailed scores")
    for r in range(len(X)):
        for j, (t, _) in enumerate(fo):
            ctx.check(int(leaves[r, j]) == ids[j][ref.route(t, X[r])[1]], "wrong leaf")
    ctx.equal(np.asarray(model.score(d)).astype(float), w.sum(axis=1), "wrong scores")


def case(ctx, rng, kind, i):
    from rankeval.model import RTEnsemble
    nf = int(rng.integers(1, 6))
    raw = gen.raw_dataset(rng, max_queries=3, max_size=4, n_features=nf)
    X = raw["X"]
    fo = gen.forest(rng, nf, X=X, max_trees=9)
    if kind == "colossal":
        kind, fo = "limit", gen.colossal(rng, nf, X)
        ctx.count("colossal_models")
    lr, base = float(rng.choice([1, 0.5])), (1.25 if rng.random() < 0.5 else None)
    fmt = "QuickRank"
    if all(t[0] == "split" for t, _ in fo) and rng.random() < 0.3:
        fmt = "Jforests"
    path = ctx.path("m.txt")
    gen.WRITERS[fmt](fo, path)
    kw = dict(format=fmt, learning_rate=lr, base_score=base, name="orig")
    model = RTEnsemble(path, **kw)
    d = gen.dataset(raw)
    ctx.note(forest=fo if len(fo) < 100 else len(fo))
    trace = []
    if kind == "limit":
        k = int(rng.integers(1, len(fo) + 3)) if len(fo) < 100 else len(fo) - 1
        m = RTEnsemble(path, n_trees=k, **kw)
        full(ctx, m, fo[:k], d, X, lr, base)
        ctx.count("limit_not_below_size", k >= len(fo))
        ctx.count("load_limit")
        c = model.copy(n_trees=k)
        full(ctx, c, fo[:k], d, X, lr, base)
        full(ctx, model, fo, d, X, lr, base)
        out = ctx.path("o.xml")
        c.save(out)
        ref.check_model(ctx, RTEnsemble(out), fo[:k])
        ctx.count("exports")
        ctx.count("copies")
        ctx.distinct("l", repr(fo), k)
        return
    pool = [(model, list(fo), True)]
    for step in range(int(rng.integers(3, 9))):
        j = int(rng.integers(0, len(pool)))
        m, f, alive = pool[j]
        op = str(rng.choice(["score", "cscore", "dscore", "copy", "prune", "mutate", "save",
                             "clear", "rescale"], p=[.1, .15, .1, .2, .15, .1, .05, .05, .1]))
        trace.append((op, j))
        ctx.note(trace=trace)
        if not alive:
            continue
        if op in ("score", "cscore", "dscore"):
            y = m.score(d, detailed=op == "dscore", cache=op != "score")
            y = np.asarray(y[0] if op == "dscore" else y)
            ctx.equal(y.astype(float), ref.scores(f, X, lr, base), "wrong scores in a history")
        elif op in ("copy", "prune"):
            ctx.count("scored_before_copy", any(o in ("score", "cscore", "dscore") and a == j
                                                for o, a in trace[:-1]))
            k = None if op == "copy" else int(rng.integers(1, len(f) + 2))
            if k is None and rng.random() < 0.25:
                import pickle
                c = pickle.loads(pickle.dumps(m))           # a copy sent to another process
                ctx.count("sent_copies")
            else:
                c = m.copy() if k is None else m.copy(n_trees=k)
            g = f if k is None else f[:k]
            full(ctx, c, g, d, X, lr, base)
            ctx.check(c is not m, "the copy is the original")
            pool.append((c, list(g), True))
            ctx.count("copies")
            ctx.count("pruned_copies", len(g) < len(f))
        elif op == "mutate" and j > 0:
            for a in ("trees_nodes_value", "trees_weight", "trees_left_child", "trees_right_child",
                      "trees_nodes_feature", "trees_root"):
                v = getattr(m, a)
                if v.flags.writeable:
                    v[...] = 0
            m.learning_rate, m.base_score = 7, 99
            pool[j] = (m, f, False)
            ctx.count("mutated_copies")
        elif op == "rescale" and j > 0 and m.trees_weight.flags.writeable:
            # a copy given other weights and scored, with the cache of its own
            m.trees_weight *= -2
            f = [(t, w * -2) for t, w in f]
            pool[j] = (m, f, True)
            m.clear_cache()
            y = m.score(d, detailed=bool(rng.random() < .5), cache=True)
            y = np.asarray(y[0] if isinstance(y, tuple) else y)
            ctx.equal(y.astype(float), ref.scores(f, X, lr, base), "wrong scores of a changed copy")
            ctx.count("rescaled_copies")
        elif op == "save":
            out = ctx.path("o.xml")
            m.save(out)
            ref.check_model(ctx, RTEnsemble(out), f)
            ctx.count("exports")
        elif op == "clear":
            m.clear_cache()
        for m2, f2, alive2 in pool:
            if alive2:
                full(ctx, m2, f2, d, X, lr, base)
                ctx.count("originals_rechecked")
    ctx.distinct("h", repr(fo), trace)
    ctx.sample({"trace": trace})
