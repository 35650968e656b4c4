"""C21: parallel native code is deterministic and free of data races."""
import ctypes
import os
import re

import numpy as np

from mon import boot, gen, ref

ID = "C21"
RULE = ("scoring (basic, detailed), topological analysis and feature importance of random forests "
        "over random documents, with 1 to 8 threads; under ThreadSanitizer with an instrumented "
        "OpenMP runtime and seeded delays at thread start, barriers and hand-outs, and without; the "
        "same calls from several threads of the application at once; "
        "results compared across thread counts and with the sequential reference; distinct by "
        "workload and thread count")
REQUIRED = ["regions_observed", "threads_observed", "score_runs", "topology_runs",
            "importance_runs", "thread_counts", "tsan_workloads", "few_iterations",
            "concurrent_calls"]
ASSUMPTIONS = ["races are looked for in the code of the extensions (reports naming them)"]
SHARDS = {"quick": 2, "thorough": 4}


def VARIANTS(tier):
    delays = [("tsan", {"MON_OMP_DELAY_US": "0"}),
              ("tsan", {"MON_OMP_DELAY_US": "300", "MON_OMP_SEED": "1"})]
    if tier == "thorough":
        delays += [("tsan", {"MON_OMP_DELAY_US": str(d), "MON_OMP_SEED": str(s)})
                   for d in (20, 300, 3000) for s in (2, 3)]
    return [("plain", {})] + delays


def KINDS(tier):
    k = 1 if tier == "quick" else 15
    return [("mixed", 60 * k), ("callers", 20 * k)]


def set_threads(ctx, n):
    """On every runtime in use: libgomp, or the instrumented runtime inside each extension."""
    if ctx.variant == "tsan":
        for so in boot.loaded.values():
            lib = ctypes.CDLL(so)
            if hasattr(lib, "mon_omp_regions"):
                lib.omp_set_num_threads(n)
    else:
        ctypes.CDLL("libgomp.so.1").omp_set_num_threads(n)


def counters(ctx):
    out = [0, 0, 0]
    if ctx.variant == "tsan":
        for so in set(boot.loaded.values()):
            lib = ctypes.CDLL(so)
            for k, f in enumerate(("mon_omp_regions", "mon_omp_threads", "mon_omp_delays")):
                fn = getattr(lib, f)
                fn.restype = ctypes.c_ulong
                out[k] += fn()
    return out


def results(op, model, d):
    """What one call of the API gives, as a list of arrays."""
    from rankeval.analysis.feature import feature_importance
    from rankeval.analysis.topological import topological_analysis
    if op in ("score", "cached"):
        return [model.score(d, cache=op == "cached")]
    if op in ("detailed", "cached detailed"):
        return list(model.score(d, detailed=True, cache=op != "detailed"))
    if op == "topology":
        top = topological_analysis(model, include_leaves=True)
        return [top.topology.toarray(), np.asarray(top.height_trees)]
    return [feature_importance(model, d, normalize=False).values]


def callers(ctx, rng):
    """Several threads of the application use the same models and datasets at the same time."""
    import sys
    import threading
    nf = int(rng.integers(1, 6))
    pairs = []
    for _ in range(2):
        n = int(rng.choice([1, 3, 40, 300]))
        fo = gen.forest(rng, nf, n_trees=int(rng.choice([1, 3, 12])))
        X = gen.probes(rng, fo, nf, n)
        raw = dict(X=X, y=rng.integers(0, 5, size=n).astype(np.float32), qid=np.arange(1, n + 1),
                   sizes=np.ones(n, dtype=int), qids=np.arange(1, n + 1))
        pairs.append((gen.model(ctx, fo), gen.dataset(raw)))
        ctx.distinct(repr(fo), X)
    set_threads(ctx, int(rng.choice([1, 2, 4])))
    ops = ["score", "detailed", "cached", "cached detailed", "topology", "importance"]
    combos = [(op, m, d) for op in ops for m in range(2) for d in range(2)]
    before = counters(ctx)
    want = {c: [np.array(a) for a in results(c[0].replace("cached", "").strip() or "score",
                                             pairs[c[1]][0], pairs[c[2]][1])] for c in combos}
    plans = [[combos[int(k)] for k in rng.integers(0, len(combos), size=8)]
             for _ in range(int(rng.integers(2, 5)))]
    if rng.random() < 0.5:
        # all of them the same operation, on the same objects
        plans = [[plans[0][0]] * 4 + plans[0] for _ in plans]
    got, errors = [[] for _ in plans], []
    gate = threading.Barrier(len(plans))

    def caller(k):
        try:
            gate.wait()
            for op, m, d in plans[k]:
                got[k].append([np.array(a) for a in results(op, pairs[m][0], pairs[d][1])])
        except BaseException as e:
            errors.append(repr(e))
    switch = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-4, switch])))
    try:
        threads = [threading.Thread(target=caller, args=(k,)) for k in range(len(plans))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(switch)
    ctx.check(not errors, "a call failed with several threads calling", errors=errors)
    for plan, arrays in zip(plans, got):
        for c, g in zip(plan, arrays):
            ctx.note(call=c[0])
            ctx.check(len(g) == len(want[c]), "another number of results")
            for a, b in zip(g, want[c]):
                if c[0] == "importance":
                    tol = 1e-3 * max(1e-6, float(np.abs(b).sum()))
                    same = a.shape == b.shape and np.allclose(a, b, rtol=1e-3, atol=tol)
                else:
                    same = a.shape == b.shape and a.tobytes() == b.tobytes()
                ctx.check(same, "%s differs when several threads call" % c[0], got=a, want=b)
            ctx.count("concurrent_calls")
    after = counters(ctx)
    ctx.count("regions_observed", after[0] - before[0])
    ctx.count("threads_observed", after[1] - before[1])
    ctx.count("delays_injected", after[2] - before[2])


def case(ctx, rng, kind, i):
    if kind == "callers":
        return callers(ctx, rng)
    from rankeval.analysis.feature import feature_importance
    from rankeval.analysis.topological import topological_analysis
    nf = int(rng.integers(1, 6))
    n = int(rng.choice([1, 2, 3, 5, 40, 400]))
    raw = gen.raw_dataset(rng, max_queries=1, max_size=1, n_features=nf)
    fo = gen.forest(rng, nf, n_trees=int(rng.choice([1, 2, 3, 20])))
    X = gen.probes(rng, fo, nf, n)
    raw = dict(X=X, y=rng.integers(0, 5, size=n).astype(np.float32), qid=np.arange(1, n + 1),
               sizes=np.ones(n, dtype=int), qids=np.arange(1, n + 1))
    d = gen.dataset(raw)
    model = gen.model(ctx, fo)
    ctx.note(forest=fo if len(fo) < 4 else len(fo), X=X if n < 6 else n)
    want = ref.scores(fo, X) if n <= 40 else None
    first = None
    before = counters(ctx)
    counts = [1] + sorted(int(v) for v in rng.choice([2, 3, 4, 5, 8], size=2, replace=False))
    for nt in counts:
        set_threads(ctx, nt)
        s = np.array(model.score(d))
        y, p, l = [np.array(v) for v in model.score(d, detailed=True)]
        top = topological_analysis(model, include_leaves=bool(i % 2))
        imp = feature_importance(model, d, normalize=False)
        got = dict(scores=s, detailed=y, partial=p, leaves=l,
                   topology=top.topology.toarray() if hasattr(top.topology, "toarray")
                   else np.asarray(top.topology),
                   heights=np.asarray(top.height_trees), counts=imp.values[1].copy())
        if want is not None:
            ctx.equal(s.astype(float), want, "wrong scores with %d threads" % nt)
        if first is None:
            first, first_imp = got, imp.values[0].copy()
        else:
            for k in got:
                ctx.check(got[k].shape == first[k].shape and got[k].tobytes() == first[k].tobytes(),
                          "%s differ with %d threads" % (k, nt), got=got[k], want=first[k])
            tol = 1e-3 * max(1e-6, float(np.abs(first_imp).sum()))
            ctx.check(np.allclose(imp.values[0], first_imp, rtol=1e-3, atol=tol),
                      "importances differ with %d threads" % nt, got=imp.values[0], want=first_imp)
        # repeated under the same number of threads
        ctx.check(np.array(model.score(d)).tobytes() == s.tobytes(), "scores are not repeatable")
        ctx.count("score_runs", 3)
        ctx.count("topology_runs")
        ctx.count("importance_runs")
        ctx.count("thread_counts")
        ctx.distinct(repr(fo), X, nt)
    ctx.count("few_iterations", min(n, len(fo)) < max(counts))
    after = counters(ctx)
    ctx.count("regions_observed", after[0] - before[0])
    ctx.count("threads_observed", after[1] - before[1])
    ctx.count("delays_injected", after[2] - before[2])
    ctx.count("tsan_workloads", ctx.variant == "tsan")
    ctx.sample({"docs": n, "trees": len(fo), "threads": counts, "variant": ctx.variant})


OURS = re.compile(r"_efficient_(scoring|topological|feature)[\w.]*\.so|_svmlight_format[\w.]*\.so")


def judge_log(run, variant, args, text):
    out = []
    if variant != "tsan":
        return out
    for block in re.split(r"={18}\n", text):
        if "WARNING: ThreadSanitizer" in block and OURS.search(block):
            head = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", block).group(1).strip()
            frames = re.findall(r"#\d+ (\S+) .*?(_efficient_\w+|_svmlight_format)", block)
            where = ", ".join(sorted({f[0] for f in frames}))[:200]
            kind, i = run.case_of(args) or ("mixed", 0)
            out.append({"kind": kind, "i": i,
                        "variant": variant,
                        "message": "ThreadSanitizer: %s in %s" % (head, where),
                        "details": {"report": block[:5000]}})
        elif "WARNING: ThreadSanitizer" in block:
            run.counters["foreign_tsan_reports"] = run.counters.get("foreign_tsan_reports", 0) + 1
    return out[:3]
