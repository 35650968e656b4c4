"""C10: dataset equality and hash agree with the content."""
import numpy as np

from mon import gen

ID = "C10"
RULE = ("pairs of datasets that are identical, identical with another layout/name/id type, or "
        "differ in one cell, one label, one query id, one query boundary or the order of "
        "queries/rows; ==, != and hash, sets and dictionaries judged against the content; "
        "distinct by content and change")
REQUIRED = ["equal_pairs", "different_pairs", "change_cell", "change_label", "change_qid",
            "change_boundary", "change_order", "change_shape", "change_types", "one_column", "foreign", "huge_datasets",
            "sent_datasets", "long_datasets",
            "process_datasets"]
ASSUMPTIONS = ["no NaN, no negative zero; equal hashes are required of equal datasets with the "
               "same numeric types"]
CHANGES = ["none", "layout", "name", "idtype", "cell", "label", "qid", "boundary", "order", "shape",
           "permrows", "rename_all", "types"]


def KINDS(tier):
    k = 4 if tier == "quick" else 144
    return [("pair", 1500 * k), ("foreign", 40 * k), ("container", 120 * k),
            ("huge", 3 * k), ("sent", 60 * k), ("long", 25 * k), ("process", 2 if tier == "quick" else 40)]


OTHER_PROCESS = """
import os, pickle, sys
import json
from mon.boot import boot
boot(json.loads(os.environ["MON_ARGS"])["build"])
from rankeval.dataset import Dataset
sent, raws = pickle.load(open(sys.argv[1], "rb"))
fresh = [Dataset(X, y, q, name="sent") for X, y, q in raws]
out = []
for a, b in zip(sent, fresh):
    out.append([bool(a == b), not (a != b), hash(a) == hash(b), a in {b: 1}, b in {a},
                len({a, b}) == 1, sum(a == f for f in fresh) == sum(b == f for f in fresh)])
pickle.dump((out, fresh, hash("a word")), open(sys.argv[2], "wb"))
"""


def content(raw):
    return (raw["X"].shape, raw["X"].tobytes(), raw["y"].tobytes(),
            np.asarray(raw["qid"], dtype=np.int64).tobytes())


def change(rng, raw, how):
    from .c03 import layout
    r = {k: np.array(v) for k, v in raw.items()}
    n, m = r["X"].shape
    lay = "C"
    if how == "layout":
        lay = str(rng.choice(["F", "strided", "T", "neg"]))
    elif how == "cell":
        a, b = rng.integers(0, n), rng.integers(0, m)
        r["X"][a, b] = np.nextafter(r["X"][a, b], np.float32(100)) if rng.random() < 0.5 \
            else r["X"][a, b] + 1
    elif how == "label":
        r["y"][rng.integers(0, n)] += 1
    elif how in ("qid", "rename_all"):
        k = int(rng.integers(0, len(r["qids"])))
        known = set(int(q) for q in r["qids"])
        new = next(v for v in range(1, 10 ** 6) if v not in known)
        if how == "qid":
            r["qids"][k] = new
        else:
            r["qids"] = np.arange(new, new + len(r["qids"]) * 7, 7)[:len(r["qids"])]
        r["qid"] = np.repeat(r["qids"], r["sizes"])
    elif how == "boundary":
        if len(r["qids"]) < 2:
            return None, lay
        k = int(rng.integers(0, len(r["qids"]) - 1))
        a, b = (k, k + 1) if r["sizes"][k] > 1 else (k + 1, k)
        if r["sizes"][a] < 2:
            return None, lay
        r["sizes"][a] -= 1
        r["sizes"][b] += 1
        r["qid"] = np.repeat(r["qids"], r["sizes"])
    elif how == "order":
        if len(r["qids"]) < 2:
            return None, lay
        p = rng.permutation(len(r["qids"]))
        r["qids"] = r["qids"][p]
        r["qid"] = np.repeat(r["qids"], r["sizes"])     # same rows, other ids
    elif how == "permrows":
        p = rng.permutation(n)
        r["X"], r["y"] = np.ascontiguousarray(r["X"][p]), r["y"][p]
    elif how == "shape":
        u = rng.random()
        if u < 0.3:
            r["X"] = np.ascontiguousarray(np.column_stack([r["X"], np.zeros(n, np.float32)]))
        elif u < 0.6 and n > 1 and (n * m) % (n - 1) == 0:
            return None, lay
        else:
            r["X"] = np.vstack([r["X"], r["X"][-1:]])
            r["y"] = np.append(r["y"], r["y"][-1])
            r["qid"] = np.append(r["qid"], r["qid"][-1])
            r["sizes"][-1] += 1
    return r, lay


def long(ctx, rng):
    """One difference anywhere in hundreds or thousands of rows: at the ends, around powers of two
    and around multiples of round numbers, where what is compared by blocks may go wrong."""
    from rankeval.dataset import Dataset
    n, m = int(rng.integers(60, 4000)), int(rng.integers(1, 30))
    if rng.random() < 0.3:
        n, m = m, n
    X = np.ascontiguousarray(gen.dyadic(rng, (n, m)) + np.float32(0))
    y = rng.integers(0, 5, size=n).astype(np.float32)
    q = np.repeat(np.arange(n), rng.integers(1, 9, size=n))[:n] * 3 + 1
    a = Dataset(X, y, q)
    ctx.note(shape=(n, m))
    ctx.check(a == Dataset(X.copy(), y.copy(), q.copy()), "equal datasets are told different")

    def place(size):
        u = rng.random()
        k = int(rng.integers(0, size))
        if u < 0.3:
            k = size - 1 - int(rng.integers(0, min(size, 8)))
        elif u < 0.6:
            step = int(rng.choice([64, 100, 128, 256, 500, 512, 1000, 1024, 2048]))
            k = k // step * step - int(rng.integers(0, 2))
        return min(max(k, 0), size - 1)
    for _ in range(10):
        Z, z, p = X.copy(), y.copy(), q.copy()
        what = str(rng.choice(["cell", "cell", "label", "qid"]))
        if what == "cell":
            at = (place(n), place(m))
            Z[at] += 1
        elif what == "label":
            at = place(n)
            z[at] += 1
        else:
            at = place(n)
            p[p == p[at]] = q.max() + 1
        b = Dataset(Z, z, p)
        ctx.note(change=what, at=at)
        ctx.check(not a == b and not b == a and a != b, "datasets that differ are told equal")
        ctx.check(b not in {a: 1}, "a different dataset is found in a dictionary")
        ctx.count("long_datasets")
    ctx.distinct("l", content(dict(X=X, y=y, qid=q)))


def case(ctx, rng, kind, i):
    from rankeval.dataset import Dataset
    from .c03 import layout
    if kind == "huge":
        raw = gen.big_dataset(rng, n_features=1)
        ctx.count("huge_datasets")
    else:
        raw = gen.raw_dataset(rng, max_queries=5, max_size=5, max_features=4)
    if kind == "long":
        return long(ctx, rng)
    a = gen.dataset(raw)
    if kind == "foreign":
        other = [None, 3, "x", raw["X"], [a], object()][int(rng.integers(0, 5))]
        if isinstance(other, np.ndarray):
            other = {"X": 1}
        ctx.check(not (a == other) and (a != other), "equal to something that is not a dataset",
                  other=repr(other))
        ctx.check(not (other == a), "equal to something that is not a dataset")
        ctx.check(isinstance(hash(a), int), "not hashable")
        ctx.count("foreign")
        return
    if kind == "container":
        pool, contents, reg, st = [], [], {}, set()
        for _ in range(int(rng.integers(4, 12))):
            how = str(rng.choice(CHANGES))
            r, lay = change(rng, raw, how)
            if r is None:
                continue
            d = Dataset(layout(rng, r["X"], lay), r["y"], r["qid"])
            pool.append(d)
            contents.append(content(r))
            reg[d] = contents[-1]
            st.add(d)
        ctx.check(len(st) == len(set(contents)), "sets confuse datasets",
                  got=len(st), want=len(set(contents)))
        ctx.check(len(reg) == len(set(contents)), "dictionaries confuse datasets")
        for d, c in zip(pool, contents):
            ctx.check(reg[d] == c, "a dictionary returned the value of another dataset")
        ctx.distinct("c", contents)
        return
    if kind == "process":
        # to another process, whose strings and bytes hash differently, and back
        import os
        import pickle
        import subprocess
        import sys
        raws, here = [], []
        for n in range(30):
            r = gen.raw_dataset(rng, max_queries=5, max_size=5, max_features=4)
            raws.append((r["X"], r["y"], r["qid"]))
            here.append(Dataset(*raws[-1], name="sent"))
            if n % 3:
                hash(here[-1])
        there, back = ctx.path("there.pickle"), ctx.path("back.pickle")
        with open(there, "wb") as f:
            pickle.dump((here, raws), f)
        env = dict(os.environ, PYTHONHASHSEED=str(1 + int(rng.integers(0, 10 ** 6))))
        p = subprocess.run([sys.executable, "-c", OTHER_PROCESS, there, back], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            ctx.check(False, "another process cannot use the datasets",
                      log=p.stdout[-2000:].decode("utf-8", "replace"))
        with open(back, "rb") as f:
            out, fresh, word = pickle.load(f)
        names = ["==", "!=", "hash", "in a dictionary", "in a set", "set of both", "== others"]
        for n, row in enumerate(out):
            bad = [w for w, ok in zip(names, row) if not ok]
            ctx.check(not bad, "in another process a dataset sent there does not agree with "
                               "an equal one built there", failed=bad, n=n)
        for a, b in zip(here, fresh):
            ctx.check(a == b and b == a and hash(a) == hash(b) and b in {a: 1},
                      "a dataset received from another process does not agree with an equal one")
        ctx.check(word != hash("a word"), "harness: the two processes hash words alike")
        ctx.count("process_datasets", len(out))
        ctx.distinct("p", [content(dict(X=r[0], y=r[1], qid=r[2])) for r in raws])
        return
    if kind == "sent":
        # copies made by the standard library: to other processes, to files, in memory
        import copy
        import pickle
        lay = str(rng.choice(["C", "F", "strided", "T", "neg"]))
        a = Dataset(layout(rng, raw["X"], lay), raw["y"], raw["qid"], name="sent")
        if rng.random() < 0.5:
            hash(a)
        proto = int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))
        for b in (pickle.loads(pickle.dumps(a, proto)), copy.deepcopy(a), copy.copy(a)):
            ctx.check(a == b and not a != b, "a copy of a dataset is another dataset", layout=lay)
            ctx.check(hash(a) == hash(b), "a copy of a dataset has another hash", layout=lay)
            ctx.check(content(dict(X=np.asarray(b.X), y=np.asarray(b.y), qid=np.repeat(
                b.query_ids, np.diff(b.query_offsets)))) == content(raw),
                "a copy of a dataset has other contents")
            ctx.check(b.name == "sent", "the name is lost")
        table = pickle.loads(pickle.dumps({a: 7}, proto))
        ctx.check(table.get(a) == 7 and a in table, "not found in a dictionary read back")
        ctx.count("sent_datasets")
        ctx.distinct("s", content(raw), lay)
        return
    how = str(rng.choice(CHANGES))
    r, lay = change(rng, raw, how)
    if r is None:
        return
    X = layout(rng, r["X"], lay)
    q = r["qid"].astype(rng.choice([np.int32, np.int64])) if how == "idtype" else r["qid"]
    y = r["y"]
    if how == "types":                # the same numbers, in other types
        X, y = [(X.astype(np.float64), y), (X, y.astype(np.float64)),
                (X.astype(np.float64), y.astype(np.int64))][int(rng.integers(0, 3))]
    b = Dataset(X, y, q, name="other" if how == "name" else None)
    ctx.count("one_column", X.shape[1] == 1)
    same = content(raw) == content(r)
    ctx.note(change=how, layout=lay, qid_a=raw["qid"][:40], qid_b=r["qid"][:40])
    if rng.random() < 0.5:
        hash(a)
    ctx.check((a == b) is same or (bool(a == b) == same), "wrong equality (%s)" % how, want=same)
    ctx.check(bool(b == a) == same, "equality is not symmetric (%s)" % how)
    ctx.check(bool(a != b) == (not same), "!= does not negate == (%s)" % how)
    ctx.check(a == a and b == b, "equality is not reflexive")
    if how == "types":
        pass
    elif same:
        ctx.check(hash(a) == hash(b), "equal datasets with different hashes (%s)" % how)
        ctx.check(b in {a: 1} and a in {b}, "equal datasets not found in containers")
    else:
        ctx.check(b not in {a: 1}, "a different dataset is found in a dictionary (%s)" % how)
    ctx.check(hash(a) == hash(a), "unstable hash")
    ctx.count("equal_pairs" if same else "different_pairs")
    ctx.count("change_" + how)
    ctx.distinct(how, content(raw), content(r))
    ctx.sample({"change": how, "equal": same})
