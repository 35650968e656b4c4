"""C03: dump followed by load gives back the same dataset."""
import bz2
import gzip
import io
import os

import numpy as np

from mon import gen, svm

ID = "C03"
RULE = ("random matrices (C/F/strided/transposed/float64/int/big-endian layouts, values over the "
        "whole single precision range), labels and query ids dumped to paths/.gz/.bz2/StringIO/"
        "files/fds and loaded back; the text is also judged by a reference parser; distinct by "
        "content, layout and sink")
REQUIRED = ["sink_path", "sink_gz", "sink_bz2", "sink_stringio", "sink_file", "sink_fd",
            "layout_F", "layout_strided", "layout_f64", "layout_T", "layout_C", "zero_based",
            "without_qid", "single_instance", "big_qids",
            "huge_datasets", "odd_vectors"]
ASSUMPTIONS = ["finite values; query ids in [0, 2^31-2)"]


def KINDS(tier):
    k = 4 if tier == "quick" else 144
    return [("dump", 900 * k), ("dataset", 500 * k), ("chain", 60 * k),
            ("huge", 2 * k)]


LAYOUTS = ["C", "F", "strided", "T", "f64", "i32", "be", "neg"]


def layout(rng, X, kind):
    if kind == "F":
        return np.asfortranarray(X)
    if kind == "strided":
        big = np.full((X.shape[0] * 2, X.shape[1] * 3), 7, dtype=X.dtype)
        big[::2, ::3] = X
        return big[::2, ::3]
    if kind == "T":
        return np.ascontiguousarray(X.T).T
    if kind == "f64":
        return X.astype(np.float64)
    if kind == "be":
        return X.astype(">f4")
    if kind == "neg":
        return np.ascontiguousarray(X[::-1])[::-1]
    return X.copy()


def vector(ctx, rng, v):
    """A vector in another memory layout."""
    u = rng.random()
    if u < 0.5:
        return v.copy()
    ctx.count("odd_vectors")
    if u < 0.65:
        return np.ascontiguousarray(v[::-1])[::-1]
    if u < 0.8:
        return np.repeat(v, 3)[::3]
    if u < 0.9:
        return np.stack([v + 1, v, v], axis=1)[:, 1]
    return v.astype(v.dtype.newbyteorder())


def values(rng, n, m):
    f32 = np.float32
    mode = rng.random()
    if mode < 0.4:
        X = gen.dyadic(rng, (n, m))
    elif mode < 0.8:
        X = (rng.normal(size=(n, m)) * 10.0 ** rng.integers(-6, 7, size=(n, m))).astype(f32)
    else:
        bits = rng.integers(0, 2 ** 32, size=(n, m), dtype=np.uint64).astype(np.uint32)
        X = bits.view(f32).copy()
        X[~np.isfinite(X)] = 0
    X[rng.random((n, m)) < rng.choice([0, .3, .9])] = 0
    return X + f32(0)


def make(rng):
    nq = int(rng.integers(1, 8))
    sz = gen.sizes(rng, nq, 6)
    n = int(sz.sum())
    m = int(rng.integers(1, 9))
    X = values(rng, n, m)
    y = rng.choice([0, 1, 2, 3, 4], size=n).astype(np.float32)
    if rng.random() < 0.3:
        y = values(rng, n, 1)[:, 0]
        y[np.abs(y) < 1e-30] = 0
    ids = gen.query_ids(rng, nq)
    return {"X": X, "y": y, "qid": np.repeat(ids, sz), "sizes": sz, "qids": ids}


def same(ctx, raw, X, y, q, what):
    eX = raw["X"]
    m = eX.shape[1]
    ctx.check(X.shape[0] == eX.shape[0], "wrong number of rows after %s" % what,
              got=X.shape, want=eX.shape)
    ctx.check(X.shape[1] <= m and not eX[:, X.shape[1]:].any(),
              "columns changed after %s" % what, got=X.shape, want=eX.shape)
    ctx.equal(X, eX[:, :X.shape[1]], "feature values changed after %s" % what)
    ctx.equal(y, raw["y"], "labels changed after %s" % what)
    if q is not None:
        ctx.equal(np.asarray(q).astype(np.int64), raw["qid"].astype(np.int64),
                  "query ids changed after %s" % what)


def sink(ctx, rng, dump):
    """Dumps into a sink; returns (kind, text written)."""
    kind = str(rng.choice(["path", "gz", "bz2", "stringio", "file", "fd"]))
    p = ctx.path("out")
    if kind == "stringio":
        b = io.StringIO()
        dump(b)
        ctx.check(not b.closed, "the dump closed a stream it does not own")
        return kind, b.getvalue().encode()
    if kind == "file":
        with open(p, "w") as f:
            dump(f)
            ctx.check(not f.closed, "the dump closed a file it does not own")
        return kind, open(p, "rb").read()
    if kind == "fd":
        fd = os.open(p, os.O_CREAT | os.O_TRUNC | os.O_WRONLY)
        dump(fd)
        try:
            os.fstat(fd)
        except OSError:
            ctx.check(False, "the dump closed a descriptor it does not own")
        os.close(fd)
        return kind, open(p, "rb").read()
    if kind == "gz":
        dump(p + ".gz")
        return kind, gzip.decompress(open(p + ".gz", "rb").read())
    if kind == "bz2":
        dump(p + ".bz2")
        return kind, bz2.decompress(open(p + ".bz2", "rb").read())
    dump(p)
    return kind, open(p, "rb").read()


def judge_text(ctx, text, raw, with_qid, zero_based):
    rows = svm.parse_text(text.decode())
    ctx.check(len(rows) == raw["X"].shape[0], "wrong number of lines", got=len(rows))
    off = 0 if zero_based else 1
    for r, (lab, qid, feats) in enumerate(rows):
        ctx.check(np.float32(lab) == raw["y"][r], "wrong label in the text", row=r)
        if with_qid:
            ctx.check(qid == int(raw["qid"][r]), "wrong query id in the text", row=r, got=qid)
        else:
            ctx.check(qid is None, "query ids written without being given")
        x = np.zeros(raw["X"].shape[1], dtype=np.float32)
        for j, v in feats.items():
            ctx.check(off <= j < x.size + off, "wrong feature id in the text", row=r, feature=j)
            x[j - off] = np.float32(v)
        ctx.equal(x, raw["X"][r], "wrong feature values in the text", row=r)
        ctx.count("cells_compared", x.size)


def case(ctx, rng, kind, i):
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import dump_svmlight_file, load_svmlight_file
    if kind == "huge":
        raw = gen.big_dataset(rng, n_features=1)
        if rng.random() < 0.5:          # few rows of many columns
            n, m = int(rng.integers(1, 4)), int(rng.integers(30000, 32767))
            raw = {"X": values(rng, n, m), "y": np.ones(n, np.float32), "qid": np.full(n, 3),
                   "sizes": np.array([n]), "qids": np.array([3])}
        kind = str(rng.choice(["dump", "dataset"]))
        ctx.count("huge_datasets")
    else:
        raw = make(rng)
    lay = str(rng.choice(LAYOUTS))
    if lay == "i32":
        raw["X"] = rng.integers(-9, 99, size=raw["X"].shape).astype(np.float32)
    X = layout(rng, raw["X"], lay)
    if lay == "i32":
        X = X.astype(np.int32)
    ctx.note(layout=lay, shape=X.shape, qid=raw["qid"][:60])
    ctx.count("layout_" + lay)
    ctx.count("single_instance", X.shape[0] == 1)
    ctx.count("big_qids", int(raw["qids"].max()) > 10 ** 6)
    before = X.tobytes()
    if kind == "dump":
        with_qid = rng.random() < 0.8
        zb = rng.random() < 0.25
        y = raw["y"].astype(np.float64) if rng.random() < 0.3 else raw["y"].copy()
        q = raw["qid"].astype(rng.choice([np.int32, np.int64, np.uint32]))
        if rng.random() < 0.3:
            q, y = [int(v) for v in q], [float(v) for v in y]
        else:
            q, y = vector(ctx, rng, q), vector(ctx, rng, y)
        skind, text = sink(ctx, rng, lambda f: dump_svmlight_file(
            X, y, f, q if with_qid else None, zero_based=zb))
        ctx.count("zero_based", zb)
        ctx.count("without_qid", not with_qid)
        ctx.note(sink=skind, text=text[:800])
        judge_text(ctx, text, raw, with_qid, zb)
        if not zb:
            out = load_svmlight_file(io.BytesIO(text), query_id=with_qid)
            same(ctx, raw, out[0], out[1], out[2] if with_qid else None, "dump and load")
    elif kind == "dataset":
        d = Dataset(X, vector(ctx, rng, raw["y"]), vector(ctx, rng, raw["qid"]))
        skind, text = sink(ctx, rng, lambda f: d.dump(f))
        ctx.note(sink=skind, text=text[:800])
        judge_text(ctx, text, raw, True, False)
        e = Dataset.load(io.BytesIO(text))
        same(ctx, raw, e.X, e.y, e.get_qids_dataset(np.int64), "Dataset.dump and load")
        ctx.equal(e.query_ids.astype(np.int64), raw["qids"], "wrong queries after dump and load")
        if e.n_features == d.n_features and lay != "be":
            ctx.check(e == d, "the dataset loaded back is not equal to the one dumped")
        b = io.StringIO()
        e.dump(b)
        ctx.check(b.getvalue().encode() == text, "a second dump writes a different text")
    else:
        # several generations through files
        d = Dataset(X, raw["y"].copy(), raw["qid"].copy())
        skind = "chain"
        for g in range(4):
            p = ctx.path("g%d.txt%s" % (g, rng.choice(["", ".gz", ".bz2"])))
            d.dump(p)
            d = Dataset.load(p)
            same(ctx, raw, d.X, d.y, d.get_qids_dataset(np.int64), "%d generations" % (g + 1))
    ctx.count("sink_" + skind)
    ctx.check(X.tobytes() == before, "the dump modified the matrix")
    ctx.distinct(lay, skind, raw["X"], raw["y"], raw["qid"])
    ctx.sample({"layout": lay, "sink": skind, "X": raw["X"][:2], "qid": raw["qid"]})
