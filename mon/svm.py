"""Shared machinery of the svmlight checks: a reference parser and a diversity of inputs."""
import bz2
import gzip
import io
import os

import numpy as np

f32 = np.float32


def fmt_value(rng, v):
    v = float(v)
    if abs(v) == np.inf:
        return ("-" if v < 0 else "") + str(rng.choice(["inf", "Inf", "INF", "infinity", "1e39",
                                                        "3.5e38", "1e300", "9e999"]))
    u = rng.random()
    if u < 0.5:
        return repr(v)
    if u < 0.7:
        return "%.9g" % v
    if u < 0.8:
        return "%.8e" % v
    if u < 0.87:
        return "+%r" % v if v > 0 else repr(v)
    if u < 0.93 and v == v and abs(v) < 1e30:        # other notations of the same number
        t = ["%.60f" % v, "%E" % f32(v) if float("%E" % f32(v)) == v else "%.17E" % v,
             ("-" if v < 0 else "") + "00" + repr(abs(v)), repr(v) + "0" * 30 if "e" not in repr(v)
             else repr(v), repr(v).replace("0.", ".", 1) if repr(v).lstrip("-").startswith("0.")
             and "e" not in repr(v) else repr(v), "%d." % v if v == int(v) else repr(v)]
        return t[int(rng.integers(0, len(t)))] if abs(v) > 1e-30 or v == 0 else t[1]
    return "%d" % v if v == int(v) else repr(v)


def random_rows(rng, infinities=False):
    """Rows as (label, qid, {feature: value}), with all sorts of sparsity patterns."""
    mode = rng.choice(["small", "growing", "shrinking", "empty_first", "wide", "long", "single"],
                      p=[.35, .15, .1, .15, .1, .1, .05])
    n = {"small": rng.integers(1, 12), "growing": rng.integers(2, 20),
         "shrinking": rng.integers(2, 20), "empty_first": rng.integers(2, 12),
         "wide": rng.integers(1, 5), "long": rng.integers(100, 700), "single": 1}[str(mode)]
    maxf = {"wide": 400, "long": 10}.get(str(mode), 12)
    rows, qid, left = [], None, 0
    used = set()
    for r in range(int(n)):
        if left == 0:
            qid = int(rng.integers(0, 2 ** 31 - 1)) if rng.random() < 0.2 else int(rng.integers(0, 9999))
            while qid in used:
                qid += 1
                qid %= 2 ** 31 - 1
            used.add(qid)
            left = int(rng.integers(1, 6))
        left -= 1
        lim = maxf
        if mode == "growing":
            lim = 1 + r * maxf // int(n)
        elif mode == "shrinking":
            lim = 1 + (int(n) - r) * maxf // int(n)
        p = rng.choice([0.0, 0.1, 0.5, 1.0], p=[.1, .3, .4, .2])
        if mode == "empty_first" and r < int(n) // 2:
            p = 0.0
        feats = {}
        for j in range(1, lim + 1):
            if rng.random() < p:
                u = rng.random()
                if infinities and u > 0.85:
                    v = float(rng.choice([-np.inf, np.inf]))
                elif u < 0.1:
                    v = 0.0
                elif u < 0.7:
                    v = float(f32(rng.normal() * 10.0 ** rng.integers(-3, 4)))
                elif u < 0.8:
                    v = float(f32(rng.normal() * 10.0 ** rng.integers(-46, 38)))
                else:
                    v = float(rng.integers(-5, 100))
                feats[j] = v
        lab = float(rng.integers(0, 5)) if rng.random() < 0.8 else float(rng.integers(-16, 64) / 4)
        rows.append((lab, qid, feats))
    return rows


def render(rng, rows, with_qid=True):
    """The text of the rows, with harmless variations of the layout."""
    out = []
    eol = "\r\n" if rng.random() < 0.1 else "\n"
    comments = rng.random() < 0.3
    notations = rng.random() < 0.15
    sep = "\t" if rng.random() < 0.1 else ("  " if rng.random() < 0.15 else " ")
    for lab, qid, feats in rows:
        if comments and rng.random() < 0.3:
            out.append(str(rng.choice(["# a comment 7:8 qid:3", "#", "#1 qid:1 1:1", "## 2 # 3",
                                       "#" + " y" * int(rng.integers(1, 2000))])))
        toks = ["%d" % lab if lab == int(lab) and rng.random() < 0.8 else repr(lab)]
        if notations and rng.random() < 0.3:
            toks = [fmt_value(rng, lab)]
        zeros = "0" * int(rng.integers(1, 4)) if notations and rng.random() < 0.3 else ""
        if with_qid:
            toks.append("qid:%s%d" % (zeros, qid))
        for j in sorted(feats):
            toks.append("%s%d:%s" % (zeros, j, fmt_value(rng, feats[j])))
        line = sep.join(toks)
        if comments and rng.random() < 0.4 and len(toks) > 1:
            line += str(rng.choice([" # docid=GX%d 1:99" % rng.integers(0, 99), "#glued 3:4", " #",
                                    "#", " ## # qid:7 2:2", "\t#tab", "  # caf\u00e9 \u2603",
                                    " #" + "x" * int(rng.integers(1, 3000))]))
        elif rng.random() < 0.1:
            line += "  "
        out.append(line)
    text = eol.join(out)
    if rng.random() < 0.8:
        text += eol
    return text


def expected(rows):
    """The dense matrices the rows stand for."""
    nf = max([max(f) for _, _, f in rows if f] or [0])
    X = np.zeros((len(rows), nf), dtype=f32)
    with np.errstate(over="ignore"):
        for r, (_, _, feats) in enumerate(rows):
            for j, v in feats.items():
                X[r, j - 1] = f32(v)
    y = np.array([f32(l) for l, _, _ in rows], dtype=f32)
    q = np.array([q for _, q, _ in rows], dtype=np.int64)
    return X, y, q


def parse_text(text):
    """Reference parser (used on what the code under test writes)."""
    rows = []
    for line in text.splitlines():
        line = line.split("#")[0]
        toks = line.split()
        if not toks:
            continue
        lab, qid, feats = float(toks[0]), None, {}
        for t in toks[1:]:
            a, b = t.split(":")
            if a == "qid":
                qid = int(b)
            else:
                feats[int(a)] = float(b)
        rows.append((lab, qid, feats))
    return rows


class Raw(object):
    """A minimal binary file-like object."""

    def __init__(self, data):
        self.b = io.BytesIO(data)
        self.closed_by = 0

    def read(self, *a):
        return self.b.read(*a)

    def readline(self, *a):
        return self.b.readline(*a)

    def close(self):
        self.closed_by += 1


SOURCES = ["path", "gz", "bz2", "bytesio", "file", "fd", "raw", "gzfile", "buffered"]


def source(ctx, rng, data, kind=None):
    """(kind, object to load from, callable checking that it was left open)."""
    kind = kind or str(rng.choice(SOURCES))
    p = ctx.path("data")
    # compressed files may be made of several members
    cut = int(rng.integers(0, len(data) + 1)) if rng.random() < 0.4 else len(data)
    if kind == "gz":
        p += ".gz"
        with gzip.open(p, "wb") as f:
            f.write(data[:cut])
        with gzip.open(p, "ab") as f:
            f.write(data[cut:])
        return kind, p, lambda: True
    if kind == "bz2":
        p += ".bz2"
        with bz2.open(p, "wb") as f:
            f.write(data[:cut])
        with bz2.open(p, "ab") as f:
            f.write(data[cut:])
        return kind, p, lambda: True
    if kind == "bytesio":
        b = io.BytesIO(data)
        return kind, b, lambda: not b.closed
    if kind == "raw":
        r = Raw(data)
        return kind, r, lambda: r.closed_by == 0
    if kind == "gzfile":
        b = gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(data)))
        return kind, b, lambda: not b.closed
    with open(p, "wb") as f:
        f.write(data)
    if kind == "path":
        return kind, p, lambda: True
    if kind == "fd":
        fd = os.open(p, os.O_RDONLY)

        def still():
            try:
                os.fstat(fd)
                os.close(fd)
                return True
            except OSError:
                return False
        return kind, fd, still
    f = open(p, "rb", buffering=16 if kind == "buffered" else -1)

    def open_():
        ok = not f.closed
        f.close()
        return ok
    return kind, f, open_
