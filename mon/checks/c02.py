"""C02: malformed or faulty inputs end in a clean exception and leave the loader usable."""
import gzip
import io
import os
import re
import resource

import numpy as np

from mon import svm

ID = "C02"
RULE = ("valid texts broken in known ways, random byte mutations, faulty streams (exception at the "
        "k-th read, text mode, non-bytes, truncated gzip, missing file) and faulty writers; after "
        "every fault a valid text must load exactly; distinct by the broken text")
REQUIRED = ["out_of_memory", "mutations_still_valid", "malformed_order", "malformed_id", "malformed_trailing", "malformed_qid",
            "malformed_some_qids", "malformed_rejected", "stream_faults", "mutations_rejected", "mutations_accepted",
            "recovered_after_fault", "writer_faults", "rowless"]
ASSUMPTIONS = ["mutations never produce feature ids above 10^5 (they would only exhaust memory)"]


def KINDS(tier):
    k = 3 if tier == "quick" else 135
    return [("malformed", 250 * k), ("mutation", 500 * k), ("stream", 250 * k), ("missing", 20),
            ("writer", 100 * k), ("memory", 14 * k), ("rowless", 30)]


BAD_TOKENS = ["foo", "3", "3:", "a:1", ":1", "qid:", "1;2", "::", "3:x"]


class Boom(Exception):
    pass


class FaultyStream(object):
    def __init__(self, lines, at, what):
        self.lines, self.at, self.what, self.n = lines, at, what, 0

    def read(self, *a):
        return b""

    def readline(self, *a):
        self.n += 1
        if self.n > self.at:
            if isinstance(self.what, BaseException):
                raise self.what
            return self.what
        return self.lines[self.n - 1] if self.n <= len(self.lines) else b""


class FaultyWriter(object):
    def __init__(self, at, what=None):
        self.at, self.n, self.what = at, 0, what

    def write(self, s):
        self.n += 1
        if self.n > self.at:
            raise self.what or OSError("no space left")
        return len(s)


def recovered(ctx, rng):
    from rankeval.dataset.svmlight_format import load_svmlight_file
    from .c01 import judge
    rows = svm.random_rows(rng)
    X, y, q = load_svmlight_file(io.BytesIO(svm.render(rng, rows).encode()), query_id=True)
    judge(ctx, rows, X, y, q)
    ctx.count("recovered_after_fault")


def too_big(data):
    run = 0
    for b in data:
        if 48 <= b <= 57:
            run += 1
            if run > 5:
                return True
        else:
            run = 0
    return False


def small_text(rng):
    n = int(rng.integers(1, 8))
    lines = []
    for r in range(n):
        feats = [j for j in range(1, 8) if rng.random() < 0.5]
        lines.append("%d qid:%d %s" % (rng.integers(0, 5), r // 3, " ".join(
            "%d:%g" % (j, rng.integers(0, 90) / 10) for j in feats)))
    return "\n".join(lines) + "\n"


LINE = re.compile(rb"^-?\d{1,3}(\.\d{1,3})? +qid:\d{1,9}( +[1-9]\d{0,4}:-?\d{1,6}(\.\d{1,4})?)* *$")


def strict(data):
    """The rows of a text which is well formed beyond doubt, None for the others."""
    rows = []
    for line in data[:-1].split(b"\n") if data.endswith(b"\n") else data.split(b"\n"):
        if not LINE.match(line):
            return None
        toks = line.decode().split()
        feats = [(int(a), float(b)) for a, b in (t.split(":") for t in toks[2:])]
        if [a for a, _ in feats] != sorted({a for a, _ in feats}):
            return None
        rows.append((float(toks[0]), int(toks[1][4:]), dict(feats)))
    return rows or None


def mutate(rng, data):
    b = bytearray(data)
    for _ in range(int(rng.integers(1, 6))):
        if not b:
            break
        u, p = rng.random(), int(rng.integers(0, len(b)))
        if u < 0.3:
            b[p] = int(rng.integers(0, 256))
        elif u < 0.5:
            del b[p:p + int(rng.integers(1, 5))]
        elif u < 0.7:
            b[p:p] = bytes([int(rng.choice([0, 10, 13, 32, 35, 45, 46, 48, 49, 58, 101, 113, 255]))]
                           * int(rng.integers(1, 4)))
        elif u < 0.85:
            q = int(rng.integers(0, len(b)))
            b[p:p] = b[q:q + int(rng.integers(1, 12))]
        else:
            del b[p:]
    return bytes(b)


def memory(ctx, rng):
    """Texts which need more memory than there is: MemoryError, the process survives."""
    from rankeval.dataset.svmlight_format import load_svmlight_file
    n = int(rng.choice([1, 2, 3000, 2148, 4295]))
    top = int(rng.choice([10 ** 6, 999999, 2 ** 20])) if n > 2 else int(rng.integers(10 ** 9, 2 ** 31 - 1))
    first = "" if rng.random() < 0.3 else "1:1"
    text = ("1 qid:1 %s\n" % first * (n - 1) + "1 qid:1 %d:2\n" % top).encode()
    ctx.note(rows=n, highest_feature=top, first=first)
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            with open("/proc/self/statm") as f:
                now = int(f.read().split()[0]) * os.sysconf("SC_PAGE_SIZE")
            resource.setrlimit(resource.RLIMIT_AS, (now + 7 * 10 ** 8, now + 7 * 10 ** 8))
            try:
                out = load_svmlight_file(io.BytesIO(text), query_id=True)
                msg = "loaded as %s" % (out[0].shape,)
            except MemoryError:
                X, y, q = load_svmlight_file(io.BytesIO(b"3 qid:5 2:7\n"), query_id=True)
                ok = X.tolist() == [[0, 7]] and y.tolist() == [3] and q.tolist() == [5]
                msg = "ok" if ok else "the next load is wrong"
            except BaseException as e:
                msg = repr(e)
            os.write(w, msg.encode()[:4000])
        finally:
            os._exit(0)
    os.close(w)
    msg = os.read(r, 5000).decode()
    os.close(r)
    _, st = os.waitpid(pid, 0)
    ctx.check(os.waitstatus_to_exitcode(st) == 0 and msg == "ok",
              "a text too big for the memory does not end in a clean MemoryError",
              outcome=msg, status=st)
    ctx.count("out_of_memory")
    ctx.distinct(n, top, first)


def case(ctx, rng, kind, i):
    from rankeval.dataset import Dataset
    from rankeval.dataset.svmlight_format import load_svmlight_file, dump_svmlight_file
    if kind == "malformed":
        rows = svm.random_rows(rng)[:30]
        lines = []
        for lab, qid, feats in rows:
            lines.append("%d qid:%d %s" % (lab, qid, " ".join(
                "%d:%r" % (j, feats[j]) for j in sorted(feats))))
        pos = int(rng.integers(0, len(lines)))
        how = str(rng.choice(["label", "nolabel", "token", "blank", "only_label", "order", "id",
                              "trailing", "qid", "some_qids"]))
        if how == "label":
            lines[pos] = str(rng.choice(["foo", "-", "x1", "qid:3"])) + " qid:1 1:2"
        elif how == "nolabel":
            lines[pos] = "   "
        elif how == "blank":
            lines.insert(pos, "")
        elif how == "only_label":
            lines[pos] = "2"
        elif how == "order":           # unsorted or repeated features
            toks = lines[pos].split()
            a = int(rng.integers(1, 9))
            toks += ["%d:1" % (10 ** 4 + a), "%d:2" % (10 ** 4 + a - int(rng.integers(0, a)))]
            lines[pos] = " ".join(toks)
        elif how == "id":
            lines[pos] = "1 qid:%d %s:2" % (rows[pos][1], rng.choice(
                ["-1", "-7", "4294967297", "4294967296", "2147483647", "9223372036854775809",
                 "18446744073709551617"]))
        elif how == "trailing":
            lines[pos] += " 5000:" + str(rng.choice(["1x", "1:2", "2,5", "1.5.5", "-", "1;",
                                                     "1\x002"]))
        elif how == "qid":
            lines[pos] = "1 qid:%s 1:2" % rng.choice(["1x", "1.5", "x", "", "1:2", "4294967296",
                                                      "99999999999999999999"])
        elif how == "some_qids":
            if len(lines) == 1:
                lines.append("1 qid:7 1:2")
            lines[pos] = "1 1:2"
        else:
            toks = lines[pos].split()
            toks.insert(int(rng.integers(2, len(toks) + 1)), str(rng.choice(BAD_TOKENS)))
            lines[pos] = " ".join(toks)
        text = ("\n".join(lines) + "\n").encode()
        ctx.note(text=text, how=how)
        src, f, _ = svm.source(ctx, rng, text, str(rng.choice(["path", "gz", "bytesio", "raw"])))
        e = ctx.raises(RuntimeError, lambda: load_svmlight_file(f, query_id=True),
                       "a malformed line (%s) was not rejected with RuntimeError" % how)
        ctx.check(len(str(e)) > 0, "empty error message")
        ctx.count("malformed_rejected")
        ctx.count("malformed_" + how)
        ctx.distinct(text)
        ctx.sample({"how": how, "error": str(e)})
    elif kind == "rowless":             # cut before the first row
        text = b"".join(rng.choice([b"", b"# a comment\n", b"#\n"]) for _ in range(i % 4))
        src, f, _ = svm.source(ctx, rng, text, str(rng.choice(["path", "gz", "bytesio", "raw"])))
        ctx.note(text=text, source=src)
        load = [lambda: load_svmlight_file(f, query_id=True), lambda: load_svmlight_file(f),
                lambda: Dataset.load(f)][int(rng.integers(0, 3))]
        ctx.raises(Exception, load, "data returned for a text without any row")
        ctx.count("rowless")
    elif kind == "mutation":
        data = mutate(rng, small_text(rng).encode())
        if too_big(data):
            ctx.count("mutations_skipped")
            return
        ctx.note(data=data)
        want = strict(data)
        try:
            X, y, q = load_svmlight_file(io.BytesIO(data), query_id=True)
        except Exception as e:
            ctx.check(want is None, "a well-formed text was rejected", error=repr(e))
            ctx.check(isinstance(e, (RuntimeError, ValueError, ZeroDivisionError)),
                      "unexpected kind of error for a malformed text", error=repr(e))
            ctx.count("mutations_rejected")
        else:
            if want is not None:
                from .c01 import judge
                judge(ctx, want, X, y, q)
                ctx.count("mutations_still_valid")
            n_lines = data.count(b"\n") + (0 if data.endswith(b"\n") else 1)
            ctx.check(X.ndim == 2 and X.shape[0] == y.shape[0], "inconsistent shapes",
                      X=X.shape, y=y.shape)
            ctx.check(y.shape[0] <= n_lines and q.shape[0] <= n_lines,
                      "more rows than lines", rows=y.shape[0], lines=n_lines)
            ctx.check(np.isfinite(y).all() or b"n" in data.lower(), "labels out of thin air")
            ctx.count("mutations_accepted")
        ctx.distinct(data)
        if rng.random() < 0.1:
            recovered(ctx, rng)
        return
    elif kind == "stream":
        lines = [l + b"\n" for l in small_text(rng).encode().splitlines()]
        at = int(rng.integers(0, len(lines) + 1))
        what = [Boom("boom"), OSError(5, "I/O error"), KeyError("k"), "1 qid:2 3:4\n", 7, None,
                ValueError("v"), KeyboardInterrupt("stop"), MemoryError("m"),
                SystemExit("x")][int(rng.integers(0, 10))]
        ctx.note(at=at, what=repr(what))
        s = FaultyStream(lines, at, what)
        e = ctx.raises(BaseException, lambda: load_svmlight_file(s, query_id=True),
                       "a failing stream was loaded without any error")
        if isinstance(what, BaseException):
            ctx.check(e is what, "the error of the stream was replaced", got=repr(e))
        ctx.count("stream_faults")
        ctx.distinct(lines, at, repr(what))
    elif kind == "missing":
        p = ctx.path("nothing_here_%d.txt" % i)
        ctx.raises(IOError, lambda: load_svmlight_file(p), "no IOError for a missing file")
        ctx.raises(IOError, lambda: Dataset.load(p), "no IOError for a missing file")
        ctx.raises(TypeError, lambda: load_svmlight_file(3.5), "no TypeError for a wrong argument")
        ctx.raises(TypeError, lambda: Dataset.load(p, format="csv"),
                   "no TypeError for an unsupported format")
        z = gzip.compress(small_text(rng).encode() * 30)
        p = ctx.path("cut.gz")
        open(p, "wb").write(z[:len(z) // 2])
        ctx.raises(Exception, lambda: load_svmlight_file(p, query_id=True),
                   "a truncated archive was loaded without any error")
        open(ctx.path("text.txt"), "w").write(small_text(rng))
        with open(ctx.path("text.txt"), "r") as f:
            ctx.raises(Exception, lambda: load_svmlight_file(f, query_id=True),
                       "a text mode file was loaded without any error")
        n_fds = len(os.listdir("/proc/self/fd"))
        for _ in range(20):
            try:
                load_svmlight_file(p, query_id=True)
            except Exception:
                pass
        ctx.check(len(os.listdir("/proc/self/fd")) <= n_fds + 2, "file descriptors leaked")
    elif kind == "memory":
        memory(ctx, rng)
    elif kind == "writer":
        n = int(rng.integers(1, 9))
        X = rng.normal(size=(n, 3)).astype(np.float32)
        y, q = np.arange(n, dtype=np.float32), np.zeros(n, dtype=np.int32)
        how = str(rng.choice(["write", "full", "short_y", "short_q", "dir", "x1d"]))
        ctx.note(how=how)
        if how == "write":
            what = [Boom("disk on fire"), OSError(28, "No space left on device"), ValueError("v"),
                    KeyboardInterrupt("stop"), MemoryError("m")][int(rng.integers(0, 5))]
            w = FaultyWriter(int(rng.integers(0, n)), what)
            fn = lambda: dump_svmlight_file(X, y, w, q)            # noqa: E731
        elif how == "full":
            if rng.random() < 0.5:       # more than a buffer holds
                X = np.repeat(X, 400, axis=0)
                y, q = np.arange(400 * n, dtype=np.float32), np.zeros(400 * n, dtype=np.int32)
            fn = lambda: dump_svmlight_file(X, y, "/dev/full", q)  # noqa: E731
        elif how == "short_y":
            fn = lambda: dump_svmlight_file(X, y[:-1], io.StringIO(), q)   # noqa: E731
        elif how == "short_q":
            X = np.vstack([X, X])
            y = np.arange(2 * n)
            fn = lambda: dump_svmlight_file(X, y, io.StringIO(), q)        # noqa: E731
        elif how == "dir":
            fn = lambda: dump_svmlight_file(X, y, ctx.scratch, q)          # noqa: E731
        else:
            fn = lambda: dump_svmlight_file(X[:, 0], y, io.StringIO(), q)  # noqa: E731
        e = ctx.raises(BaseException, fn, "a failing dump (%s) did not raise" % how)
        if how == "write":
            ctx.check(e is what, "the error of the writer was replaced", got=repr(e))
        elif how in ("full", "dir"):
            ctx.check(isinstance(e, OSError), "the error of the file was replaced", got=repr(e))
        ctx.count("writer_faults")
        ctx.distinct(how, n)
    recovered(ctx, rng)
