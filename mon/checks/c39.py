"""C39: fetching datasets against a simulated server, with faults at every effect on the disk."""
import errno
import io
import json
import os
import resource
import shutil
import sys
import tarfile
import urllib.error
import urllib.request
import urllib.response
from email.message import Message

import numpy as np

from mon import gen

ID = "C39"
RULE = ("random catalogues served by a simulated server whose archives change at every fetch; "
        "histories of fetches (folds, forced, with or without models, downloads allowed or not) with "
        "errors, interrupts, crashes of the process, full disks and broken transfers; every effect on "
        "the disk observed (audit events) and confined; distinct by history")
REQUIRED = ["fetches", "served_from_disk", "downloads", "fault_error", "fault_interrupt",
            "fault_crash", "fault_full_disk", "fault_connect", "fault_read", "fault_truncated",
            "fault_corrupt", "refetched_after_fault", "not_allowed_raised", "not_allowed_served",
            "forced", "without_models", "folds", "unknown_datasets", "no_folds", "no_validation",
            "licenses", "default_folder", "effects_observed", "swept_points", "hostile_archives",
            "truncated_detected",
            "home_relative_folder", "missing_parents", "relative_folder", "linked_folder"]
ASSUMPTIONS = ["one fetch at a time", "the catalogue itself is well formed",
               "a transfer cut within the last bytes, after the last file, may be accepted when all "
               "the files are there", "forced downloads are allowed downloads"]
# what cannot be removed may be left, if what is returned is right
REMOVALS = ("os.remove", "os.rmdir", "shutil.rmtree")
CATALOGUE = "http://rankeval.isti.cnr.it/rankeval-datasets/dataset_dictionary.json"


def KINDS(tier):
    k = 3 if tier == "quick" else 40
    return [("history", 200 * k), ("sweep", 24 * k), ("hostile", 12 * k)]


class Watch(object):
    """Audit events: effects on the disk, confined to a folder; faults injected before them."""
    EFFECTS = {"os.mkdir": ((0,), 2), "os.rename": ((0, 1), 2), "os.remove": ((0,), 1),
               "os.rmdir": ((0,), 1), "shutil.rmtree": ((0,), 1), "os.symlink": ((1,), 2),
               "os.link": ((1,), 2), "os.truncate": ((0,), None), "os.chmod": ((0,), 2),
               "os.chown": ((0,), 3), "os.utime": ((0,), 3)}

    def __init__(self):
        self.on, self.points, self.outside, self.fired = False, 0, [], None
        sys.addaudithook(self.hook)

    def start(self, home, fault_at=None, fault=None):
        self.home, self.at, self.fault = os.path.realpath(home), fault_at, fault
        self.points, self.outside, self.fired, self.on = 0, [], None, True

    def stop(self):
        self.on = False

    def resolve(self, path, dir_fd):
        path = os.fsdecode(path)
        if not os.path.isabs(path):
            base = os.readlink("/proc/self/fd/%d" % dir_fd) if isinstance(dir_fd, int) and dir_fd >= 0 \
                else os.getcwd()
            path = os.path.join(base, path)
        head, tail = os.path.split(path)
        return os.path.join(os.path.realpath(head), tail)

    def hook(self, event, args):
        if not self.on or (event != "open" and event not in self.EFFECTS):
            return
        self.on = False
        try:
            self.judge(event, args)
        finally:
            if self.fired is None or self.fault != "gone":
                self.on = True

    def judge(self, event, args):
        if event == "open":
            path, _, flags = args
            if not isinstance(path, (str, bytes)):
                return
            path = os.path.realpath(os.fsdecode(path))
            write = (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            inside = (path + os.sep).startswith(self.home + os.sep)
            if write and not inside:
                self.outside.append((event, path))
                raise PermissionError(errno.EACCES, "outside the data folder: %s" % path)
            if not inside:
                return
        else:
            which, fd = self.EFFECTS[event]
            for w in which:
                if not isinstance(args[w], (str, bytes, os.PathLike)):
                    return
                dir_fd = args[fd + (w if event == "os.rename" else 0)] \
                    if fd is not None and len(args) > fd + (w if event == "os.rename" else 0) else -1
                path = self.resolve(args[w], dir_fd)
                if not (path + os.sep).startswith(self.home + os.sep):
                    self.outside.append((event, path))
                    raise PermissionError(errno.EACCES, "outside the data folder: %s" % path)
            if event in ("os.chmod", "os.chown", "os.utime"):
                return          # tarfile does not report these
        self.points += 1
        if self.at is not None and self.points == self.at and self.fired is None:
            self.fired = (event, str(path))
            if self.fault == "crash":
                os._exit(86)
            raise (OSError(errno.EIO, "injected") if self.fault == "error" else KeyboardInterrupt())


class Body(io.RawIOBase):
    """Body of an answer, possibly cut by an error."""

    def __init__(self, server, data, fail_at):
        self.server, self.data, self.fail_at, self.pos = server, data, fail_at, 0

    def readable(self):
        return True

    def read(self, n=-1):
        end = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        if self.fail_at is not None and end >= self.fail_at:
            self.server.fired = "read"
            raise ConnectionResetError(errno.ECONNRESET, "injected")
        out = self.data[self.pos:end]
        self.pos = end
        return out

    def readinto(self, b):
        out = self.read(len(b))
        b[:len(out)] = out
        return len(out)


class Server(urllib.request.BaseHandler):
    """Answers in place of the network."""
    handler_order = 100

    def __init__(self):
        self.reset()

    def reset(self):
        self.pages, self.requests, self.fault, self.fired = {}, [], None, None

    def http_open(self, req):
        url = req.full_url
        if url != CATALOGUE:
            self.requests.append(url)
        data = self.pages.get(url)
        if data is None:
            raise urllib.error.HTTPError(url, 404, "not found", Message(), io.BytesIO(b""))
        fail_at = None
        if self.fault and url == self.fault[1]:
            kind, _, where = self.fault
            if kind == "connect":
                self.fired = kind
                raise urllib.error.URLError("injected")
            at = int(where * len(data))
            if kind == "read":
                fail_at = at
            elif kind == "truncated":
                data, self.fired = data[:at], kind
            else:
                at = min(at, len(data) - 1)
                data, self.fired = data[:at] + bytes([data[at] ^ 0x55]) + data[at + 1:], kind
        r = urllib.response.addinfourl(Body(self, data, fail_at), Message(), url, 200)
        r.msg = "OK"
        return r

    https_open = http_open


watch, server = None, None


def setup(ctx):
    global watch, server
    import rankeval.dataset.datasets_fetcher                                   # noqa: F401
    # everything that opens files lazily is loaded before watching
    import encodings.idna, gzip, bz2, lzma, http.client                        # noqa: F401,E401
    server = Server()
    urllib.request.install_opener(urllib.request.build_opener(urllib.request.ProxyHandler({}), server))
    watch = Watch()


def tar_gz(rng, files, dirs=True, raw_members=()):
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w:gz") as t:
        seen = set()
        for name, data in files:
            parts = name.split("/")[:-1]
            for d in range(len(parts)):
                p = "/".join(parts[:d + 1])
                if dirs and p not in seen:
                    seen.add(p)
                    m = tarfile.TarInfo(p)
                    m.type, m.mode = tarfile.DIRTYPE, 0o755
                    t.addfile(m)
            m = tarfile.TarInfo(name)
            m.size, m.mode = len(data), 0o644
            t.addfile(m, io.BytesIO(data))
        for m, data in raw_members:
            t.addfile(m, io.BytesIO(data) if data is not None else None)
    return out.getvalue()


class Entry(object):
    """A catalogued dataset: what the server offers now, and what may be on the disk."""

    def __init__(self, rng, k):
        self.k = k
        self.folds = None
        if rng.random() < 0.5:
            self.folds = [[1, 2, 10], [0, 1, 7], [5, 0, 3]][int(rng.integers(0, 3))]
            self.folds = self.folds[:int(rng.integers(1, 4))]
        self.validation = bool(rng.random() < 0.7)
        self.license = bool(rng.random() < 0.6)
        self.sub = "" if self.folds or rng.random() < 0.6 else "deep/er/"
        self.key = "set%d" % k
        self.urls = ("http://server/d/set%d.tgz" % k, "http://server/m/set%d.tgz" % k)
        self.dic = {"DATASET_NAME": "Name%d" % k, "DATASET_FORMAT": "svmlight",
                    "TRAIN_FILE": self.sub + "train.txt", "TEST_FILE": self.sub + "test.txt",
                    "DATASET_URL": self.urls[0], "MODELS_URL": self.urls[1],
                    "DATASET_ARCHIVE_NAME": "set.tar.gz", "MODELS_ARCHIVE_NAME": "mod.tar.gz",
                    "BLOG_POST_URL": "http://server/blog%d" % k}
        if self.validation:
            self.dic["VALIDATION_FILE"] = self.sub + "vali.txt"
        elif rng.random() < 0.5:
            self.dic["VALIDATION_FILE"] = None
        if self.license:
            self.dic["LICENSE_FILE"] = "license.txt"
        if self.folds:
            self.dic["COMMON_SUBFOLDER_NAME"] = "Fold"
        self.versions = []
        self.local = [{None}, {None}]          # possible versions on the disk
        self.publish(rng)

    def publish(self, rng):
        """A new version on the server."""
        v = len(self.versions)
        data, files = {}, []
        for fold in self.folds or [None]:
            where = "Fold%d/" % fold if fold is not None else ""
            for part in ["train", "test"] + ["vali"] * self.validation:
                raw = gen.raw_dataset(rng, max_queries=3, max_size=4, n_features=3)
                raw["X"][:, 2] = v + 1                    # no trailing empty column; tells the version
                data[(fold, part)] = raw
                text = "".join(l + "\n" for l in gen.svmlight_lines(raw))
                files.append((where + self.sub + part + ".txt", text.encode()))
        text = "version %d of\nthe license\n" % v
        if self.license:
            files.append(("license.txt", text.encode()))
        models = []
        for fold in self.folds or [None]:
            where = "Fold%d/" % fold if fold is not None else ""
            for m in range(int(rng.integers(0, 4))):
                name = where + ["a.xml", "b/c.txt", "b/model", ".hidden"][m]
                models.append((name, ("model %d %s " % (v, name)).encode() * 30))
        order = rng.permutation(len(files))
        dirs = bool(rng.random() < 0.7)
        self.archives = (tar_gz(rng, [files[q] for q in order], dirs), tar_gz(rng, models, dirs))
        for u, a in zip(self.urls, self.archives):
            server.pages[u] = a
        self.versions.append((data, dict(models), text))

    def candidates(self, part, requested):
        """Versions the fetch may return: the current one if it was requested."""
        if requested:
            return {len(self.versions) - 1}
        return self.local[part] - {None}


def matches(rank_ds, raw):
    return rank_ds.X.shape == raw["X"].shape and np.array_equal(rank_ds.X, raw["X"]) and \
        np.array_equal(rank_ds.y, raw["y"]) and \
        np.array_equal(np.repeat(rank_ds.query_ids, np.diff(rank_ds.query_offsets)), raw["qid"])


def judge(ctx, e, home, fold, with_models, force, out):
    """The container against what the server published; updates what is known of the disk."""
    ctx.check(out is not None, "nothing is returned for a catalogued dataset")
    reqs = list(server.requests)
    asked = [reqs.count(u) for u in e.urls]
    ctx.check(set(reqs) <= set(e.urls), "something else was downloaded", requests=reqs)
    ctx.check(max(asked) <= 1, "an archive was downloaded twice by a fetch", requests=reqs)
    if not with_models:
        ctx.check(asked[1] == 0, "models were downloaded without being asked for")
    for part in (0, 1) if with_models else (0,):
        if force:
            ctx.check(asked[part] == 1, "a forced download used the local data", part=part)
        elif e.local[part] == {None}:
            ctx.check(asked[part] == 1, "missing data was not downloaded", part=part)
        elif None not in e.local[part]:
            ctx.check(asked[part] == 0, "data already on the disk was downloaded again", part=part)
        ctx.count("downloads" if asked[part] else "served_from_disk")
    parts = {"train": out.train_dataset, "test": out.test_dataset}
    if e.validation:
        parts["vali"] = out.validation_dataset
    else:
        ctx.check(out.validation_dataset is None, "a validation set the dataset does not have")
        ctx.count("no_validation")
    ok = set()
    for v in e.candidates(0, asked[0]):
        data, _, text = e.versions[v]
        if all(d is not None and matches(d, data[(fold, p)]) for p, d in parts.items()) and \
                (not e.license or out.license_agreement == text):
            ok.add(v)
    ctx.check(len(ok) >= 1, "the datasets are not the ones published for the fold",
              candidates=sorted(e.candidates(0, asked[0])),
              got={p: None if d is None else (d.X, d.y) for p, d in parts.items()},
              license=out.license_agreement)
    full = {"train": "train", "test": "test", "vali": "validation"}
    for p, d in parts.items():
        ctx.check(d.name == "Name%d_%s" % (e.k, full[p]), "wrong name of a dataset", got=d.name)
    if e.license:
        ctx.count("licenses")
    else:
        ctx.check("http://server/blog%d" % e.k in out.license_agreement,
                  "the terms of use are not referenced", got=out.license_agreement)
    e.local[0] = ok
    if with_models:
        okm = set()
        for v in e.candidates(1, asked[1]):
            want = {n: d for n, d in e.versions[v][1].items()
                    if fold is None or n.startswith("Fold%d/" % fold)}
            got, root = {}, os.path.join(home, "Name%d" % e.k, "models")
            for f in out.model_filenames:
                got[os.path.relpath(f, root)] = open(f, "rb").read()
            if got == want and len(got) == len(out.model_filenames):
                okm.add(v)
        ctx.check(len(okm) >= 1, "the model files are not those published for the fold",
                  got=out.model_filenames, candidates=sorted(e.candidates(1, asked[1])))
        # the same files may belong to more than one version only when there are none
        e.local[1] = okm
    else:
        ctx.check(not out.model_filenames, "models were returned without being asked for")
        ctx.count("without_models")
        if force:
            e.local[1] = e.local[1] | {None}
    ctx.count("fetches")


def failed(e, force):
    """What may be on the disk after a fetch which did not complete."""
    cur = len(e.versions) - 1
    for part in (0, 1):
        if force or None in e.local[part]:
            e.local[part] = e.local[part] | {None, cur}


def fetch(ctx, home, e, args, point=None, fault=None, limit=None):
    """Calls load_dataset (in a child, for crashes and limits). Returns (outcome, value)."""
    from rankeval.dataset.datasets_fetcher import load_dataset
    server.requests, server.fired = [], None
    child = fault in ("crash", "full_disk")
    if child:
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            msg = b""
            while True:
                b = os.read(r, 65536)
                if not b:
                    break
                msg += b
            os.close(r)
            _, st = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(st)
            if code == 86:
                watch.fired = ("crash", "")
                return "crashed", None
            ctx.check(code == 0 and msg, "the process died while fetching", code=code)
            res = json.loads(msg)
            server.requests, watch.outside = res["requests"], res["outside"]
            watch.points, watch.fired = res["points"], None
            return ("ok_child" if res["ok"] else "raised"), res["error"]
        try:
            os.close(r)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            watch.start(watched(ctx, home), point, fault)
            try:
                load_dataset(**args)
                res = {"ok": True, "error": None}
            except Exception as ex:
                res = {"ok": False, "error": repr(ex)}
            watch.stop()
            res.update(requests=server.requests, outside=watch.outside, points=watch.points)
            os.write(w, json.dumps(res).encode())
        except BaseException:
            os._exit(99)
        os._exit(0)
    watch.start(watched(ctx, home), point, fault)
    try:
        out = load_dataset(**args)
        return "ok", out
    except BaseException as ex:
        return "raised", ex
    finally:
        watch.stop()


def watched(ctx, home):
    """The folder the effects are confined to: with the parents that may be missing."""
    data = ctx.path("data")
    return data if (home + os.sep).startswith(data + os.sep) else home


def confined(ctx):
    ctx.count("effects_observed", watch.points)
    ctx.check(not watch.outside, "something outside the data folder is touched", effects=watch.outside)


def world(ctx, rng, n=None, whole=True):
    server.reset()
    home = ctx.path("data")
    if os.path.exists(home):
        shutil.rmtree(home)
    entries = [Entry(rng, k) for k in range(int(n or rng.integers(1, 4)))]
    dic = {e.key: e.dic for e in entries}
    server.pages[CATALOGUE] = json.dumps(dic).encode()
    if rng.random() < 0.3:
        os.environ.pop("RANKEVAL_DATA", None)
        os.environ["HOME"] = ctx.scratch
        home = ctx.path("rankeval_data")
        if os.path.exists(home):
            shutil.rmtree(home)
        ctx.count("default_folder")
    else:
        # another home folder, which is not to be touched
        os.environ["HOME"] = ctx.path("elsewhere")
        os.environ["RANKEVAL_DATA"] = home
        u = rng.random() if n is None or whole else 1
        if u < 0.15:
            os.environ["HOME"] = ctx.path("data")
            home = os.path.join(home, "sub", "of home")
            os.environ["RANKEVAL_DATA"] = "~/sub/of home"
            ctx.count("home_relative_folder")
        elif u < 0.3:
            home = os.path.join(home, "a", "b.c")
            os.environ["RANKEVAL_DATA"] = home + "/" * int(rng.integers(0, 2))
            ctx.count("missing_parents")
        elif u < 0.45:
            os.makedirs(home)
            os.environ["RANKEVAL_DATA"] = os.path.relpath(home)
            ctx.count("relative_folder")
        elif u < 0.6:
            target = os.path.join(home, "real")
            os.makedirs(target)
            home = os.path.join(home, "link")
            os.symlink(target, home)
            os.environ["RANKEVAL_DATA"] = home
            ctx.count("linked_folder")
    return home, entries


def case(ctx, rng, kind, i):
    home, entries = world(ctx, rng, n=1 if kind in ("sweep", "hostile") else None,
                          whole=kind != "hostile")
    {"history": history, "sweep": sweep, "hostile": hostile}[kind](ctx, rng, home, entries)


def plain(ctx, rng, home, e, args, after):
    """A fetch without faults: it succeeds, or is refused for lack of data."""
    force, models = args.get("force_download", False), args.get("with_models", True)
    allowed = args.get("download_if_missing", True)
    fold = args.get("fold")
    out, val = fetch(ctx, home, e, args)
    confined(ctx)
    ctx.check(allowed or not server.requests, "downloads were not allowed", requests=server.requests)
    if not allowed:
        parts = e.local[:2] if models else e.local[:1]
        ctx.check(out == "ok" or isinstance(val, IOError), "the wrong error for data not available",
                  got=repr(val))
        if any(p == {None} for p in parts):
            ctx.check(out == "raised", "data which is not on the disk was returned")
        if all(None not in p for p in parts):
            ctx.check(out == "ok", "data on the disk was not returned", error=repr(val))
        if out == "raised":
            ctx.count("not_allowed_raised")
            return
        ctx.count("not_allowed_served")
    ctx.check(out == "ok", "a fetch failed", error=repr(val))
    judge(ctx, e, home, fold, models, force, val)
    ctx.count("refetched_after_fault", after)


def arguments(rng, e):
    args = {"dataset_name": e.key}
    if e.folds:
        args["fold"] = int(rng.choice(e.folds))
    if rng.random() < 0.25:
        args["with_models"] = False
    if rng.random() < 0.2:
        args["force_download"] = True
    elif rng.random() < 0.25:
        args["download_if_missing"] = False
    return args


def history(ctx, rng, home, entries):
    log, after = [], {}
    ctx.note(history=log, entries=[e.dic for e in entries])
    for step in range(int(rng.integers(3, 9))):
        e = entries[int(rng.integers(0, len(entries)))]
        args = arguments(rng, e)
        u = rng.random()
        if u < 0.04:
            log.append("unknown")
            out, val = fetch(ctx, home, e, dict(args, dataset_name="no such"))
            ctx.check(out == "ok" and val is None, "an unknown dataset is not None", got=repr(val))
            ctx.check(not server.requests, "an unknown dataset was downloaded")
            ctx.count("unknown_datasets")
            continue
        if u < 0.08 and (not e.folds or e.local[0] != {None}):
            bad = dict(args, fold=77, force_download=False)
            log.append(bad)
            out, val = fetch(ctx, home, e, bad)
            confined(ctx)
            ctx.check(out == "raised" and isinstance(val, Exception),
                      "a fold the dataset does not have was returned", got=repr(val))
            failed(e, False)
            ctx.count("no_folds")
            continue
        if rng.random() < 0.6:
            e.publish(rng)
        force, models = args.get("force_download", False), args.get("with_models", True)
        ctx.count("forced", force)
        ctx.count("folds", bool(e.folds))
        fault = None
        if rng.random() < 0.45:
            fault = str(rng.choice(["error", "interrupt", "crash", "full_disk", "connect", "read",
                                    "truncated", "corrupt"]))
        log.append((args, fault))
        if fault is None:
            plain(ctx, rng, home, e, args, after.pop(e.k, False))
            continue
        before = [set(s) for s in e.local]
        allowed = args.get("download_if_missing", True)
        point = limit = None
        if fault in ("error", "interrupt", "crash"):
            point = int(rng.integers(1, 30))
            log[-1] += (point,)
        elif fault == "full_disk":
            limit = int(rng.integers(0, 700))
            log[-1] += (limit,)
        else:
            server.fault = (fault, e.urls[int(rng.random() < 0.4)],
                            float(rng.random()) if fault != "read" else float(rng.random() * 0.99))
            log[-1] += server.fault[1:]
        out, val = fetch(ctx, home, e, args, point, fault, limit)
        server.fault = None
        confined(ctx)
        ctx.check(allowed or not server.requests, "downloads were not allowed")
        hit = watch.fired if point else server.fired
        if fault == "full_disk":
            hit = out == "raised"
        if hit:
            log[-1] += ("hit", str(hit))
            if out == "ok" and (fault in ("truncated", "corrupt") or
                                fault == "error" and hit[0] in REMOVALS):
                # accepted only if nothing is missing
                judge(ctx, e, home, args.get("fold"), models, force, val)
                continue
            ctx.check(out != "ok" and out != "ok_child", "an error while fetching was not raised",
                      fault=fault, at=hit)
            if fault == "interrupt":
                ctx.check(isinstance(val, KeyboardInterrupt), "an interrupt was not passed on",
                          got=repr(val))
            ctx.count("fault_" + fault)
            ctx.count("truncated_detected", fault == "truncated")
            failed(e, force)
            after[e.k] = True
        elif out == "ok":
            judge(ctx, e, home, args.get("fold"), models, force, val)
        elif out == "ok_child":
            # the content is judged by the next fetch
            for part in (0, 1):
                asked = e.urls[part] in server.requests
                if asked:
                    e.local[part] = {len(e.versions) - 1}
                elif part == 1 and force and not models:
                    e.local[1] = e.local[1] | {None}
        else:
            ctx.check(not allowed and isinstance(val, (IOError, str)) and
                      any(None in s for s in before), "a fetch failed", error=repr(val))
            ctx.count("not_allowed_raised")
    for e in entries:
        args = arguments(rng, e)
        args.pop("force_download", 0)
        args.pop("download_if_missing", 0)
        plain(ctx, rng, home, e, args, after.pop(e.k, False))
    ctx.distinct(repr(log), repr([e.dic for e in entries]))
    ctx.sample({"history": [str(l) for l in log]})


def sweep(ctx, rng, home, entries):
    """The same fetch interrupted at each of its effects, one after the other."""
    e = entries[0]
    fault = str(rng.choice(["error", "interrupt", "crash"]))
    forced = bool(rng.random() < 0.5)
    args = {"dataset_name": e.key}
    if e.folds:
        args["fold"] = int(rng.choice(e.folds))
    ctx.note(fault=fault, forced=forced, args=args)
    point = 0
    while True:
        point += 1
        if not forced and os.path.exists(home):
            shutil.rmtree(os.path.realpath(home))
            if os.path.islink(home):
                os.makedirs(os.path.realpath(home))
            e.local = [{None}, {None}]
        e.publish(rng)
        ctx.note(point=point)
        call = dict(args, force_download=True) if forced else args
        out, val = fetch(ctx, home, e, call, point, fault)
        confined(ctx)
        if not watch.fired:
            ctx.check(out in ("ok", "ok_child"), "a fetch failed", error=repr(val))
            break
        if out == "ok" and fault == "error" and watch.fired[0] in REMOVALS:
            judge(ctx, e, home, args.get("fold"), True, forced, val)
            continue
        ctx.check(out not in ("ok", "ok_child"), "an error while fetching was not raised",
                  at=watch.fired)
        ctx.count("fault_" + fault)
        failed(e, forced)
        if rng.random() < 0.3:
            plain(ctx, rng, home, e, dict(args, download_if_missing=False), False)
        e.publish(rng)
        plain(ctx, rng, home, e, args, True)
        ctx.count("swept_points")
        ctx.check(point < 200, "no end of the effects")
    ctx.check(point > 5, "fewer effects than files", points=point)
    ctx.distinct(fault, forced, repr(e.dic), point)


def hostile(ctx, rng, home, entries):
    """Archives with members aimed outside the data folder: refused or confined."""
    e = entries[0]
    victim = ctx.path("victim.txt")
    with open(victim, "w") as f:
        f.write("untouched")
    m = tarfile.TarInfo(str(rng.choice(["../../../victim.txt", "../../../../victim.txt",
                                        victim, "x/../../../../victim.txt", "../../x.txt"])))
    raw, data = [], b"escaped"
    m.size = len(data)
    u = rng.random()
    if u < 0.4:
        raw = [(m, data)]
    elif u < 0.7:
        l = tarfile.TarInfo("link")
        l.type = tarfile.SYMTYPE
        l.linkname = str(rng.choice([ctx.scratch, "../../../.."]))
        m = tarfile.TarInfo("link/victim.txt")
        m.size = len(data)
        raw = [(l, None), (m, data)]
    else:
        l = tarfile.TarInfo("hard")
        l.type, l.linkname = tarfile.LNKTYPE, victim
        raw = [(l, None)]
    part = int(rng.integers(0, 2))
    server.pages[e.urls[part]] = tar_gz(rng, [("keep.txt", b"k")], raw_members=raw)
    args = {"dataset_name": e.key}
    if e.folds:
        args["fold"] = int(rng.choice(e.folds))
    ctx.note(members=[(x.name, x.linkname) for x, _ in raw])
    out, val = fetch(ctx, home, e, args)
    confined(ctx)
    ctx.check(open(victim).read() == "untouched" and os.stat(victim).st_nlink == 1,
              "a file outside the data folder was touched")
    os.remove(victim)
    ctx.count("hostile_archives")
    ctx.distinct("hostile", repr([(x.name, x.linkname, x.type) for x, _ in raw]), part)
