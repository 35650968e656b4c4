"""Out-of-tree builds of rankeval's four native extensions from /repo's current tree.

Variants: plain (gcc -O1), asan (gcc ASan+UBSan), tsan (gcc TSan, linked against our own
instrumented OpenMP runtime, see native/gomp_stub.cpp).  Nothing is written inside /repo.
The build directory is keyed by a hash of the sources, of the variant and of this file.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("RANKEVAL_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), ".build")

EXTS = {
    "svmlight": ("rankeval.dataset._svmlight_format", "rankeval/dataset"),
    "scoring": ("rankeval.scoring._efficient_scoring", "rankeval/scoring"),
    "topological": ("rankeval.analysis._efficient_topological", "rankeval/analysis"),
    "feature": ("rankeval.analysis._efficient_feature", "rankeval/analysis"),
}

FLAGS = {
    "plain": ["-O1", "-g1"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined",
             "-fsanitize=float-cast-overflow", "-D_GLIBCXX_ASSERTIONS",
             "-D_GLIBCXX_SANITIZE_VECTOR=1"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}


class BuildError(Exception):
    pass


def _sources():
    out = [os.path.abspath(__file__)]
    out += sorted(glob.glob(os.path.join(HERE, "native", "*")))
    for d in sorted({v[1] for v in EXTS.values()}):
        for pat in ("*.pyx", "*.pxd", "*.pxi", "*.c", "*.cpp", "*.h", "*.hpp", "*.cc"):
            for f in sorted(glob.glob(os.path.join(REPO, d, pat))):
                stem, ext = os.path.splitext(f)
                if ext in (".c", ".cpp") and os.path.exists(stem + ".pyx"):
                    continue          # generated by cython
                out.append(f)
    return out


def source_hash():
    h = hashlib.sha256()
    for f in _sources():
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def _build_ext(key, variant, out):
    import numpy
    mod, d = EXTS[key]
    name = mod.rsplit(".", 1)[1]
    src_dir = os.path.join(REPO, d)
    inc = ["-I" + numpy.get_include(), "-I" + sysconfig.get_paths()["include"],
           "-I" + src_dir]
    work = os.path.join(out, "tmp_" + key)
    os.makedirs(work, exist_ok=True)
    common = ["-fPIC", "-w", "-fopenmp", "-DNDEBUG"] + FLAGS[variant] + inc
    if key == "svmlight":
        jobs = [("g++", os.path.join(src_dir, name + ".cpp"), ["-std=c++11"])]
    else:
        pyx = os.path.join(src_dir, name + ".pyx")
        cplus = key == "feature"
        gen = os.path.join(work, name + (".cpp" if cplus else ".c"))
        cmd = [sys.executable, "-m", "cython", "-3"] + (["--cplus"] if cplus else []) + \
              [pyx, "-o", gen]
        _run(cmd, cwd=REPO)
        jobs = [("g++" if cplus else "gcc", gen, ["-std=c++11"] if cplus else [])]
        if cplus:
            for f in sorted(glob.glob(os.path.join(src_dir, "*.cpp"))):
                if not os.path.exists(os.path.splitext(f)[0] + ".pyx"):
                    jobs.append(("g++", f, ["-std=c++11"]))
    if variant == "tsan":
        jobs.append(("g++", os.path.join(HERE, "native", "gomp_stub.cpp"), ["-std=c++17"]))
    objs = []
    for n, (cc, src, extra) in enumerate(jobs):
        obj = os.path.join(work, "%d.o" % n)
        _run([cc, "-c", src, "-o", obj] + common + extra, cwd=work)
        objs.append(obj)
    so = os.path.join(out, name + ".so")
    link = ["g++", "-shared", "-o", so + ".part"] + objs + FLAGS[variant]
    # with the stub, no -fopenmp at link time: GOMP_* come from our instrumented runtime
    link += ["-lpthread"] if variant == "tsan" else ["-fopenmp"]
    _run(link, cwd=work)
    os.rename(so + ".part", so)
    shutil.rmtree(work)


def build(variant="plain", exts=None):
    """Returns the directory holding the .so files of the given variant."""
    exts = list(EXTS) if exts is None else list(exts)
    out = os.path.join(CACHE, "%s-%s" % (variant, source_hash()))
    os.makedirs(out, exist_ok=True)
    todo = [k for k in exts
            if not os.path.exists(os.path.join(out, EXTS[k][0].rsplit(".", 1)[1] + ".so"))]
    if todo:
        with ThreadPoolExecutor(len(todo)) as pool:
            for f in [pool.submit(_build_ext, k, variant, out) for k in todo]:
                f.result()
    return out


def comma_locale():
    """A folder (for LOCPATH) with the locale "comma.utf8", or None when it cannot be compiled."""
    out = os.path.join(CACHE, "locale")
    if os.path.isdir(out):
        return out
    import tempfile
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="locale_", dir=CACHE)
    try:
        subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8",
                        os.path.join(tmp, "comma.utf8")],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if not os.path.isdir(os.path.join(tmp, "comma.utf8")):
            return None
        os.rename(tmp, out)
    except OSError:
        pass                    # no localedef, or another process was faster
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out if os.path.isdir(out) else None


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"))
