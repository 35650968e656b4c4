#!/usr/bin/env python3
"""mutate.py [-j N] [--list] [--sample K] FILE...   small changes of the sources, one at a time, on copies of
/repo under /tmp/mutants; runs the related checks and prints the changes no check reports, to be
judged by hand (many of them change nothing that can be observed).
Python files are changed through their syntax tree, C++/Cython files by patterns."""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mutants"
MET = {"dcg": "C22", "ndcg": "C22 C26", "err": "C23", "pfound": "C23", "rbp": "C23",
       "precision": "C24", "precision_max": "C24", "recall": "C24", "map": "C24", "mrr": "C24",
       "mse": "C25 C26", "rmse": "C25", "kendall_tau": "C25", "spearman_rho": "C25",
       "metric": "C26 C22 C24"}
RULES = [
    (r"metrics/(\w+)\.py", lambda m: MET[m.group(1)] + " C26 C27 C36 C28"),
    (r"dataset/dataset\.py", "C06 C07 C08 C09 C10 C01 C03 C14 C20 C36"),
    (r"dataset/svmlight_format\.py", "C01 C03 C02 C05"),
    (r"dataset/_svmlight_format\.cpp", "C01 C03 C02 C05 C04"),
    (r"dataset/datasets_fetcher\.py", "C39"), (r"dataset/dataset_container\.py", "C39"),
    (r"model/rt_ensemble\.py", "C17 C16 C20 C19 C18 C15 C14 C12"),
    (r"model/proxy_(QuickRank|Jforests)\.py", "C11 C15 C14"),
    (r"model/proxy_(LightGBM|XGBoost)\.py", "C12 C14 C16"),
    (r"model/proxy_ScikitLearn\.py", "C12 C13 C14"), (r"model/proxy_CatBoost\.py", "C13 C14"),
    (r"scoring/scorer\.py", "C19 C18 C20 C36"), (r"scoring/.*pyx", "C18 C19 C04 C21"),
    (r"analysis/effectiveness\.py", "C28 C29 C30 C31 C36"),
    (r"analysis/statistical\.py", "C32 C33 C36"),
    (r"analysis/feature\.py", "C35 C36"), (r"analysis/topological\.py", "C34 C36"),
    (r"analysis/_efficient_topological\.pyx", "C34 C04 C21"),
    (r"analysis/_efficient_feature.*", "C35 C04 C21"),
    (r"visualization/topological\.py", "C38 C37"), (r"visualization/.*", "C37"),
]


def checks_of(path):
    for pat, what in RULES:
        m = re.search(pat, path)
        if m:
            w = what(m) if callable(what) else what
            out = []
            for c in w.split():
                if c not in out:
                    out.append(c)
            return out
    return []


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
       ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.FloorDiv: ast.Div, ast.Pow: ast.Mult, ast.Mod: ast.Mult}


def python_mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()
    out = []

    def put(n, text, what):
        a = offs[n.lineno - 1] + n.col_offset
        b = offs[n.end_lineno - 1] + n.end_col_offset
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            return
        out.append((n.lineno, what, ast.unparse(n).split("\n")[0][:60] + "  ->  " +
                    text.split("\n")[0][:60], new))

    def un(n, **kw):
        import copy
        c = copy.deepcopy(n)
        for k, v in kw.items():
            setattr(c, k, v)
        return "(%s)" % ast.unparse(c)

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and \
                isinstance(n.value.value, str):
            docs.add(n)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, un(n, ops=[CMP[type(n.ops[0])]()]), "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            put(n, un(n, op=BIN[type(n.op)]()), "binary")
        elif isinstance(n, ast.BoolOp):
            put(n, un(n, op=ast.Or() if isinstance(n.op, ast.And) else ast.And()), "bool")
            for k in range(len(n.values)):
                rest = n.values[:k] + n.values[k + 1:]
                put(n, "(%s)" % (" and " if isinstance(n.op, ast.And) else " or ").join(
                    "(%s)" % ast.unparse(v) for v in rest), "drop operand")
        elif isinstance(n, ast.UnaryOp):
            put(n, "(%s)" % ast.unparse(n.operand), "unary")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)):
            if n.value is True or n.value is False:
                put(n, str(not n.value), "constant")
            elif isinstance(n.value, (int, float)):
                put(n, repr(n.value + 1), "constant")
                if isinstance(n.value, int) and n.value > 0:
                    put(n, repr(n.value - 1), "constant")
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, "True" if not isinstance(n, ast.While) else "False", "condition")
            put(n.test, "False", "condition")
        elif isinstance(n, ast.IfExp):
            put(n, "(%s)" % ast.unparse(n.body), "conditional")
            put(n, "(%s)" % ast.unparse(n.orelse), "conditional")
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                put(n, un(n, keywords=n.keywords[:k] + n.keywords[k + 1:])[1:-1], "drop keyword")
            if len(n.args) == 2 and not n.keywords:
                put(n, un(n, args=n.args[::-1])[1:-1], "swap arguments")
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "copy", "astype", "ravel", "flatten", "strip", "reshape", "squeeze"):
                put(n, "(%s)" % ast.unparse(n.func.value), "drop call")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            for f in ("lower", "upper", "step"):
                if getattr(s, f) is not None:
                    put(n, un(n, slice=ast.Slice(**{g: getattr(s, g) for g in
                                                    ("lower", "upper", "step") if g != f}))[1:-1],
                        "slice")
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete, ast.Assert)) and \
                n not in docs:
            put(n, "pass", "drop statement")
        elif isinstance(n, ast.Continue):
            put(n, "break", "jump")
            put(n, "pass", "jump")
        elif isinstance(n, ast.Break):
            put(n, "pass", "jump")
        elif isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
            t = n.targets[0]
            if isinstance(t, (ast.Subscript, ast.Attribute)):
                put(n, "pass", "drop statement")
    return out


PATS = [(r"<=", "<"), (r"(?<![<\-])(?<!->)<(?![<=])(?=\s*[\w\d(])", "<="), (r">=", ">"), (r" > ", " >= "), (r"==", "!="),
        (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\+=", "-="),
        (r"-=", "+="), (r"&&", "||"), (r"\|\|", "&&"), (r"\bTrue\b", "False"),
        (r"\bFalse\b", "True"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"),
        (r"(?<![\w.])2(?![\w.])", "3"), (r"\+\+", "--"), (r"\band\b", "or"), (r"\bor\b", "and"),
        (r"\bnot\b ", ""), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
        (r"\bdouble\b", "float"), (r"\bint64_t\b", "int"), (r"\blong\b", "int"),
        (r"\bunsigned\b", "int"), (r"size_t\b", "int"), (r"!(?=[\w(])", "")]


def text_mutants(src, cpp):
    out, in_doc = [], False
    lines = src.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if '"""' in s or "'''" in s:
            if s.count('"""') % 2 or s.count("'''") % 2:
                in_doc = not in_doc
            continue
        if in_doc or not s or s.startswith(("#", "//", "*", "/*", "import", "cimport", "from")):
            continue
        for pat, rep in PATS:
            for m in re.finditer(pat, l):
                if l.count('"', 0, m.start()) % 2 or (cpp and "//" in l[:m.start()]):
                    continue
                new = l[:m.start()] + rep + l[m.end():]
                out.append((i + 1, "text", "%s  ->  %s" % (s[:70], new.strip()[:70]),
                            "\n".join(lines[:i] + [new] + lines[i + 1:])))
        if cpp and s.endswith(";") and not re.match(
                r"^(return|typedef|using|int|size_t|double|float|const|char|PyObject|std::|throw|static|class|struct|\})", s):
            out.append((i + 1, "drop statement", s[:90],
                        "\n".join(lines[:i] + [";"] + lines[i + 1:])))
    return out


def worker(k, q, res, lock):
    w = os.path.join(BASE, "w%s" % k)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
    shutil.copytree(HERE, w + "/verif", ignore=shutil.ignore_patterns(
        ".git", "seeded", ".build", ".runs", "evidence", "__pycache__"))
    env = dict(os.environ, RANKEVAL_REPO=w + "/repo", VERIF_SEED="1", VERIF_TIER="quick", MON_SCALE="0.25")
    while True:
        item = q.get()
        if item is None:
            break
        path, (line, what, desc, new) = item
        target = os.path.join(w, "repo", path)
        old = open(target).read()
        verdict = None
        try:
            open(target, "w").write(new)
            for c in checks_of(path):
                try:
                    p = subprocess.run(["./run.py", c], cwd=w + "/verif", env=env, timeout=900,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                except subprocess.TimeoutExpired:
                    verdict = "timeout " + c
                    break
                if p.returncode:
                    o = p.stdout.decode(errors="replace")
                    verdict = c if "VIOLATION property=" in o else "no verdict %s: %s" % (
                        c, " ".join(o[-200:].split()))
                    break
        finally:
            open(target, "w").write(old)
            for d in os.listdir(w + "/verif/.build") if os.path.isdir(w + "/verif/.build") else []:
                if len(os.listdir(w + "/verif/.build")) > 6:
                    shutil.rmtree(os.path.join(w, "verif/.build", d), ignore_errors=True)
            shutil.rmtree(w + "/verif/.runs", ignore_errors=True)
        with lock:
            with open(BASE + "/log.jsonl", "a") as f:
                f.write(json.dumps([path, line, what, desc, verdict]) + "\n")
            res[0] += 1
            if verdict is None or verdict.startswith(("no verdict", "timeout")):
                print("%s:%d [%s] %s | %s" % (path, line, what, desc, verdict or "SURVIVES"),
                      flush=True)
            if res[0] % 25 == 0:
                print("... %d done" % res[0], flush=True)
    shutil.rmtree(w, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("--list", action="store_true")
ap.add_argument("--sample", type=int, default=0)
ap.add_argument("--resume", action="store_true", help="leave out those in log.jsonl already")
ap.add_argument("files", nargs="+")
a = ap.parse_args()
todo = []
for path in a.files:
    src = open(os.path.join("/repo", path)).read()
    ms = python_mutants(src) if path.endswith(".py") else text_mutants(src, path.endswith("cpp"))
    if a.sample and len(ms) > a.sample:
        ms = sorted(random.Random(1).sample(ms, a.sample), key=lambda m: m[0])
    todo += [(path, m) for m in ms]
if a.resume and os.path.exists(BASE + "/log.jsonl"):
    done = set(tuple(json.loads(l)[:4]) for l in open(BASE + "/log.jsonl"))
    todo = [(p, m) for p, m in todo if (p, m[0], m[1], m[2]) not in done]
if a.list:
    for p, m in todo:
        print(p, m[0], m[1], m[2])
    print(len(todo))
    sys.exit()
os.makedirs(BASE, exist_ok=True)
q, res, lock = Queue(), [0], threading.Lock()
for t in todo:
    q.put(t)
ths = []
for k in range(a.j):
    q.put(None)
    t = threading.Thread(target=worker, args=("%d_%d" % (os.getpid(), k), q, res, lock))
    t.start()
    ths.append(t)
for t in ths:
    t.join()
print("%d mutants done" % res[0])
