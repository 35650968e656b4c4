"""C14: models and formats that cannot be represented are rejected."""
import io
import os

import numpy as np

from mon import gen, ref
from .c12 import strict_to_le as strict

ID = "C14"
RULE = ("valid files with one unsupported construct planted at a random tree and node (LightGBM "
        "decision types, default values, categorical and linear flags, averaged output, several "
        "trees per iteration; CoreML branch behaviours and outputs; XGBoost splits that are not "
        "numerical; feature ids above 32767; scikit-learn ensembles other than boosted regressors), "
        "unsupported "
        "names of model and dataset formats for load, save and dump; unpoisoned twins must load; "
        "distinct by file content")
REQUIRED = ["is_linear", "average_output", "num_tree_per_iteration", "xgboost_split", "wide_ids",
            "widest_supported", "coreml_outputs", "sklearn_classes", "decision_type", "default_value", "has_categorical", "coreml_behavior", "load_format",
            "save_format", "dataset_format", "twins_loaded", "last_tree_poisoned"]
ASSUMPTIONS = []
BEHAVIORS = ["BranchOnValueLessThan", "BranchOnValueGreaterThanEqual", "BranchOnValueEqual",
             "BranchOnValueNotEqual"]
NAMES = ["quickrank", "QUICKRANK", "QuickRank ", "lightgbm", "xgboost", "CoreML", "", "svmlight",
         "ONNX", None, 3, "Random"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("lightgbm", 500 * k), ("coreml", 120 * k), ("formats", 150 * k), ("xgboost", 150 * k),
            ("wide", 90 * k), ("sklearn", 6 * k)]


def case(ctx, rng, kind, i):
    return globals()[kind](ctx, rng)


def lightgbm(ctx, rng):
    from rankeval.model import RTEnsemble
    fo = gen.forest(rng, 5, weights=False, allow_leaf=False, max_trees=8)
    path = ctx.path("l.txt")
    what = str(rng.choice(["decision_type", "default_value", "has_categorical", "is_linear",
                           "average_output", "num_tree_per_iteration"]))
    k = int(rng.integers(0, len(fo)))
    clean = {"decision_type": [2], "default_value": [0], "has_categorical": 0}
    text = []
    for poisoned in (False, True):
        gen.write_lightgbm(fo, path)
        lines = open(path).read().split("\n")
        out, tree, pos = [], -1, None
        for ln in lines:
            if ln.startswith("Tree="):
                tree = int(ln[5:])
            if ln.startswith("decision_type="):
                n = len(ln.split("=")[1].split())
                vals = ["2"] * n
                if poisoned and what == "decision_type" and tree == k:
                    vals[int(rng.integers(0, n))] = str(rng.choice([0, 1, 3, 4, 6, 8, 9, 10]))
                ln = "decision_type=" + " ".join(vals)
                out.append(ln)
                vals = ["0"] * n
                if poisoned and what == "default_value" and tree == k:
                    vals[int(rng.integers(0, n))] = str(rng.choice(["1", "0.5", "-2", "1e-20", "nan"]))
                out.append("default_value=" + " ".join(vals))
                continue
            if ln.startswith("num_tree_per_iteration="):
                if poisoned and what == "num_tree_per_iteration":
                    ln = "num_tree_per_iteration=%d" % rng.integers(2, 12)
                if poisoned and what == "average_output":
                    out.append("average_output")
            out.append(ln)
            if ln.startswith("shrinkage="):
                out.append("has_categorical=%d" % (poisoned and what == "has_categorical" and tree == k))
                if rng.random() < 0.5 or what == "is_linear":
                    out.append("is_linear=%d" % (poisoned and what == "is_linear" and tree == k))
        with open(path, "w") as f:
            f.write("\n".join(out))
        ctx.note(what=what, tree=k, n_trees=len(fo), file="\n".join(out)[:3000])
        if not poisoned:
            ref.check_model(ctx, RTEnsemble(path, format="LightGBM"), fo)
            ctx.count("twins_loaded")
        else:
            nt = None if rng.random() < 0.7 else 1
            ctx.raises(Exception, lambda: RTEnsemble(path, format="LightGBM", n_trees=nt),
                       "a LightGBM model with an unsupported %s was loaded" % what)
            ctx.count(what)
            ctx.count("last_tree_poisoned", k == len(fo) - 1)
            ctx.distinct("\n".join(out))


def xgboost(ctx, rng):
    """Splits over named features, indicators and categories at a random node of a dump."""
    from rankeval.model import RTEnsemble
    fo = gen.forest(rng, 5, weights=False, allow_leaf=False, max_trees=8)
    path = ctx.path("x.txt")
    gen.write_xgboost(fo, path)
    ref.check_model(ctx, RTEnsemble(path, format="XGBoost"), strict(fo))
    ctx.count("twins_loaded")
    lines = open(path).read().split("\n")
    at = [j for j, ln in enumerate(lines) if ":[" in ln]
    j = at[int(rng.integers(0, len(at)))]
    head, rest = lines[j].split(":[", 1)
    cond, tail = rest.split("]", 1)
    f = int(cond[1:].split("<")[0])
    new = ["[age<%s]" % cond.split("<")[1], "[f%d]" % f, "[f%d:{1,3}]" % f, "[f%d:{}]" % f,
           "[f_%d<0.5]" % f, "[F%d<0.5]" % f, "[title length<3]"][int(rng.integers(0, 7))]
    lines[j] = head + ":" + new + tail
    with open(path, "w") as fh:
        fh.write("\n".join(lines))
    ctx.note(line=lines[j], file="\n".join(lines)[:3000])
    nt = None if rng.random() < 0.7 else 1
    ctx.raises(Exception, lambda: RTEnsemble(path, format="XGBoost", n_trees=nt),
               "an XGBoost dump with the split %s was loaded" % lines[j].strip())
    ctx.count("xgboost_split")
    ctx.distinct("x", "\n".join(lines))


def wide(ctx, rng):
    """Feature ids around the limits of the 16-bit ids kept in memory."""
    from rankeval.dataset import Dataset
    from rankeval.model import RTEnsemble
    fmt = str(rng.choice(["QuickRank", "LightGBM", "XGBoost", "ScikitLearn", "Jforests"]))
    top = int(rng.choice([32765, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65540,
                          100000]))
    fo = gen.forest(rng, 4, weights=False, allow_leaf=False, max_trees=4)
    k = int(rng.integers(0, len(fo)))
    target = int(rng.integers(0, sum(1 for x in gen.nodes_dfs(fo[k][0]) if x[0][0] == "split")))
    seen = [0]

    def widen(nd):
        if nd[0] == "leaf":
            return nd
        here = seen[0] == target
        seen[0] += 1
        left = widen(nd[3])
        right = widen(nd[4])
        return (nd[0], top if here else nd[1], nd[2], left, right)
    fo[k] = (widen(gen.unshare(fo[k][0])), fo[k][1])
    path = ctx.path("w.txt")
    gen.WRITERS[fmt](fo, path)
    if fmt == "XGBoost":
        fo = strict(fo)
    ctx.note(format=fmt, feature=top, tree=k)
    try:
        model = RTEnsemble(path, format=fmt)
    except Exception:
        # 32767 is the last id a 16-bit node can hold
        ctx.check(top > 32766, "a model with a supported feature id was refused", feature=top)
        ctx.count("wide_ids")
        return
    ref.check_model(ctx, model, fo)
    X = np.zeros((2, top + 1), dtype=np.float32)
    X[1] = 1
    d = Dataset(X, np.zeros(2, dtype=np.float32), np.ones(2, dtype=int))
    want = ref.scores(fo, X, base_score=model.base_score)
    ctx.close(np.asarray(model.score(d)), want, "wrong scores on a wide dataset", rtol=1e-6, atol=1e-6)
    narrow = Dataset(np.ascontiguousarray(X[:, :top]), d.y, np.ones(2, dtype=int))
    ctx.raises(RuntimeError, lambda: model.score(narrow),
               "a dataset lacking the last feature of the model was scored", feature=top)
    ctx.count("widest_supported", top in (32766, 32767))
    ctx.distinct("w", fmt, top, repr(fo))


def sklearn(ctx, rng):
    """Classifiers have no constant initial score, and several trees per iteration."""
    import warnings
    from sklearn.ensemble import GradientBoostingClassifier, RandomForestRegressor, \
        RandomForestClassifier, ExtraTreesRegressor
    from rankeval.model import ProxyScikitLearn
    n, k = int(rng.integers(20, 60)), int(rng.integers(2, 5))
    X = rng.random((n, 3)).astype(np.float32)
    y = rng.permutation(np.arange(n) % k)
    cls = [GradientBoostingClassifier, RandomForestRegressor, RandomForestClassifier,
           ExtraTreesRegressor][int(rng.integers(0, 4))]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = cls(n_estimators=int(rng.integers(1, 4)), max_depth=2).fit(X, y)
    ctx.note(cls=cls.__name__, classes=k)
    ctx.raises(Exception, lambda: ProxyScikitLearn.export_scikit_model(m, ctx.path("sk.txt")),
               "a %s was exported as a boosted regressor" % cls.__name__)
    ctx.count("sklearn_classes")
    ctx.distinct(cls.__name__, n, k)


def coreml(ctx, rng):
    from coremltools.proto import Model_pb2
    from rankeval.model import RTEnsemble
    fo = [(gen.oblivious(rng, 4, int(rng.integers(1, 4))), 1.0) for _ in range(int(rng.integers(1, 6)))]
    path = gen.write_coreml(fo, ctx.path("c.mlmodel"), 4, rng=rng,
                            behaviors=("BranchOnValueGreaterThan", "BranchOnValueLessThanEqual"))
    ref.check_model(ctx, RTEnsemble(path, format="CatBoost"), fo)
    ctx.count("twins_loaded")
    spec = Model_pb2.Model()
    with open(path, "rb") as f:
        spec.ParseFromString(f.read())
    if rng.random() < 0.25:
        # one more output: its values must not be mixed up with those of the first
        ens = spec.treeEnsembleRegressor.treeEnsemble
        ens.numPredictionDimensions = 2
        del ens.basePredictionValue[:]
        ens.basePredictionValue.extend([0.0, 0.0])
        leaf = type(ens.nodes[0]).TreeNodeBehavior.Value("LeafNode")
        for n in ens.nodes:
            if n.nodeBehavior == leaf:
                n.evaluationInfo[0].evaluationIndex = 1
                e = n.evaluationInfo.add()
                e.evaluationIndex, e.evaluationValue = 0, float(rng.integers(-9, 9))
        with open(path, "wb") as f:
            f.write(spec.SerializeToString())
        ctx.raises(Exception, lambda: RTEnsemble(path, format="CatBoost"),
                   "a CoreML model with two outputs was loaded")
        ctx.count("coreml_outputs")
        return
    nodes = spec.treeEnsembleRegressor.treeEnsemble.nodes
    beh = type(nodes[0]).TreeNodeBehavior
    splits = [n for n in nodes if n.nodeBehavior != beh.Value("LeafNode")]
    nd = splits[int(rng.integers(0, len(splits)))]
    b = str(rng.choice(BEHAVIORS))
    nd.nodeBehavior = beh.Value(b)
    with open(path, "wb") as f:
        f.write(spec.SerializeToString())
    ctx.note(behavior=b, tree=nd.treeId, node=nd.nodeId)
    ctx.raises(Exception, lambda: RTEnsemble(path, format="CatBoost"),
               "a CoreML model with behaviour %s was loaded" % b)
    ctx.count("coreml_behavior")
    ctx.distinct(b, nd.treeId, nd.nodeId, repr(fo))


def formats(ctx, rng):
    from rankeval.dataset import Dataset
    from rankeval.model import RTEnsemble
    fo = gen.forest(rng, 4, max_trees=4, allow_leaf=False)
    fmt = str(rng.choice(["QuickRank", "LightGBM", "XGBoost", "ScikitLearn", "Jforests"]))
    model = gen.model(ctx, fo, fmt)
    path = ctx.path("model.txt")
    name = NAMES[int(rng.integers(0, len(NAMES)))]
    ctx.note(format=name, file_format=fmt)
    ctx.raises(Exception, lambda: RTEnsemble(path, format=name), "an unknown model format was loaded")
    ctx.count("load_format")
    target = ctx.path("out.txt")
    for bad in (name, "LightGBM", "XGBoost", "ScikitLearn", "Jforests", "CatBoost"):
        before = None
        if rng.random() < 0.5:
            with open(target, "w") as f:
                f.write("precious")
            before = "precious"
        ctx.raises(Exception, lambda: model.save(target, format=bad),
                   "a model was saved in the unsupported format %s" % bad)
        ctx.check((open(target).read() if os.path.exists(target) else None) == before,
                  "a rejected save touched the file", format=bad)
        if os.path.exists(target):
            os.unlink(target)
        ctx.count("save_format")
    ctx.check(model.save(target), "save did not report success")
    raw = gen.raw_dataset(rng)
    d = gen.dataset(raw)
    bad = [n for n in NAMES + ["libsvm", "csv", "QuickRank"] if n != "svmlight"]
    bad = bad[int(rng.integers(0, len(bad)))]
    text = "\n".join(gen.svmlight_lines(raw)) + "\n"
    ctx.raises(Exception, lambda: Dataset.load(io.BytesIO(text.encode()), format=bad),
               "an unknown dataset format was loaded")
    ctx.raises(Exception, lambda: d.dump(target, format=bad), "an unknown dataset format was dumped")
    with open(target) as f:
        ctx.check("ranker" in f.read(200), "a rejected dump touched the file")
    os.unlink(target)
    ctx.count("dataset_format")
    ctx.distinct(repr(name), fmt, bad, repr(fo))
