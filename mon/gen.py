"""Workload generators: datasets, forests, and writers of the model formats rankeval loads.

A tree is ("leaf", value) or ("split", feature, threshold, left, right); feature is 0-based and a
document goes left when X[feature] <= threshold.  A forest is a list of (tree, weight).
"""
import os

import numpy as np

f32 = np.float32


# ----------------------------------------------------------------------------- datasets

def dyadic(rng, size=None, lo=-8, hi=8, den=8):
    """Multiples of 1/den: sums and products of a few are exact in single precision."""
    return (rng.integers(lo * den, hi * den + 1, size=size) / den).astype(f32) \
        if size is not None else f32(rng.integers(lo * den, hi * den + 1) / den)


def sizes(rng, n_queries, max_size):
    s = rng.integers(1, max_size + 1, size=n_queries)
    s[rng.random(n_queries) < 0.25] = 1
    return s


def query_ids(rng, n, style=None):
    style = style or rng.choice(["asc", "desc", "shuffled", "sparse", "zero", "big",
                                "high"])
    if style == "asc":
        return np.arange(1, n + 1)
    if style == "zero":
        return np.arange(n)
    if style == "desc":
        return np.arange(n, 0, -1)
    if style == "shuffled":
        return rng.permutation(np.arange(1, n + 1))
    if style == "high":                   # close to the largest id
        return 2 ** 31 - 2 - rng.permutation(2 * n)[:n]
    if style == "big":
        return rng.choice(2 ** 31 - 1, size=n, replace=False)
    return rng.choice(np.arange(1, 50 * n + 1), size=n, replace=False)


def labels(rng, sz, max_label=4):
    mode = rng.random()
    if mode < 0.12:
        return np.zeros(sz)
    if mode < 0.2:
        return np.full(sz, rng.integers(0, max_label + 1))
    if mode < 0.5:
        return (rng.random(sz) < 0.25) * rng.integers(0, max_label + 1, size=sz)
    return rng.integers(0, max_label + 1, size=sz)


def raw_dataset(rng, max_queries=10, max_size=15, max_features=8, min_queries=1, min_features=1,
                max_label=4, qid_style=None, n_features=None):
    """dict with X (float32), y (float32), qid (per row, grouped), sizes, qids."""
    nq = int(rng.integers(min_queries, max_queries + 1))
    sz = sizes(rng, nq, max_size)
    n = int(sz.sum())
    nf = int(n_features or rng.integers(min_features, max_features + 1))
    X = dyadic(rng, (n, nf))
    X[rng.random((n, nf)) < 0.3] = 0
    if rng.random() < 0.3 and n > 1:          # duplicated rows
        X[rng.integers(0, n)] = X[rng.integers(0, n)]
    y = np.concatenate([labels(rng, s, max_label) for s in sz]).astype(f32)
    ids = query_ids(rng, nq, qid_style)
    return {"X": np.ascontiguousarray(X + f32(0)), "y": y, "qid": np.repeat(ids, sz),
            "sizes": sz, "qids": ids}


def big_dataset(rng, top_rows=140000, top_queries=None, n_features=2, max_label=4):
    """More rows (or queries) than 16 bits can count: above 2^15 or above 2^16."""
    n = int(rng.integers(33000, 66000) if rng.random() < 0.5 else rng.integers(66000, top_rows))
    nq = int(rng.choice([1, 2, 50, 3000, n // 2, n - 1]))
    nq = min(nq, top_queries or n)
    cuts = np.sort(rng.choice(np.arange(1, n), size=nq - 1, replace=False))
    sz = np.diff(np.concatenate([[0], cuts, [n]])).astype(int)
    X = dyadic(rng, (n, n_features))
    y = rng.integers(0, max_label + 1, size=n).astype(f32)
    ids = query_ids(rng, nq)
    return {"X": np.ascontiguousarray(X + f32(0)), "y": y, "qid": np.repeat(ids, sz),
            "sizes": sz, "qids": ids}


# set in the workers of boot.elsewhere: the arrays given to the code under test are read-only, as
# those which are memory-mapped, sent by joblib or taken from a data frame
FROZEN = [False]


def frozen(a):
    if FROZEN[0]:
        a.flags.writeable = False
    return a


def dataset(raw, name=None, qid_dtype=None):
    from rankeval.dataset import Dataset
    q = raw["qid"] if qid_dtype is None else raw["qid"].astype(qid_dtype)
    return Dataset(frozen(raw["X"].copy()), frozen(raw["y"].copy()), frozen(q.copy()), name=name)


def blocks(raw):
    """[(qid, start, end)] in order of appearance."""
    out, start = [], 0
    for q, s in zip(raw["qids"], raw["sizes"]):
        out.append((int(q), start, start + int(s)))
        start += int(s)
    return out


def svmlight_lines(raw, rng=None, comments=False, sparse=True):
    """The textual rows of a dataset (1-based features, ascending)."""
    out = []
    X, y, qid = raw["X"], raw["y"], raw["qid"]
    for r in range(X.shape[0]):
        feats = ["%d:%s" % (j + 1, repr(float(X[r, j]))) for j in range(X.shape[1])
                 if not sparse or X[r, j] != 0]
        line = "%s qid:%d %s" % (("%d" % y[r]) if y[r] == int(y[r]) else repr(float(y[r])),
                                 qid[r], " ".join(feats))
        if comments and rng is not None and rng.random() < 0.3:
            line += " # doc %d qid:99 3:4" % r
        out.append(line.rstrip())
    return out


# ----------------------------------------------------------------------------- forests

def leaf_value(rng):
    return float(dyadic(rng, lo=-4, hi=4, den=16))


def threshold(rng, X=None, feature=None):
    """A single precision threshold: often exactly one of the feature values."""
    if X is not None and feature is not None and feature < X.shape[1] and rng.random() < 0.7:
        t = f32(X[rng.integers(0, X.shape[0]), feature])
        u = rng.random()
        if u < 0.15:
            t = np.nextafter(t, f32(np.inf), dtype=f32)
        elif u < 0.3:
            t = np.nextafter(t, f32(-np.inf), dtype=f32)
        return float(t)
    return float(dyadic(rng))


def tree(rng, n_features, depth=4, X=None, p_leaf=0.25, min_depth=0, chain=None):
    """A random binary tree; chain='left'/'right'/'zig' makes a degenerate one."""
    def build(d):
        if d >= depth or (d >= min_depth and rng.random() < p_leaf):
            return ("leaf", leaf_value(rng))
        f = int(rng.integers(0, n_features))
        t = threshold(rng, X, f)
        if chain:
            go_left = chain == "left" or (chain == "zig" and d % 2 == 0)
            sub, leaf = build(d + 1), ("leaf", leaf_value(rng))
            return ("split", f, t, sub, leaf) if go_left else ("split", f, t, leaf, sub)
        return ("split", f, t, build(d + 1), build(d + 1))
    return build(0)


def forest(rng, n_features, n_trees=None, X=None, max_trees=12, weights=True, min_depth=0,
           max_depth=5, allow_leaf=True):
    n = int(n_trees or rng.integers(1, max_trees + 1))
    out = []
    dropped = weights and rng.random() < 0.15             # some trees weigh nothing
    for _ in range(n):
        u = rng.random()
        if u < 0.1:
            t = tree(rng, n_features, int(rng.integers(3, 9)), X, 0.0,
                     chain=str(rng.choice(["left", "right", "zig"])))
        elif u < 0.2:
            t = tree(rng, n_features, int(rng.integers(1, 4)), X, 0.0)        # perfect tree
        else:
            t = tree(rng, n_features, int(rng.integers(max(1, min_depth), max_depth + 1)), X,
                     0.25, max(min_depth, 0 if allow_leaf else 1))
        if not allow_leaf and t[0] == "leaf":
            t = ("split", 0, 0.5, t, ("leaf", leaf_value(rng)))
        w = float(rng.choice([1.0, 0.5, 0.25, 2.0, -1.0, 0.125])) if weights else 1.0
        if dropped and rng.random() < 0.4:
            w = 0.0
        out.append((t, w))
    return out


def colossal(rng, n_features, X=None, n_nodes=None):
    """More nodes than 15 or 16 bits can count: many trees drawn from a small pool."""
    pool = [tree(rng, n_features, int(rng.integers(1, 5)), X, 0.2, 1) for _ in range(40)]
    top = n_nodes or int(rng.choice([34000, 67000]))
    out, n = [], 0
    while n < top:
        t = pool[int(rng.integers(0, len(pool)))]
        out.append((t, 1.0))
        n += n_nodes_of(t)
    return out


def giant(rng, n_features, n):
    """A tree of n nodes (n + 1 if n is even)."""
    def build(k):
        if k < 3:
            return ("leaf", leaf_value(rng))
        left = int(rng.integers(k // 4, k - k // 4)) // 2 * 2 + 1
        left = min(left, k - 2)
        return ("split", int(rng.integers(0, n_features)), threshold(rng), build(left),
                build(k - 1 - left))
    return build(n // 2 * 2 + 1)


def n_nodes_of(t):
    return 1 if t[0] == "leaf" else 1 + n_nodes_of(t[3]) + n_nodes_of(t[4])


def scaled_leaves(forest_, k):
    """The forest with its outputs multiplied by 2^k: the sums stay exact."""
    def go(t):
        return ("leaf", float(t[1]) * 2.0 ** k) if t[0] == "leaf" else t[:3] + (go(t[3]), go(t[4]))
    return [(go(t), w) for t, w in forest_]


def distinct_leaves(forest_):
    """The same forest with leaf values all different (multiples of 1/256)."""
    n = [0]

    def go(t):
        if t[0] == "leaf":
            n[0] += 1
            return ("leaf", n[0] / 64.0)
        return t[:3] + (go(t[3]), go(t[4]))
    return [(go(t), w) for t, w in forest_]


def max_feature(forest_):
    def go(t):
        return -1 if t[0] == "leaf" else max(t[1], go(t[3]), go(t[4]))
    return max(go(t) for t, _ in forest_)


def nodes_dfs(t):
    """Nodes in depth-first preorder, as (node, depth, path)."""
    stack, out = [(t, 0, "")], []
    while stack:
        nd, d, path = stack.pop()
        out.append((nd, d, path))
        if nd[0] == "split":
            stack.append((nd[4], d + 1, path + "R"))
            stack.append((nd[3], d + 1, path + "L"))
    return out


def n_nodes(t):
    return len(nodes_dfs(t))


def n_leaves(t):
    return sum(1 for nd, _, _ in nodes_dfs(t) if nd[0] == "leaf")


def height(t):
    return max(d for _, d, _ in nodes_dfs(t))


def to_f32(forest_):
    """The forest with thresholds and outputs rounded to single precision."""
    def go(t):
        if t[0] == "leaf":
            return ("leaf", float(f32(t[1])))
        return ("split", t[1], float(f32(t[2])), go(t[3]), go(t[4]))
    return [(go(t), w) for t, w in forest_]


# ----------------------------------------------------------------------------- writers

def num(v):
    return repr(float(v))


def num_style(rng):
    """One of the ways of writing a number without losing any digit."""
    return [num, num, lambda v: "%.17g" % v, lambda v: "%.16e" % v, lambda v: "%.17E" % v,
            lambda v: repr(float(v)) + ("0" if "." in repr(float(v)) and "e" not in repr(float(v))
                                        else ""),
            lambda v: "%d" % v if float(v).is_integer() and abs(v) < 1e15 else num(v),
            ][int(rng.integers(0, 7))]


def write_quickrank(forest_, path, info=True, weights=None, pad=False, num=num, rng=None,
                    compact=False):
    """rng: children in any order, threshold before the feature, comments, any tree ids, no header."""
    sp = " " if pad else ""
    out = ["<ranker>"]
    if rng is not None and rng.random() < 0.5:
        out.insert(0, '<?xml version="1.0" encoding="UTF-8"?>')
    any_order = rng is not None and rng.random() < 0.6
    ids = np.arange(1, len(forest_) + 1)
    if rng is not None and rng.random() < 0.4:
        ids = [ids - 1, ids + int(rng.integers(1, 99)), rng.permutation(ids)][int(rng.integers(0, 3))]
    if rng is not None:
        info = info and rng.random() < 0.8
    if info:
        out += ["\t<info>", "\t\t<type>LAMBDAMART</type>", "\t\t<trees>%d</trees>" % len(forest_),
                "\t\t<leaves>10</leaves>", "\t\t<shrinkage>0.1</shrinkage>", "\t</info>"]
    out.append("\t<ensemble>")

    def go(t, pos, ind):
        attr = ' pos="%s"' % pos if pos else ""
        out.append("\t" * ind + "<split%s>" % attr)
        if t[0] == "leaf":
            out.append("\t" * (ind + 1) + "<output>%s%s%s</output>" % (sp, num(t[1]), sp))
        else:
            head = ["\t" * (ind + 1) + "<feature>%s%d%s</feature>" % (sp, t[1] + 1, sp),
                    "\t" * (ind + 1) + "<threshold>%s%s%s</threshold>" % (sp, num(t[2]), sp)]
            kids = [(t[3], "left"), (t[4], "right")]
            if any_order:
                if rng.random() < 0.3:
                    head.reverse()
                if rng.random() < 0.5:
                    kids.reverse()
                if rng.random() < 0.1:
                    head.append("<!-- a split -->")
            out.extend(head)
            for kid, side in kids:
                go(kid, side, ind + 1)
        out.append("\t" * ind + "</split>")
    for n, (t, w) in enumerate(forest_):
        out.append('\t\t<tree id="%d" weight="%s">' % (ids[n], num(w)))
        go(t, None, 3)
        out.append("\t\t</tree>")
    out += ["\t</ensemble>", "</ranker>"]
    with open(path, "w") as f:
        f.write("".join(o.strip("\t") for o in out) if compact else "\n".join(out) + "\n")
    return path


def _split_arrays(t, order="bfs", rng=None):
    """LightGBM/Jforests numbering: split nodes 0.., leaves as -(leaf+1)."""
    splits, leaves = [], []
    queue = [t]
    ids = {}
    while queue:
        nd = queue.pop(0 if order == "bfs" else -1)
        if nd[0] == "split":
            ids[id(nd)] = len(splits)
            splits.append(nd)
            queue += [nd[3], nd[4]] if order == "bfs" else [nd[4], nd[3]]
    # leaves numbered in any order
    lv = []

    def collect(nd):
        if nd[0] == "leaf":
            lv.append(nd)
        else:
            collect(nd[3])
            collect(nd[4])
    collect(t)
    perm = rng.permutation(len(lv)) if rng is not None else np.arange(len(lv))
    leaf_id = {}
    leaves = [None] * len(lv)
    for pos, nd in zip(perm, lv):
        leaf_id[id(nd)] = int(pos)
        leaves[pos] = nd

    def ref(nd):
        return ids[id(nd)] if nd[0] == "split" else -(leaf_id[id(nd)] + 1)
    left = [ref(nd[3]) for nd in splits]
    right = [ref(nd[4]) for nd in splits]
    return splits, leaves, left, right


def unshare(t):
    """Rebuilds the tuples so that every node is a different object."""
    if t[0] == "leaf":
        return tuple(["leaf", t[1]])
    return tuple(["split", t[1], t[2], unshare(t[3]), unshare(t[4])])


def write_jforests(forest_, path, order="bfs", rng=None, num=num):
    out = ["<Ensemble>"]
    for t, w in forest_:
        s, lv, left, right = _split_arrays(unshare(t), order, rng)
        out.append('\t<Tree type="RegressionTree" weight="%s">' % num(w))
        out.append('\t\t<NumLeaves>%d</NumLeaves>' % len(lv))
        out.append("\t\t<SplitFeatures>%s</SplitFeatures>" % " ".join(str(n[1]) for n in s))
        out.append("\t\t<LeftChildren>%s</LeftChildren>" % " ".join(map(str, left)))
        out.append("\t\t<RightChildren>%s</RightChildren>" % " ".join(map(str, right)))
        out.append("\t\t<Thresholds>%s</Thresholds>" % " ".join("0" for _ in s))
        out.append("\t\t<OriginalThresholds>%s</OriginalThresholds>" % " ".join(num(n[2]) for n in s))
        out.append("\t\t<LeafOutputs>%s</LeafOutputs>" % " ".join(num(n[1]) for n in lv))
        out.append("\t</Tree>")
    out.append("</Ensemble>")
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
    return path


def write_lightgbm(forest_, path, order="bfs", rng=None, extra=True, decision_type=None,
                   default_value=None, has_categorical=None, num=num, eol="\n"):
    nf = max_feature(forest_) + 1
    out = ["tree", "num_class=1", "num_tree_per_iteration=1", "label_index=0", "max_feature_idx=%d" % max(nf - 1, 0),
           "objective=lambdarank", "feature_names=" + " ".join("Column_%d" % i for i in range(nf)),
           ""]
    for n, (t, w) in enumerate(forest_):
        s, lv, left, right = _split_arrays(unshare(t), order, rng)
        out.append("Tree=%d" % n)
        out.append("num_leaves=%d" % len(lv))
        if extra:
            out.append("num_cat=0")
        out.append("split_feature=%s" % " ".join(str(x[1]) for x in s))
        if extra:
            out.append("split_gain=%s" % " ".join("1.5" for x in s))
        out.append("threshold=%s" % " ".join(num(x[2]) for x in s))
        if decision_type is not None or extra:
            dt = decision_type if decision_type is not None else [2] * len(s)
            out.append("decision_type=%s" % " ".join(str(x) for x in dt))
        if default_value is not None:
            out.append("default_value=%s" % " ".join(str(x) for x in default_value))
        out.append("left_child=%s" % " ".join(map(str, left)))
        out.append("right_child=%s" % " ".join(map(str, right)))
        if extra:
            out.append("leaf_parent=%s" % " ".join("0" for _ in lv))
        out.append("leaf_value=%s" % " ".join(num(x[1]) for x in lv))
        if extra:
            out.append("leaf_count=%s" % " ".join("7" for _ in lv))
            out.append("internal_value=%s" % " ".join("0.25" for _ in s))
            out.append("internal_count=%s" % " ".join("9" for _ in s))
        out.append("shrinkage=%s" % (0.1 if n % 2 else 1))
        if has_categorical is not None:
            out.append("has_categorical=%d" % has_categorical)
        out += ["", ""]
    out += ["feature importances:", "Column_0=3", ""]
    with open(path, "w", newline="") as f:
        f.write(eol.join(out))
    return path


def write_xgboost(forest_, path, stats=False, num=num, eol="\n"):
    """Splits written with '<': a document goes left iff X < threshold."""
    out = []
    for n, (t, w) in enumerate(forest_):
        out.append("booster[%d]:" % n)
        # xgboost numbers the nodes breadth-first and dumps them depth-first
        ids, queue, k = {}, [t], 0
        t_ = unshare(t)
        queue = [t_]
        while queue:
            nd = queue.pop(0)
            ids[id(nd)] = k
            k += 1
            if nd[0] == "split":
                queue += [nd[3], nd[4]]

        def go(nd, d):
            me = ids[id(nd)]
            if nd[0] == "leaf":
                out.append("\t" * d + "%d:leaf=%s%s" % (me, num(nd[1]),
                                                        ",cover=12.5" if stats else ""))
            else:
                l, r = ids[id(nd[3])], ids[id(nd[4])]
                out.append("\t" * d + "%d:[f%d<%s] yes=%d,no=%d,missing=%d%s" % (
                    me, nd[1], num(nd[2]), l, r, l, ",gain=3.5,cover=20" if stats else ""))
                go(nd[3], d + 1)
                go(nd[4], d + 1)
        go(t_, 0)
    with open(path, "w", newline="") as f:
        f.write(eol.join(out) + eol)
    return path


def write_scikit(forest_, path, base_score=None, learning_rate=None, num=num, eol="\n"):
    out = []
    if base_score is not None:
        out.append("base_score=%s" % num(base_score))
    if learning_rate is not None:
        out.append("learning_rate=%s" % num(learning_rate))
    for n, (t, w) in enumerate(forest_):
        feats = sorted({nd[1] for nd, _, _ in nodes_dfs(t) if nd[0] == "split"})
        out.append("booster[%d] [%s]:" % (n, " ".join("f%d" % f for f in feats)))
        for k, (nd, d, _) in enumerate(nodes_dfs(t)):
            ind = "\t" * (d + 1)
            if nd[0] == "leaf":
                out.append("%s%d:leaf=%s" % (ind, k, num(nd[1])))
            else:
                out.append("%s%d:[f%d<=%s]" % (ind, k, nd[1], num(nd[2])))
    with open(path, "w", newline="") as f:
        f.write(eol.join(out) + eol)
    return path


def oblivious(rng, n_features, depth, X=None):
    conds = []
    for _ in range(depth):
        f = int(rng.integers(0, n_features))
        conds.append((f, threshold(rng, X, f)))

    def build(d):
        if d == depth:
            return ("leaf", leaf_value(rng))
        return ("split", conds[d][0], conds[d][1], build(d + 1), build(d + 1))
    return build(0)


def write_coreml(forest_, path, n_features, behaviors=("BranchOnValueGreaterThan",), rng=None,
                 bias=0.0):
    """A CoreML tree ensemble numbered as CatBoost does: dense ids, the root has the highest."""
    import coremltools
    from coremltools.proto import Model_pb2
    spec = Model_pb2.Model()
    spec.specificationVersion = 1
    inp = spec.description.input.add()
    inp.name = "x"
    inp.type.multiArrayType.shape.append(n_features)
    inp.type.multiArrayType.dataType = 65568
    o = spec.description.output.add()
    o.name = "y"
    o.type.doubleType.SetInParent()
    spec.description.predictedFeatureName = "y"
    ens = spec.treeEnsembleRegressor.treeEnsemble
    ens.numPredictionDimensions = 1
    if bias is not None:
        ens.basePredictionValue.append(bias)
    TN = type(ens.nodes.add())
    del ens.nodes[:]
    beh = TN.TreeNodeBehavior
    for tid, (t, w) in enumerate(forest_):
        t = unshare(t)
        # breadth-first positions; CatBoost's id = n - 1 - position
        queue, order = [t], []
        while queue:
            nd = queue.pop(0)
            order.append(nd)
            if nd[0] == "split":
                queue += [nd[3], nd[4]]
        nid = {id(nd): len(order) - 1 - k for k, nd in enumerate(order)}
        seq = list(order)
        if rng is not None and rng.random() < 0.5:
            seq = [order[k] for k in rng.permutation(len(order))]
        for nd in seq:
            n = ens.nodes.add()
            n.treeId = tid
            n.nodeId = nid[id(nd)]
            if nd[0] == "leaf":
                n.nodeBehavior = beh.Value("LeafNode")
                e = n.evaluationInfo.add()
                e.evaluationIndex = 0
                e.evaluationValue = nd[1]
            else:
                b = behaviors[0] if rng is None or len(behaviors) == 1 else \
                    behaviors[rng.integers(0, len(behaviors))]
                n.nodeBehavior = beh.Value(b)
                n.branchFeatureIndex = nd[1]
                n.branchFeatureValue = nd[2]
                low, high = nid[id(nd[3])], nid[id(nd[4])]     # low: X <= threshold
                if b in ("BranchOnValueGreaterThan", "BranchOnValueGreaterThanEqual"):
                    n.trueChildNodeId, n.falseChildNodeId = high, low
                else:
                    n.trueChildNodeId, n.falseChildNodeId = low, high
    with open(path, "wb") as f:
        f.write(spec.SerializeToString())
    return path


WRITERS = {"QuickRank": write_quickrank, "LightGBM": write_lightgbm, "XGBoost": write_xgboost,
           "ScikitLearn": write_scikit, "Jforests": write_jforests}


def model(ctx, forest_, fmt="QuickRank", name=None, fname="model.txt", **kw):
    """Writes the forest in the given format and loads it with the real loader."""
    from rankeval.model import RTEnsemble
    path = ctx.path(fname)
    WRITERS[fmt](forest_, path)
    out = RTEnsemble(path, name=name, format=fmt, **kw)
    for a in vars(out).values():
        if isinstance(a, np.ndarray):
            frozen(a)
    return out


def model_quick(ctx, rng, n_features, X=None, name=None, **kw):
    """A random model with its forest (QuickRank format)."""
    fo = forest(rng, n_features, X=X, **kw)
    return model(ctx, fo, name=name), fo


# ----------------------------------------------------------------------------- hostile values

def wild_f32(rng, n=None, den=True):
    """Finite single precision values of any magnitude and sign (no zeros of either sign)."""
    k = 1 if n is None else n
    bits = rng.integers(0, 2 ** 32, size=k, dtype=np.uint64).astype(np.uint32)
    v = bits.view(f32).copy()
    bad = ~np.isfinite(v) | (v == 0)
    if not den:
        bad |= np.abs(v) < 1e-37
    v[bad] = f32(1.5)
    return float(v[0]) if n is None else v


def wild(forest_, rng, leaves=True, p=0.7):
    """The forest with thresholds (and outputs) of any magnitude."""
    def go(t):
        if t[0] == "leaf":
            return ("leaf", wild_f32(rng) if leaves and rng.random() < p else t[1])
        th = wild_f32(rng) if rng.random() < p else t[2]
        return ("split", t[1], th, go(t[3]), go(t[4]))
    return [(go(t), w) for t, w in forest_]


def probes(rng, forest_, n_features, n, base=None):
    """Documents whose values are equal or adjacent to the thresholds of the forest."""
    thr = {}
    for t, _ in forest_:
        for nd, _, _ in nodes_dfs(t):
            if nd[0] == "split":
                thr.setdefault(nd[1], []).append(f32(nd[2]))
    X = dyadic(rng, (n, n_features)) if base is None else base.copy()
    for f, ts in thr.items():
        ts = np.array(ts, dtype=f32)
        pick = ts[rng.integers(0, len(ts), size=n)]
        u = rng.random(n)
        v = np.where(u < 0.4, pick, np.where(
            u < 0.55, np.nextafter(pick, f32(np.inf)), np.nextafter(pick, f32(-np.inf))))
        keep = (u >= 0.8) | ~np.isfinite(v)
        X[:, f] = np.where(keep, X[:, f], v)
    return np.ascontiguousarray(X.astype(f32))
