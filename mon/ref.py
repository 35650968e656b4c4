"""Executable reference models (independent of rankeval's code)."""
import itertools
import math

import numpy as np

from . import gen

f32 = np.float32


# ----------------------------------------------------------------------------- models

def route(t, x):
    """(leaf node, path) reached by the document x."""
    path = ""
    while t[0] == "split":
        if f32(x[t[1]]) <= f32(t[2]):
            t, path = t[3], path + "L"
        else:
            t, path = t[4], path + "R"
    return t, path


def partials(forest_, X):
    """Raw (leaf output * weight) per document and tree, in double precision."""
    out = np.zeros((X.shape[0], len(forest_)))
    for j, (t, w) in enumerate(forest_):
        for r in range(X.shape[0]):
            out[r, j] = float(f32(route(t, X[r])[0][1])) * float(f32(w))
    return out


def scores(forest_, X, learning_rate=1, base_score=None):
    s = partials(forest_, X).sum(axis=1) * learning_rate
    return s + (base_score or 0)


def walk(model, tree_id, t, check):
    """Checks that the tree of the model is t; returns {path: node index}."""
    root = int(model.trees_root[tree_id])
    ids, stack = {}, [(root, t, "")]
    n_nodes = len(model.trees_left_child)
    while stack:
        i, nd, path = stack.pop()
        check(0 <= i < n_nodes, "node index out of the model", tree=tree_id, path=path, index=i)
        check(i not in ids.values(), "node shared by two positions of the tree",
              tree=tree_id, path=path, index=i)
        ids[path] = i
        if nd[0] == "leaf":
            check(bool(model.is_leaf_node(i)), "a leaf was loaded as a split", tree=tree_id, path=path)
            check(f32(model.trees_nodes_value[i]) == f32(nd[1]), "wrong leaf output",
                  tree=tree_id, path=path, got=model.trees_nodes_value[i], want=nd[1])
        else:
            check(not model.is_leaf_node(i), "a split was loaded as a leaf", tree=tree_id, path=path)
            check(int(model.trees_nodes_feature[i]) == nd[1], "wrong split feature",
                  tree=tree_id, path=path, got=model.trees_nodes_feature[i], want=nd[1])
            check(f32(model.trees_nodes_value[i]) == f32(nd[2]), "wrong split threshold",
                  tree=tree_id, path=path, got=float(model.trees_nodes_value[i]), want=nd[2])
            stack.append((int(model.trees_left_child[i]), nd[3], path + "L"))
            stack.append((int(model.trees_right_child[i]), nd[4], path + "R"))
    return ids


def check_model(ctx, model, forest_, weights=True):
    """Structural identity between a loaded model and the forest; all node ids are disjoint."""
    ctx.check(model.n_trees == len(forest_), "wrong number of trees",
              got=model.n_trees, want=len(forest_))
    ctx.check(model.n_nodes == sum(gen.n_nodes(t) for t, _ in forest_), "wrong number of nodes",
              got=model.n_nodes, want=sum(gen.n_nodes(t) for t, _ in forest_))
    sizes = [len(a) for a in (model.trees_root, model.trees_weight, model.trees_nodes_value,
                              model.trees_nodes_feature, model.trees_left_child,
                              model.trees_right_child)]
    ctx.check(sizes == [model.n_trees] * 2 + [model.n_nodes] * 4, "wrong sizes of the arrays",
              got=sizes, trees=model.n_trees, nodes=model.n_nodes)
    seen, maps = set(), []
    for k, (t, w) in enumerate(forest_):
        ids = walk(model, k, t, ctx.check)
        ctx.count("nodes_compared", len(ids))
        ctx.check(not (seen & set(ids.values())), "two trees share nodes", tree=k)
        seen |= set(ids.values())
        maps.append(ids)
        if weights:
            ctx.check(f32(model.trees_weight[k]) == f32(w), "wrong tree weight", tree=k,
                      got=float(model.trees_weight[k]), want=w)
    return maps


# ----------------------------------------------------------------------------- metrics

def rankings(y_pred, limit=200):
    """All the orderings (best first) compatible with the scores, up to a limit; None if more."""
    order = np.argsort(-np.asarray(y_pred, dtype=float), kind="stable")
    groups, cur = [], [order[0]]
    for a in order[1:]:
        if y_pred[a] == y_pred[cur[0]]:
            cur.append(a)
        else:
            groups.append(cur)
            cur = [a]
    groups.append(cur)
    total = 1
    for g in groups:
        total *= math.factorial(len(g))
        if total > limit:
            return None
    return [[i for g in combo for i in g]
            for combo in itertools.product(*[list(itertools.permutations(g)) for g in groups])]


def dcg(y, order, cutoff, impl):
    s = 0.0
    for i, d in enumerate(order[:cutoff]):
        g = float(y[d]) if impl == "flat" else 2.0 ** float(y[d]) - 1
        s += g / math.log2(i + 2)
    return s


def ideal_order(y):
    return list(np.argsort(-np.asarray(y, dtype=float), kind="stable"))


def m_dcg(y, p, o, cutoff=None, implementation="flat"):
    return dcg(y, o, cutoff, implementation)


def m_ndcg(y, p, o, cutoff=None, implementation="exp", no_relevant_results=1.0):
    i = dcg(y, ideal_order(y), cutoff, implementation)
    return dcg(y, o, cutoff, implementation) / i if i else no_relevant_results


def m_err(y, p, o, cutoff=None):
    m, go, s = float(max(y)), 1.0, 0.0
    for i, d in enumerate(o[:cutoff]):
        r = (2.0 ** float(y[d]) - 1) / 2.0 ** m
        s += go * r / (i + 1)
        go *= 1 - r
    return s


def m_pfound(y, p, o, cutoff=None, p_abandonment=0.15):
    m, look, s = float(max(y)), 1.0, 0.0
    for d in o[:cutoff]:
        r = (2.0 ** float(y[d]) - 1) / 2.0 ** m
        s += look * r
        look *= (1 - r) * (1 - p_abandonment)
    return s


def m_rbp(y, p, o, cutoff=None, threshold=1, p_=0.5):
    return (1 - p_) * sum(p_ ** i for i, d in enumerate(o[:cutoff]) if y[d] >= threshold)


def m_precision(y, p, o, cutoff=None, threshold=1):
    top = o[:cutoff]
    return sum(1 for d in top if y[d] >= threshold) / len(top)


def m_precision_max(y, p, o, cutoff=None):
    top, m = o[:cutoff], max(y)
    return sum(1 for d in top if y[d] == m) / len(top)


def m_recall(y, p, o, cutoff=None, threshold=1, no_relevant_results=0.0):
    rel = sum(1 for v in y if v >= threshold)
    if not rel:
        return no_relevant_results
    return sum(1 for d in o[:cutoff] if y[d] >= threshold) / rel


def m_map(y, p, o, cutoff=None, no_relevant_results=1.0):
    rel = sum(1 for v in y if v > 0)
    if not rel:
        return no_relevant_results
    hits, s, top = 0, 0.0, o[:cutoff]
    for i, d in enumerate(top):
        if y[d] > 0:
            hits += 1
            s += hits / (i + 1)
    return s / min(len(top), rel)


def m_mrr(y, p, o, cutoff=None, threshold=1):
    for i, d in enumerate(o[:cutoff]):
        if y[d] >= threshold:
            return 1.0 / (i + 1)
    return 0.0


def m_sse(y, p, o, cutoff=None):
    idx = range(len(y)) if cutoff is None else o[:cutoff]
    return sum((float(y[d]) - float(p[d])) ** 2 for d in idx)


def m_rmse(y, p, o, cutoff=None):
    n = len(y) if cutoff is None else min(cutoff, len(y))
    return math.sqrt(m_sse(y, p, o, cutoff) / n)


def kendall(y, p):
    """tau-b, by counting the pairs."""
    P = Q = T = U = 0
    n = len(y)
    for i in range(n):
        for j in range(i + 1, n):
            a = int(y[i] > y[j]) - int(y[i] < y[j])
            b = int(p[i] > p[j]) - int(p[i] < p[j])
            if a == 0 and b == 0:
                continue
            if a == 0:
                T += 1
            elif b == 0:
                U += 1
            elif a == b:
                P += 1
            else:
                Q += 1
    den = math.sqrt((P + Q + T) * (P + Q + U))
    return (P - Q) / den if den else float("nan")


def _avg_ranks(v):
    v = np.asarray(v, dtype=float)
    return np.array([(np.sum(v < a) + (np.sum(v == a) + 1) / 2.0) for a in v])


def spearman(y, p):
    a, b = _avg_ranks(y), _avg_ranks(p)
    a, b = a - a.mean(), b - b.mean()
    den = math.sqrt((a * a).sum() * (b * b).sum())
    return float((a * b).sum() / den) if den else float("nan")
