"""C38: the DOT text of export_graphviz, parsed and compared with the reference tree."""
import io
import re
from xml.sax.saxutils import unescape

import numpy as np

from mon import gen, ref

ID = "C38"
RULE = ("random forests, trees, depth limits, display options, output leaves of random datasets and "
        "sinks; the DOT text parsed into nodes and edges and compared with the tree; distinct by "
        "text")
REQUIRED = ["trees", "nodes", "edges", "truncated", "counts", "percentages_all", "percentages_leaves", "feature_names",
            "special_characters", "to_path", "to_stream", "rejected", "parallel_leaves",
            "leaf_labels_only", "single_leaf_trees", "odd_names", "unreached_nodes", "node_ids", "plot_tree",
            "any_magnitude", "large_values", "shades",
            "other_trees_changed"]
ASSUMPTIONS = ["percentages are relative to all the documents", "feature names without line breaks or entities"]


def KINDS(tier):
    k = 4 if tier == "quick" else 45
    return [("export", 700 * k), ("reject", 60 * k)]


def parse(ctx, dot, special):
    lines = dot.split("\n")
    ctx.check(lines[0].strip() == "digraph Tree {" and lines[-1].strip() == "}", "not a DOT graph",
              got=(lines[0], lines[-1]))
    nodes, edges, ranks, fills = {}, [], [], {}
    node_re = re.compile(r'^(\d+) \[label=(<.*>|"(?:[^"\\]|\\.)*")((?:, \w+="[^"]*")*)\] ;$')
    edge_re = re.compile(r'^(\d+) -> (\d+)( \[.*\])? ;$')
    for l in lines[1:-1]:
        m = node_re.match(l)
        if m:
            i = int(m.group(1))
            ctx.check(i not in nodes, "a node is drawn twice", node=i)
            nodes[i] = m.group(2)
            f = re.search(r'fillcolor="(#[0-9a-fA-F]{8})"', m.group(3))
            if f:
                fills[i] = f.group(1)
            continue
        m = edge_re.match(l)
        if m:
            edges.append((int(m.group(1)), int(m.group(2)), m.group(3) or ""))
            continue
        m = re.match(r"^\{rank=same ; (.*)\} ;$", l)
        if m:
            ranks.append({int(x) for x in m.group(1).split(";")})
            continue
        ctx.check(re.match(r"^(node|edge|graph) \[.*\] ;$", l) is not None, "not a DOT statement",
                  line=l)
    return nodes, edges, ranks, fills


def fields(text):
    """The lines of a label, without markup."""
    if text.startswith("<"):
        t = text[1:-1].replace("&#35;", "#").replace("&le;", "<=").replace("&#37;", "%")
        t = t.replace('<FONT POINT-SIZE="10"><SUB>', "[").replace("</SUB></FONT>", "]")
        return [unescape(l, {"&quot;": '"', "&apos;": "'", "&#39;": "'", "&#34;": '"'})
                for l in t.split("<br/>")]
    lines = [""]
    for c in re.findall(r"\\.|[^\\]", text[1:-1]):
        if c == "\\n":
            lines.append("")
        else:
            lines[-1] += c[-1]
    return [unescape(l, {"&quot;": '"'}) for l in lines]


def large(rng, t):
    v = float(np.float32(rng.integers(10 ** 4, 10 ** 8) + rng.integers(0, 4) / 4))
    return ("leaf", v) if t[0] == "leaf" else \
        ("split", t[1], v, large(rng, t[3]), large(rng, t[4]))


SCALE = {}


def warmth(colour):
    """The position of a colour between blue and red."""
    if not SCALE:
        import matplotlib.pyplot as plt
        for k in range(256):
            r, g, b, _ = plt.get_cmap("coolwarm")(k)
            SCALE[k] = tuple(int(np.round(c * 255)) for c in (r, g, b))
    rgb = [int(colour[q:q + 2], 16) for q in (1, 3, 5)]
    return min(SCALE, key=lambda k: sum(abs(a - b) for a, b in zip(SCALE[k], rgb)))


def close(a, v, precision):
    a = float(a)
    return abs(a - float(v)) <= 0.5 * 10.0 ** -precision * 1.001 + abs(float(v)) * 1e-14 or \
        np.float32(a) == v      # all the digits of a single


def case(ctx, rng, kind, i):
    from rankeval.visualization.topological import export_graphviz, plot_tree
    nf = int(rng.integers(1, 9))
    raw = gen.raw_dataset(rng, n_features=nf, max_queries=5)
    fo = gen.forest(rng, nf, X=raw["X"], max_depth=6)
    if rng.random() < 0.3:
        fo = [(t, w) for t, w in gen.distinct_leaves(fo)]
    elif rng.random() < 0.3:
        fo = gen.wild(fo, rng)
        ctx.count("any_magnitude")
    elif rng.random() < 0.2:        # values single precision tells apart, but not once scaled
        fo = [(large(rng, t), w) for t, w in fo]
        ctx.count("large_values")
    fmt = ["QuickRank", "LightGBM", "XGBoost", "ScikitLearn"][int(rng.integers(0, 4))]
    model = gen.model(ctx, fo, fmt)
    if fmt == "XGBoost":
        from .c12 import strict_to_le
        fo = strict_to_le(fo)
    used = gen.max_feature(fo) + 1
    if kind == "reject":
        bad = [{"tree_id": len(fo)}, {"tree_id": len(fo) + int(rng.integers(1, 9))},
               {"precision": -1}, {"precision": 1.5}, {"precision": "3"}]
        if used > 0:
            bad.append({"feature_names": ["x"] * (used - 1)})
        kw = bad[int(rng.integers(0, len(bad)))]
        ctx.raises(ValueError, lambda: export_graphviz(model, **kw), "a wrong option was accepted",
                   options=kw)
        ctx.count("rejected")
        return
    k = int(rng.integers(0, len(fo)))
    t = fo[k][0]
    ids = ref.walk(model, k, t, ctx.check)
    kw = {}
    if k or rng.random() < 0.5:
        kw["tree_id"] = k
    depth = None
    if rng.random() < 0.5:
        kw["max_depth"] = depth = int(rng.integers(0, 5))
    precision = 3
    if rng.random() < 0.5:
        kw["precision"] = precision = int(rng.integers(0, 10))
    names = None
    if rng.random() < 0.4:
        n = used + int(rng.integers(0, 3))
        kw["feature_names"] = names = ["name %d" % q if q % 2 else "f_%d" % (q * 7) for q in range(n)]
        if rng.random() < 0.4:
            odd = ['say "%s"', "a<b>%s", "R&D %s", "c:\\t%s\\", "%s->", "\u00e9 %s", "[%s]; }", "n\u00b0%s\\n"]
            kw["feature_names"] = names = [odd[int(rng.integers(0, len(odd)))] % q for q in names]
            ctx.count("odd_names")
        ctx.count("feature_names")
    special = parallel = show_ids = False
    if rng.random() < 0.3:
        kw["special_characters"] = special = True
        ctx.count("special_characters")
    if rng.random() < 0.3:
        kw["leaves_parallel"] = parallel = True
    if rng.random() < 0.3:
        kw["node_ids"] = show_ids = True
        ctx.count("node_ids")
    for o in ("rounded", "highlight_leaves"):
        if rng.random() < 0.3:
            kw[o] = True
    d, label, show, prop, leaves = gen.dataset(raw), "all", False, False, None
    if rng.random() < 0.7:
        leaves = kw["output_leaves"] = np.asarray(model.score(d, detailed=True)[2])
        if rng.random() < 0.4:
            kw["label"] = label = str(rng.choice(["all", "leaves"]))
    if rng.random() < 0.8:
        kw["label_show"] = show = True
    if rng.random() < 0.5:
        kw["proportion"] = prop = True
    ctx.note(tree=t, options={a: b for a, b in kw.items() if a != "output_leaves"})
    before = leaves.copy() if leaves is not None else None
    u = rng.random()
    if u < 0.5:
        dot = export_graphviz(model, **kw)
        ctx.check(isinstance(dot, str), "no text is returned", got=type(dot))
    elif u < 0.75:
        path = ctx.path("t.dot")
        ctx.check(export_graphviz(model, out_file=path, **kw) is None, "something is returned")
        dot = open(path, encoding="utf-8").read()
        ctx.count("to_path")
    else:
        f = io.StringIO()
        ctx.check(export_graphviz(model, out_file=f, **kw) is None, "something is returned")
        ctx.check(not f.closed, "the stream of the caller was closed")
        dot = f.getvalue()
        ctx.count("to_stream")
    if leaves is not None:
        ctx.equal(leaves, before, "the output leaves were modified")
    nodes, edges, ranks, fills = parse(ctx, dot, special)
    if leaves is not None and len(fo) > 1 and rng.random() < 0.5:
        # the drawing of a tree depends on where the documents end in that tree only
        other = np.array(leaves)
        for q in range(len(fo)):
            if q != k:
                col = other[:, q]
                u = rng.random()
                other[:, q] = col[rng.permutation(len(col))] if u < 0.3 else \
                    col[0] if u < 0.6 else col[rng.integers(0, len(col), len(col))]
        ctx.check(export_graphviz(model, **dict(kw, output_leaves=other)) == dot,
                  "the drawing of a tree depends on the leaves of the others")
        ctx.count("other_trees_changed")
    # the reference
    reach = {}
    for r in range(len(raw["y"])):
        path = ref.route(t, raw["X"][r])[1]
        for q in range(len(path) + 1):
            reach[path[:q]] = reach.get(path[:q], 0) + 1
    total = len(raw["y"])
    drawn, want_edges = {}, []
    for nd, dd, path in gen.nodes_dfs(t):
        if depth is not None and dd > depth + 1:
            continue
        # below the limit only the first level is sketched
        drawn[ids[path]] = (nd, dd, path)
        if dd:
            want_edges.append((ids[path[:-1]], ids[path]))
    ctx.check(set(nodes) == set(drawn), "wrong set of nodes", got=sorted(nodes), want=sorted(drawn))
    ctx.check(sorted((a, b) for a, b, _ in edges) == sorted(want_edges), "wrong set of edges",
              got=[(a, b) for a, b, _ in edges], want=want_edges)
    order = {}
    for a, b, attr in edges:
        order.setdefault(a, []).append(b)
        if a == ids[""] and drawn[b][1] <= (depth if depth is not None else 99):
            want = "True" if drawn[b][2] == "L" else "False"
            ctx.check('headlabel="%s"' % want in attr, "a branch of the root is mislabelled",
                      got=attr, want=want)
        ctx.count("edges")
    for a, bs in order.items():
        if len(bs) == 2:
            ctx.check([drawn[b][2][-1] for b in bs] == ["L", "R"],
                      "the left branch is not drawn before the right one", parent=a)
    for i_, (nd, dd, path) in drawn.items():
        text = nodes[i_]
        if depth is not None and dd > depth:
            ctx.check(text == '"(...)"', "a truncated subtree is not marked", got=text)
            ctx.count("truncated")
            continue
        fs = fields(text)
        if show_ids:
            ctx.check(fs[0] == "node #%d" % i_, "wrong node identifier", got=fs, want=i_)
            fs = fs[1:]
        if leaves is not None and show and (label == "all" or nd[0] == "leaf"):
            m = re.match(r"^counts = (\d+)(?: \(([\d.]+)%\))?$", fs[0])
            ctx.check(m is not None, "no count on a node", got=fs)
            c = reach.get(path, 0)
            ctx.check(int(m.group(1)) == c, "wrong count of documents", path=path, got=fs[0], want=c)
            ctx.check((m.group(2) is not None) == prop, "percentages do not follow the option",
                      got=fs[0])
            if prop:
                ctx.check(abs(float(m.group(2)) - 100.0 * c / total) <= 0.00501,
                          "wrong percentage of documents", got=fs[0], want=100.0 * c / total)
                ctx.count("percentages_" + label)
            fs = fs[1:]
            ctx.count("counts")
            ctx.count("leaf_labels_only", label == "leaves")
            ctx.count("unreached_nodes", c == 0)
        ctx.check(len(fs) == 1, "wrong label of a node", got=text)
        if nd[0] == "leaf":
            m = re.match(r"^output = (\S+)$", fs[0])
            ctx.check(m is not None and close(m.group(1), np.float32(nd[1]), precision),
                      "wrong output of a leaf", got=fs[0], want=nd[1])
        else:
            f, _, thr = fs[0].rpartition("<=")
            want = names[nd[1]] if names else "f[%d]" % nd[1]
            ctx.check(f.strip() == want, "wrong feature of a split", got=fs[0], want=want)
            ctx.check(close(thr, np.float32(nd[2]), precision), "wrong threshold of a split",
                      got=fs[0], want=nd[2])
        ctx.count("nodes")
    # the shades, from blue to red, follow the documents (or the outputs of the leaves)
    shades = []
    for i_, (nd, dd, path) in drawn.items():
        if depth is not None and dd > depth or i_ not in fills:
            continue
        if leaves is not None and (label == "all" or nd[0] == "leaf"):
            shades.append((reach.get(path, 0), fills[i_]))
        elif leaves is None and nd[0] == "leaf":
            shades.append((float(np.float32(nd[1])), fills[i_]))
    shades.sort(key=lambda t_: t_[0])
    for (v1, c1), (v2, c2) in zip(shades, shades[1:]):
        ctx.check(c1 == c2 if v1 == v2 else warmth(c1) <= warmth(c2),
                  "the shades of the nodes do not follow what they stand for", got=shades)
        ctx.count("shades")
    ctx.check(leaves is None and "highlight_leaves" not in kw or len(shades) > 0 or
              (label == "leaves" and depth is not None) or depth is not None, "no node is shaded")
    if parallel:
        lv = {i_ for i_, (nd, dd, _) in drawn.items() if nd[0] == "leaf" or
              (depth is not None and dd > depth)}
        ctx.check(any(lv <= r for r in ranks) or not lv, "the leaves are not on the same rank",
                  got=ranks, want=lv)
        ctx.count("parallel_leaves")
    else:
        ctx.check(not ranks, "ranks were not asked for")
    if rng.random() < 0.2:
        ctx.check(plot_tree(dot).source.strip() == dot.strip(), "the source plotted is not the text")
        ctx.count("plot_tree")
    ctx.count("trees")
    ctx.count("single_leaf_trees", t[0] == "leaf")
    ctx.distinct(dot)
    ctx.sample({"options": {a: b for a, b in kw.items() if a != "output_leaves"},
                "dot": dot[:400]})
