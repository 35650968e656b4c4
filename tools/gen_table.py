"""Rewrites the table of planted bugs of DESIGN.md from seeded/ and the last trials."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c01-long-line": "lines of megabytes",
    "c28-metric-name": "datasets, models and metrics sharing a name",
    "c07-seed-mod": "seeds that differ in any bit",
    "c09-cast-request": "numbers no query has, beyond 32 bits or fractional",
    "c10-hash-eq": "equal contents in other types, single columns",
    "c11-tree-id": "any tree ids, no header",
    "c24-int-labels": "fractional labels",
    "c32-epsilon": "vectors of any magnitude",
    "c37-ravel-sort": "the results plotted compared before and after",
    "c39-dotless-models": "model files without extension",
    "c18-weight-once": "outputs of any magnitude on one scale (C18, C19)",
    "c19-narrow-leaves": "models with more nodes than 15 or 16 bits count (C11, C12, C15-C19)",
    "c23-rbp-int-p": "scores of narrow integer types",
    "c31-small-counts": "queries of hundreds of documents",
    "c39-fold-zero": "fold 0",
    "c05-qids-leak": "loads without query ids repeated under the allocation monitor",
    "c09-feature-view": "slices as requests, subsets changed afterwards",
    "c09-assume-unique": "many requested queries spread over the ids",
    "c22-exp-int-overflow": "labels up to 30 in 8-bit types",
    "c11-first-child-left": "the children, threshold and feature in any order in the file",
    "c12-sk-base": "base scores in every notation",
    "c13-leaf-precision": "targets of any magnitude and tight tolerance",
    "c01-glued-comment": "comments glued to the value, of any content and length",
    "c06-small-offsets": "datasets of 33 000 to 140 000 rows",
    "c05-load-cache": "the same file loaded again after its arrays were changed",
    "c33-avg-pred": "scores of large magnitude and tight tolerances",
    "c38-first-tree-leaves": "the leaves of the other trees changed",
    "c26-cached-iterator": "datasets made and released at the same address",
    "c37-k-values": "last numbers of trees that do not follow the step",
    "c10-eq-blocks": "one difference in hundreds or thousands of rows",
    "c23-rbp-log": "persistence 0 and 1",
    "c29-zero-end": "ranges that end at zero",
    "c18-zero-rate": "learning rates of zero and below (C12, C15, C18, C19)",
    "c37-one-figure": "calls with other figures open, of the same function or the user's",
    "c01-files-sorted": "several files in any order, from paths, streams and iterators",
    "c02-empty-name": "texts without any row",
    "c07-seed-zero": "seeds 0, 1, 2^32-1, numpy integers, generators, global state",
}
MISSED.update(json.load(open(os.path.join(ROOT, "tools", "missed.json")))
              if os.path.exists(os.path.join(ROOT, "tools", "missed.json")) else {})
last = {}
p = os.path.join(ROOT, ".runs", "trials.jsonl")
for line in open(p) if os.path.exists(p) else []:
    r = json.loads(line)
    for c, v in (r.get("checks") or {}).items():
        last.setdefault(r["id"], {})[c] = v
rows = ["| id | property | change | caught by | first missed: strengthened with |", "|--|--|--|--|--|"]
for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
    by = ", ".join(c for c, v in sorted(last.get(s, {}).items()) if v == "caught") or "none"
    rows.append("| %s | %s | %s (needs: %s) | %s | %s |" % (
        s, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), by,
        MISSED.get(s, "")))
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(<!-- table[^\n]*\n).*?(<!-- end -->)", lambda k: k.group(1) + "\n" + "\n".join(rows) +
           "\n\n" + k.group(2), t, flags=re.S)
open(p, "w").write(t)
