From c7c2ab8b2308fb971e609271bc246f39a2e24609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 01/80] fix: svmlight loader crashed (or leaked) on stream
 errors and text streams

PyFile_GetLine returns NULL when the underlying stream raises (e.g. a truncated
gzip file): propagate that exception instead of dereferencing NULL, reject
non-bytes lines, keep embedded NULs and release each line object.
---
 rankeval/dataset/_svmlight_format.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index cc5583d..6cbb34d 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -126,6 +126,13 @@ public:
 
 
 
+/*
+ * Raised when a Python exception has been set by the Python C API.
+ */
+class PythonError : public std::exception {
+};
+
+
 /*
  * Convert a C++ vector to a 1d-ndarray WITHOUT memory copying.
  * Steals v's contents, leaving it empty.
@@ -325,7 +332,16 @@ void parse_file(PyObject *pystream,
   std::string line;
   while (true) {
     PyObject* py_line = PyFile_GetLine(pystream, 0);
-    line = std::string(PyBytes_AS_STRING(py_line));
+    if (!py_line)
+      throw PythonError();
+    if (!PyBytes_Check(py_line)) {
+      Py_DECREF(py_line);
+      PyErr_SetString(PyExc_TypeError,
+                      "the file to load must be opened in binary mode");
+      throw PythonError();
+    }
+    line.assign(PyBytes_AS_STRING(py_line), PyBytes_GET_SIZE(py_line));
+    Py_DECREF(py_line);
     if (line.empty())
         break;
     lineno++;	  
@@ -352,6 +368,9 @@ static PyObject *load_svmlight_file(PyObject *self, PyObject *args)
     parse_file(pystream, data, labels, qids);
     return to_dense(data, labels, qids);
 
+  } catch (PythonError const &e) {
+    // The Python exception is already set.
+    return 0;
   } catch (SyntaxError const &e) {
     PyErr_SetString(PyExc_ValueError, e.what());
     return 0;
-- 
2.43.0


From d947da9e7eaece0babb5cb71270ff21dd0b8bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 02/80] fix: svmlight loader misaligned rows when the first
 rows have no features

---
 rankeval/dataset/_svmlight_format.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 6cbb34d..1488fa2 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -314,6 +314,9 @@ void parse_line(const std::string &line,
   // it means we have to reshape the dataset to include new columns...
   if (max_feature > 0 && (next_feature - 1) > max_feature) {
     reshape_data(data, max_feature, next_feature - 1);
+  } else if (max_feature == 0 && next_feature > 1) {
+    // all the previous rows (if any) do not have features: fill them with zeros
+    data.insert(data.begin(), (labels.size() - 1) * (next_feature - 1), 0);
   }
 
   max_feature = std::max(next_feature - 1, max_feature);
-- 
2.43.0


From 65fb3123c32a0f25f8363e85184091586e1f7c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 03/80] fix: undefined behaviour in the svmlight loader (empty
 vectors, dangling exception)

---
 rankeval/dataset/_svmlight_format.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 1488fa2..dd2d02f 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -144,7 +144,7 @@ static PyObject *to_1d_array(std::vector<T> &v, int typenum)
   npy_intp dims[1] = {(npy_intp) v.size()};
 
   // A C++ vector's elements are guaranteed to be in a contiguous array.
-  PyObject *arr = PyArray_SimpleNewFromData(1, dims, typenum, &v[0]);
+  PyObject *arr = PyArray_SimpleNewFromData(1, dims, typenum, v.data());
 
   try {
     if (!arr)
@@ -177,7 +177,6 @@ static PyObject *to_dense(std::vector<float> &data,
                         std::vector<int> &qids)
 {
   // We could do with a smart pointer to Python objects here.
-  std::exception const *exc = 0;
   PyObject *data_arr = 0,
            *qids_arr = 0,
            *labels_arr = 0,
@@ -192,19 +191,18 @@ static PyObject *to_dense(std::vector<float> &data,
                               data_arr, labels_arr, qids_arr);
 
   } catch (std::exception const &e) {
-    exc = &e;
+    Py_XDECREF(data_arr);
+    Py_XDECREF(qids_arr);
+    Py_XDECREF(labels_arr);
+    throw;
   }
 
   // Py_BuildValue increases the reference count of each array,
-  // so we need to decrease it before returning the tuple,
-  // regardless of error status.
+  // so we need to decrease it before returning the tuple.
   Py_XDECREF(data_arr);
   Py_XDECREF(qids_arr);
   Py_XDECREF(labels_arr);
 
-  if (exc)
-    throw *exc;
-
   return ret_tuple;
 }
 
-- 
2.43.0


From 4d1b5ffab508ead48e4b1f20b021404cc62451d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 04/80] fix: svmlight dump dropped the query id of a
 single-instance dataset

---
 rankeval/dataset/_svmlight_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index dd2d02f..5459c57 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -414,7 +414,7 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
 
     int n_samples = PyArray_DIM(data_array, 0);
     int n_features = PyArray_DIM(data_array, 1);
-    int n_queries = PyArray_DIM(qids_array, 0) - 1;
+    int n_queries = PyArray_DIM(qids_array, 0);
 
     float *data   = (float*) data_array->data;
     float *y      = (float*) label_array->data;
-- 
2.43.0


From 2b379fcf33797abc1e0b4dad69a97dc1c5a67943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 05/80] fix: svmlight dump scrambled non C-contiguous data and
 read past short labels/query ids

---
 rankeval/dataset/svmlight_format.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index 8e073ba..732c2a9 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -189,12 +189,21 @@ def dump_svmlight_file(X, y, f, query_id=None, zero_based=False):
         Whether column indices should be written zero-based (True) or one-based
         (False). Default is False.
     """
-    X = np.array(X, dtype=np.float32)
-    y = np.array(y, dtype=np.float32)
+    # the native writer requires C-contiguous arrays
+    X = np.ascontiguousarray(X, dtype=np.float32)
+    y = np.ascontiguousarray(y, dtype=np.float32).ravel()
+    if X.ndim != 2:
+        raise ValueError("X must be a 2d matrix, got %d dimensions" % X.ndim)
+    if y.shape != (X.shape[0],):
+        raise ValueError("y must have shape (%d,), got %s" %
+                         (X.shape[0], y.shape))
     if query_id is None:
         query_id = np.ndarray(0, dtype=np.int32)
     else:
-        query_id = np.array(query_id, dtype=np.int32)
+        query_id = np.ascontiguousarray(query_id, dtype=np.int32).ravel()
+        if query_id.shape != (X.shape[0],):
+            raise ValueError("query_id must have shape (%d,), got %s" %
+                             (X.shape[0], query_id.shape))
 
     if hasattr(f, "write"):
         _dump_svmlight_file(f, X, y, query_id, int(zero_based))
-- 
2.43.0


From 226b92be973d9ac64bc8111a232f20ad453dd658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 06/80] fix: Dataset.split leaked training queries in the test
 set when no query was left for it

---
 rankeval/dataset/dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index c2a154a..15756dc 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -198,7 +198,6 @@ class Dataset(object):
 
         train_qn = int(round(train_size * self.n_queries))
         vali_qn = int(round(vali_size * self.n_queries))
-        test_qn = self.n_queries - train_qn - vali_qn
 
         qid_map = np.ndarray(self.n_instances, dtype=np.uint32)
         for qid, start_offset, end_offset in self.query_iterator():
@@ -211,7 +210,7 @@ class Dataset(object):
 
         train_qid = qids_permutation[:train_qn]
         vali_qid = qids_permutation[train_qn:train_qn + vali_qn]
-        test_qid = qids_permutation[-test_qn:]
+        test_qid = qids_permutation[train_qn + vali_qn:]
 
         train_mask = np.in1d(qid_map, train_qid)
         vali_mask = np.in1d(qid_map, vali_qid)
-- 
2.43.0


From 51394f328595506ad9ce210d30b4e0a1b7a1ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 07/80] fix: Dataset.get_query_offsets raised AttributeError
 for a missing query id

---
 rankeval/dataset/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 15756dc..177c392 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -315,8 +315,8 @@ class Dataset(object):
         """
         idx = np.where(self.query_ids == query_id)[0]
         if idx.size == 0:
-            raise LookupError("query_id {:d} is missing from the dataset") \
-                .format(query_id)
+            raise LookupError("query_id {:d} is missing from the dataset"
+                              .format(query_id))
         # Take first element
         idx = idx[0]
         return self.query_offsets[idx], self.query_offsets[idx + 1]
-- 
2.43.0


From 201e106e39f787f69a8d8b428520ee01fe693054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 08/80] fix: dataset equality and hash ignored the query
 partition (and failed on other shapes/layouts)

Two datasets differing only in the number of documents of each query compared
equal, so the caches keyed by dataset (ideal DCG scores, model scores) returned
the values of the other one.
---
 rankeval/dataset/dataset.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 177c392..3b221e0 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -408,17 +408,23 @@ class Dataset(object):
         if self._hash_cached is None:
 
             h = hashlib.md5()
-            for arr in [self.X, self.y, self.query_ids]:
-                h.update(arr)
+            for arr in [self.X, self.y, self.query_ids.astype(np.int64),
+                        self.query_offsets.astype(np.int64)]:
+                h.update(np.ascontiguousarray(arr))
             self._hash_cached = int(h.hexdigest(), 16)
 
         return self._hash_cached
 
     def __eq__(self, other):
+        if not isinstance(other, Dataset):
+            return NotImplemented
+        if self.X.shape != other.X.shape or self.y.shape != other.y.shape:
+            return False
         # use != instead of == because it is more efficient for sparse matrices:
         x_eq = not(self.X != other.X).any()
-        return x_eq and (self.y == other.y).all() and \
-               (self.query_ids == other.query_ids).all()
+        return bool(x_eq and (self.y == other.y).all() and
+                    np.array_equal(self.query_ids, other.query_ids) and
+                    np.array_equal(self.query_offsets, other.query_offsets))
 
     def __ne__(self, other):
         # Not strictly necessary, but to avoid having both x==y and x!=y
-- 
2.43.0


From 606cec829d221c75319218f675045f3bdb232a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 09/80] fix: XGBoost thresholds of large magnitude were loaded
 as <= instead of <

threshold - 1 rounds to threshold itself for |threshold| >= 2**24, thus
nextafter left it unchanged.
---
 rankeval/model/proxy_XGBoost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_XGBoost.py b/rankeval/model/proxy_XGBoost.py
index be9d5fb..7766a8e 100644
--- a/rankeval/model/proxy_XGBoost.py
+++ b/rankeval/model/proxy_XGBoost.py
@@ -93,7 +93,7 @@ class ProxyXGBoost(object):
                     # Needed because XGBoost use as split condition
                     # < in place of <=
                     threshold = np.nextafter(
-                        threshold, threshold - 1,
+                        threshold, np.float32(-np.inf),
                         dtype=model.trees_nodes_value.dtype)
 
                     model.trees_nodes_feature[node_id] = feature_id
-- 
2.43.0


From e00c1911c47eda7b88df0dfac8c1b4c591543317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 10/80] fix: Scorer.get_predicted_leaves always raised
 AttributeError

---
 rankeval/scoring/scorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/scoring/scorer.py b/rankeval/scoring/scorer.py
index 8952b14..702f30a 100644
--- a/rankeval/scoring/scorer.py
+++ b/rankeval/scoring/scorer.py
@@ -139,7 +139,7 @@ class Scorer(object):
             each dataset instance.
 
         """
-        if self.self.y_leaves is None:
+        if self.out_leaves is None:
             self.score(detailed=True)
-        return self.self.y_leaves
+        return self.out_leaves
 
-- 
2.43.0


From c442f7a898013498520cdbc77208a87457ecff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 11/80] fix: export_scikit_model failed on the init estimator
 of recent scikit-learn (DummyRegressor)

---
 rankeval/model/proxy_ScikitLearn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 990a09c..345392f 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -178,7 +178,9 @@ class ProxyScikitLearn(object):
 
         if not hasattr(model, 'init_'):
             raise TypeError("Base score missing!")
-        if hasattr(model.init_, "quantile"):
+        if hasattr(model.init_, "constant_"):
+            base_score = np.ravel(model.init_.constant_)[0]
+        elif hasattr(model.init_, "quantile"):
             base_score = model.init_.quantile
         elif hasattr(model.init_, "mean"):
             base_score = model.init_.mean
-- 
2.43.0


From a2975279133c2a830b956e32a9d57d5c30d7c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:42 +0000
Subject: [PATCH 12/80] fix: export_scikit_model truncated thresholds, base
 score and learning rate to 6 decimals

---
 rankeval/model/proxy_ScikitLearn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 345392f..dd50264 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -191,8 +191,8 @@ class ProxyScikitLearn(object):
         with open(file_path, 'w') as writer:
             if not hasattr(model, 'init_'):
                 raise TypeError("Base score missing!")
-            writer.write("base_score=%f\n" % base_score)
-            writer.write("learning_rate=%f\n" % model.learning_rate)
+            writer.write("base_score=%.17g\n" % base_score)
+            writer.write("learning_rate=%.17g\n" % model.learning_rate)
             for tree_id, tree in enumerate(model.estimators_.flatten()):
                 ProxyScikitLearn._export_tree(writer, tree, tree_id)
 
@@ -213,7 +213,7 @@ class ProxyScikitLearn(object):
             if tree_.feature[node] != _tree.TREE_UNDEFINED:
                 name = "f%d" % tree_.feature[node]
                 threshold = tree_.threshold[node]
-                writer.write("%s%d:[%s<=%f]\n" % (indent, node, name, threshold))
+                writer.write("%s%d:[%s<=%.17g]\n" % (indent, node, name, threshold))
                 recurse(tree_.children_left[node], depth + 1)
                 # print "%s%d:[%s>%f]" % (indent, node, name, threshold)
                 recurse(tree_.children_right[node], depth + 1)
-- 
2.43.0


From 4c821c84f2cd49d831fdaae8a0cd25df70fa4dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:12 +0000
Subject: [PATCH 13/80] fix: CatBoost models whose trees have different depths
 were loaded scrambled

---
 rankeval/model/proxy_CatBoost.py | 40 +++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index 4642f57..bf4282b 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -67,14 +67,18 @@ class ProxyCatBoost(object):
         # given the shape and size of the ensemble
         model.initialize(n_trees, n_nodes)
 
-        n_nodes_per_tree = int(n_nodes / n_trees)
-
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
+
+        # trees may have different depths, thus a different number of nodes
+        n_nodes_trees = ProxyCatBoost._count_nodes_per_tree(nodes)
+        tree_offsets = np.cumsum(n_nodes_trees) - n_nodes_trees
+
         behaviors = coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.\
             TreeNode.TreeNodeBehavior
 
         for node in nodes:
-            tree_offset = node.treeId * n_nodes_per_tree
+            n_nodes_per_tree = n_nodes_trees[node.treeId]
+            tree_offset = tree_offsets[node.treeId]
             node_id_remap = ProxyCatBoost.remap_nodeId(node.nodeId,
                                                        n_nodes_per_tree)
             node_id_off = node_id_remap + tree_offset
@@ -150,13 +154,31 @@ class ProxyCatBoost(object):
 
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
 
+        n_nodes_trees = ProxyCatBoost._count_nodes_per_tree(nodes)
+
+        return n_nodes_trees.size, np.sum(n_nodes_trees)
+
+    @staticmethod
+    def _count_nodes_per_tree(nodes):
+        """
+        Count the number of nodes (both split and leaf nodes) of each tree.
+
+        Parameters
+        ----------
+        nodes : list of CoreML nodes
+            The nodes of all the trees of the CoreML model
+
+        Returns
+        -------
+        n_nodes_trees : numpy 1d array (n_trees)
+            The number of nodes of each tree
+        """
         n_trees = np.max([node.treeId for node in nodes]) + 1
 
-        n_nodes_trees = np.empty(n_trees, dtype=np.uint16)
+        n_nodes_trees = np.zeros(n_trees, dtype=np.int64)
         for node in nodes:
-            n_nodes_trees[node.treeId] = node.nodeId
-
-        # node_Id starts from 0, thus + 1
-        n_nodes = np.sum(n_nodes_trees + 1)
+            # node_Id starts from 0, thus + 1
+            n_nodes_trees[node.treeId] = max(n_nodes_trees[node.treeId],
+                                             node.nodeId + 1)
 
-        return n_trees, n_nodes
\ No newline at end of file
+        return n_nodes_trees
-- 
2.43.0


From 7ddf72ab865d48b8a7a895af5b3a6767e6f1182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 14/80] fix: MSE.eval indexed the detailed scores by query id
 rather than by query position

---
 rankeval/metrics/mse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/metrics/mse.py b/rankeval/metrics/mse.py
index 2cc4f04..7f941ad 100644
--- a/rankeval/metrics/mse.py
+++ b/rankeval/metrics/mse.py
@@ -58,8 +58,9 @@ class MSE(Metric):
 
         self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
 
-        for qid, q_y, q_y_pred in self.query_iterator(dataset, y_pred):
-            self.detailed_scores[qid] = \
+        for rel_qid, (qid, q_y, q_y_pred) in enumerate(
+                self.query_iterator(dataset, y_pred)):
+            self.detailed_scores[rel_qid] = \
                 self.eval_per_query(q_y, q_y_pred) / dataset.n_instances
         return self.detailed_scores.sum(), self.detailed_scores
 
-- 
2.43.0


From 5aa71a11b80206e4e87bef4940127f719692bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 15/80] fix: NDCG.eval_per_query used the ideal DCG of an
 unrelated query after a call to eval

---
 rankeval/metrics/ndcg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/ndcg.py b/rankeval/metrics/ndcg.py
index 1f5771d..202eca4 100644
--- a/rankeval/metrics/ndcg.py
+++ b/rankeval/metrics/ndcg.py
@@ -94,7 +94,12 @@ class NDCG(Metric):
 
             self._cache_idcg_score[self._current_dataset] = idcg_score
 
-        return super(self.__class__, self).eval(dataset, y_pred)
+        try:
+            return super(self.__class__, self).eval(dataset, y_pred)
+        finally:
+            # the cached ideal DCG scores are valid only within this evaluation
+            self._current_dataset = None
+            self._current_rel_qid = None
 
     def eval_per_query(self, y, y_pred):
         """
-- 
2.43.0


From 942605d833ef5313ca9d8a79acc78b7d17457e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 16/80] fix: MAP returned no_relevant_results when the relevant
 results exist but none is retrieved

---
 rankeval/metrics/map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/metrics/map.py b/rankeval/metrics/map.py
index dba121b..0e5dc4d 100644
--- a/rankeval/metrics/map.py
+++ b/rankeval/metrics/map.py
@@ -105,8 +105,9 @@ class MAP(Metric):
                 n_relevant_retrieved_at_i += 1
                 precision_at_i += n_relevant_retrieved_at_i / (i + 1)
 
-        if n_relevant_retrieved_at_i > 0:
-            return precision_at_i / min(n_retrieved, np.count_nonzero(y))
+        n_relevant = np.count_nonzero(y)
+        if n_relevant > 0:
+            return precision_at_i / min(n_retrieved, n_relevant)
         else:
             return self.no_relevant_results
 
-- 
2.43.0


From d7f400a65c795e96401ebca220d441a3e72d248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 17/80] fix: Kendalltau used an argument removed from scipy,
 thus it always failed

---
 rankeval/metrics/kendall_tau.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/metrics/kendall_tau.py b/rankeval/metrics/kendall_tau.py
index 07197f1..f14bc68 100644
--- a/rankeval/metrics/kendall_tau.py
+++ b/rankeval/metrics/kendall_tau.py
@@ -90,7 +90,7 @@ class Kendalltau(Metric):
         kendalltau: float
             The Kendall tau per query.
         """
-        kendall_tau = stats.kendalltau(y, y_pred, initial_lexsort=True)
+        kendall_tau = stats.kendalltau(y, y_pred)
         return kendall_tau.correlation
 
 
-- 
2.43.0


From 61fb489b297eaf555a0dc65e9e4bbb7e813f01b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 18/80] fix: Pfound used the abandonment probability as the
 probability of continuing

---
 rankeval/metrics/pfound.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/pfound.py b/rankeval/metrics/pfound.py
index b7c4b4e..781e74e 100644
--- a/rankeval/metrics/pfound.py
+++ b/rankeval/metrics/pfound.py
@@ -105,7 +105,8 @@ class Pfound(Metric):
 
         for i, idx in enumerate(idx_y_pred_sorted):
             utility = (pow(2., y[idx]) - 1.) / pow(2., max_grade)
-            pfound += prob_step_down * utility * pow(self.p_abandonment, i)
+            pfound += prob_step_down * utility * \
+                pow(1. - self.p_abandonment, i)
             prob_step_down *= (1. - utility)
 
         return pfound
-- 
2.43.0


From 72bb113de6716498252751cacfb8b74dd4e9c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 19/80] fix: RMSE of a query was the root of the sum (not of
 the mean) of the squared errors

---
 rankeval/metrics/rmse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/rmse.py b/rankeval/metrics/rmse.py
index ff596f0..1ad922f 100644
--- a/rankeval/metrics/rmse.py
+++ b/rankeval/metrics/rmse.py
@@ -77,7 +77,11 @@ class RMSE(Metric):
         rmse: float
             Represents the RMSE score for one query.
         """
-        mse = self._mse.eval_per_query(y, y_pred)
+        n_docs = len(y)
+        if self.cutoff is not None:
+            n_docs = min(n_docs, self.cutoff)
+        # the MSE metric provides the sum of the squared errors of the query
+        mse = self._mse.eval_per_query(y, y_pred) / n_docs
         return np.sqrt(mse)
 
     def __str__(self):
-- 
2.43.0


From 7cc89ebbde9190f16eeb234a3ea454ecf9447c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 20/80] fix: tree_wise_performance failed when step is greater
 than the number of trees

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 836a2cd..a5f2bfb 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -115,7 +115,7 @@ def tree_wise_performance(datasets, models, metrics, step=10, cache=False):
     def get_tree_steps(model_trees):
         trees = list(xrange(step-1, model_trees, step))
         # Add last tree to the steps
-        if trees[-1] != model_trees-1:
+        if not trees or trees[-1] != model_trees-1:
             trees.append(model_trees-1)
         return np.array(trees)
 
-- 
2.43.0


From cc9804aca1273a7e4ce93f63507ba660a4e481de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 21/80] fix: query_class_performance returned NaN when the
 query classes are given as lists

---
 rankeval/analysis/effectiveness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index a5f2bfb..0a91754 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -373,7 +373,8 @@ def query_class_performance(datasets, models, metrics, query_classes,
         for idx_model, model in enumerate(models):
             for idx_metric, metric in enumerate(metrics):
                 for idx_query_class, query_class in enumerate(unique_classes):
-                    indices = np.where(query_classes[idx_dataset] == query_class)
+                    indices = np.where(
+                        np.asarray(query_classes[idx_dataset]) == query_class)
                     # If this query class is not present in this dataset, skip it
                     if not len(indices):
                         continue
-- 
2.43.0


From 13c42a20f4acd35a069dc16325800e5f17bbb0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 22/80] fix: graded relevance and rank confusion matrix failed
 on datasets of different sizes

---
 rankeval/analysis/effectiveness.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 0a91754..a84b677 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -451,7 +451,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
 
     bin_values = np.linspace(start=start, stop=end, num=bins+1)
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets]))
+    rel_labels = np.unique(np.concatenate([dataset.y for dataset in datasets]))
 
     data = np.full(shape=(len(datasets), len(models), len(rel_labels), bins),
                    fill_value=np.nan, dtype=np.float32)
@@ -510,7 +510,8 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
         documents with a predicted score smaller than documents with label l_j
     """
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets])).astype(np.int32)
+    rel_labels = np.unique(
+        np.concatenate([dataset.y for dataset in datasets])).astype(np.int32)
 
     data = np.zeros(shape=(len(datasets), len(models), len(rel_labels),
                            len(rel_labels)), dtype=np.int32)
-- 
2.43.0


From 5708f8a8b7f74174b6120439afea5d855c0117bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 23/80] fix: rank confusion matrix was indexed by label value
 rather than by label position

---
 rankeval/analysis/effectiveness.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index a84b677..b02eb09 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -525,8 +525,11 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
                         # check if the two documents have the same label and skip them
                         if skip_same_label and dataset.y[i] == dataset.y[j]:
                             continue
-                        y_i = dataset.y[i].astype(np.int32)
-                        y_j = dataset.y[j].astype(np.int32)
+                        # position of the two labels in the matrix
+                        y_i = np.searchsorted(rel_labels,
+                                              dataset.y[i].astype(np.int32))
+                        y_j = np.searchsorted(rel_labels,
+                                              dataset.y[j].astype(np.int32))
                         if y_pred[i] < y_pred[j]:
                             data[idx_dataset][idx_model][y_i, y_j] += 1
                         else:
-- 
2.43.0


From 742e789586287833fdf2583d2b0b4e5ee42f6d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 24/80] fix: wrong bin coordinates of the cumulative
 distributions when the range is not [0, 1]

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index b02eb09..daa57a4 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -307,7 +307,7 @@ def query_wise_performance(datasets, models, metrics, bins=None,
     performance = xr.DataArray(data,
                                name='Query-Wise Performance',
                                coords=[datasets, models, metrics,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'metric', 'bin'])
     return performance
 
@@ -474,7 +474,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
     performance = xr.DataArray(data,
                                name='Document Graded Relevance',
                                coords=[datasets, models, rel_labels,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'label', 'bin'])
     return performance
 
-- 
2.43.0


From 3ce67e2386cc81e537ad5f5fa0171150251efb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 25/80] fix: query_wise_performance failed when a metric is
 undefined (NaN) on some query

---
 rankeval/analysis/effectiveness.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index daa57a4..cbbe90a 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -278,8 +278,10 @@ def query_wise_performance(datasets, models, metrics, bins=None,
             for idx_metric, metric in enumerate(metrics):
                 _, metric_scores = metric.eval(dataset, y_pred)
                 glob_metric_scores[idx_dataset][idx_model][idx_metric] = metric_scores
-                min_metric_score = np.nanmin([min_metric_score, metric_scores.min()])
-                max_metric_score = np.nanmax([max_metric_score, metric_scores.max()])
+                min_metric_score = np.nanmin([min_metric_score,
+                                              np.nanmin(metric_scores)])
+                max_metric_score = np.nanmax([max_metric_score,
+                                              np.nanmax(metric_scores)])
 
     if start is None:
         start = min_metric_score
-- 
2.43.0


From 3c9a86def14ee991a175d78622ef9b2f1d51636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 26/80] fix: bias_variance always failed (np.bool is gone,
 progress bar used outside of notebooks)

---
 rankeval/analysis/statistical.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 87c2693..fe30def 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -214,7 +214,7 @@ def _kfold_scoring(dataset, k, algo):
         # p-th fold is used for testing
         test_rows = np.full(dataset.n_instances,
                             fill_value=False,
-                            dtype=np.bool)
+                            dtype=bool)
         for q in shuffled_qid[p: p + chunk_query_size]:
             test_rows[dataset.query_offsets[q]:dataset.query_offsets[q+1]] = True
         # other folds are used for training
@@ -222,7 +222,7 @@ def _kfold_scoring(dataset, k, algo):
 
         train_q = np.full(dataset.n_queries,
                           fill_value=True,
-                          dtype=np.bool)
+                          dtype=bool)
         train_q[shuffled_qid[p: p+chunk_query_size]] = False
 
         # get algorithm predictions
@@ -234,10 +234,11 @@ def _kfold_scoring(dataset, k, algo):
         )
         # update scores for the current fold
         scores[test_rows] = fold_scores
-        
-    progress_bar.bar_style = "success"
-    progress_bar.close()
-        
+
+    if ipywidgets:
+        progress_bar.bar_style = "success"
+        progress_bar.close()
+
     return scores
 
 
-- 
2.43.0


From 5f0ff3910d324739e911dbe90bac3f5d1442dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 27/80] fix: the randomization test missed the permutations
 tied with the observed difference

---
 rankeval/analysis/statistical.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index fe30def..a727d08 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -126,6 +126,11 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
             min=0, max=10, description="Randomization Test")
         display(progress_bar)
 
+    # the scores are in single precision: use double precision to not lose the
+    # permutations having the same difference of the observed one
+    metric_scores_a = np.asarray(metric_scores_a, dtype=np.float64)
+    metric_scores_b = np.asarray(metric_scores_b, dtype=np.float64)
+
     # find the best system
     metric_scores_a_mean = np.mean(metric_scores_a)
     metric_scores_b_mean = np.mean(metric_scores_b)
-- 
2.43.0


From 5f9e7b9fe179a5ac3fba34564ee86fa57583d6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 28/80] fix: feature_importance with RMSE took the square root
 of the first feature only

---
 rankeval/analysis/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 3472958..e6fee96 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -64,7 +64,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     if isinstance(metric, RMSE) or isinstance(metric, MSE):
         feature_imp, feature_count = eff_feature_importance(model, dataset)
         if isinstance(metric, RMSE):
-            feature_imp[0] = np.sqrt(feature_imp[0])
+            feature_imp = np.sqrt(np.maximum(feature_imp, 0))
     else:
         # initialize features importance
         feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
-- 
2.43.0


From 32f675a5c1d514d9d43bba205a6813e671e82ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:36 +0000
Subject: [PATCH 29/80] fix: feature importance wrote out of bounds for trees
 composed by a single leaf

---
 rankeval/analysis/_efficient_feature_impl.cpp | 5 ++++-
 rankeval/analysis/feature.py                  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 4c733b9..d0f8e31 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -87,7 +87,10 @@ void c_feature_importance_tree(
         y_pred_tree[instance] = mean_y_target;
 
     TreeNode root(trees_root[tree_id], 0, n_instances - 1);
-    std::vector<TreeNode> queue = { root };
+    std::vector<TreeNode> queue;
+    // a tree composed by a single leaf does not have any split to evaluate
+    if (!is_leaf_node(root.node_id, trees_left_child, trees_right_child))
+        queue.push_back(root);
 
     while (!queue.empty()) {
 
diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index e6fee96..affa190 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -139,7 +139,10 @@ def _feature_importance_tree(model, dataset, tree_id, y_pred, metric,
 
     # queue with node_id to be visited and list of documents in the node
     root_node_id = model.trees_root[tree_id]
-    deq = deque([(root_node_id, 0, None)])
+    deq = deque()
+    # a tree composed by a single leaf does not have any split to evaluate
+    if not model.is_leaf_node(root_node_id):
+        deq.append((root_node_id, 0, None))
 
     # we score the tree on a level basis, so that the feature_gain of each split
     # node is computed accordingly to the predictions of the parent level
-- 
2.43.0


From 2354e612f20654ef2b9a60c648feb13797385434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:36 +0000
Subject: [PATCH 30/80] fix: feature importance read garbage from datasets not
 stored as C-contiguous float32

---
 rankeval/analysis/_efficient_feature.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 2e3e2c8..adee098 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -54,6 +54,10 @@ cdef extern from "_efficient_feature_impl.h":
 @cython.wraparound(False)
 def eff_feature_importance(model, dataset):
 
+    # the native code works on raw single precision C-contiguous data
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     # initialize features importance
     feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
@@ -61,8 +65,8 @@ def eff_feature_importance(model, dataset):
     feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
 
     c_feature_importance(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
@@ -83,11 +87,15 @@ def eff_feature_importance(model, dataset):
 def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
                              feature_imp, feature_count):
 
+    # the native code works on raw single precision C-contiguous data
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     y_pred_tree = np.zeros(dataset.n_instances, dtype=np.float32);
 
     c_feature_importance_tree(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
-- 
2.43.0


From 6a893665500cb492b674d7757a4d726fe1e1d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:55 +0000
Subject: [PATCH 31/80] fix: feature_importance accessed memory out of bounds
 for datasets lacking the features of the model

---
 rankeval/analysis/feature.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index affa190..0cd27b1 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -58,6 +58,12 @@ def feature_importance(model, dataset, metric=None, normalize=True):
                 of times each feature is used in a split node, i.e., to improve
                 the MSE.
     """
+    # check that the features used by the model are "compatible" with the
+    # features in the dataset (at least, in terms of their number)
+    if np.max(model.trees_nodes_feature) + 1 > dataset.n_features:
+        raise RuntimeError("Dataset features are not compatible with "
+                           "model features")
+
     if metric is None:
         metric = MSE()
 
-- 
2.43.0


From e866106f154faeb14ba830bf2d8c35c936152fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 32/80] fix: init_plot_style used a style name removed from
 matplotlib

---
 rankeval/visualization/effectiveness.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 6a75563..6520cfc 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -18,7 +18,11 @@ def init_plot_style():
     -------
 
     """
-    plt.style.use("seaborn-notebook")
+    # the seaborn styles have been renamed since matplotlib 3.6
+    style = "seaborn-notebook"
+    if style not in plt.style.available:
+        style = "seaborn-v0_8-notebook"
+    plt.style.use(style)
     sns.set_palette("deep")
 
 
-- 
2.43.0


From afb84727914ce4c77e914ceb6d355a542d08a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 33/80] fix: bar plots failed on undefined (NaN) performance
 values

---
 rankeval/visualization/effectiveness.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 6520cfc..a25285e 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -107,7 +107,7 @@ def plot_model_performance(performance, compare="models", show_values=False):
         axes.set_title(performance.name + " for " + dataset.name)
         axes.yaxis.grid(True, zorder=0, ls="--")
         
-        y_max = np.ceil(performance.values.max()*1.4*10.)/10.
+        y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
         axes.set_ylim([0, y_max])
         plt.tight_layout()
 
@@ -499,7 +499,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel("Metric Score")
                 axes[i, 0].set_xticks(ind - width/2. + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(performance.values.max()*1.4*10.)/10.
+                y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
                 axes[i, 0].set_ylim([0, y_max])
 
             axes[i, 0].legend(performance.coords['metric'].values,
@@ -535,7 +535,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel(metric)
                 axes[i, 0].set_xticks(ind - width / 2 + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(performance.values.max()*1.4*10.)/10.
+                y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
                 axes[i, 0].set_ylim([0, y_max])
 
             axes[i, 0].legend(performance.coords['model'].values,
-- 
2.43.0


From 87ec7b6726803ce0fd5f23c36f8ad09e4e8e3977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 34/80] fix: plot_feature_importance failed when max_features
 exceeds the number of features

---
 rankeval/visualization/feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 0d9a6c1..47a06a9 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -62,8 +62,8 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
 
     if isinstance(max_features, six.integer_types):
         idx_sorted = idx_sorted[:max_features]
-    else:
-        max_features = len(feature_importance)
+    # the features to show could be less than the requested ones
+    max_features = len(idx_sorted)
 
     top_features = idx_sorted
     top_importances = feature_importance[idx_sorted]
-- 
2.43.0


From 7caf78b6849c7706bf52b29af08281bc0b97a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 35/80] fix: export_graphviz rejected the names of all the
 features and accepted too few of them

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 4ca3663..d59bc3c 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -393,7 +393,7 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
         # n_features_ in the decision_tree
         if feature_names is not None:
             max_feature_id = np.max(ensemble.trees_nodes_feature) + 1
-            if len(feature_names) > max_feature_id:
+            if len(feature_names) < max_feature_id:
                 raise ValueError("Length of feature_names, %d "
                                  "does not match number of features, %d"
                                  % (len(feature_names),
-- 
2.43.0


From 8ff370ac743cb1ea5d853d9c5cabaa12f0efa481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:13 +0000
Subject: [PATCH 36/80] fix: an interrupted download was taken for a complete
 one by the dataset fetcher

---
 rankeval/dataset/datasets_fetcher.py | 49 +++++++++++++++-------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index fc1444e..60b2b71 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -50,6 +50,29 @@ def __get_data_home__(data_home=None):
     return data_home
 
 
+def __download_archive__(url, home, archive_basename):
+    """
+    Download and decompress the given archive in the home folder. The folder
+    appears only once complete: an interrupted download leaves no home folder
+    behind, so that it is not taken for an already downloaded one later on.
+    """
+    partial_home = home + ".part"
+    if exists(partial_home):
+        shutil.rmtree(partial_home)
+    makedirs(partial_home)
+
+    archive_name = join(partial_home, archive_basename)
+    opener = urlopen(url)
+    with open(archive_name, 'wb') as f:
+        f.write(opener.read())
+
+    print ("Decompressing %s" % archive_name)
+    with tarfile.open(archive_name, "r:gz") as archive:
+        archive.extractall(path=partial_home)
+    os.remove(archive_name)
+    os.rename(partial_home, home)
+
+
 def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
                                  download_if_missing=True, force_download=True,
                                  with_models=True):
@@ -94,9 +117,6 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             os.makedirs(data_home)
 
     # preparing file names...
-    archive_name = os.path.join(dataset_home, dataset_dictionary['DATASET_ARCHIVE_NAME'])
-    models_archive_name = os.path.join(models_home, dataset_dictionary['MODELS_ARCHIVE_NAME'])
-
     if fold is None:
         train_file_path = os.path.join(dataset_home, dataset_dictionary['TRAIN_FILE'])
         test_file_path = os.path.join(dataset_home, dataset_dictionary['TEST_FILE'])
@@ -118,19 +138,12 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
         dataset_already_downloaded = True
 
     if not dataset_already_downloaded:
-        os.makedirs(dataset_home)
-
         print ("Downloading dataset. This may take a few minutes.")
 
         data_url = dataset_dictionary['DATASET_URL']
         print ("Downloading dataset from %s " % data_url)
-        opener = urlopen(data_url)
-        with open(archive_name, 'wb') as f:
-            f.write(opener.read())
-
-        print ("Decompressing %s" % archive_name)
-        tarfile.open(archive_name, "r:gz").extractall(path=dataset_home)
-        os.remove(archive_name)
+        __download_archive__(data_url, dataset_home,
+                             dataset_dictionary['DATASET_ARCHIVE_NAME'])
 
     license_agreement = ""
     if dataset_dictionary.get('LICENSE_FILE') is not None:
@@ -155,18 +168,10 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             models_already_downloaded = True
 
         if not models_already_downloaded:
-            os.makedirs(models_home)
-
             models_url = dataset_dictionary['MODELS_URL']
             print ("Downloading letor models from %s" % models_url)
-            opener = urlopen(models_url)
-            with open(models_archive_name, 'wb') as f:
-                f.write(opener.read())
-
-            print ("Decompressing %s" % models_archive_name)
-            tarfile.open(models_archive_name, "r:gz").extractall(
-                path=models_home)
-            os.remove(models_archive_name)
+            __download_archive__(models_url, models_home,
+                                 dataset_dictionary['MODELS_ARCHIVE_NAME'])
 
         # filling data structure to return
         matches = []
-- 
2.43.0


From b3eb5e8d1bae0b0a8c725de97b53e72127a47bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:32 +0000
Subject: [PATCH 37/80] fix: the usage counts of the feature importance wrapped
 around after 65535 uses

---
 rankeval/analysis/_efficient_feature.pyx      | 17 +++++++++++------
 rankeval/analysis/_efficient_feature_impl.cpp |  4 ++--
 rankeval/analysis/_efficient_feature_impl.h   |  4 ++--
 rankeval/analysis/feature.py                  |  2 +-
 rankeval/visualization/feature.py             |  2 +-
 5 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index adee098..425f25e 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -28,7 +28,7 @@ cdef extern from "_efficient_feature_impl.h":
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         const int n_instances,
         const int n_features,
         const int n_trees);
@@ -44,7 +44,7 @@ cdef extern from "_efficient_feature_impl.h":
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
@@ -62,7 +62,7 @@ def eff_feature_importance(model, dataset):
     feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
     # initialize features importance
-    feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
+    feature_count = np.zeros(dataset.n_features, dtype=np.uint32)
 
     c_feature_importance(
         <float*> np.PyArray_DATA(X),
@@ -74,13 +74,13 @@ def eff_feature_importance(model, dataset):
         <int*> np.PyArray_DATA(model.trees_left_child),
         <int*> np.PyArray_DATA(model.trees_right_child),
         <float*> np.PyArray_DATA(feature_imp),
-        <short*> np.PyArray_DATA(feature_count),
+        <unsigned int*> np.PyArray_DATA(feature_count),
         dataset.X.shape[0],
         dataset.X.shape[1],
         model.n_trees);
 
     return np.asarray(feature_imp, dtype=np.float32), \
-           np.asarray(feature_count, dtype=np.uint16)
+           np.asarray(feature_count, dtype=np.uint32)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -93,6 +93,9 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
 
     y_pred_tree = np.zeros(dataset.n_instances, dtype=np.float32);
 
+    # the counts of this tree, whatever the type used by the caller
+    tree_count = np.zeros(dataset.n_features, dtype=np.uint32)
+
     c_feature_importance_tree(
         <float*> np.PyArray_DATA(X),
         <float*> np.PyArray_DATA(y),
@@ -104,10 +107,12 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
         <int*> np.PyArray_DATA(model.trees_right_child),
         tree_id,
         <float*> np.PyArray_DATA(feature_imp),
-        <short*> np.PyArray_DATA(feature_count),
+        <unsigned int*> np.PyArray_DATA(tree_count),
         dataset.X.shape[0],
         dataset.X.shape[1],
         <float*> np.PyArray_DATA(y_pred),
         <float*> np.PyArray_DATA(y_pred_tree));
 
+    np.add(feature_count, tree_count, out=feature_count, casting='unsafe')
+
     return np.asarray(y_pred_tree, dtype=np.float32)
\ No newline at end of file
diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index d0f8e31..b6a59a8 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -14,7 +14,7 @@ void c_feature_importance(
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         int n_instances,
         int n_features,
         int n_trees) {
@@ -59,7 +59,7 @@ void c_feature_importance_tree(
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 9b78b1a..b429a23 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -26,7 +26,7 @@ void c_feature_importance(
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         const int n_instances,
         const int n_features,
         const int n_trees);
@@ -42,7 +42,7 @@ void c_feature_importance_tree(
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        unsigned int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 0cd27b1..d180e91 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -76,7 +76,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
         feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
         # initialize features count
-        feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
+        feature_count = np.zeros(dataset.n_features, dtype=np.uint32)
 
         # default scores on the root node of the first tree
         y_pred = np.zeros(dataset.n_instances)
diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 47a06a9..9e9dd01 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -44,7 +44,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
     """
 
     feature_importance = feature_perf.sel(type='importance').data
-    feature_count = feature_perf.sel(type='count').data.astype(np.uint16)
+    feature_count = feature_perf.sel(type='count').data.astype(np.uint32)
 
     # figure
     fig, ax1 = plt.subplots(figsize=(16, 5))
-- 
2.43.0


From 5b0c4148a39257eec1b6a29309f150bd56583b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:20 +0000
Subject: [PATCH 38/80] fix: feature importance of splits sending all the
 documents to the right

The last document of an empty left side was compared as unsigned, so the
documents of the leftmost nodes were moved to the wrong side.
---
 rankeval/analysis/_efficient_feature_impl.cpp | 2 +-
 rankeval/analysis/_efficient_feature_impl.h   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index b6a59a8..7ae1d51 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -132,7 +132,7 @@ void c_feature_importance_tree(
         // compute split gain
         float delta_mse = 0;
         #pragma omp parallel for reduction( + : delta_mse )
-        for (unsigned int i = node.start_id; i <= node.end_id; ++i) {
+        for (int i = node.start_id; i <= node.end_id; ++i) {
             unsigned int instance = split_instance[i];
             float pre_split_mse =
                 pow(y_target[instance] - y_pred_tree[instance], 2);
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index b429a23..54a3713 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -1,12 +1,12 @@
 class TreeNode {
     public:
         unsigned int node_id;
-        unsigned int start_id;
-        unsigned int end_id;
+        int start_id;
+        int end_id;
 
         TreeNode(unsigned int node_id,
-                 unsigned int start_id,
-                 unsigned int end_id) :
+                 int start_id,
+                 int end_id) :
             node_id(node_id),
             start_id(start_id),
             end_id(end_id) {}
-- 
2.43.0


From d7881185ec4710e8205ccc6383c817f39f3a0796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:20 +0000
Subject: [PATCH 39/80] fix: plot_shape drew over the previous figure, half a
 level away from the levels

---
 rankeval/visualization/topological.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index d59bc3c..02e3194 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -56,7 +56,7 @@ def plot_shape(topological, max_level=10):
     )
 
     # figure
-    fig = plt.figure(1, figsize=(12, 6))
+    fig = plt.figure(figsize=(12, 6))
 
     tr = Affine2D().translate(np.pi, 0) + PolarAxes.PolarTransform()
     x_ticks = [x+2. for x in range(max_levels-1)]
@@ -105,7 +105,8 @@ def plot_shape(topological, max_level=10):
                 z[start_idx:end_idx, level] = ts[level, node]
 
     # draw the tree nodes frequencies
-    h = ax.pcolormesh(theta, r, z, cmap=cm, vmin=0., vmax=1.)
+    # (theta and r are the bounds of the cells: they are one more than the cells)
+    h = ax.pcolormesh(theta, r, z[:-1, :-1], cmap=cm, vmin=0., vmax=1.)
 
     # color bar
     cax = fig.add_axes([.95, 0.15, 0.025, 0.8]) # axes for the colot bar
-- 
2.43.0


From 0632b571bb08f5f80fab3e0ebcfb9bf50dc8b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:20 +0000
Subject: [PATCH 40/80] fix: plot_rank_confusion_matrix swapped the axis names
 and failed with a single label

---
 rankeval/visualization/effectiveness.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index a25285e..910dd07 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -392,7 +392,8 @@ def is_log_scale_matrix(matrix):
     """
     flat = matrix.values.flatten()
     flat.sort()
-    if flat[-1]/flat[-2] > 2:
+    # with a single label there is a single value: nothing to rescale
+    if len(flat) > 1 and flat[-1]/flat[-2] > 2:
         return True
     else:
         return False
@@ -426,8 +427,9 @@ def plot_rank_confusion_matrix(performance):
             axes[i, 0].pcolormesh(matrix)
             axes[i, 0].set_title(performance.name + " for " + dataset.name +
                                 " and model " + model.name)
-            axes[i, 0].set_ylabel("Label j")
-            axes[i, 0].set_xlabel("Label i")
+            # the rows of the matrix (label i) are on the vertical axis
+            axes[i, 0].set_ylabel("Label i")
+            axes[i, 0].set_xlabel("Label j")
             # axes[i,0].legend(["Label "+str(int(l)) for l in
             # performance.coords['label'].values])
 
-- 
2.43.0


From a4cdc7f491625f3523e9a7c27dfba30998396e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:20 +0000
Subject: [PATCH 41/80] fix: bar plots failed when all the values are undefined
 and hid the negative ones

---
 rankeval/visualization/effectiveness.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 910dd07..1c1012b 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -26,6 +26,19 @@ def init_plot_style():
     sns.set_palette("deep")
 
 
+def _bars_ylim(values):
+    """
+    Limits of the vertical axis of a bar plot: they always include 0 and all
+    the (defined) values to plot.
+    """
+    values = values[np.isfinite(values)]
+    y_min = np.floor(np.min(values, initial=0.)*1.4*10.)/10.
+    y_max = np.ceil(np.max(values, initial=0.)*1.4*10.)/10.
+    if y_min == y_max:
+        y_max = 1.
+    return [y_min, y_max]
+
+
 def plot_model_performance(performance, compare="models", show_values=False):
     """
     This method plots the results obtained from the model_performance analysis.
@@ -107,8 +120,7 @@ def plot_model_performance(performance, compare="models", show_values=False):
         axes.set_title(performance.name + " for " + dataset.name)
         axes.yaxis.grid(True, zorder=0, ls="--")
         
-        y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
-        axes.set_ylim([0, y_max])
+        axes.set_ylim(_bars_ylim(performance.values))
         plt.tight_layout()
 
         fig_list.append(fig)
@@ -501,8 +513,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel("Metric Score")
                 axes[i, 0].set_xticks(ind - width/2. + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
-                axes[i, 0].set_ylim([0, y_max])
+                axes[i, 0].set_ylim(_bars_ylim(performance.values))
 
             axes[i, 0].legend(performance.coords['metric'].values,
                               bbox_to_anchor=(1.05, 1),
@@ -537,8 +548,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel(metric)
                 axes[i, 0].set_xticks(ind - width / 2 + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
-                axes[i, 0].set_ylim([0, y_max])
+                axes[i, 0].set_ylim(_bars_ylim(performance.values))
 
             axes[i, 0].legend(performance.coords['model'].values,
                               bbox_to_anchor=(1.05, 1),
-- 
2.43.0


From 70c2b16d39eb0b8b3e5b936c1225c296b40c4000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:20 +0000
Subject: [PATCH 42/80] fix: plot_tree_wise_performance failed when a metric is
 never defined

---
 rankeval/visualization/effectiveness.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 1c1012b..2ca4d1a 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -165,9 +165,11 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[i, 0].plot(k_values, metric_values.values, label=metric)
-                    max_k = np.nanargmax(metric_values)
-                    axes[i, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle="none", label=None)
+                    # there is no maximum when the metric is never defined
+                    if np.isfinite(metric_values.values).any():
+                        max_k = np.nanargmax(metric_values)
+                        axes[i, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle="none", label=None)
                 
                 axes[i, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[i, 0].set_ylabel(model)
@@ -191,9 +193,11 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[j, 0].plot(k_values, metric_values.values, label=model)
-                    max_k = np.nanargmax(metric_values)
-                    axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle = "none", label=None)
+                    # there is no maximum when the metric is never defined
+                    if np.isfinite(metric_values.values).any():
+                        max_k = np.nanargmax(metric_values)
+                        axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle="none", label=None)
 
                 axes[j, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[j, 0].set_ylabel(metric)
@@ -217,9 +221,11 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[j, 0].plot(k_values, metric_values.values, label=dataset.name)
-                    max_k = np.nanargmax(metric_values)
-                    axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle = "none", label=None)
+                    # there is no maximum when the metric is never defined
+                    if np.isfinite(metric_values.values).any():
+                        max_k = np.nanargmax(metric_values)
+                        axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle="none", label=None)
                 axes[j, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[j, 0].set_ylabel(metric)
                 axes[j, 0].yaxis.grid(True, zorder=0, ls="--")
-- 
2.43.0


From aee0a36967fa1175411292f3c4afc2fe6504ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:20 +0000
Subject: [PATCH 43/80] fix: plot_query_class_performance named the last model
 only

---
 rankeval/visualization/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 2ca4d1a..c1c5039 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -517,6 +517,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 # add some text for labels, title and axes ticks
                 axes[i, 0].yaxis.grid(True, zorder=0, ls="--")
                 axes[i, 0].set_ylabel("Metric Score")
+                axes[i, 0].set_title("Model " + model.name)
                 axes[i, 0].set_xticks(ind - width/2. + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
                 axes[i, 0].set_ylim(_bars_ylim(performance.values))
@@ -524,8 +525,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
             axes[i, 0].legend(performance.coords['metric'].values,
                               bbox_to_anchor=(1.05, 1),
                               loc=2, borderaxespad=0.)
-            fig.suptitle(performance.name + " for " + dataset.name +
-                         " and model " + model.name)
+            fig.suptitle(performance.name + " for " + dataset.name)
 
             fig_list.append(fig)
 
-- 
2.43.0


From b65b5c2e1adbab8fed0b9bd21ade99120291abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:56 +0000
Subject: [PATCH 44/80] fix: plot_feature_importance could not be drawn when no
 feature has a positive importance

---
 rankeval/visualization/feature.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 9e9dd01..172d688 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -102,6 +102,9 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
     ax1.set_xlim(-bar_width/2 - bar_width, max_features - 1 + bar_width*5/2)
 
     step_y = np.ceil(top_importances.max() * 10) / 100
+    # without any positive importance there is no step to derive from it
+    if not step_y > 0:
+        step_y = 0.1
     align_y_axis(ax1, ax2, step_y, 100, num_ticks=6)
 
     ax1.set_ylabel("Importance Gain")
-- 
2.43.0


From 421e9959d22203ea66d226bbb9dd88bd95aca880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 45/80] fix: fetching with download_if_missing=False downloaded
 a missing dataset or its models

Only the folder which holds both of them was looked for.
---
 rankeval/dataset/datasets_fetcher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index 60b2b71..db08125 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -104,8 +104,11 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     models_home = os.path.join(data_home, "models")
 
     # DATASET
-    if not download_if_missing and not os.path.exists(data_home):
-        raise IOError('dataset not found')
+    if not download_if_missing:
+        if not os.path.exists(dataset_home):
+            raise IOError('dataset not found')
+        if with_models and not os.path.exists(models_home):
+            raise IOError('models not found')
 
     if (fold is not None) and (dataset_dictionary.get('COMMON_SUBFOLDER_NAME') is None):
         raise Exception('no k-fold available for the dataset')
-- 
2.43.0


From c201bc843e7a6968c5f701b1aa583852da79c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 46/80] fix: members of a downloaded archive could be written
 outside the data folder

---
 rankeval/dataset/datasets_fetcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index db08125..24d462d 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -68,7 +68,10 @@ def __download_archive__(url, home, archive_basename):
 
     print ("Decompressing %s" % archive_name)
     with tarfile.open(archive_name, "r:gz") as archive:
-        archive.extractall(path=partial_home)
+        if hasattr(tarfile, 'data_filter'):
+            archive.extractall(path=partial_home, filter='data')
+        else:
+            archive.extractall(path=partial_home)
     os.remove(archive_name)
     os.rename(partial_home, home)
 
-- 
2.43.0


From 7c048719ee9e8f1a72c1c109aff1c13972fef90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:08 +0000
Subject: [PATCH 47/80] fix: a forced download interrupted while removing the
 old data left a partial dataset taken as complete

---
 rankeval/dataset/datasets_fetcher.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index 24d462d..f4874ac 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -119,7 +119,12 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     # delete data_home if force_download is True, then re-create data_home dir
     if force_download:
         if os.path.exists(data_home):
-            shutil.rmtree(data_home)
+            # moved away at once: an interrupted removal leaves no partial data
+            removed_home = data_home + ".removed"
+            if os.path.exists(removed_home):
+                shutil.rmtree(removed_home)
+            os.rename(data_home, removed_home)
+            shutil.rmtree(removed_home)
             os.makedirs(data_home)
 
     # preparing file names...
-- 
2.43.0


From 8f7baf6e6442afa3d824558d3eaff776b5b43b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:17 +0000
Subject: [PATCH 48/80] fix: a damaged archive was silently extracted up to the
 damaged point

---
 rankeval/dataset/datasets_fetcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index f4874ac..07f48c9 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -72,6 +72,10 @@ def __download_archive__(url, home, archive_basename):
             archive.extractall(path=partial_home, filter='data')
         else:
             archive.extractall(path=partial_home)
+        # up to the end of the file, where the checksum gets verified: members
+        # after a damaged one are silently skipped by extractall
+        while archive.fileobj.read(1 << 20):
+            pass
     os.remove(archive_name)
     os.rename(partial_home, home)
 
-- 
2.43.0


From cd7643806a6dd5f6239e9c4a3093b98a2353961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:42 +0000
Subject: [PATCH 49/80] fix: the cells added when a late row introduces
 features overflowed an int

---
 rankeval/dataset/_svmlight_format.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 5459c57..57c4bf0 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -214,22 +214,22 @@ void reshape_data(std::vector<float> &data,
                   int &old_num_feature,
                   int new_num_feature)
 {
-  int rows_to_fix = (data.size() - new_num_feature) / old_num_feature;
-  int cells_to_add = rows_to_fix * (new_num_feature - old_num_feature);
-  int cells_to_add_per_row = cells_to_add / rows_to_fix;
+  // the number of cells can exceed the range of an int
+  size_t rows_to_fix = (data.size() - new_num_feature) / old_num_feature;
+  size_t cells_to_add_per_row = new_num_feature - old_num_feature;
+  size_t cells_to_add = rows_to_fix * cells_to_add_per_row;
 
-  for (int i=0; i<cells_to_add; ++i)
-    data.push_back(0);
+  data.resize(data.size() + cells_to_add, 0);
 
   std::vector<float>::iterator it = data.end() - new_num_feature - cells_to_add;
-  int move_counter = cells_to_add;
-  for (int i=0; i<=rows_to_fix; ++i) {
+  size_t move_counter = cells_to_add;
+  for (size_t i=0; i<=rows_to_fix; ++i) {
     int window = (i == 0) ? new_num_feature : old_num_feature;
     if (move_counter > 0)
       std::copy(it, it + window, it + move_counter);
 
     if (i > 0) {
-      for (int j=0; j<cells_to_add_per_row; ++j)
+      for (size_t j=0; j<cells_to_add_per_row; ++j)
         *(it + move_counter + old_num_feature + j) = 0;
     }
 
-- 
2.43.0


From 896313a382b50c0fd1868b841fbee00a2c27fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:23 +0000
Subject: [PATCH 50/80] fix: svmlight rows with unsorted, repeated or huge
 feature ids, trailing characters or a missing qid were silently misread

---
 rankeval/dataset/_svmlight_format.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 57c4bf0..1c64eac 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -29,6 +29,7 @@
 #include <numpy/arrayobject.h>
 
 #include <fstream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -266,7 +267,8 @@ void parse_line(const std::string &line,
   }
   labels.push_back(y);
 
-  int idx;
+  int end;
+  long long idx, previous_idx = -1;
   double x;
   int next_feature = 1;
   bool reuse_line = false;
@@ -278,18 +280,35 @@ void parse_line(const std::string &line,
   }
 
 
-  if (sscanf(token.c_str(), "qid:%u", &idx) != 1) {
+  end = -1;
+  if (sscanf(token.c_str(), "qid:%lld%n", &idx, &end) != 1 ||
+      end != (int) token.length()) {
     reuse_line = true;
   } else {
-    qids.push_back(idx);
+    if (idx < std::numeric_limits<int>::min() ||
+        idx > std::numeric_limits<unsigned int>::max())
+      throw std::invalid_argument("qid out of range, got '" + token +
+                                  "', lineno " + std::to_string(lineno));
+    qids.push_back((int) idx);
   }
+  // either all of the rows have a qid or none of them
+  if (!qids.empty() && qids.size() != labels.size())
+    throw std::invalid_argument("Missing qid label, lineno " +
+                                std::to_string(lineno));
 
   while (true) {
     if (!reuse_line && !(in >> token))
         break;
     reuse_line = false;
 
-    if(sscanf(token.c_str(), "%u:%lf", &idx, &x) == 2) {
+    end = -1;
+    if(sscanf(token.c_str(), "%lld:%lf%n", &idx, &x, &end) == 2 &&
+       end == (int) token.length()) {
+
+        if (idx <= previous_idx || idx >= std::numeric_limits<int>::max())
+          throw std::invalid_argument("feature ids have to be ascending, got '" +
+                                      token + "', lineno " + std::to_string(lineno));
+        previous_idx = idx;
 
         // Add zeros in empty spaces between next_feature and idx indices  (iff idx > next_feature)
         for (; next_feature < idx; ++next_feature)
-- 
2.43.0


From 0a8fccb099bb95759e5fc0d098288b52059a31d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:46 +0000
Subject: [PATCH 51/80] fix: feature importance read the wrong cells of
 datasets with more than 2^32 of them

---
 rankeval/analysis/_efficient_feature_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 7ae1d51..c86a6a0 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -110,7 +110,7 @@ void c_feature_importance_tree(
         unsigned int instance;
         while (start_id <= end_id) {
             instance = split_instance[start_id];
-            if (X[instance * n_features + feature_id] <= threshold) {
+            if (X[(size_t) instance * n_features + feature_id] <= threshold) {
                 y_target_mean_left += y_target[instance];
                 ++start_id;
             } else {
-- 
2.43.0


From ccd39f8beff5045ae4f9a31fc73e3c6c5beb36c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:41 +0000
Subject: [PATCH 52/80] fix: datasets with more or less labels than instances
 were accepted (read out of bounds by the feature importance)

---
 rankeval/dataset/dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 3b221e0..1e842af 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -60,6 +60,10 @@ class Dataset(object):
             raise Exception(
                 "query_ids has wrong size. Expected %s but got %s" % (
                 X.shape[0], query_ids.size))
+        if y.size != X.shape[0]:
+            raise Exception(
+                "y has wrong size. Expected %s but got %s" % (
+                X.shape[0], y.size))
 
         # convert from query_ids per sample to query offset
         self.query_ids, self.query_offsets = \
-- 
2.43.0


From df23f09913ba0c6afa74a81fc4a62b7e5af3b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:41 +0000
Subject: [PATCH 53/80] fix: the labels of the features wrapped around after
 65535 features in the feature importance

---
 rankeval/analysis/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index d180e91..8d3a138 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -92,7 +92,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     performance = xr.DataArray([feature_imp, feature_count],
                                name='Feature Importance Analysis',
                                coords=[['importance', 'count'],
-                                       np.arange(dataset.n_features, dtype=np.uint16)],
+                                       np.arange(dataset.n_features, dtype=np.uint32)],
                                dims=['type', 'feature'])
 
     return performance
-- 
2.43.0


From ee8998a128d94fa3333a14925939d742992f1e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:35 +0000
Subject: [PATCH 54/80] fix: the topological analysis of a model without trees
 wrote out of bounds

---
 rankeval/analysis/_efficient_topological.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/_efficient_topological.pyx b/rankeval/analysis/_efficient_topological.pyx
index 25cf9b4..276e07d 100644
--- a/rankeval/analysis/_efficient_topological.pyx
+++ b/rankeval/analysis/_efficient_topological.pyx
@@ -54,7 +54,8 @@ def efficient_topological_analysis(model, include_leaves=True):
 
     # overwrite counts of 0-values since they should identify only the
     # root nodes but include also the leaves when include_leaves=False)
-    counts_view[0] = n_trees
+    if n_trees > 0:
+        counts_view[0] = n_trees
 
     cdef np.intp_t data_indices_size = data_indices_view.size
 
-- 
2.43.0


From 7430b7449ed2b327f1556b49d741e5e896f148ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:59 +0000
Subject: [PATCH 55/80] fix: a failed or interrupted cached scoring left an
 empty scorer in the cache (None returned later)

---
 rankeval/model/rt_ensemble.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index a01cf27..d406ca3 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -336,8 +336,6 @@ class RTEnsemble(object):
                 detailed and self._cache_scorer[dataset].partial_y_pred is None:
 
             scorer = Scorer(self, dataset)
-            if cache:
-                self._cache_scorer[dataset] = scorer
             # The scoring is performed only if it has not been done before...
             scorer.score(detailed)
 
@@ -350,6 +348,10 @@ class RTEnsemble(object):
                 scorer.y_pred += self.base_score
                 if detailed:
                     scorer.partial_y_pred[:, :1] += self.base_score
+
+            # cache the scorer only once the scoring is complete
+            if cache:
+                self._cache_scorer[dataset] = scorer
         else:
             scorer = self._cache_scorer[dataset]
 
-- 
2.43.0


From 9b3ac5004a8945145079d6856ff139f3dc4dc534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:13 +0000
Subject: [PATCH 56/80] fix: an interruption while NDCG computes the ideal
 scores left it bound to that dataset

---
 rankeval/metrics/ndcg.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rankeval/metrics/ndcg.py b/rankeval/metrics/ndcg.py
index 202eca4..4440d65 100644
--- a/rankeval/metrics/ndcg.py
+++ b/rankeval/metrics/ndcg.py
@@ -81,20 +81,19 @@ class NDCG(Metric):
 
         """
         # used to cache ideal DCG scores on a dataset basis
-        self._current_dataset = dataset
-        self._current_rel_qid = 0
-
         # Compute the ideal DCG scores only once and cache them
-        if self._current_dataset not in self._cache_idcg_score:
+        if dataset not in self._cache_idcg_score:
 
             idcg_score = np.ndarray(shape=dataset.n_queries, dtype=np.float32)
             for rel_id, (qid, q_y, _) in enumerate(
                     self.query_iterator(dataset, dataset.y)):
                 idcg_score[rel_id] = self.dcg.eval_per_query(q_y, q_y)
 
-            self._cache_idcg_score[self._current_dataset] = idcg_score
+            self._cache_idcg_score[dataset] = idcg_score
 
         try:
+            self._current_dataset = dataset
+            self._current_rel_qid = 0
             return super(self.__class__, self).eval(dataset, y_pred)
         finally:
             # the cached ideal DCG scores are valid only within this evaluation
-- 
2.43.0


From 364edd3e54066d2411fb12d5ac31cedbbae805b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:07 +0000
Subject: [PATCH 57/80] fix: exponential gains of labels of 8 bit types were
 computed in half precision

---
 rankeval/metrics/dcg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/dcg.py b/rankeval/metrics/dcg.py
index 3d1de29..28640f1 100644
--- a/rankeval/metrics/dcg.py
+++ b/rankeval/metrics/dcg.py
@@ -93,7 +93,8 @@ class DCG(Metric):
         if self.implementation == "flat":
             gain = y[idx_y_pred_sorted]
         elif self.implementation == "exp":
-            gain = np.exp2(y[idx_y_pred_sorted]) - 1.0
+            # labels of small integer types would give half precision gains
+            gain = np.exp2(y[idx_y_pred_sorted], dtype=np.float64) - 1.0
 
         dcg = (gain / discount).sum()
         return dcg
-- 
2.43.0


From 1120908ababe1276efe016b2b3ef47ea2ab4b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:07 +0000
Subject: [PATCH 58/80] fix: subset_features shared the labels with the source
 dataset

---
 rankeval/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 1e842af..dcbe69a 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -134,7 +134,7 @@ class Dataset(object):
             The resulting dataset with the given subset of features
         """
         return Dataset(self.X[:, features].copy(),
-                       self.y,
+                       self.y.copy(),
                        self.get_qids_dataset(),
                        name=self.name)
 
-- 
2.43.0


From eb1c7fc31755b3bf2825b23270ffa93b3e8a4e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:45 +0000
Subject: [PATCH 59/80] fix: export_scikit_model exported the quantile
 parameter of a linear initial estimator as the base score

The predictions of a QuantileRegressor given as init are not a constant, so the
model has no base score; it is refused like any other estimator without one.
---
 rankeval/model/proxy_ScikitLearn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index dd50264..2ab11e6 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -180,6 +180,9 @@ class ProxyScikitLearn(object):
             raise TypeError("Base score missing!")
         if hasattr(model.init_, "constant_"):
             base_score = np.ravel(model.init_.constant_)[0]
+        elif hasattr(model.init_, "coef_"):
+            # the predictions of a linear estimator are not constant
+            raise TypeError("Base score unknown!")
         elif hasattr(model.init_, "quantile"):
             base_score = model.init_.quantile
         elif hasattr(model.init_, "mean"):
-- 
2.43.0


From 66cd47f45d4cc64f25d59155a26c7a765962e82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:24 +0000
Subject: [PATCH 60/80] fix: dump_svmlight_file replaced the error of the
 stream (interrupts included) by a RuntimeError

---
 rankeval/dataset/_svmlight_format.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 1c64eac..dbe3e37 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -458,11 +458,9 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
       data_pointer += n_features;
       out << std::endl;
 
-      if (PyFile_WriteString(out.str().c_str(), pystream) == -1) {
-        std::string msg("error in SVMlight/libSVM writer: not able to write");
-        PyErr_SetString(PyExc_RuntimeError, msg.c_str());
+      // The Python exception raised by the stream is already set.
+      if (PyFile_WriteString(out.str().c_str(), pystream) == -1)
         return 0;
-      }
       // Reset string stream content
       out.str("");
       out.clear();
-- 
2.43.0


From b61fd14bea420ee25ae2f818cf7f2f5c399555b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 61/80] fix: export_graphviz gave percentages of the largest
 leaf when only the leaves are labelled

---
 rankeval/visualization/topological.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 02e3194..e5f622b 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -246,7 +246,8 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
                 proportion_txt = ""
                 if proportion:
                     proportion_txt = " (%.2f%s)" % (
-                        float(counts[node_id]) / colors['bounds'][1] * 100,
+                        float(counts[node_id]) /
+                        counts[ensemble.trees_root[tree_id]] * 100,
                         characters[6])
                 count_label += 'counts = %s%s%s' % (counts[node_id],
                                                     proportion_txt,
-- 
2.43.0


From 0c18062cbdb48707952705bcfed7d675de05044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 62/80] fix: models using feature ids above 32767 were loaded
 with the ids wrapped around

---
 rankeval/model/rt_ensemble.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index d406ca3..3108464 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -137,6 +137,15 @@ class RTEnsemble(object):
         else:
             raise TypeError("Model format %s not yet supported!" % format)
 
+        if self.trees_nodes_feature is not None:
+            # the feature ids are kept as 16-bit integers from now on
+            if (self.trees_nodes_feature > np.iinfo(np.int16).max).any():
+                raise AssertionError("RankEval does not support models with "
+                                     "more than %d features." %
+                                     (np.iinfo(np.int16).max + 1))
+            self.trees_nodes_feature = \
+                self.trees_nodes_feature.astype(np.int16)
+
         if n_trees is not None and n_trees < self.n_trees:
             self._prune_model(n_trees)
 
@@ -167,7 +176,7 @@ class RTEnsemble(object):
         self.trees_nodes_value = \
             np.full(shape=n_nodes, fill_value=-1, dtype=np.float32)
         self.trees_nodes_feature = \
-            np.full(shape=n_nodes, fill_value=-1, dtype=np.int16)
+            np.full(shape=n_nodes, fill_value=-1, dtype=np.int32)
 
     def is_leaf_node(self, index):
         """
-- 
2.43.0


From 2cf88a59a4fb45cf7f032f2c7e410cc652179a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 63/80] fix: splits of XGBoost dumps without a numerical
 condition were skipped, scrambling the trees

---
 rankeval/model/proxy_XGBoost.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rankeval/model/proxy_XGBoost.py b/rankeval/model/proxy_XGBoost.py
index 7766a8e..8111398 100644
--- a/rankeval/model/proxy_XGBoost.py
+++ b/rankeval/model/proxy_XGBoost.py
@@ -43,6 +43,7 @@ from .rt_ensemble import RTEnsemble
 tree_reg = re.compile("^booster\[(\d+)\]")
 node_reg = re.compile("(\d+):\[f(\d+)<(.*)\]")
 leaf_reg = re.compile("(\d+):leaf=(.+?)(,.*)?$")
+any_split_reg = re.compile(r"^\s*\d+:\s*[\[{]")
 
 
 class ProxyXGBoost(object):
@@ -99,6 +100,12 @@ class ProxyXGBoost(object):
                     model.trees_nodes_feature[node_id] = feature_id
                     model.trees_nodes_value[node_id] = threshold
 
+                elif any_split_reg.match(line):
+                    raise AssertionError("Split not supported. RankEval only "
+                                         "supports numerical splits over "
+                                         "features without names: %s" %
+                                         line.strip())
+
                 match_leaf = leaf_reg.search(line)
                 if match_leaf:
                     node_id = num_nodes + root_node
-- 
2.43.0


From 3d0c4fe7b6d9e156f55793a8d5541376dc9f153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 64/80] fix: LightGBM linear trees, random forests and
 multi-class models were loaded as plain boosted trees

---
 rankeval/model/proxy_LightGBM.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rankeval/model/proxy_LightGBM.py b/rankeval/model/proxy_LightGBM.py
index db8cbb1..6341552 100644
--- a/rankeval/model/proxy_LightGBM.py
+++ b/rankeval/model/proxy_LightGBM.py
@@ -47,6 +47,9 @@ leaf_parent_reg = re.compile("^leaf_parent=(.*)")
 leaf_value_reg = re.compile("^leaf_value=(.*)")
 shrinkage_reg = re.compile("^shrinkage=(.*)")
 has_categorical_reg = re.compile("^has_categorical=(.*)")
+is_linear_reg = re.compile("^is_linear=(.*)")
+average_output_reg = re.compile(r"^average_output\s*$")
+trees_per_iteration_reg = re.compile(r"^num_tree_per_iteration=(\d+)")
 
 
 class ProxyLightGBM(object):
@@ -164,6 +167,21 @@ class ProxyLightGBM(object):
                         raise AssertionError("Decision Tree not supported")
                     continue
 
+                match = is_linear_reg.match(line)
+                if match:
+                    if bool(int(match.group(1))):
+                        raise AssertionError("Linear Trees not supported!")
+                    continue
+
+                if average_output_reg.match(line):
+                    raise AssertionError("Random Forests not supported!")
+
+                match = trees_per_iteration_reg.match(line)
+                if match:
+                    if int(match.group(1)) > 1:
+                        raise AssertionError("Multi-class models not "
+                                             "supported!")
+                    continue
 
     @staticmethod
     def save(file_path, model):
-- 
2.43.0


From 30d4dcc50bb460138e8993895e6d1f873734987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 65/80] fix: the bias of CatBoost models was dropped, their
 further outputs taken as the first one

---
 rankeval/model/proxy_CatBoost.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index bf4282b..56bc716 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -62,12 +62,20 @@ class ProxyCatBoost(object):
 
         coreml_model = coremltools.models.model.MLModel(file_path)
 
+        ensemble = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble
+        if ensemble.numPredictionDimensions > 1:
+            raise AssertionError("Models with several outputs not supported!")
+
         n_trees, n_nodes = ProxyCatBoost._count_nodes(coreml_model)
         # Initialize the model and allocate the needed space
         # given the shape and size of the ensemble
         model.initialize(n_trees, n_nodes)
 
-        nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
+        # the bias of the model, unless a different one is given
+        if model.base_score is None and len(ensemble.basePredictionValue) > 0:
+            model.base_score = ensemble.basePredictionValue[0]
+
+        nodes = ensemble.nodes
 
         # trees may have different depths, thus a different number of nodes
         n_nodes_trees = ProxyCatBoost._count_nodes_per_tree(nodes)
-- 
2.43.0


From 5f3333c879848dc505791057fd57bac81055f8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 66/80] fix: thresholds of scikit-learn trees were rounded,
 possibly above the values they have to separate

---
 rankeval/model/proxy_ScikitLearn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 2ab11e6..00625fe 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -215,7 +215,12 @@ class ProxyScikitLearn(object):
             indent = '\t' * depth
             if tree_.feature[node] != _tree.TREE_UNDEFINED:
                 name = "f%d" % tree_.feature[node]
-                threshold = tree_.threshold[node]
+                # the features are compared as single precision numbers: use the
+                # largest one not above the threshold, to split them in the
+                # same way (the nearest one could be above it)
+                threshold = np.float32(tree_.threshold[node])
+                if threshold > tree_.threshold[node]:
+                    threshold = np.nextafter(threshold, np.float32(-np.inf))
                 writer.write("%s%d:[%s<=%.17g]\n" % (indent, node, name, threshold))
                 recurse(tree_.children_left[node], depth + 1)
                 # print "%s%d:[%s>%f]" % (indent, node, name, threshold)
-- 
2.43.0


From 3fe20020aeebec3dc9c81eea2e2737daf245d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 67/80] fix: QuickRank models without the info section were
 allocated one node less

---
 rankeval/model/proxy_QuickRank.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rankeval/model/proxy_QuickRank.py b/rankeval/model/proxy_QuickRank.py
index fb806a9..9b57e81 100644
--- a/rankeval/model/proxy_QuickRank.py
+++ b/rankeval/model/proxy_QuickRank.py
@@ -224,14 +224,17 @@ class ProxyQuickRank(object):
             in the model identified by file_path.
         """
         # get an iterable
-        context = etree.iterparse(file_path, events=("end",))
+        context = etree.iterparse(file_path, events=("start", "end"))
 
         # get the root element
         _, root = next(context)
 
         n_nodes = 0
         n_trees = 0
-        for _, elem in context:
+        for event, elem in context:
+            if event == 'start':
+                continue
+
             if elem.tag == 'tree':
                 n_trees += 1
             elif elem.tag == 'feature' or elem.tag == 'output':
-- 
2.43.0


From 1d8b5fb4edfd6029794d609739d02eb5d52f6136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 68/80] fix: models with learning_rate=None, which is
 documented, could not score

---
 rankeval/model/rt_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index 3108464..05a672d 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -98,7 +98,7 @@ class RTEnsemble(object):
         self.name = "RTEnsemble: " + file_path
         if name is not None:
             self.name = name
-        self.learning_rate = learning_rate
+        self.learning_rate = learning_rate if learning_rate is not None else 1
 
         self.base_score = base_score
         if self.base_score is None and format == "XGBoost":
-- 
2.43.0


From ddc0563305e65748e7076bf45a41932ef2d02c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 69/80] fix: metrics derived from NDCG, MSE and RMSE recursed
 without end

---
 rankeval/metrics/mse.py  | 4 ++--
 rankeval/metrics/ndcg.py | 4 ++--
 rankeval/metrics/rmse.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rankeval/metrics/mse.py b/rankeval/metrics/mse.py
index 7f941ad..d857fce 100644
--- a/rankeval/metrics/mse.py
+++ b/rankeval/metrics/mse.py
@@ -30,7 +30,7 @@ class MSE(Metric):
             otherwise the default value is None and is computed on all the
             instances of a query.
         """
-        super(self.__class__, self).__init__(name)
+        super(MSE, self).__init__(name)
         self.cutoff = cutoff
 
     def eval(self, dataset, y_pred):
@@ -54,7 +54,7 @@ class MSE(Metric):
             The detailed MSE@k scores for each query, an array of length of
             the number of queries.
         """
-        # return super(self.__class__, self).eval(dataset, y_pred)
+        # return super(MSE, self).eval(dataset, y_pred)
 
         self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
 
diff --git a/rankeval/metrics/ndcg.py b/rankeval/metrics/ndcg.py
index 4440d65..49500eb 100644
--- a/rankeval/metrics/ndcg.py
+++ b/rankeval/metrics/ndcg.py
@@ -45,7 +45,7 @@ class NDCG(Metric):
             formula: "flat" or "exp" (default).
         """
 
-        super(self.__class__, self).__init__(name)
+        super(NDCG, self).__init__(name)
         self.cutoff = cutoff
         self.no_relevant_results = no_relevant_results
         self.implementation = implementation
@@ -94,7 +94,7 @@ class NDCG(Metric):
         try:
             self._current_dataset = dataset
             self._current_rel_qid = 0
-            return super(self.__class__, self).eval(dataset, y_pred)
+            return super(NDCG, self).eval(dataset, y_pred)
         finally:
             # the cached ideal DCG scores are valid only within this evaluation
             self._current_dataset = None
diff --git a/rankeval/metrics/rmse.py b/rankeval/metrics/rmse.py
index 1ad922f..69d57f6 100644
--- a/rankeval/metrics/rmse.py
+++ b/rankeval/metrics/rmse.py
@@ -30,7 +30,7 @@ class RMSE(Metric):
             otherwise the default value is None and is computed on all the
             instances of a query.
         """
-        super(self.__class__, self).__init__(name)
+        super(RMSE, self).__init__(name)
         self.cutoff = cutoff
         self._mse = MSE(cutoff=cutoff)
 
@@ -55,7 +55,7 @@ class RMSE(Metric):
             The detailed RMSE@k scores for each query, an array of length of
             the number of queries.
         """
-        return super(self.__class__, self).eval(dataset, y_pred)
+        return super(RMSE, self).eval(dataset, y_pred)
 
     def eval_per_query(self, y, y_pred):
         """
-- 
2.43.0


From dc942ed9a03dc38fda8e4903894d21bde2fe1766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:14 +0000
Subject: [PATCH 70/80] fix: rank_confusion_matrix merged fractional relevance
 labels

---
 rankeval/analysis/effectiveness.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index cbbe90a..8982084 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -512,8 +512,10 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
         documents with a predicted score smaller than documents with label l_j
     """
 
-    rel_labels = np.unique(
-        np.concatenate([dataset.y for dataset in datasets])).astype(np.int32)
+    rel_labels = np.unique(np.concatenate([dataset.y for dataset in datasets]))
+    # the labels are usually integers (but fractional ones have to be kept)
+    if np.array_equal(rel_labels, rel_labels.astype(np.int32)):
+        rel_labels = rel_labels.astype(np.int32)
 
     data = np.zeros(shape=(len(datasets), len(models), len(rel_labels),
                            len(rel_labels)), dtype=np.int32)
@@ -528,10 +530,8 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
                         if skip_same_label and dataset.y[i] == dataset.y[j]:
                             continue
                         # position of the two labels in the matrix
-                        y_i = np.searchsorted(rel_labels,
-                                              dataset.y[i].astype(np.int32))
-                        y_j = np.searchsorted(rel_labels,
-                                              dataset.y[j].astype(np.int32))
+                        y_i = np.searchsorted(rel_labels, dataset.y[i])
+                        y_j = np.searchsorted(rel_labels, dataset.y[j])
                         if y_pred[i] < y_pred[j]:
                             data[idx_dataset][idx_model][y_i, y_j] += 1
                         else:
-- 
2.43.0


From 015c638f3d9aad3689edaa69a35200441da07d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:14 +0000
Subject: [PATCH 71/80] fix: the legend of the graded relevance plot truncated
 fractional labels

---
 rankeval/visualization/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index c1c5039..08eb36d 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -379,7 +379,7 @@ def plot_document_graded_relevance(performance):
                                  " and model " + model.name)
             axes[i, 0].set_ylabel("Relevance")
         axes[i, 0].set_xlabel("Predicted score")
-        axes[i, 0].legend(["Label "+str(int(l)) for l in
+        axes[i, 0].legend(["Label " + str(int(l) if l == int(l) else l) for l in
                            performance.coords['label'].values])
 
         fig_list.append(fig)
-- 
2.43.0


From 45faf7c533761552a7d1828865e594717dde04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:14 +0000
Subject: [PATCH 72/80] fix: export_graphviz did not escape the special
 characters of the feature names

---
 rankeval/visualization/topological.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index e5f622b..a956420 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -8,6 +8,7 @@ from collections import defaultdict
 import six
 
 from numbers import Integral
+from xml.sax.saxutils import escape
 
 from matplotlib import pyplot as plt
 from matplotlib.colors import LinearSegmentedColormap
@@ -258,7 +259,13 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
             feature_id = ensemble.trees_nodes_feature[node_id]
             feature_value = ensemble.trees_nodes_value[node_id]
             if feature_names is not None:
-                feature_txt = feature_names[feature_id]
+                feature_txt = '%s' % feature_names[feature_id]
+                # the characters having a special meaning in a label
+                if special_characters:
+                    feature_txt = escape(feature_txt)
+                else:
+                    feature_txt = feature_txt.replace('\\', '\\\\')
+                    feature_txt = feature_txt.replace('"', '\\"')
             else:
                 feature_txt = "f%s%s%s " % (characters[1],
                                             feature_id,
-- 
2.43.0


From e69554f2a8c4fdb38008de316c1dcb26ddf66219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:14 +0000
Subject: [PATCH 73/80] fix: cumulative distributions ignored the scores lower
 than the start point

---
 rankeval/analysis/effectiveness.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 8982084..4ccbbdf 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -299,8 +299,10 @@ def query_wise_performance(datasets, models, metrics, bins=None,
         for idx_model, model in enumerate(models):
             for idx_metric, metric in enumerate(metrics):
                 metric_scores = glob_metric_scores[idx_dataset][idx_model][idx_metric]
-                # evaluate the histogram
-                values, base = np.histogram(metric_scores, bins=bin_values)
+                # evaluate the histogram (the first bin includes the scores
+                # lower than the start point)
+                values, base = np.histogram(
+                    metric_scores, bins=np.append(-np.inf, bin_values[1:]))
                 # evaluate the cumulative
                 cumulative = np.cumsum(values, dtype=float) / metric_scores.size
 
@@ -467,8 +469,10 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
                     continue
                 y_pred = model.score(dataset, detailed=False, cache=cache)
                 y_pred_curr = y_pred[indices]
-                # evaluate the histogram
-                values, base = np.histogram(y_pred_curr, bins=bin_values)
+                # evaluate the histogram (the first bin includes the scores
+                # lower than the start point)
+                values, base = np.histogram(
+                    y_pred_curr, bins=np.append(-np.inf, bin_values[1:]))
                 # evaluate the cumulative
                 cumulative = np.cumsum(values, dtype=float) / len(y_pred_curr)
                 data[idx_dataset][idx_model][idx_label] = cumulative
-- 
2.43.0


From 371fc12127ff8d81cf7ce3e385c969ef116660e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:18 +0000
Subject: [PATCH 74/80] fix: export_graphviz altered large values while
 rounding them in single precision

---
 rankeval/visualization/topological.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index a956420..dcbcef2 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -274,12 +274,12 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
                 node_string += count_label
             node_string += '%s %s %s%s' % (feature_txt,
                                            characters[3],
-                                           round(feature_value, precision),
+                                           round(float(feature_value), precision),
                                            characters[4])
         else:
             # Write node output value, only for leaves
             value = ensemble.trees_nodes_value[node_id]
-            value_text = np.around(value, precision)
+            value_text = np.around(np.float64(value), precision)
             # Strip whitespace
             value_text = str(value_text.astype('S32')).replace("b'", "'")
             value_text = value_text.replace("' '", ", ").replace("'", "")
-- 
2.43.0


From 1b0590dea1079fbbfe1f1a50667aaa780220554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:16 +0000
Subject: [PATCH 75/80] fix: a negative validation size was accepted by split,
 which returned overlapping parts

---
 rankeval/dataset/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index dcbe69a..1508def 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -197,7 +197,8 @@ class Dataset(object):
             of each fold, without creating the dataset.
         """
 
-        if train_size < 0 or train_size > 1 or (train_size + vali_size) > 1:
+        if train_size < 0 or train_size > 1 or vali_size < 0 or \
+                (train_size + vali_size) > 1:
             raise Exception("train and/or validation sizes are not correct!")
 
         train_qn = int(round(train_size * self.n_queries))
-- 
2.43.0


From c73e15623676d84e4f494cca907fb087c26f50d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:02 +0000
Subject: [PATCH 76/80] fix: feature values were parsed with the decimal
 separator of the locale

sscanf follows the locale of the process: with a comma as separator (an
application calling setlocale), valid files were rejected and malformed
values such as 1,5 were accepted.
---
 rankeval/dataset/_svmlight_format.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index dbe3e37..d6272c5 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -240,6 +240,23 @@ void reshape_data(std::vector<float> &data,
 }
 
 
+/*
+ * Parse the value of a feature, from the given position to the end of the
+ * token. The decimal separator is the point, whatever the locale is (sscanf
+ * and strtod follow the locale of the process).
+ */
+bool parse_value(const std::string &token, size_t start, double &value)
+{
+  char *end = NULL;
+  value = PyOS_string_to_double(token.c_str() + start, &end, NULL);
+  if (PyErr_Occurred()) {
+    PyErr_Clear();
+    return false;
+  }
+  return end == token.c_str() + token.length();
+}
+
+
 /*
  * Parse single line. Throws exception on failure.
  */
@@ -302,8 +319,8 @@ void parse_line(const std::string &line,
     reuse_line = false;
 
     end = -1;
-    if(sscanf(token.c_str(), "%lld:%lf%n", &idx, &x, &end) == 2 &&
-       end == (int) token.length()) {
+    if(sscanf(token.c_str(), "%lld:%n", &idx, &end) == 1 && end != -1 &&
+       parse_value(token, end, x)) {
 
         if (idx <= previous_idx || idx >= std::numeric_limits<int>::max())
           throw std::invalid_argument("feature ids have to be ascending, got '" +
-- 
2.43.0


From bc8136307f75d15d77a680e28296cb9463f0b6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:02 +0000
Subject: [PATCH 77/80] fix: read-only datasets and models could not be scored

The native code asked for writable buffers of arrays it only reads: arrays
which are memory-mapped, shared by joblib or taken from a data frame were
refused with 'buffer source array is read-only'.
---
 rankeval/analysis/_efficient_topological.pyx | 16 ++++----
 rankeval/scoring/_efficient_scoring.pyx      | 42 ++++++++++----------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/rankeval/analysis/_efficient_topological.pyx b/rankeval/analysis/_efficient_topological.pyx
index 276e07d..684ff2e 100644
--- a/rankeval/analysis/_efficient_topological.pyx
+++ b/rankeval/analysis/_efficient_topological.pyx
@@ -23,9 +23,9 @@ def efficient_topological_analysis(model, include_leaves=True):
     cdef np.intp_t n_trees = model.n_trees
     cdef np.intp_t n_nodes = model.n_nodes
 
-    cdef int[:] trees_root = model.trees_root
-    cdef int[:] trees_left_child = model.trees_left_child
-    cdef int[:] trees_right_child  = model.trees_right_child
+    cdef const int[:] trees_root = model.trees_root
+    cdef const int[:] trees_left_child = model.trees_left_child
+    cdef const int[:] trees_right_child  = model.trees_right_child
 
     node_indices = np.zeros(model.n_nodes, dtype=np.uint64)
     cdef unsigned long long[:] node_indices_view = node_indices
@@ -75,9 +75,9 @@ def efficient_topological_analysis(model, include_leaves=True):
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef int _compute_node_indices(np.intp_t idx_tree,
-                               int[:] trees_root,
-                               int[:] trees_left_child,
-                               int[:] trees_right_child,
+                               const int[:] trees_root,
+                               const int[:] trees_left_child,
+                               const int[:] trees_right_child,
                                unsigned long long[:] node_indices,
                                int idx_last_node,
                                bint include_leaves) nogil:
@@ -103,8 +103,8 @@ cdef int _compute_node_indices(np.intp_t idx_tree,
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef inline bint _is_leaf_node(int idx_node,
-                               int[:] trees_left_child,
-                               int[:] trees_right_child) nogil:
+                               const int[:] trees_left_child,
+                               const int[:] trees_right_child) nogil:
     return trees_left_child[idx_node] == -1 and trees_right_child[idx_node] == -1
 
 @cython.boundscheck(False)
diff --git a/rankeval/scoring/_efficient_scoring.pyx b/rankeval/scoring/_efficient_scoring.pyx
index 4b44d5c..d1191f6 100644
--- a/rankeval/scoring/_efficient_scoring.pyx
+++ b/rankeval/scoring/_efficient_scoring.pyx
@@ -32,16 +32,16 @@ def basic_scoring(model, X):
     cdef np.intp_t n_instances = X.shape[0]
     cdef np.intp_t n_trees = model.n_trees
 
-    cdef float[:, :] X_view = X
+    cdef const float[:, :] X_view = X
     y = np.zeros(n_instances, dtype=np.float32)
     cdef float[:] y_view = y
 
-    cdef int[:] trees_root = model.trees_root
-    cdef float[:] trees_weight = model.trees_weight
-    cdef short[:] trees_nodes_feature = model.trees_nodes_feature
-    cdef float[:] trees_nodes_value = model.trees_nodes_value
-    cdef int[:] trees_left_child = model.trees_left_child
-    cdef int[:] trees_right_child  = model.trees_right_child
+    cdef const int[:] trees_root = model.trees_root
+    cdef const float[:] trees_weight = model.trees_weight
+    cdef const short[:] trees_nodes_feature = model.trees_nodes_feature
+    cdef const float[:] trees_nodes_value = model.trees_nodes_value
+    cdef const int[:] trees_left_child = model.trees_left_child
+    cdef const int[:] trees_right_child  = model.trees_right_child
 
     cdef int leaf_node
     cdef np.intp_t idx_tree, idx_instance
@@ -71,19 +71,19 @@ def detailed_scoring(model, X):
     cdef np.intp_t n_instances = X.shape[0]
     cdef np.intp_t n_trees = model.n_trees
 
-    cdef float[:, :] X_view = X
+    cdef const float[:, :] X_view = X
     y_leaves = np.zeros((X.shape[0], model.n_trees), dtype=np.int32)
     cdef int[:, :] y_leaves_view = y_leaves
 
     partial_y = np.zeros((X.shape[0], model.n_trees), dtype=np.float32)
     cdef float[:, :] partial_y_view = partial_y
 
-    cdef int[:] trees_root = model.trees_root
-    cdef float[:] trees_weight = model.trees_weight
-    cdef short[:] trees_nodes_feature = model.trees_nodes_feature
-    cdef float[:] trees_nodes_value = model.trees_nodes_value
-    cdef int[:] trees_left_child = model.trees_left_child
-    cdef int[:] trees_right_child  = model.trees_right_child
+    cdef const int[:] trees_root = model.trees_root
+    cdef const float[:] trees_weight = model.trees_weight
+    cdef const short[:] trees_nodes_feature = model.trees_nodes_feature
+    cdef const float[:] trees_nodes_value = model.trees_nodes_value
+    cdef const int[:] trees_left_child = model.trees_left_child
+    cdef const int[:] trees_right_child  = model.trees_right_child
 
     cdef int leaf_node
     cdef np.intp_t idx_tree, idx_instance
@@ -110,15 +110,15 @@ def detailed_scoring(model, X):
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-cdef int _score_single_instance_single_tree(float[:,:] X,
+cdef int _score_single_instance_single_tree(const float[:,:] X,
                                             np.intp_t idx_instance,
                                             np.intp_t idx_tree,
-                                            int[:] trees_root,
-                                            float[:] trees_weight,
-                                            short[:] trees_nodes_feature,
-                                            float[:] trees_nodes_value,
-                                            int[:] trees_left_child,
-                                            int[:] trees_right_child) nogil:
+                                            const int[:] trees_root,
+                                            const float[:] trees_weight,
+                                            const short[:] trees_nodes_feature,
+                                            const float[:] trees_nodes_value,
+                                            const int[:] trees_left_child,
+                                            const int[:] trees_right_child) nogil:
 
     # Check the usage of np.intp_t in plave of np.int16_t
     cdef int cur_node = trees_root[idx_tree]
-- 
2.43.0


From 61e979a34c0f440066b3f836a00c83dc3bdf8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:44 +0000
Subject: [PATCH 78/80] fix: MSE with a cutoff overflowed on integer labels and
 scores

---
 rankeval/metrics/mse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/metrics/mse.py b/rankeval/metrics/mse.py
index d857fce..ad71d9c 100644
--- a/rankeval/metrics/mse.py
+++ b/rankeval/metrics/mse.py
@@ -87,7 +87,7 @@ class MSE(Metric):
         """
         if self.cutoff is not None:
             idx = np.argsort(y_pred)[::-1][:self.cutoff]
-            return ((y[idx] - y_pred[idx]) ** 2).sum()
+            return ((y[idx] - y_pred[idx]) ** 2.0).sum()
         else:
             return ((y - y_pred) ** 2.0).sum()
 
-- 
2.43.0


From 7b2aed98525b796982a006230500075b51f487c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:37 +0000
Subject: [PATCH 79/80] fix: significance test ignores queries whose score is
 undefined

Any comparison with NaN is false, so that a single query with an undefined
score made both p-values 0, even for two identical systems.
---
 rankeval/analysis/statistical.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index a727d08..dbdbba8 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -121,16 +121,24 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
         "A comparison of statistical significance tests for information retrieval evaluation."
         In Proceedings of the sixteenth ACM conference on Conference on information and knowledge management, pp. 623-632. ACM, 2007.
     """
-    if ipywidgets:
-        progress_bar = ipywidgets.IntProgress(
-            min=0, max=10, description="Randomization Test")
-        display(progress_bar)
-
     # the scores are in single precision: use double precision to not lose the
     # permutations having the same difference of the observed one
     metric_scores_a = np.asarray(metric_scores_a, dtype=np.float64)
     metric_scores_b = np.asarray(metric_scores_b, dtype=np.float64)
 
+    # as for the average performance, leave out the queries with an undefined
+    # score (any comparison with NaN is false: the p-values would be always 0)
+    defined = ~(np.isnan(metric_scores_a) | np.isnan(metric_scores_b))
+    metric_scores_a = metric_scores_a[defined]
+    metric_scores_b = metric_scores_b[defined]
+    if metric_scores_a.size == 0:
+        return np.nan, np.nan
+
+    if ipywidgets:
+        progress_bar = ipywidgets.IntProgress(
+            min=0, max=10, description="Randomization Test")
+        display(progress_bar)
+
     # find the best system
     metric_scores_a_mean = np.mean(metric_scores_a)
     metric_scores_b_mean = np.mean(metric_scores_b)
-- 
2.43.0


From 1bbb6dec5ca063b7b804fee3ed6adc1ac840dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:37 +0000
Subject: [PATCH 80/80] fix: query class performance leaves out the undefined
 queries of a class

As model_performance does: a single undefined query made the average of its
whole class undefined.
---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 4ccbbdf..c684297 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -384,7 +384,7 @@ def query_class_performance(datasets, models, metrics, query_classes,
                         continue
 
                     query_class_metric_scores[idx_dataset][idx_model][idx_metric][idx_query_class] = \
-                        glob_metric_scores[idx_dataset][idx_model][idx_metric][indices].mean()
+                        np.nanmean(glob_metric_scores[idx_dataset][idx_model][idx_metric][indices])
 
     performance = xr.DataArray(query_class_metric_scores,
                                name='Query Class Performance',
-- 
2.43.0

