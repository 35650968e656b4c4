"""The properties: source of properties.jsonl and MANIFEST.json (tools/gen_meta.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note,
         level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, observe=observe, technique=technique,
                  note=note, level=level))


SVM = ["rankeval/dataset/_svmlight_format.cpp", "rankeval/dataset/svmlight_format.py"]
DS = ["rankeval/dataset/dataset.py"]
RT = ["rankeval/model/rt_ensemble.py"]
SC = ["rankeval/scoring/_efficient_scoring.pyx", "rankeval/scoring/scorer.py",
      "rankeval/model/rt_ensemble.py"]
EFF = ["rankeval/analysis/effectiveness.py"]
STAT = ["rankeval/analysis/statistical.py"]
MET = "rankeval/metrics/"

prop("C01", "Loading svmlight text yields exactly the data the text says",
     "Loading a well-formed svmlight text (from a path, a .gz/.bz2 path, an open file, a file "
     "descriptor or any binary file-like) yields, in file order, exactly the labels, query ids and "
     "single-precision feature values written in it, with zero for every feature a row does not "
     "list and as many columns as the highest feature id. This holds for any sparsity pattern, "
     "including rows with no features and rows that introduce new features late, with comments, "
     "extra blanks and CRLF line ends. Files and streams given by the caller are left open.",
     ["inputs"], "all well-formed svmlight texts (features ascending from 1) and all source kinds",
     "the tests load one small fixture whose rows all start from the same features",
     SVM, [("column growth and row alignment of the dense buffer", SVM[0]), ("_open", SVM[1])],
     ["load_svmlight_file(s) and Dataset.load return values"],
     "runtime monitor: reference parser as oracle over randomized loads",
     "Every cell, label and query id of every load is compared with an independent parser.")

prop("C02", "Malformed or faulty svmlight I/O ends in a clean exception",
     "A malformed svmlight line (feature ids out of order or out of range, trailing characters and "
     "query ids on some rows only included), a text without any row, an unreadable, truncated or text-mode source, or a stream or "
     "writer that fails at any point makes the load or dump raise a Python exception (the error of "
     "the stream itself when it raised one; RuntimeError for malformed text). It never crashes the "
     "process, never returns data silently, leaks no file descriptors, and loads performed "
     "afterwards are unaffected.",
     ["inputs", "fault_sequences"],
     "all byte mutations of valid texts, all failing points of streams and writers",
     "the tests try two invalid files; no stream failure, no mutation, no state after the failure",
     SVM, [("exception translation of the C++ parser and of the reader", SVM[0])],
     ["exceptions raised by load/dump, result of the next load"],
     "runtime monitor: fault injection (mutations, failing streams) with recovery oracle",
     "Faults injected at every line of small texts; a reference load judges recovery.")

prop("C03", "Dump followed by load gives back the same dataset",
     "Dumping any dataset (any memory layout and numeric type of the matrix, any number of "
     "instances, query ids up to 2^31-2) to a path, a compressed path, a text stream or a file "
     "descriptor and loading the result gives back the same values at single precision, labels "
     "and query ids, up to trailing columns that are entirely zero. The zero-based option shifts "
     "only the feature ids, and without query ids none are written.",
     ["inputs", "configurations"], "all datasets, sinks and dump options",
     "the tests dump one C-contiguous float32 matrix to one kind of sink",
     SVM + DS, [("dump_svmlight_file", SVM[1]), ("row writer", SVM[0]), ("Dataset.dump", DS[0])],
     ["text written, dataset loaded back"],
     "runtime monitor: round-trip oracle plus reference parser on the text written",
     "Exact comparison in single precision; layouts C/F/strided/float64 are generated.")

prop("C04", "Native code is free of memory errors and undefined behaviour",
     "On any valid or malformed svmlight input, and on any well-formed model and any dataset accepted by the API, "
     "the native extensions (svmlight I/O, scoring, topological analysis, feature importance) "
     "perform no out-of-bounds or use-after-free access, no invalid free and no undefined "
     "arithmetic.",
     ["inputs", "fault_sequences"], "all inputs accepted by the public API, and all malformed texts",
     "tests run uninstrumented builds on a few valid inputs; memory errors usually stay silent",
     SVM + ["rankeval/scoring/_efficient_scoring.pyx", "rankeval/analysis/_efficient_topological.pyx",
            "rankeval/analysis/_efficient_feature_impl.cpp", "rankeval/analysis/_efficient_feature.pyx"],
     [("bounds of buffers and node indices", "native extensions")],
     ["AddressSanitizer and UndefinedBehaviorSanitizer reports"],
     "sanitizers: ASan + UBSan builds of all extensions under hostile workloads",
     "A clean run covers the executions driven, not all; red-zone misses are possible.")

prop("C05", "Loaded arrays own their memory; loading does not leak",
     "The arrays returned by a load stay valid and unchanged as long as they (or views of them) "
     "are referenced, whatever is loaded, dumped or released in between. Repeated loads, failed "
     "loads and dumps do not retain memory or references to the streams used.",
     ["histories", "fault_sequences"],
     "all interleavings of loads, failing loads, dumps, views, releases and collections",
     "tests drop the arrays immediately and never measure what is retained",
     SVM, [("ownership of the vectors behind the numpy arrays", SVM[0])],
     ["array contents over time, allocated blocks, RSS, reference counts"],
     "runtime monitor: shadow copies of live arrays, allocation and reference accounting",
     "Leaks are judged on growth over hundreds of repetitions with generous margins.")

prop("C06", "The query partition of a dataset is complete and consistent",
     "For any dataset whose rows are grouped by query, the query offsets, iterator, sizes, "
     "per-row query ids and per-query lookups describe the same partition: every row belongs to "
     "exactly one query, in row order, whatever the numeric order and magnitude of the query ids. "
     "A lookup of a missing query id and query ids of the wrong length raise an error.",
     ["inputs"], "all sequences of query ids (any order and magnitude) and group sizes",
     "the tests use one fixture with ascending ids",
     DS, [("np.unique + re-sort by offset", DS[0])], ["query accessors of Dataset"],
     "runtime monitor: partition invariant against the generated grouping",
     "Exact oracle.")

prop("C07", "split partitions the queries with the requested proportions",
     "Splitting a dataset yields parts with pairwise disjoint queries whose union is all the "
     "queries; every query keeps all of its rows (values, labels, order), and the number of "
     "training and validation queries is the requested fraction, rounded. The same seed gives the "
     "same split, different seeds different shuffles, and invalid sizes or seeds raise an error.",
     ["inputs", "configurations"], "all datasets, sizes (including 0 and 1) and seeds",
     "the tests do not cover split on small datasets, nor extreme sizes",
     DS, [("Dataset.split", DS[0])], ["datasets returned"],
     "runtime monitor: conservation of rows and disjointness of queries",
     "Rows carry a unique id column so that loss, duplication and leakage are visible.")

prop("C08", "k-fold iteration covers every query exactly once per role",
     "For any number of folds from 2 up to the number of queries, each fold's train, validation "
     "and test query sets are pairwise disjoint and together cover all the queries. Across the "
     "folds every query is in the test set exactly once and in the validation set exactly once. "
     "With datasets requested, the parts contain exactly the rows of their queries; folds follow the "
     "order of the queries, or of a shuffle by the global NumPy generator.",
     ["inputs", "configurations"], "all numbers of queries and folds, shuffled or not",
     "the tests use one dataset and one number of folds, divisible or not but not both",
     DS, [("Dataset.kfold", DS[0])], ["folds yielded"],
     "runtime monitor: exactly-once and conservation over the whole iteration",
     "Exhaustive over (n_queries, n_folds) up to 14 queries in the quick tier (query ids only).")

prop("C09", "Subsets keep exactly the selected queries or features",
     "Selecting queries returns exactly the rows of the requested queries that exist, in the "
     "original order, with their labels and query ids, whatever the order or container of the "
     "request. Selecting features returns exactly the requested columns in the requested order "
     "and leaves rows, labels and queries unchanged. The source dataset is not modified, also "
     "when the subset is modified later.",
     ["inputs"], "all datasets and selections (duplicates, unknown ids, any order)",
     "the tests check shapes on one fixture",
     DS, [("Dataset.subset, Dataset.subset_features", DS[0])], ["datasets returned"],
     "runtime monitor: reference selection on rows with unique ids",
     "Exact oracle.")

prop("C10", "Dataset equality and hash agree with the content",
     "Two datasets are equal exactly when they have the same features, labels and query "
     "partition (query ids and boundaries), whatever the memory layout and name; comparing with "
     "anything else is False. Equal datasets of the same type have equal hashes, so that sets, "
     "dictionaries and score caches never confuse different datasets.",
     ["inputs", "histories"], "all pairs of datasets, near-identical pairs in particular",
     "tests compare a dataset with itself or with an obviously different one",
     DS, [("Dataset.__eq__, __hash__", DS[0])], ["==, !=, hash, dict and set membership"],
     "runtime monitor: content comparison as oracle over minimally different pairs",
     "Values exclude NaN and negative zero.")

prop("C11", "QuickRank and Jforests models load as the forest in the file",
     "Loading a QuickRank XML or Jforests file gives exactly the trees of the file, in order: "
     "every split with its feature (QuickRank ids are 1-based), its threshold and its left and "
     "right children, every leaf with its output, and every tree weight, all in single precision. "
     "This holds for every tree shape the format can express.",
     ["inputs"], "all forests (degenerate, single-leaf where expressible, chains, perfect trees)",
     "the tests load one model per format and look at a few values",
     ["rankeval/model/proxy_QuickRank.py", "rankeval/model/proxy_Jforests.py"],
     [("ProxyQuickRank.load", "rankeval/model/proxy_QuickRank.py"),
      ("ProxyJforests.load", "rankeval/model/proxy_Jforests.py")],
     ["arrays of the loaded model, scores"],
     "runtime monitor: node-by-node comparison with the forest written by independent writers",
     "Writers are independent of rankeval; structure is judged by walking from the roots.")

prop("C12", "LightGBM, XGBoost and scikit-learn models load as the forest in the file",
     "Loading a LightGBM text model, an XGBoost text dump or a scikit-learn export gives exactly "
     "the trees of the file, in order. A document takes the same branch as in the source system: "
     "LightGBM and scikit-learn go left when the feature is lower than or equal to the threshold, "
     "XGBoost when it is strictly lower, for every single-precision threshold of any magnitude. "
     "The base score (0.5 for XGBoost by default) and learning rate are the ones of the file or "
     "of the caller.",
     ["inputs"], "all forests, node numberings and thresholds, feature values equal to thresholds",
     "the tests load one model per format; equality with thresholds is never exercised",
     ["rankeval/model/proxy_LightGBM.py", "rankeval/model/proxy_XGBoost.py",
      "rankeval/model/proxy_ScikitLearn.py"],
     [("Proxy*.load", "rankeval/model/")], ["arrays of the loaded model, scores, routing"],
     "runtime monitor: node-by-node comparison and routing oracle",
     "Thresholds beyond single precision are rounded to nearest; values between a double "
     "threshold and its rounding are outside the claim.")

prop("C13", "scikit-learn export and CatBoost models reproduce the source predictions",
     "Exporting a fitted scikit-learn gradient boosting regressor and loading the export gives a "
     "model (or is refused, when the initial prediction is not a constant) whose scores match the regressor's predictions on every document. Loading a CatBoost "
     "CoreML model gives the trees and bias of the file, also when trees have different depths, with "
     "documents on the > / <= side the file says.",
     ["inputs"], "all fitted regressors (depth, learning rate, init) and oblivious forests",
     "the tests cover one small regressor and one model with equal depths, data permitting",
     ["rankeval/model/proxy_ScikitLearn.py", "rankeval/model/proxy_CatBoost.py"],
     [("export_scikit_model", "rankeval/model/proxy_ScikitLearn.py"),
      ("ProxyCatBoost.load", "rankeval/model/proxy_CatBoost.py")],
     ["scores against sklearn's predict and against the reference forest"],
     "runtime monitor: differential oracle (scikit-learn, reference forest)",
     "Documents whose feature value lies between a double threshold and its single-precision "
     "rounding are excluded.")

prop("C14", "Models and formats that cannot be represented are rejected",
     "Loading a model with constructs that cannot be represented (LightGBM categorical splits, "
     "decision types other than the supported one or non-zero default values, linear trees, "
     "averaged or multi-class outputs; CoreML branch behaviours other than > and <=, several "
     "outputs; XGBoost splits other than numerical; feature ids above 32767) raises an error. So "
     "do loading or saving in an unsupported format, exporting other scikit-learn ensembles, and "
     "giving a dataset format other than svmlight. No silently wrong model is ever "
     "returned, wherever in the file the construct appears.",
     ["inputs", "configurations"], "all positions of the unsupported construct in the forest",
     "the tests exercise unsupported formats only",
     ["rankeval/model/proxy_LightGBM.py", "rankeval/model/proxy_CatBoost.py"] + RT + DS,
     [("explicit checks in the loaders", "rankeval/model/")], ["exceptions"],
     "runtime monitor: rejection oracle over poisoned model files",
     "The construct is planted at a random tree and node.")

prop("C15", "Saving a model to QuickRank and loading it back preserves it",
     "Saving any loaded model (from any format, pruned or not) in QuickRank format and loading it "
     "back gives a model with the same trees, splits, thresholds, outputs and weights in single "
     "precision. Hence both models give identical scores on every dataset (given the same base "
     "score and learning rate), and saving again gives the same file.",
     ["inputs", "histories"], "all models of all formats",
     "one test saves one QuickRank model",
     ["rankeval/model/proxy_QuickRank.py"] + RT,
     [("ProxyQuickRank.save", "rankeval/model/proxy_QuickRank.py")],
     ["arrays and scores of the reloaded model, bytes of the second save"],
     "runtime monitor: round-trip oracle",
     "Thresholds and outputs at full single-precision range, including extreme magnitudes.")

prop("C16", "Node, leaf and height counts match the trees",
     "For any model, the per-tree numbers of nodes, leaves and heights, their maximum and the "
     "leaf test agree with the tree structure reached from the roots, for every source format.",
     ["inputs"], "all forests of all formats",
     "tests compare a few counts of one fixture",
     RT, [("num_nodes, num_leaves, height_trees, is_leaf_node", RT[0])], ["returned arrays"],
     "runtime monitor: recount on the reference forest",
     "Exact oracle.")

prop("C17", "Pruning and copying keep the leading trees unchanged",
     "Loading with a limit on the number of trees, or copying with one, gives exactly the first "
     "trees of the model with the same weights, and the structural statistics, detailed scores "
     "and QuickRank export of that shorter forest; limits at or above the size keep everything. "
     "A copy is independent: pruning, scoring or changing it never affects the original.",
     ["inputs", "histories"], "all models, limits and sequences of copies and prunings",
     "one test prunes one model and checks the number of trees",
     RT, [("RTEnsemble.copy, n_trees of the constructor", RT[0])],
     ["arrays, scores, statistics of the copies and of the original"],
     "runtime monitor: reference forest prefix as oracle, original re-checked after each step",
     "Exact oracle.")

prop("C18", "Scores equal the weighted sum of the leaves reached",
     "The score of every document is the sum over the trees of the output of the leaf reached "
     "(left when the feature value is lower than or equal to the threshold, compared in single "
     "precision) times the tree weight, scaled by the learning rate (any, zero included), plus the base score. This "
     "holds for every tree shape, number of documents and memory layout of the matrix.",
     ["inputs"], "all forests, documents (values equal or adjacent to thresholds), parameters",
     "the tests need external data and compare with stored scores of real models",
     SC, [("basic_scoring", SC[0]), ("RTEnsemble.score", SC[2])], ["scores"],
     "runtime monitor: reference evaluator of the forest",
     "Dyadic values make the sums exact, so that scores are compared for equality.")

prop("C19", "Detailed scores, partial scores and leaves are consistent",
     "Detailed scoring returns, for every document and tree, the node index of the leaf the "
     "document reaches and the contribution of that tree (output times weight, scaled by the "
     "learning rate); the base score is added to the first tree only, so that the partial scores "
     "sum to the score. Basic and detailed scoring give the same scores.",
     ["inputs"], "all forests, documents and parameters",
     "the tests check the sum of the partial scores on one dataset, data permitting",
     SC, [("detailed_scoring", SC[0]), ("Scorer", SC[1])], ["scores, partial scores, leaves"],
     "runtime monitor: reference evaluator per document and tree",
     "Exact on dyadic values.")

prop("C20", "Scoring is pure: incompatible data is rejected, caching is transparent",
     "Scoring a dataset with fewer features than the model uses raises an error instead of "
     "reading other memory. For any history of scorings, cached or not, basic or detailed, over "
     "several datasets and models, also when some of them fail or are interrupted, every result "
     "equals the result of a fresh uncached scoring, "
     "and clearing the cache only forgets. A model keeps alive only the datasets it was asked to cache.",
     ["histories", "inputs"], "all sequences of score/clear_cache/copy calls on pools of datasets",
     "tests score each dataset once or twice with the same options",
     SC + DS, [("RTEnsemble.score and its cache", SC[2]), ("Dataset.__hash__/__eq__", DS[0])],
     ["every score returned along a history"],
     "runtime monitor: history oracle against an uncached twin model",
     "Datasets are not modified after their first use as cache keys.")

prop("C21", "Parallel native code is deterministic and free of data races",
     "Scoring and the topological and feature-importance analyses give the same result for any "
     "number of threads and any schedule (bit-identical scores, leaves, topologies and counts; "
     "importances up to rounding), and contain no data race.",
     ["schedules", "inputs"], "all thread counts and schedules of the parallel loops",
     "the tests run with the default thread count and schedule",
     ["rankeval/scoring/_efficient_scoring.pyx", "rankeval/analysis/_efficient_topological.pyx",
      "rankeval/analysis/_efficient_feature_impl.cpp"],
     [("prange / omp parallel for with private variables and reductions", "native extensions")],
     ["ThreadSanitizer reports, results across thread counts and injected delays"],
     "race detector: TSan builds on an instrumented OpenMP runtime with injected delays, "
     "plus differential runs over thread counts",
     "Schedules are static partitions with randomized delays; races outside them are not seen.")

prop("C22", "DCG and NDCG follow their definitions",
     "For every query, DCG is the sum over the ranked documents up to the cutoff of the gain "
     "(label, or 2^label-1) divided by log2(rank+1), and NDCG is DCG divided by the DCG of the "
     "ideal ordering, or the configured value when no document is relevant. Documents with "
     "different scores are ranked by decreasing score; NDCG is in [0,1] and is 1 for an ideal "
     "ordering.",
     ["inputs", "configurations"], "all label and score vectors, cutoffs, implementations",
     "tests check a handful of hand-made vectors",
     [MET + "dcg.py", MET + "ndcg.py"], [("eval_per_query", MET)], ["metric values"],
     "runtime monitor: independent metric implementation, any tie-break accepted",
     "Tied scores: the value must be one of those of the compatible orderings.")

prop("C23", "ERR, Pfound and RBP follow their definitions",
     "ERR and Pfound follow the cascade user model: the probability of satisfaction of a document "
     "is (2^label-1)/2^max_label of the query; ERR discounts by rank, Pfound continues with "
     "probability 1 minus the abandonment probability. RBP is (1-p) times the sum of p^(rank-1) "
     "over relevant documents; all respect the cutoff.",
     ["inputs", "configurations"], "all label and score vectors, cutoffs, parameters",
     "tests check a handful of hand-made vectors",
     [MET + "err.py", MET + "pfound.py", MET + "rbp.py"], [("eval_per_query", MET)],
     ["metric values"], "runtime monitor: independent metric implementation",
     "Tied scores: any tie-break accepted.")

prop("C24", "Precision, Recall, MAP and MRR follow their definitions",
     "Precision is the fraction of relevant documents (label at or above the threshold; for the "
     "max variant, label equal to the query's maximum) among those retrieved up to the cutoff; "
     "recall the fraction of the relevant ones retrieved; MRR the reciprocal rank of the first "
     "relevant one, 0 if none. MAP averages the precision at the ranks of the relevant documents "
     "retrieved over min(retrieved, relevant); queries with no relevant document get the "
     "configured value in recall and MAP.",
     ["inputs", "configurations"], "all label and score vectors, cutoffs, thresholds",
     "tests check a handful of hand-made vectors",
     [MET + "precision.py", MET + "precision_max.py", MET + "recall.py", MET + "map.py",
      MET + "mrr.py"], [("eval_per_query", MET)], ["metric values"],
     "runtime monitor: independent metric implementation",
     "Tied scores: any tie-break accepted.")

prop("C25", "Error and rank-correlation metrics follow their definitions",
     "The per-query squared error is the sum of the squared differences between labels and scores "
     "(of the top documents with a cutoff), the overall MSE is its total divided by the number of "
     "instances, and RMSE is the root of the mean squared error of the documents considered in "
     "the query. Kendall's tau and Spearman's rho equal the tie-corrected coefficients between "
     "labels and scores, undefined (NaN) when one side is constant.",
     ["inputs", "configurations"], "all label and score vectors and cutoffs",
     "tests check a few vectors; Kendall's tau is not exercised at all here",
     [MET + "mse.py", MET + "rmse.py", MET + "kendall_tau.py", MET + "spearman_rho.py"],
     [("eval, eval_per_query", MET)], ["metric values"],
     "runtime monitor: independent implementation (pair counting for tau-b)",
     "Tolerance 1e-5 relative.")

prop("C26", "Metrics aggregate per query, independently of ids and history",
     "Evaluating a metric on a dataset gives, in query order, the metric of each query computed "
     "in isolation, and as overall value their mean over the queries where it is defined (for MSE "
     "the total per-instance error). The result does not depend on the query ids, on the other "
     "queries, or on what the metric object evaluated (or failed to evaluate) before, and inputs are "
     "not modified. The printed name of a metric tells its cutoff and a relevance threshold other than the default.",
     ["histories", "inputs"], "all sequences of evaluations of shared metric objects on several "
     "datasets",
     "tests use a new metric object on one dataset",
     [MET + "metric.py", MET + "ndcg.py", MET + "mse.py"],
     [("Metric.eval, Metric.query_iterator", MET + "metric.py"),
      ("NDCG cache of ideal DCGs", MET + "ndcg.py")],
     ["detailed and overall scores along histories"],
     "runtime monitor: history oracle with fresh metric objects and per-query isolation",
     "Ties avoided here (judged in C22-C25).")

prop("C27", "Metrics only look at the ranking, labels and the top documents",
     "Ranking metrics are invariant under strictly increasing transformations of the scores, "
     "under permutations of the documents of a query when scores are distinct, and, with a "
     "cutoff k, under changes of the order below rank k; a cutoff not smaller than the query size "
     "equals no cutoff. Swapping two adjacent documents so that the more relevant comes first "
     "never lowers DCG, NDCG, MAP, MRR, precision, recall or RBP.",
     ["inputs"], "all queries, score transformations, permutations and swaps",
     "example tests cannot state invariances over all inputs",
     [MET], [("argsort by decreasing score, truncated to the cutoff", MET)], ["metric values"],
     "runtime monitor: metamorphic oracle",
     "Tolerance 1e-6; independent of the reference formulas of C22-C25.")

prop("C28", "Model and tree-wise performance equal direct evaluation",
     "The model performance analysis reports, for every dataset, model and metric, the metric of "
     "the model's scores. The tree-wise analysis reports at k trees the metric of the model made "
     "of its first k trees, for k multiple of the step plus the last tree, NaN past a model's own "
     "size; the average-contribution analysis reports the mean absolute contribution of each "
     "tree. Coordinates name the datasets, models, metrics and k that the values belong to.",
     ["inputs", "configurations"], "all lists of datasets, models of different sizes, metrics, steps",
     "tests check shapes on real data that is not available",
     EFF, [("model_performance, tree_wise_*", EFF[0])], ["DataArray values and coordinates"],
     "runtime monitor: direct evaluation of pruned reference forests",
     "Scores from the reference evaluator, metrics evaluated per cell.")

prop("C29", "Cumulative distributions report the right fractions",
     "The query-wise analysis reports for every bin the fraction of queries whose metric does not "
     "exceed the bin's upper edge, and the document graded relevance the fraction of documents of "
     "each label whose score does not exceed it; bins are equally spaced over the requested or "
     "observed range and their coordinates are the upper edges. The distributions never decrease "
     "and reach 1 at the observed maximum.",
     ["inputs", "configurations"], "all datasets (different sizes), models, ranges and bins",
     "tests check shapes on real data that is not available",
     EFF, [("query_wise_performance, document_graded_relevance", EFF[0])],
     ["DataArray values and coordinates"],
     "runtime monitor: exact counting oracle (values strictly inside bins)",
     "A value equal to an inner edge may count in either adjacent bin; ranges starting above the "
     "minimum are not judged.")

prop("C30", "Query-class performance averages the metric within each class",
     "For every dataset, model, metric and class (of any label type, given as lists or arrays), "
     "the reported value is the mean of the metric over the queries of that dataset in that "
     "class (leaving out, as the overall mean does, those on which the metric is undefined), and "
     "NaN when the dataset has no such query; the classes reported are all those used.",
     ["inputs"], "all assignments of classes to queries over several datasets",
     "no test covers it without external data",
     EFF, [("query_class_performance", EFF[0])], ["DataArray values and coordinates"],
     "runtime monitor: direct per-class mean", "Tolerance 1e-5.")

prop("C31", "The rank confusion matrix counts every document pair once",
     "For every dataset and model, cell (a, b) counts the pairs of documents of the same query "
     "with labels a and b where the one labelled a is scored lower; tied pairs count once, either "
     "way, and cells (a, b) and (b, a) together count every such pair. Rows and columns are "
     "indexed by the label values, also when labels are not contiguous, and same-label pairs are "
     "left out on request.",
     ["inputs"], "all label sets, scores with ties, datasets of different sizes",
     "no test covers it without external data",
     EFF, [("rank_confusion_matrix", EFF[0])], ["DataArray values and coordinates"],
     "runtime monitor: pair-counting oracle and conservation law",
     "The diagonal may or may not count each document with itself.")

prop("C32", "Significance p-values are those of the randomization test",
     "The one- and two-sided p-values of the randomization test are the fractions of random "
     "per-query exchanges of the two systems' scores whose mean difference reaches the observed "
     "one (in favour of the better system, and in absolute value), up to sampling error; they are "
     "in [0,1], the one-sided never exceeds the two-sided, and identical systems give 1. Queries on "
     "which the metric is undefined for a system are left out, and without any query left the "
     "p-values are undefined. The result does not depend on the order of the two models.",
     ["inputs"], "all pairs of per-query score vectors",
     "no test covers it without external data",
     STAT, [("statistical_significance", STAT[0])], ["p-values"],
     "runtime monitor: exact enumeration of the exchanges with a binomial confidence bound",
     "Deviation beyond 6.5 standard errors is a violation (false alarm below 1e-9 per case).")

prop("C33", "Bias/variance decomposition adds up and folds do not leak",
     "In every iteration each instance is scored exactly once, by a model trained only on queries "
     "other than its own, with rows, labels and query sizes aligned, and the folds partition the "
     "queries. The reported error equals bias plus variance, all computed from those scores as "
     "documented, and each value is placed under its dataset, metric and algorithm.",
     ["inputs", "histories"], "all datasets, numbers of folds and iterations, algorithms",
     "no test covers it without external data",
     STAT, [("bias_variance, _kfold_scoring", STAT[0])],
     ["calls received by the algorithms, DataArray"],
     "runtime monitor: the algorithm callback records every call; offline check of the history",
     "Rows carry a unique id so that leakage is visible.")

prop("C34", "Topological analysis counts the shape of every tree",
     "The topology matrix holds, at (depth, column) of the full binary tree, the number of trees "
     "with a node there (leaves excluded on request, roots always counted), for any tree up to "
     "depth 60, and the heights are those of the trees. Average shape and fullness per level are "
     "those counts normalized by the number of trees (and, for fullness, of positions present).",
     ["inputs"], "all forests, with and without leaves, deep chains in particular",
     "tests check sums on fixtures that are not available",
     ["rankeval/analysis/topological.py", "rankeval/analysis/_efficient_topological.pyx"],
     [("efficient_topological_analysis", "rankeval/analysis/_efficient_topological.pyx")],
     ["topology matrix, heights, derived statistics"],
     "runtime monitor: recount on the reference forest", "Exact oracle.")

prop("C35", "Feature importance sums the gain of the splits of each feature",
     "The importance of a feature is the sum, over the splits using it, of the reduction of the "
     "metric obtained by replacing the predictions of the documents in the node by the mean "
     "residual of each side, trees being fitted in sequence to the residual labels and scaled by "
     "their weight; counts report how many splits use each feature. RMSE importances are the "
     "roots of the MSE ones, normalization divides by the largest, and models using features the "
     "dataset does not have are rejected.",
     ["inputs"], "all forests, datasets and layouts, metrics",
     "tests compare two private code paths on fixtures that are not available",
     ["rankeval/analysis/feature.py", "rankeval/analysis/_efficient_feature_impl.cpp",
      "rankeval/analysis/_efficient_feature.pyx"],
     [("feature_importance", "rankeval/analysis/feature.py"),
      ("c_feature_importance_tree", "rankeval/analysis/_efficient_feature_impl.cpp")],
     ["importances and counts"],
     "runtime monitor: reference implementation in double precision",
     "Splits reached by fewer than two documents may or may not be counted; tolerance 1e-3 "
     "relative to the total.")

prop("C36", "Analyses do not modify their inputs and are repeatable",
     "Scoring, metrics and analyses never modify the datasets, models and score vectors they are "
     "given, and repeating an analysis, with the score cache on or off and after any other "
     "analysis (complete or interrupted), gives the same result (for the randomized ones, given the same seed).",
     ["histories"], "all sequences of analyses over shared datasets, models and metrics",
     "tests run each analysis once on fresh objects",
     EFF + STAT + ["rankeval/analysis/feature.py", "rankeval/analysis/topological.py"],
     [("score cache shared by the analyses", RT[0])],
     ["byte digests of the inputs before and after, results of repetitions"],
     "runtime monitor: digests of all inputs around random histories of analyses",
     "Digest comparison is exact.")

prop("C37", "Plots show exactly the values of the analyses",
     "Every plotting function draws, for each dataset, model, metric, class, label or feature it "
     "is given, the values of the analysis (bar heights, line points, matrix cells), under the "
     "right label and in the right order, for every choice of the grouping and display options, "
     "and without failing on undefined (NaN) values or small inputs. Every call draws on new "
     "figures and leaves those that are open as they are.",
     ["inputs", "configurations"], "all analysis results and display options",
     "no test looks at the artists that are drawn",
     ["rankeval/visualization/effectiveness.py", "rankeval/visualization/feature.py",
      "rankeval/visualization/topological.py"],
     [("plot_*", "rankeval/visualization/")], ["artists of the matplotlib figures"],
     "runtime monitor: inspection of the drawn artists against the analysis values",
     "Headless backend; colours and cosmetics are not judged.")

prop("C38", "Graphviz export draws the tree it is asked for",
     "Exporting a tree gives one graph node per tree node and one edge per parent-child link up "
     "to the depth limit, with the feature (name), threshold, output and document count and "
     "percentage of that node for the given dataset, truncated subtrees marked. The shades of "
     "the nodes follow the documents reaching them (without a dataset, the outputs of the leaves), "
     "and nothing depends on the other trees. Wrong tree "
     "numbers, precisions or too few feature names are rejected.",
     ["inputs", "configurations"], "all trees, depth limits, options and datasets",
     "no test covers it",
     ["rankeval/visualization/topological.py"],
     [("export_graphviz", "rankeval/visualization/topological.py")], ["DOT text"],
     "runtime monitor: the DOT text is parsed and compared with the reference tree",
     "Of the colours, only their order is judged.")

prop("C39", "Fetching a dataset never takes a partial download for a complete one",
     "Fetching a catalogued dataset returns exactly the datasets and models of the requested fold "
     "and kinds, downloading only when they are missing and downloads are allowed. If the "
     "download or the extraction fails or is interrupted at any point, the error is raised and a "
     "later fetch downloads again instead of using what was left behind; nothing outside the data "
     "directory is touched.",
     ["fault_sequences", "crash_points", "histories"],
     "all failing points of download and extraction, all sequences of fetches",
     "no network, no test",
     ["rankeval/dataset/datasets_fetcher.py"],
     [("__download_archive__, __fetch_dataset_and_models__", "rankeval/dataset/datasets_fetcher.py")],
     ["containers returned, files left, download attempts"],
     "runtime monitor: fault injection on a stubbed network, state checked after each step",
     "The network is a stand-in; the catalogue entries used are synthetic.",
     level="fault_enumeration")
