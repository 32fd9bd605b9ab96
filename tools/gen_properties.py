#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Continuous columns are binned in order, within max_bins, missing last",
 "After fit, the encoder maps every value of a numerical column to a bin that is non-decreasing in the value; when the column has at most max_bins distinct values (among the rows drawn, with more than subsample rows) each of them gets its own bin and a new value goes with its nearest lower or upper neighbour (cut midway between neighbours, the cut itself going to the lower bin), and otherwise the max_bins bins hold approximately equal numbers of fitted samples. "
 "A missing value always gets the bin just after those of the column, whether or not values were missing during fit. "
 "The bin of a value depends only on that value and on the data seen by fit, never on the other rows of the transformed batch, the integer or floating dtype, or the container (DataFrame or array).",
 ["inputs", "configurations"],
 "every numerical column (ties, infinities, constant, all missing, few or many distinct values, more rows than subsample), every max_bins >= 3 and every transformed batch",
 "The tests bin a handful of seeded columns and compare with recorded values; they do not cover boundary values, unseen values, missing values that appear only at transform time, or max_bins equal to / one off the number of distinct values.",
 ["wildwood/preprocessing/encoder.py", "wildwood/preprocessing/_binning.py"],
 [("_find_binning_thresholds", "wildwood/preprocessing/_binning.py"), ("_bin_continuous_column", "wildwood/preprocessing/_binning.py"), ("Encoder.fit/transform", "wildwood/preprocessing/encoder.py")],
 ["Encoder.transform followed by features_bitarray_to_array", "Encoder.binning_thresholds_", "Encoder.n_bins_no_missing_values_"],
 [("binning_thresholds_", "cut points of each numerical column", "Encoder")])

prop("C02", "Categories map one-to-one to bins; unknown and missing are never confused",
 "After fit, the encoder maps distinct categories of a categorical column to distinct bins 0..n-1 and maps the same category to the same bin in every later batch, whatever the order, the subset or the declared category list of that batch. "
 "A missing value gets the extra last bin n; a category that was not seen by fit is rejected with a ValueError when handle_unknown is \"error\" and gets that same extra bin when it is \"consider_missing\", in DataFrames and arrays alike.",
 ["inputs", "configurations", "histories"],
 "every fitted set of categories (strings, booleans, integers, floats, pandas categories with unused or permuted levels) and every sequence of later batches",
 "The tests transform the fitted data itself or one small batch; permuted, partial, unknown-only or missing-only batches and repeated columns are not combined.",
 ["wildwood/preprocessing/encoder.py"],
 [("Encoder.transform", "wildwood/preprocessing/encoder.py"), ("handle_unknown", "wildwood/preprocessing/encoder.py")],
 ["Encoder.transform followed by features_bitarray_to_array", "Encoder.categories_"],
 [("categories_", "category of each bin, per categorical column", "Encoder")])

prop("C03", "Column typing honours the user's declaration and the documented rules",
 "Columns declared categorical (boolean mask or index list, given to the forest's constructor or to fit) are treated as categorical and, for numerical data, undeclared columns of a given declaration as numerical; without any declaration, text, boolean and pandas-category DataFrame columns are categorical and a numerical column is categorical exactly when it has at most cat_min_categories distinct values (an integer, or max(2, floor(log n)) or max(2, floor(sqrt n))). "
 "Invalid declarations (index out of range, wrong mask length, wrong element type) and unsupported data types are rejected with a ValueError.",
 ["inputs", "configurations"],
 "every combination of dtype, container, declaration and number of distinct values",
 "The tests pick a few dtype combinations; the decision table is only sampled and the constructor argument is never compared with the fit argument.",
 ["wildwood/preprocessing/_checks.py", "wildwood/preprocessing/encoder.py", "wildwood/forest.py"],
 [("is_series_categorical / get_array_dtypes / get_is_categorical / check_X", "wildwood/preprocessing/_checks.py"), ("ForestBase.fit", "wildwood/forest.py")],
 ["Encoder.is_categorical_", "Forest*.is_categorical_"])

prop("C04", "The packed feature storage returns exactly the bins that were stored",
 "For every matrix of bin numbers, every number of rows and every per-column maximum, storing the columns in the packed bit array and reading any single cell, any column or the whole matrix back returns exactly the stored values, and writing one column never changes another.",
 ["inputs"],
 "all column maxima below 2^32 (in particular around powers of two), all row counts (in particular around multiples of the number of values per machine word), all integer dtypes",
 "The tests round-trip a few random matrices with fixed shapes; boundaries of the word layout are hit only by chance.",
 ["wildwood/preprocessing/features_bitarray.py"],
 [("FeaturesBitArray", "wildwood/preprocessing/features_bitarray.py"), ("_features_bitarray_fill_column / get_value / get_value_from_column", "wildwood/preprocessing/features_bitarray.py")],
 ["array_to_bitarray, features_bitarray_fill_column, features_bitarray_to_array, get_value, get_value_from_column"],
 [("bitarray", "64-bit words of all columns", "FeaturesBitArray")])

prop("C05", "Each tree's bootstrap splits the rows into in-bag and out-of-bag samples",
 "For every tree, the in-bag and out-of-bag rows are disjoint, both non-empty and together make up all the rows given to fit; the in-bag multiplicities are at least one and sum to the number of rows, and multiply the rows' weights in that tree only. "
 "Every row can be in-bag and out-of-bag, different trees (of a class, with one-versus-rest) use different bootstraps, and the trees of the different classes of a one-versus-rest forest share theirs.",
 ["inputs", "configurations"],
 "every number of rows >= 2 (including tiny ones, where a bootstrap without out-of-bag rows must be redrawn), every random_state, n_estimators, n_jobs and multiclass option",
 "The tests check that seeds change predictions; they never look at the rows each tree used, nor at tiny samples.",
 ["wildwood/forest.py"],
 [("_generate_train_valid_samples", "wildwood/forest.py"), ("_parallel_build_trees", "wildwood/forest.py"), ("_generate_random_states", "wildwood/forest.py")],
 ["in-bag/out-of-bag indices and weights handed to each tree", "root node sample counts of get_nodes"])

prop("C06", "Every split partitions the node's samples and every row reaches one leaf",
 "Each fitted tree is a binary tree in which every internal node's in-bag and out-of-bag samples are partitioned between its two children exactly as its recorded split says (bins up to the threshold, or bins of the recorded set, to the left; everything else, unseen bins included, to the right), with counts and weights that match. "
 "Any row, seen or not, is routed by these same splits to exactly one leaf, which is what apply reports and predictions use, for every tree size, depth and number of categories.",
 ["inputs", "configurations"],
 "all data sets, all tree shapes (deep chains, thousands of nodes, wide categorical splits), all rows including missing and unknown values",
 "The tests check a few node fields on small seeded trees; partitions per node and routing of unseen bins are not compared with the recorded splits.",
 ["wildwood/_grow.py", "wildwood/_split.py", "wildwood/_tree.py"],
 [("split_indices", "wildwood/_split.py"), ("find_leaf / is_bin_in_partition / add_node_tree / resize_tree", "wildwood/_tree.py"), ("grow / Records", "wildwood/_grow.py")],
 ["Forest*.get_nodes", "Forest*.apply", "bin sets of categorical splits"],
 [("nodes", "array of nodes, parents before children", "tree.nodes")])

prop("C07", "Growth obeys max_depth and sample minima and stops only when it must",
 "No node is deeper than max_depth; a node is split only if it has at least min_samples_split in-bag samples and each child keeps at least min_samples_leaf in-bag samples, and with aggregation the same minima hold for out-of-bag samples. "
 "A non-root node whose in-bag labels are pure (up to floating-point accuracy) is a leaf, and conversely a node that is impure, shallower than max_depth, large enough, and for which every feature offers an admissible split is not left as a leaf.",
 ["inputs", "configurations"],
 "all data sets and all values of max_depth, min_samples_split, min_samples_leaf, aggregation, criterion, max_features and multiclass",
 "The tests check min_samples_leaf/split on one or two data sets and never the converse direction (premature leaves).",
 ["wildwood/_grow.py", "wildwood/_split.py"],
 [("grow", "wildwood/_grow.py"), ("try_feature_order_for_classifier_split / find_best_split_regressor_along_feature", "wildwood/_split.py")],
 ["Forest*.get_nodes"])

prop("C08", "The split chosen at a node maximises the impurity decrease",
 "At every internal node the recorded split has (up to the accuracy of single-precision sums) the largest weighted impurity decrease (gini, entropy or variance, on the weighted in-bag labels) among all admissible splits of the max_features features considered there: thresholds between bins for numerical features and, for categorical features, prefixes of the bins ordered by the proportion of class 1 (\"binary\"), of each class (\"all\"), of one class (\"random\"), or by the mean label (regression). "
 "All features are considered when max_features equals their number, and otherwise every feature has a chance of being drawn at every node.",
 ["inputs", "configurations"],
 "all data sets, weights, criteria, feature mixes, cat_split_strategy and max_features",
 "The tests compare accuracies with scikit-learn; a slightly suboptimal split on some bins or features leaves them unchanged.",
 ["wildwood/_split.py", "wildwood/_impurity.py", "wildwood/_node.py", "wildwood/_utils.py"],
 [("find_node_split", "wildwood/_split.py"), ("information_gain_proxy, gini, entropy, mse", "wildwood/_impurity.py"), ("sample_without_replacement", "wildwood/_utils.py")],
 ["Forest*.get_nodes"])

prop("C09", "Node predictions are the smoothed weighted label statistics of in-bag samples",
 "The prediction of every node of a classification tree is (w_k + dirichlet) / (w + K * dirichlet) where w_k and w are the weights (sample weight times class weight times bootstrap multiplicity) of the node's in-bag samples of class k and of all classes, and that of a regression tree is the weighted mean of their labels. "
 "With aggregation=False, a tree predicts the prediction of the leaf the row falls in; out-of-bag samples never influence a node's prediction.",
 ["inputs", "configurations"],
 "all data sets, weights, class_weight, dirichlet and multiclass options",
 "The tests look at aggregate accuracy; the predictions of individual nodes are not recomputed from the data.",
 ["wildwood/_node.py", "wildwood/_tree.py"],
 [("compute_node_classifier_context / compute_node_regressor_context", "wildwood/_node.py"), ("tree_classifier_predict_proba / tree_regressor_predict", "wildwood/_tree.py")],
 ["predict_proba_trees / predict_trees", "node predictions"])

prop("C10", "With aggregation a tree predicts the exponential-weights mix of all prunings",
 "With aggregation=True the prediction of a tree is, up to floating-point accuracy, the average of the predictions of all prunings of the tree weighted by prior 2^-(number of its nodes that are not leaves of the full tree) times exp(-step * loss), where a pruning's loss is the weighted out-of-bag log-loss (classification) or squared error (regression) of its leaves' predictions. "
 "In particular it is a convex combination of the predictions of the nodes on the row's path, whatever the scale of the labels and weights.",
 ["inputs", "configurations"],
 "all trees, labels scales, weights, step and dirichlet values",
 "The tests only check that aggregation changes the predictions; the number of prunings is exponential and no test enumerates them.",
 ["wildwood/_grow.py", "wildwood/_tree.py", "wildwood/_utils.py", "wildwood/_node.py"],
 [("compute_tree_weights", "wildwood/_grow.py"), ("log_sum_2_exp", "wildwood/_utils.py"), ("tree_classifier_predict_proba / tree_regressor_predict / tree_regressor_weighted_depth", "wildwood/_tree.py")],
 ["predict_proba_trees / predict_trees", "loss_valid and log_weight_tree of get_nodes"],
 [("log_weight_tree", "logarithm of the aggregated weight of the subtree", "nodes"), ("loss_valid", "out-of-bag loss of the node", "nodes")])

prop("C11", "Forest predictions combine the trees' predictions row by row",
 "predict_proba is the average of the trees' class probabilities (with one-versus-rest: the per-class sums of the trees' positive probabilities, normalised to sum to one), predict returns the class of classes_ with the largest probability, and a regressor predicts the average of its trees. "
 "Probabilities are in [0, 1] and sum to one, labels of any type come back as given to fit, and the result for a row does not depend on the other rows of the batch, their order, or n_jobs.",
 ["inputs", "configurations"],
 "all forests, label types, numbers of classes, batches and n_jobs",
 "The tests compare scores on whole test sets; per-tree composition, one-versus-rest columns and batch independence are not checked.",
 ["wildwood/forest.py"],
 [("ForestClassifier.predict_proba / predict / predict_proba_trees", "wildwood/forest.py"), ("ForestRegressor.predict / predict_trees", "wildwood/forest.py"), ("_accumulate_prediction", "wildwood/forest.py")],
 ["predict_proba, predict, predict_proba_trees, predict_trees"])

prop("C12", "Changing step or dirichlet after fit is the same as fitting with them",
 "After any sequence of assignments to step and dirichlet on a fitted forest (set_params included), interleaved with predictions, its predictions equal, up to floating-point accuracy, those of a forest fitted on the same data with the final values. "
 "An assignment that is rejected leaves the parameters and the predictions unchanged.",
 ["histories", "configurations"],
 "every finite sequence of valid and invalid assignments, predictions, pickling and lightening, for both forests and both aggregation settings",
 "One test changes dirichlet twice on one data set; the space of histories and their interaction with lighten, pickling and aggregation is not explored.",
 ["wildwood/forest.py", "wildwood/tree.py", "wildwood/_grow.py"],
 [("step / dirichlet setters", "wildwood/forest.py"), ("step / dirichlet setters", "wildwood/tree.py"), ("recompute_node_predictions / compute_tree_weights", "wildwood/_grow.py")],
 ["predict_proba / predict after each operation", "get_params"])

prop("C13", "Pickling at any point of a forest's life preserves its behaviour",
 "Pickling and unpickling a forest at any point of its life (unfitted, fitted, after parameter changes, lightened) gives a forest with the same parameters, predictions, leaves and later behaviour (further parameter changes, lighten, refit), and leaves the original unchanged. "
 "lighten never changes predictions or leaves, can be called again or pickled, and does nothing on an unfitted forest.",
 ["histories"],
 "every finite sequence of fit, parameter changes, lighten, pickle round trips and predictions",
 "The tests pickle a freshly fitted forest once; other points of the history are not reached.",
 ["wildwood/forest.py", "wildwood/tree.py"],
 [("__getstate__ / __setstate__ / serialize / unserialize", "wildwood/tree.py"), ("lighten", "wildwood/tree.py")],
 ["pickle.dumps/loads, predict, apply, get_nodes"])

prop("C14", "A random_state determines the forest, whatever else happens",
 "Two forests built with the same parameters, data and integer random_state make identical predictions and have identical trees, whatever n_jobs and the thread schedule, the state of the global random generators, other forests fitted in between or concurrently, and previous fits of the same object. "
 "This includes data larger than subsample, every cat_split_strategy and max_features, and randomized_depth; different random_state values give different bootstraps.",
 ["schedules", "histories", "configurations"],
 "all interleavings of the tree-building threads and all earlier uses of the process's random generators",
 "The tests fit twice in the same way in one process with default scheduling.",
 ["wildwood/forest.py", "wildwood/tree.py", "wildwood/_tree.py", "wildwood/_utils.py"],
 [("_generate_random_states", "wildwood/forest.py"), ("np.random.seed in _TreeClassifier/_TreeRegressor", "wildwood/_tree.py"), ("sample_without_replacement", "wildwood/_utils.py")],
 ["get_nodes of every tree, predictions"])

prop("C15", "Parallel prediction loses and duplicates no tree's contribution",
 "For every interleaving of the worker threads, predict, predict_proba, apply and the per-tree prediction methods return the same result as a sequential run: each tree contributes exactly once, in its own slot or class column. "
 "Concurrent calls on the same fitted forest from several threads do not disturb one another or change the forest.",
 ["schedules"],
 "all interleavings of worker threads (including a switch between reading and writing the shared sum) and of concurrent callers, for all n_jobs",
 "Races depend on thread switches inside a read-modify-write; tests run a few schedules and the addition is usually faster than a switch interval.",
 ["wildwood/forest.py"],
 [("lock in _predict_helper, used by _accumulate_prediction, _get_tree_prediction, _parallel_tree_apply, _compute_weighted_depth", "wildwood/forest.py")],
 ["predict_proba, predict, apply, predict_proba_trees, predict_trees under forced thread switches"])

prop("C16", "Sample and class weights act as multiplicities; inputs are never modified",
 "In every tree, a sample enters the split search, the node predictions and the out-of-bag losses with weight sample_weight times its class weight times its bootstrap multiplicity (class weight: none, or n / (K * count of its class) when \"balanced\", computed per binary problem with one-versus-rest); leaving sample_weight out means weight one. "
 "fit and predict never modify the arrays or frames passed by the caller.",
 ["inputs", "configurations"],
 "all weights (uniform, skewed, fractional), class_weight and multiclass options, memory layouts and dtypes of the inputs",
 "The tests fit with weights but do not recompute any weighted statistic, nor check the caller's arrays.",
 ["wildwood/forest.py", "wildwood/_node.py"],
 [("ForestBase.fit", "wildwood/forest.py"), ("_parallel_build_trees", "wildwood/forest.py")],
 ["w_samples_train / w_samples_valid of get_nodes", "predictions", "caller's arrays after the call"])

prop("C17", "Parameters are validated, and a forest's life cycle is predictable",
 "Assigning or constructing with a value outside a parameter's documented domain raises an error and leaves the previous value in force; valid values are returned unchanged by get_params, survive clone, and n_estimators, random_state, multiclass and cat_split_strategy cannot change once fitted. (The encoding parameters handle_unknown, cat_min_categories, subsample and categorical_features are validated by fit.) "
 "Using an unfitted forest raises NotFittedError, fit never changes a constructor parameter other than categorical_features, a fit that fails leaves the forest as it was, and refitting gives the same forest as a new forest with the same parameters fitted on the same data.",
 ["histories", "configurations"],
 "every finite sequence of construct, assign, set_params, clone, fit, refit on other data and predict",
 "The tests check single setters on fresh objects; they do not explore sequences or failed assignments on fitted forests.",
 ["wildwood/forest.py"],
 [("property setters", "wildwood/forest.py"), ("ForestBase.fit / _encode_y", "wildwood/forest.py"), ("check_is_fitted", "wildwood/forest.py")],
 ["get_params, raised exceptions, predictions"])

prop("C18", "Dataset.extract splits once and learns its transforms from training rows only",
 "For every data set and random_state, extract returns a train and a test part that together contain each row exactly once with the requested test size (stratified for classification), with features and label of a row kept together, and is reproducible for a given random_state. "
 "Standardisation and encodings are learnt from the training part only, columns_ names the columns of the returned matrices in order, and the raw data are not changed, so that repeated extractions are independent.",
 ["inputs", "configurations", "histories"],
 "all frames with continuous and/or categorical columns, tasks, encoding options, test sizes, seeds and sequences of extractions",
 "The tests load shipped data sets and check shapes only.",
 ["wildwood/datasets/dataset.py", "wildwood/datasets/loaders.py"],
 [("Dataset.extract / _build_transform", "wildwood/datasets/dataset.py")],
 ["return value and attributes of Dataset.extract"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
