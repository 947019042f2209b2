#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line).  Edit here, run, commit both."""
import json, os
C = "common/src/"
T = "multi-target-decision-tree/src/"
G = "multi-target-grad-boost/src/ensembles/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for (n, m, w) in (state or [])],
            "mechanism": [{"name": n, "where": w} for (n, w) in mechanism],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })

prop("D01", "CSV ingestion is exact and loses nothing",
     "Reading a data file with a header line yields every record, in file order, with exactly the numeric values written; for a one-file data set the last column becomes the label and the others the features, for a two-file data set the two files become features and labels row by row, and the per-column view is the transpose of the rows. The header names are reported in order. A ragged or non-numeric record makes the read fail; it is never dropped, truncated or turned into another value. A feature and a label file with different numbers of records fail to read as one data set.",
     ["inputs"], "all small tables (rows x columns) over an alphabet of number spellings, line endings, quoting, blank lines and trailing newline, and every placement of one malformed record",
     "The existing tests read three fixed files and mostly print them; no test feeds a malformed record, one row, one column, CRLF or extreme values.",
     [C + "data_reader.rs"],
     [("strict csv deserialisation, error unwrapped", C + "data_reader.rs read_data"), ("last column popped as the label", C + "data_reader.rs parse_data_into_features_and_labels"), ("transposition", C + "data_reader.rs create_feature_columns")],
     observe=["read_csv_data", "read_csv_data_one_hot_multi_target", "read_csv_data_multi_target", "get_feature_names"])

prop("D02", "Class labels are one-hot encoded exactly",
     "When a labelled file is read as a K-class problem, the row whose label is k becomes a K-long vector that is 1 at position k and 0 elsewhere, for every class k in 0..K, for every row, in row order. A label that is none of them - K or more, negative, fractional, infinite or not a number - makes the read fail instead of being stored as some class.",
     ["inputs"], "all K up to 12 and all label sequences up to a small length over the classes, plus every out-of-range label K..K+3 at every position",
     "One test looks at the first row of one file.",
     [C + "data_reader.rs"],
     [("index by the label's integer value", C + "data_reader.rs create_multi_target_labels")],
     observe=["read_csv_data_one_hot_multi_target"])

prop("D03", "Sorted feature columns are faithful sorted views",
     "The sorted-column view of a data set holds, for every feature column, every row exactly once together with that row's own value, in non-decreasing value order and with equal values in row order. The labels are those of the rows, in row order.",
     ["inputs"], "all columns up to length 7 over a 3-4 value alphabet with duplicates, negative zero, infinities and subnormals, and structured columns up to several hundred rows",
     "One test sorts one three-element column without ties.",
     [C + "feature_sorter.rs", C + "data_processor.rs"],
     [("sort of (value,row) pairs", C + "feature_sorter.rs get_sorted_feature_tuple_vector"), ("view construction", C + "data_processor.rs create_dataset_with_sorted_features")],
     observe=["get_sorted_feature_tuple_vector", "create_dataset_with_sorted_features"])

prop("D04", "Row partitioning is an exact, order-preserving cover",
     "Splitting a data set by a question 'is feature c at least v' puts every row on exactly one side: on the true side exactly when its value in column c is >= v. On both sides each row keeps its own label vector, rows keep their relative order, and the per-column view is the transpose of that side's rows, including when one side is empty.",
     ["inputs"], "all small data sets (rows, columns, duplicate values) x every column x every threshold below, between, at and above the values present",
     "No unit test calls the partitioner; it is only exercised inside training on fixed files, never with an empty side.",
     [T + "utils/data_partitioner.rs", C + "question.rs", C + "data_reader.rs"],
     [("row routing by the question", T + "utils/data_partitioner.rs partition"), (">= comparison", C + "question.rs Question::solve"), ("column rebuild", C + "data_reader.rs create_feature_columns")],
     observe=["data_partitioner::partition", "Question::solve"])

prop("D05", "Sorted-column partitioning is an exact cover",
     "Splitting a sorted-column data set at (column, value) puts every row that is still in it on exactly one side: on the true side exactly when its value there is >= the split value, in the labels and in every feature column alike. Each side keeps all its columns sorted with original row numbers, and labels in original row order. This holds for data sets that are themselves the result of earlier splits.",
     ["inputs", "histories"], "all small data sets x all sequences of up to three successive splits (column, threshold below/at/between/above) following either side",
     "The three tests of this module need a training file that is not in the repository and fail; they check only side sizes for one threshold.",
     [C + "data_processor.rs"],
     [("membership flags from the split column", C + "data_processor.rs collect_indices_for_partitioning"), ("label and column distribution", C + "data_processor.rs collect_partitioned_labels / collect_partitioned_feature_columns")],
     observe=["data_processor::new_partition"])

prop("D06", "Vector arithmetic is element-wise and length-checked",
     "The vector helpers compute the element-wise sum, difference, product, quotient and scalar multiple, the per-position sum and average over a list of vectors, and the mean squared difference, each position from that position's inputs only. Combining two vectors of different lengths fails instead of returning a shortened result.",
     ["inputs"], "all pairs of vectors up to length 4 over a value alphabet including zeros, negatives, huge and infinite values, all length-mismatch pairs, all lists of up to 4 vectors",
     "One test applies each helper to the vector [1,2,3] and itself; a mismatch is never tried.",
     [C + "numerical_calculations.rs"],
     [("length assertion before zip", C + "numerical_calculations.rs")],
     observe=["common::numerical_calculations::*"])

prop("S01", "The chosen split is a best split and its gain is true",
     "Among all questions 'feature c >= v' that separate the rows, the split search returns one whose reduction of the size-weighted label variance, summed over all targets, is maximal, and the gain it reports is the reduction that this very question achieves. It reports zero gain only when no question reduces the variance. Both hold up to rounding relative to the squared label magnitude.",
     ["inputs"], "all data sets with up to 5 rows, up to 3 features with duplicate values and up to 2-3 targets over small alphabets, several scales and offsets, and structured data sets up to hundreds of rows",
     "The tests check the chosen threshold on two toy tables and one file, where no wrong candidate happens to win.",
     [T + "split_finders/split_finder_variance.rs", T + "split_finders/threshold_finders/threshold_finder_variance.rs", T + "utils/calculations/calculations.rs"],
     [("incremental left/right label statistics over the sorted column", T + "split_finders/threshold_finders/threshold_finder_variance.rs"), ("candidate evaluation only on a new feature value", T + "split_finders/threshold_finders/threshold_finder_variance.rs"), ("best column selection", T + "split_finders/split_finder_variance.rs")],
     observe=["SplitFinder::find_best_split", "root question of a trained tree"])

prop("T01", "A regression tree is a correct recursive partition",
     "In a trained regression tree every inner node's question separates the training rows that reach it into two non-empty parts and is a best variance-reducing split of them, the true branch receives exactly the rows answering yes, and every leaf holds exactly the training rows routed to it with their labels. A node is a leaf exactly when the level limit is reached or no split of its rows reduces the variance; no path is longer than the limit.",
     ["inputs", "configurations"], "all small data sets x level limits 0..4 x single and multi-threaded configuration, plus structured data sets giving deep and wide trees",
     "The tests check accuracy of trees on fixed files; structure, leaf contents and limits are never inspected.",
     [T + "tree/tree_builders/regression_tree_builder.rs", T + "tree/node.rs", T + "tree/decision_trees.rs", T + "utils/data_partitioner.rs"],
     [("recursive builders", T + "tree/tree_builders/regression_tree_builder.rs"), ("stop rule gain == 0 or level limit", T + "tree/tree_builders/regression_tree_builder.rs")],
     state=[("(rows, level)", "rows reaching a node and its depth", T + "tree/tree_builders/regression_tree_builder.rs")],
     observe=["RegressionMultiTargetDecisionTree::new", "TreeNode fields"])

prop("T02", "The two tree builders produce the same tree",
     "The tree trained from the sorted-column view of a data set has the same shape, questions and leaf membership as the tree trained row by row from the data set itself under the same level limit, and scores any test set with the same mean squared error.",
     ["inputs", "configurations"], "all small data sets with ties between rows, thresholds and columns x level limits, plus structured larger data sets",
     "The only test of the sorted-column builder needs a file that is not in the repository, and compares nothing.",
     [T + "tree/tree_builders/regression_tree_builder.rs", T + "split_finders/split_finder_variance.rs", T + "split_finders/threshold_finders/threshold_finder_variance.rs", C + "data_processor.rs"],
     [("sorted-column builder", T + "tree/tree_builders/regression_tree_builder.rs build_regression_tree_new_partition"), ("sorted-column partition", C + "data_processor.rs new_partition")],
     observe=["RegressionMultiTargetDecisionTree::new", "RegressionMultiTargetDecisionTreeNewPartition::new"])

prop("T03", "The level limit only truncates; deeper never fits worse",
     "Training a tree, of the regression or the boosting kinds, with a smaller level limit gives the same tree cut off at that level, so limit 0 predicts the overall mean. On the training set the mean squared error never increases when the limit grows. With a large enough limit, a single-feature data set whose equal feature values carry equal labels is fitted exactly, as far as its label differences are not lost in the rounding of the squared labels.",
     ["inputs", "configurations"], "all small data sets x every pair of level limits up to the depth at which the tree is complete, for every tree kind",
     "No test trains the same data with two limits.",
     [T + "tree/tree_builders/regression_tree_builder.rs", T + "tree/tree_builders/grad_boost/grad_boost_tree_builder.rs", T + "tree/tree_builders/grad_boost/approximate_grad_boost_tree_builder.rs"],
     [("level counter and stop rule", T + "tree/tree_builders/*")],
     observe=["tree constructors", "scorer::regression"])

prop("T04", "Training does not depend on how the data are presented",
     "Applying a strictly increasing map to a feature column changes no training row's route or leaf. When no two candidate splits tie, permuting rows, feature columns or targets, or repeating every row, permutes or keeps the predictions accordingly, and multiplying all labels by a power of two multiplies the predictions by it.",
     ["inputs", "configurations"], "all small tie-free data sets x all row, column and target permutations x a set of increasing maps, scales and repetition counts",
     "No test trains twice on a transformed data set.",
     [T + "split_finders/split_finder_variance.rs", T + "split_finders/threshold_finders/threshold_finder_variance.rs", C + "feature_sorter.rs"],
     [("order-based split search", T + "split_finders/threshold_finders/threshold_finder_variance.rs")],
     observe=["tree constructors", "ensemble predictions"])

prop("T05", "The printed tree is the tree",
     "Printing a tree writes, in depth-first order with the true branch first and indentation growing with depth, one question line per inner node, naming that node's feature and threshold, its True and False branches, and one prediction line per leaf showing that leaf's contents.",
     ["inputs"], "all trees trained from small data sets over all level limits, with distinct feature names",
     "The printing tests assert nothing: they print and return.",
     [T + "tree/tree_print.rs", C + "question.rs"],
     [("recursive printer", T + "tree/tree_print.rs"), ("question text", C + "question.rs Question::to_string")],
     observe=["standard output of print_tree_regression"])

prop("E01", "Single-tree predictions and scores are what the leaf says",
     "A row is predicted from the leaf that its answers lead to: the class held by most of that leaf's training rows, as a one-hot vector, or the mean of that leaf's labels. The accuracy of a test set is the fraction of rows whose predicted vector equals the label vector, and the overall error is the average over rows of the mean squared difference over targets; both are independent of the order of the test rows.",
     ["inputs"], "all small training sets x level limits x all test rows over an extended feature alphabet (below, at, between, above) x all small test sets",
     "The tests compare one accuracy on one file and one predicted row.",
     [T + "utils/scorer.rs", T + "utils/class_counter.rs", C + "question.rs"],
     [("leaf lookup", T + "utils/scorer.rs find_leaf_node_for_data"), ("majority count", T + "utils/scorer.rs predict_class"), ("error averaging", T + "utils/scorer.rs regression")],
     observe=["predict_class", "calculate_accuracy", "calculate_overall_mean_squared_error", "calculate_overall_mean_squared_error_new_partition"])

prop("L01", "Boosting leaf outputs follow their loss and stay finite",
     "A regression boosting leaf outputs the per-target mean of its residuals. A classification boosting leaf with K classes outputs, per class, (K-1)/K times the sum of the residuals divided by the sum of |r|(1-|r|), and 0 where that divisor is zero; the output is finite for all residuals in [-1,1]. The approximate variant keeps the largest output and the first class attaining it.",
     ["inputs"], "all leaves of up to 4 rows and up to 3-4 classes over a residual alphabet including exact 0, +-1 and values next to them",
     "The one test of leaf outputs prints a number and asserts nothing.",
     [T + "tree/tree_builders/grad_boost/grad_boost_leaf_output.rs", T + "tree/tree_builders/grad_boost/approximate_grad_boost_tree_builder.rs", C + "numerical_calculations.rs"],
     [("leaf formulas", T + "tree/tree_builders/grad_boost/grad_boost_leaf_output.rs"), ("arg max", T + "tree/tree_builders/grad_boost/approximate_grad_boost_tree_builder.rs find_max_value_and_index_from_vector")],
     observe=["LeafOutputCalculator::calculate_leaf_output", "GradBoostMultiTargetDecisionTree", "AMGBoostTree"])

prop("B01", "Regression boosting is stagewise residual fitting",
     "A trained regression ensemble starts from the per-target label mean; its i-th tree is a correct regression tree for the residuals left by the start value plus the learning-rate-weighted outputs of the trees before it, and has the mean residual in every leaf. It has exactly as many trees as iterations were asked for, and predicts any row as start value plus the learning-rate-weighted sum of all trees' leaf outputs for that row.",
     ["inputs", "histories", "configurations"], "all small data sets x level limits x iterations 0..4 (structured sets up to 60) x learning rates {0,0.1,0.5,1,1.5} x single/multi-threaded, probed on all rows of an extended alphabet",
     "The tests of regression boosting need a file that is not in the repository; the others print a score.",
     [G + "boosting_loop.rs", G + "RegressionBoost/regression_boost_ensemble.rs", G + "RegressionBoost/regression_boost_executor_functions.rs", G + "common_boosting_functions.rs", T + "tree/tree_builders/grad_boost/grad_boost_tree_builder.rs"],
     [("boosting loop", G + "boosting_loop.rs"), ("residuals and label update", G + "RegressionBoost/regression_boost_executor_functions.rs, common_boosting_functions.rs"), ("prediction sum", G + "common_boosting_functions.rs predict_common")],
     state=[("mutable labels", "current prediction per training row after i trees", G + "boosting_types.rs GradBoostTrainingData")],
     observe=["RegressionBoostModel fields", "RegressionBoostModel::predict"])

prop("B02", "Multi-class boosting is stagewise on softmax residuals",
     "A trained multi-class ensemble starts every class at 1/K; its i-th tree is a correct tree for the differences between the one-hot labels and the softmax of the scores accumulated so far, with the classification leaf output in every leaf. It has exactly as many trees as iterations asked for, and predicts any row as the one-hot vector of the first class with the largest accumulated score.",
     ["inputs", "histories", "configurations"], "all small labelled data sets (K = 2..4) x level limits x iterations 0..4 (structured sets up to 40) x learning rates x single/multi-threaded, probed on all rows of an extended alphabet",
     "The test trains on digits and prints the accuracy without asserting anything.",
     [G + "MultiClassBoosting/MultiClassBoost/multi_class_boost_ensemble.rs", G + "MultiClassBoosting/MultiClassBoost/multi_class_boost_executor_functions.rs", G + "MultiClassBoosting/common_multi_class_boosting_functions.rs", G + "common_boosting_functions.rs", G + "boosting_loop.rs"],
     [("softmax residuals", G + "MultiClassBoosting/common_multi_class_boosting_functions.rs calculate_residuals"), ("arg max", G + "MultiClassBoosting/common_multi_class_boosting_functions.rs get_binary_prediction")],
     state=[("mutable labels", "current scores per training row", G + "boosting_types.rs GradBoostTrainingData")],
     observe=["MultiClassBoostModel fields", "MultiClassBoostModel::predict"])

prop("B03", "Approximate boosting trains and predicts with the same model",
     "An approximate (AMG) ensemble stores per leaf one class and its output m; wherever the leaf is used, in training and in prediction, it stands for the vector with m at that class and -m/(K-1) elsewhere. Its i-th tree is a correct tree for the softmax residuals of the scores accumulated that way, and a row is predicted as the one-hot vector of the first class with the largest accumulated score.",
     ["inputs", "histories", "configurations"], "all small labelled data sets (K = 2..4) x level limits x iterations 0..4 (structured sets up to 40) x learning rates x single/multi-threaded, probed on all rows of an extended alphabet",
     "The test trains on digits and prints the accuracy without asserting anything.",
     [G + "MultiClassBoosting/AMGBoost/amg_boost_ensemble.rs", G + "MultiClassBoosting/AMGBoost/amg_boost_executor_functions.rs", G + "MultiClassBoosting/AMGBoost/amg_boost_predict_functions.rs", T + "tree/tree_builders/grad_boost/approximate_grad_boost_tree_builder.rs"],
     [("training update", G + "MultiClassBoosting/AMGBoost/amg_boost_executor_functions.rs update_dataset_labels"), ("prediction expansion", G + "MultiClassBoosting/AMGBoost/amg_boost_predict_functions.rs construct_approximate_leaf_output")],
     state=[("mutable labels", "current scores per training row", G + "boosting_types.rs GradBoostTrainingData")],
     observe=["AMGBoostModel fields", "AMGBoostModel::predict"])

prop("B04", "Regression boosting never worsens the training error",
     "For a learning rate between 0 and 1, the training mean squared error of a regression ensemble does not increase from one iteration to the next, up to rounding. With rate 1 and enough levels, a single-feature data set whose equal feature values carry equal labels is fitted exactly after one iteration and stays fitted, as far as its label differences are not lost in the rounding of the squared labels.",
     ["inputs", "histories"], "all small data sets x level limits x rates {0.1,0.5,1} x every iteration up to 8 (structured sets up to 100)",
     "No test compares scores across iteration counts.",
     [G + "RegressionBoost/regression_boost_executor_functions.rs", G + "common_boosting_functions.rs", G + "boosting_loop.rs"],
     [("residual fitting", G + "RegressionBoost/regression_boost_executor_functions.rs")],
     observe=["RegressionBoostModel::calculate_score"])

prop("B05", "More classification boosting never collapses the model",
     "For every learning rate up to 1 and any number of iterations all leaf outputs of the classification ensembles are finite and every prediction is a valid one-hot vector. On data whose classes a tree can separate by a single feature, all training rows stay correctly classified for every number of iterations from the first on, unless the rate is so small that its steps vanish in rounding.",
     ["inputs", "histories", "configurations"], "all small labelled single- and two-feature data sets (K = 2..4) x level limits x rates {0.1,0.5,1} x every iteration count up to 60-200",
     "The tests use 50 iterations at rate 0.1 on one file and assert nothing about the result.",
     [T + "tree/tree_builders/grad_boost/grad_boost_leaf_output.rs", G + "MultiClassBoosting/common_multi_class_boosting_functions.rs", G + "MultiClassBoosting/AMGBoost/amg_boost_executor_functions.rs"],
     [("leaf output division", T + "tree/tree_builders/grad_boost/grad_boost_leaf_output.rs"), ("softmax", G + "MultiClassBoosting/common_multi_class_boosting_functions.rs")],
     observe=["leaf outputs", "predictions of MultiClassBoostModel and AMGBoostModel"])

prop("B06", "Ensemble batch predictions and scores match single predictions",
     "Predicting a test set returns one prediction per row, in row order, each equal to predicting that row alone. The score of a classification ensemble is the fraction of rows whose prediction equals the label vector; the score of a regression ensemble is the average over rows of the mean squared difference over targets.",
     ["inputs"], "small trained ensembles of every kind x all test sets up to 3-4 rows over an extended feature alphabet x all label assignments",
     "The tests print a score and one prediction and assert nothing.",
     [G + "RegressionBoost/regression_boost_ensemble.rs", G + "MultiClassBoosting/MultiClassBoost/multi_class_boost_ensemble.rs", G + "MultiClassBoosting/AMGBoost/amg_boost_ensemble.rs", G + "MultiClassBoosting/common_multi_class_boosting_functions.rs"],
     [("batch loop", G + "*/ calculate_all_predictions of the three ensembles"), ("score", G + "MultiClassBoosting/common_multi_class_boosting_functions.rs calculate_accuracy_from_predictions; RegressionBoost/regression_boost_ensemble.rs calculate_mean_squared_error")],
     observe=["calculate_all_predictions", "calculate_score"])

prop("B07", "Training longer only appends trees",
     "The first k trees of an ensemble trained for n >= k iterations, and its start value, are exactly those of the ensemble trained for k iterations on the same input. Training is repeatable: the same call gives the same model.",
     ["histories", "inputs"], "all small data sets x ensemble kinds x single/multi-threaded x every pair k <= n up to 6 (structured sets up to 40)",
     "No test trains the same data twice.",
     [G + "boosting_loop.rs", G + "RegressionBoost/regression_boost_executor_functions.rs", G + "MultiClassBoosting/MultiClassBoost/multi_class_boost_executor_functions.rs", G + "MultiClassBoosting/AMGBoost/amg_boost_executor_functions.rs"],
     [("sequential loop", G + "boosting_loop.rs and the three executors")],
     observe=["model fields"])

prop("R01", "Every well-formed data set can be learned and scored",
     "Training any of the learners - either regression tree builder, the boosting trees, the three ensembles - on any data set with at least one row and one column, no NaN and finite labels of moderate size (squares do not overflow), at any level limit, number of iterations, learning rate in (0,1] and threading setting, terminates without failing. Every stored or predicted number is finite, every predicted class vector is one-hot, a single tree's means lie within the range of the training labels, accuracies lie between 0 and 1 and errors are not negative.",
     ["inputs", "configurations"], "all small data sets over alphabets with infinities, signed zeros, subnormals and labels from 1e-310 to 1e150, every table shape up to 17x6x5, degenerate columns and labels, x every learner, predictor and scorer",
     "The tests train on a handful of well-behaved files only.",
     [T + "split_finders/split_finder_variance.rs", T + "split_finders/threshold_finders/threshold_finder_variance.rs", T + "tree/tree_builders/regression_tree_builder.rs", T + "utils/scorer.rs", G + "boosting_loop.rs"],
     [("search over empty candidate sets", T + "split_finders/split_finder_variance.rs"), ("stop rule", T + "tree/tree_builders/*"), ("guarded division", T + "tree/tree_builders/grad_boost/grad_boost_leaf_output.rs")],
     observe=["every constructor, predictor and scorer"])

prop("H01", "Calls do not influence one another",
     "Every library call - reading a file, sorting, splitting, training any model, predicting, scoring - returns the same result whatever calls were made before it in the process, and leaves its arguments and previously returned models unchanged in what they predict.",
     ["histories"], "all sequences of up to three (thorough: four) calls over an alphabet of calls on colliding data sets, each sequence in a fresh process, on one thread and from several",
     "Each test runs one call chain; no test compares a call's result across histories.",
     [C + "data_reader.rs", C + "data_processor.rs", T + "tree/decision_trees.rs", T + "tree/grad_boost_decision_trees.rs", G + "boosting_loop.rs"],
     [("no shared mutable state; data passed by value", "all modules")],
     observe=["results of every public call"])

prop("C01", "Multi-threaded tree training equals single-threaded, always",
     "For every schedule of the worker threads and every pool size, training a regression, boosting or approximate-boosting tree with multi-threading enabled terminates and gives exactly the tree that single-threaded training gives: same questions, same branches, same leaf contents.",
     ["schedules", "inputs", "configurations"], "for each of a set of colliding data sets and tree kinds: all schedules of 1-3 workers up to a preemption bound, with steals, splits and any atomic access in the library as scheduling points",
     "The multi-threaded tests run once under whatever schedule the machine produces, and compare with nothing.",
     [T + "tree/tree_builders/regression_tree_builder.rs", T + "tree/tree_builders/grad_boost/grad_boost_tree_builder.rs", T + "tree/tree_builders/grad_boost/approximate_grad_boost_tree_builder.rs"],
     [("fork-join recursion, results joined by position", T + "tree/tree_builders/*")],
     observe=["tree constructors with use_multi_threading"])

prop("C02", "Parallel split search and partitioning are schedule-independent",
     "The split search examines feature columns in parallel, and the sorted-column partition distributes them in parallel; for every schedule and pool size they return the result a sequential left-to-right pass would: the same question and gain, also when columns tie, and the columns in order.",
     ["schedules", "inputs"], "for data sets with tied and duplicate columns (2-6 columns): all schedules of 1-4 workers up to a preemption bound",
     "The tests run under one schedule; a tie between columns never occurs in them.",
     [T + "split_finders/split_finder_variance.rs", C + "data_processor.rs"],
     [("ordered parallel collect, then sequential selection", T + "split_finders/split_finder_variance.rs find_best_split"), ("ordered parallel unzip", C + "data_processor.rs collect_partitioned_feature_columns")],
     observe=["SplitFinder::find_best_split", "data_processor::new_partition", "RegressionMultiTargetDecisionTreeNewPartition::new"])

prop("C03", "Boosting is the same under every schedule",
     "For every schedule and pool size, training a regression, multi-class or approximate ensemble terminates and gives the same start value and the same trees as training it on one thread, so all later predictions agree.",
     ["schedules", "inputs", "configurations"], "for each of a set of small data sets, ensemble kinds, level limits and 1-3 iterations: all schedules of 1-3 workers up to a preemption bound",
     "The multi-threaded boosting tests run once and print an accuracy.",
     [G + "RegressionBoost/regression_boost_executor_functions.rs", G + "MultiClassBoosting/common_multi_class_boosting_functions.rs", G + "MultiClassBoosting/AMGBoost/amg_boost_executor_functions.rs", T + "tree/tree_builders/grad_boost/grad_boost_tree_builder.rs"],
     [("parallel residuals collected in row order", G + "*/calculate_residuals"), ("sequential label update between trees", G + "common_boosting_functions.rs update_common")],
     observe=["model fields after train"])

prop("C04", "Models can be trained and used from several threads at once",
     "When several application threads train models and predict, score or partition at the same time, including on one shared model, every call returns what it returns when run alone, no call blocks another forever, and no schedule changes a result.",
     ["schedules", "histories"], "2-3 application threads with 1-2 calls each (train, predict, score, split) over a pool of 1-2 workers: all schedules up to a preemption bound",
     "No test uses the library from more than one application thread.",
     [G + "boosting_ensemble.rs", G + "common_boosting_functions.rs", T + "utils/scorer.rs", T + "tree/decision_trees.rs", "multi-target-grad-boost/src/tree_traverse.rs"],
     [("no shared mutable state; read-only models", "all modules")],
     observe=["results of concurrent calls"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
