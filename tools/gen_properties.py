#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
D = "multi-target-decision-tree/src/"
G = "multi-target-grad-boost/src/"
C = "common/src/"
TF = D + "split_finders/threshold_finders/threshold_finder_variance.rs"
SF = D + "split_finders/split_finder_variance.rs"
RB = D + "tree/tree_builders/regression_tree_builder.rs"
GB = D + "tree/tree_builders/grad_boost/grad_boost_tree_builder.rs"
AB = D + "tree/tree_builders/grad_boost/approximate_grad_boost_tree_builder.rs"
LO = D + "tree/tree_builders/grad_boost/grad_boost_leaf_output.rs"
PT = D + "utils/data_partitioner.rs"
SC = D + "utils/scorer.rs"
CA = D + "utils/calculations/calculations.rs"
PR = D + "tree/tree_print.rs"
DP = C + "data_processor.rs"
DR = C + "data_reader.rs"
NC = C + "numerical_calculations.rs"
Q = C + "question.rs"
FS = C + "feature_sorter.rs"
BL = G + "ensembles/boosting_loop.rs"
CB = G + "ensembles/common_boosting_functions.rs"
MC = G + "ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs"
AE = G + "ensembles/MultiClassBoosting/AMGBoost/amg_boost_ensemble.rs"
AX = G + "ensembles/MultiClassBoosting/AMGBoost/amg_boost_executor_functions.rs"
AP = G + "ensembles/MultiClassBoosting/AMGBoost/amg_boost_predict_functions.rs"
ME = G + "ensembles/MultiClassBoosting/MultiClassBoost/multi_class_boost_ensemble.rs"
MX = G + "ensembles/MultiClassBoosting/MultiClassBoost/multi_class_boost_executor_functions.rs"
RE = G + "ensembles/RegressionBoost/regression_boost_ensemble.rs"
RX = G + "ensembles/RegressionBoost/regression_boost_executor_functions.rs"
TT = G + "tree_traverse.rs"

def P(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=observe, hook_needed=hook))

props = [
P("C01", "The split search returns a best split and its true gain",
  "For any data set with finite feature values and finite labels, the split search returns a feature and a threshold that is a value observed in that feature, such that dividing the rows into 'value >= threshold' and the rest reduces the label variance (population variance, summed over all targets, the two sides weighted by their share of the rows) at least as much as any other feature and observed value would, up to floating-point rounding of the sums of squared labels. The gain it reports is exactly that reduction (up to the same rounding), also when the feature holds repeated values. It reports a gain of zero if and only if no split reduces the variance, and whenever the gain is positive both sides are non-empty.",
  ["inputs"], "every number of rows, features and targets; repeated, constant, negative, signed-zero, adjacent, very large and very small feature values; every scale of labels",
  "The tests look at the threshold chosen on two 3-row tables and on iris; none computes the gain of the chosen split, none has a competing split hidden behind repeated values.",
  [SF, TF, CA, FS, C+"results.rs"],
  [("scan over the sorted column with running left/right sums, scored on the first row of each value", TF), ("reduction over columns, strict improvement only", SF), ("variance from sum and sum of squares", CA)],
  ["the result of SplitFinder.find_best_split", "the questions of trees built from the pre-sorted data (C06)"]),
P("C02", "A tree partitions its training rows and routes each to its own leaf",
  "In every tree built from a data set, following the tests from the root (feature value >= threshold goes to the true branch, otherwise to the false branch) takes each training row to exactly the leaf that was built from it. The rows held by the leaves together are exactly the training rows, each once, unaltered, in their original relative order and still paired with their own label vector. No leaf is empty and every inner node has both branches and no leaf data.",
  ["inputs", "configurations"], "every data set, depth limit and tree kind (single tree, pre-sorted tree, boosting tree, approximate boosting tree), threaded or not",
  "The tests print trees or score them on data sets where a few misrouted or lost rows still leave accuracy 1.0 or above 0.8.",
  [RB, GB, AB, PT, DP, D+"tree/node.rs", Q],
  [("partition by the node's question and recursion on both sides", RB), ("row/label split", PT), ("test is value >= threshold", Q)],
  ["the tree returned by each tree constructor, walked by the harness's own router"]),
P("C03", "Tree growth stops at the depth limit or when no split helps, and only then",
  "No tree is deeper than the configured maximum number of levels (a limit of 0 gives a single leaf). Above that depth a node is split whenever some split reduces its label variance, and every split that is made is a best one for the rows reaching that node, up to floating-point rounding. A node whose rows all carry the same whole-number label vector is never split.",
  ["inputs", "configurations"], "every data set and every depth limit from 0 to beyond the number of rows, for all tree kinds, threaded or not",
  "The tests use fixed limits and look only at accuracy; a tree that stops early, overshoots the limit or splits badly below the root still passes them.",
  [RB, GB, AB, SF, D+"tree/decision_trees.rs"],
  [("stop condition gain == 0 or level == max_levels", RB+", "+GB+", "+AB), ("split choice per node", SF)],
  ["the tree returned by each tree constructor, re-scored node by node by the harness's oracle"]),
P("C04", "Single-tree predictions and scores are what the reached leaf implies",
  "For a row, the class predicted by a single tree is the one-hot vector of the class most frequent among the one-hot training labels in the leaf the row reaches, the lowest class index winning a tie. Accuracy is the fraction of test rows whose predicted vector equals the row's label vector. The mean squared error is the mean over test rows of the mean over targets of the squared difference between the row's label and the average label of the leaf it reaches, for trees on plain and on pre-sorted data alike.",
  ["inputs"], "every tree (trained or assembled by hand), every test row including rows that lie exactly on, just below and just above a threshold",
  "Tests assert accuracy on iris (9 rows) and on small sets; no passing test checks a mean squared error, a tie or a boundary row.",
  [SC, Q, D+"utils/class_counter.rs", D+"tree/node.rs"],
  [("class counting and arg max", SC), ("leaf average and mean of squared differences", SC), ("routing", SC)],
  ["predict_class, calculate_accuracy, calculate_overall_mean_squared_error and its pre-sorted twin"]),
P("C05", "Threading never changes a result",
  "Building a tree or training an ensemble gives bit-for-bit the same trees, leaf contents and predictions whether multi-threading is switched on or off, for any number of worker threads, under any interleaving of the workers, and on every repetition. Trainings and predictions that run at the same time on different threads do not influence each other and none of them blocks forever.",
  ["schedules", "inputs", "configurations"], "every thread-pool size, every interleaving of parallel subtree builds, column scans and residual computations, and any number of concurrent trainings",
  "Every test runs each training once on one default pool and compares with nothing; a schedule-dependent result passes.",
  [RB, GB, AB, SF, DP, MC, RX],
  [("fork-join of the two subtrees", RB+", "+GB+", "+AB), ("parallel column scan collected in column order", SF), ("parallel residuals collected in row order", RX+", "+MC)],
  ["fingerprints of whole trees and ensembles; split-search calls recorded through the public split-finder function pointer"]),
P("C06", "Building from pre-sorted data gives the same tree as building from plain data",
  "For the same data set and depth limit, the tree built from pre-sorted columns has the same tests and holds the same training rows in each leaf as the tree built from the plain data set, except below a node where two different splits tie up to rounding. Its leaves keep the label vectors of their rows in row order, and the sorted columns of a leaf list exactly those rows. Its mean squared error on any test set is therefore the same.",
  ["inputs", "configurations"], "every data set and depth limit",
  "The only tests that build a tree from pre-sorted data need a file that is not in the repository, so they never run; and they compare nothing.",
  [DP, RB, SF, TF, SC, D+"tree/decision_trees.rs"],
  [("index masks and parallel column split", DP), ("second threshold scan on pre-sorted pairs", TF), ("second split search", SF)],
  ["both trees of the same data walked side by side; the leaves' label references and (value, row) columns"]),
P("C07", "Partitioning by a question loses, duplicates and reorders nothing",
  "Splitting any data set by any question sends each row to exactly one side, the true side if and only if the row's value in the question's feature is >= the question's value, together with its own label vector, and keeps the original relative order of rows on each side; questions that send every row to one side are no exception. The column view of each side is the transpose of its rows. The same holds when a pre-sorted data set (or a subset of one) is split: every column keeps its sorted order and its row references on both sides.",
  ["inputs"], "every data set, every feature and every split value, including values below the minimum, above the maximum and equal to an observed value; repeated partitioning of subsets",
  "The tests of the pre-sorted partition need a missing file and never run; the plain partition has no test of its own.",
  [PT, DP, DR, Q],
  [("row-wise split", PT), ("index masks, label split and parallel column split", DP), ("column view", DR)],
  ["the two data sets returned by the partition functions"]),
P("C08", "Column views and sorted views describe exactly the original rows",
  "The column view of a data set is the exact transpose of its rows. The sorted view of a column contains every value exactly once together with the index of its row, ordered by value and by row index among equal values; the pre-sorted form of a data set keeps its columns in order and refers to the original label vectors in row order. Neither changes the original data.",
  ["inputs"], "every finite column: repeated, constant, negative, signed zero, subnormal and huge values, any length",
  "One 3-row test without repeated values.",
  [DR, FS, DP], [("transpose", DR), ("stable sort by (value, index)", FS), ("pre-sorted data set", DP)],
  ["the values returned by create_feature_columns, get_sorted_feature_tuple_vector and create_dataset_with_sorted_features"]),
P("C09", "CSV loading is faithful and rejects malformed rows",
  "Loading a CSV file with a header line yields one row per record in file order with every number equal to the one written in the file, the last field being the label where features and label share a file, and a column view that is the transpose of the rows. A class label k becomes a one-hot vector of the requested length with the 1 at position k; features and labels read from two files are paired by position; feature names are the header fields in order. A record with a missing, extra or non-numeric field, or a class label beyond the requested number of classes, is rejected and never dropped or altered silently.",
  ["inputs"], "every well-formed numeric CSV (any size, number format, quoting, line ending, with or without final newline) and every position of a malformed field",
  "The tests read the bundled files and print them; only the first one-hot label of iris is asserted.",
  [DR, C+"datasets.rs"], [("record deserialisation", DR), ("label split-off and one-hot encoding", DR), ("header names", DR)],
  ["the data sets returned by the public readers on generated files in a scratch directory"]),
P("C10", "Regression boosting fits each tree to the current residuals",
  "A trained regression ensemble starts from the per-target mean of the training labels. Each tree in turn is a best-split tree, within the depth limit, for the residuals (label minus the current prediction) left by the trees before it, each leaf's output is the per-target mean of the residuals of the training rows reaching it, and adding the learning rate times that output gives the next current prediction. The model holds exactly as many trees as iterations asked for and the learning rate it was given.",
  ["inputs", "histories", "configurations"], "every training set, number of iterations, learning rate, depth limit, threaded or not; every iteration of the run",
  "No passing test trains a regression ensemble at all: the ones that do need a missing file.",
  [BL, RE, RX, CB, LO, GB, NC],
  [("initial guess", BL), ("residuals", RX), ("update of current predictions", CB), ("leaf mean", LO)],
  ["the public trees, initial guess and learning rate of the trained model, replayed iteration by iteration on the training rows; split-search and leaf-output inputs recorded through the public function pointers"],
  [("mutable_labels", "current prediction for each training row", G+"ensembles/boosting_types.rs")]),
P("C11", "Multi-class boosting fits each tree to the softmax residuals",
  "A trained multi-class ensemble starts from 1/K for each of the K classes. Each tree in turn is a best-split tree, within the depth limit, for the residuals 'one-hot label minus softmax of the current scores', each leaf's output for a class is (K-1)/K times the sum of the residuals of the rows reaching it divided by the sum of |r|(1-|r|), and adding the learning rate times that output gives the next current scores. The residuals equal label minus softmax for scores of any size, and the model holds exactly as many trees as iterations asked for and the learning rate it was given.",
  ["inputs", "histories", "configurations"], "every one-hot training set, number of classes, iterations, learning rate, depth limit, threaded or not; every iteration of the run; current scores of any magnitude",
  "The two passing boosting tests train on digits and print; they assert nothing.",
  [BL, ME, MX, MC, CB, LO, GB],
  [("initial guess", BL), ("softmax residuals", MC), ("leaf output", LO), ("update of current scores", CB)],
  ["the public trees, initial guess and learning rate of the trained model, replayed iteration by iteration; the public residual and update helpers"],
  [("mutable_labels", "current scores for each training row", G+"ensembles/boosting_types.rs")]),
P("C12", "Approximate boosting keeps the leading class and balances the others",
  "In a trained approximate (AMGBoost) ensemble every leaf holds the largest component of the multi-class leaf output (as in C11) of the training rows reaching it and the first class attaining it. In training as in prediction such a leaf contributes the learning rate times that value to its class and the learning rate times minus that value / (K-1) to every other class. Each tree in turn is a best-split tree, within the depth limit, for the softmax residuals of the scores so obtained, starting from 1/K, and there are exactly as many trees as iterations asked for.",
  ["inputs", "histories", "configurations"], "every one-hot training set with at least two classes, number of iterations, learning rate, depth limit, threaded or not; every iteration of the run",
  "The passing test trains on digits and prints; it asserts nothing.",
  [BL, AE, AX, AP, AB, MC, LO],
  [("leading value and class", AB), ("approximation of the other classes", AE), ("update of current scores", AX), ("prediction", AP)],
  ["the public trees, initial guess and learning rate of the trained model, replayed iteration by iteration; split-search and leaf inputs recorded through the public function pointers"],
  [("mutable_labels", "current scores for each training row", G+"ensembles/boosting_types.rs")]),
P("C13", "An ensemble predicts the initial guess plus the weighted leaf outputs",
  "For any ensemble and any feature row, the score vector is the initial guess plus the learning rate times the sum, over all trees, of the output of the leaf the row reaches in that tree. A regression ensemble predicts that vector; the two classification ensembles predict the one-hot vector of its largest component, the first one winning a tie. Predicting changes nothing: the same row gives the same answer whatever was predicted before.",
  ["inputs", "histories"], "every ensemble, trained or assembled by hand (any number of trees, any shape, any learning rate), and every row including rows on a threshold",
  "The tests print one prediction per model.",
  [CB, AP, MC, TT, RE, ME, AE, Q],
  [("sum of weighted leaf outputs", CB+", "+AP), ("arg max", MC), ("routing", TT)],
  ["predict of the three model types on hand-assembled and trained ensembles"]),
P("C14", "Ensemble scores equal an independent recomputation from the predictions",
  "Predicting a whole test set yields one prediction per row, in row order, each equal to predicting that row alone. The score of a classification ensemble is the fraction of rows whose predicted one-hot vector equals the row's label vector; the score of a regression ensemble is the mean over rows of the mean over targets of the squared difference between prediction and label.",
  ["inputs"], "every ensemble of the three kinds and every non-empty test set, including rows whose label is not one-hot or repeats",
  "The tests print the scores and assert nothing about them.",
  [RE, ME, AE, MC, NC],
  [("batch prediction", RE+", "+ME+", "+AE), ("accuracy", MC), ("mean squared error", RE)],
  ["calculate_all_predictions and calculate_score of the three model types"]),
P("C15", "Training more iterations only appends trees",
  "Training the same data with the same settings for more iterations yields an ensemble whose first trees are exactly those of the shorter training, with the same initial guess and learning rate; training for zero iterations yields no trees and a model that predicts the initial guess. Repeating a training in the same process, after any other trainings and predictions, yields the identical model.",
  ["histories", "inputs", "configurations"], "every training set and pair of iteration counts for the three ensembles, in any history of other trainings in the process",
  "No test trains the same data twice.",
  [BL, RX, MX, AX], [("loop with one tree per iteration, state carried only in the current predictions", RX+", "+MX+", "+AX), ("model assembly", BL)],
  ["fingerprints of the trees of several trainings"]),
P("C16", "Regression boosting never increases the training error",
  "For a learning rate between 0 and 2, adding each further tree of a regression ensemble never increases the mean squared error on the training rows (up to rounding), so the trained model is never worse on its training data than predicting the label means. With learning rate 1, an unlimited depth and a single feature whose values all differ, one iteration reproduces the training labels up to rounding.",
  ["inputs", "histories", "configurations"], "every training set, depth limit and learning rate in (0, 2), every iteration",
  "No passing test trains a regression ensemble.",
  [RX, CB, LO, BL, RE], [("residual fit with leaf means", RX+", "+LO), ("update", CB)],
  ["the training error after each prefix of the trees, from the model's own predictions"]),
P("C17", "Training and prediction never produce NaN or infinity from ordinary data",
  "Training any of the single trees or ensembles on finite data of moderate magnitude with correctly encoded labels terminates without panicking, and all thresholds, leaf outputs, scores and predictions are finite, for every number of iterations, also long after the training rows are fitted perfectly. Predictions of the classification ensembles are always one-hot vectors.",
  ["inputs", "histories", "configurations"], "every training set (separable, contradictory, single row, single class, single feature, constant features), hundreds of iterations, learning rates from 0 up to well above 1",
  "The tests stop at 50 iterations with learning rate 0.1, before any row saturates.",
  [LO, MC, BL, CB, AX, AP, SF], [("guarded division in the leaf output", LO), ("shifted exponentials in the softmax", MC), ("strict comparisons against infinity in the scan", TF)],
  ["every number in the trained models and in their predictions"]),
P("C18", "Learning depends on the information in the data, not on its representation",
  "Reordering the training rows, replacing a feature by a strictly increasing function of it (with test rows transformed alike), multiplying all labels by a positive constant, adding a constant to a target's labels, reordering the targets, repeating every target equally often, reordering the feature columns, repeating every row equally often, or adding a constant or duplicated feature column leaves a tree's grouping of the training rows unchanged, and its leaf values change only in the corresponding way, except below nodes where different splits tie up to rounding. The same holds for the predictions of a regression ensemble on training rows; the predictions of both classification ensembles on training rows are likewise unaffected by reordering rows or feature columns, by increasing transformations of features, by added columns and by repeating every row, follow a reordering of the classes, and all of this as far as their leaf values are determined beyond rounding.",
  ["inputs"], "every data set and every transformation of the listed kinds",
  "No test trains on two representations of the same data.",
  [SF, TF, CA, FS, PT, RB, GB, BL], [("only order comparisons on features, only sums over rows and targets on labels", SF+", "+TF)],
  ["trees and regression ensembles trained on both representations, compared node by node"]),
P("C19", "The printed tree is a faithful rendering of the tree",
  "Printing a tree writes, in depth-first order with the true branch before the false branch, one line per inner node naming the tested feature and its threshold (a number that reads back as exactly the same value) and one line per leaf with all of its training data, indented deeper than its parent. The tree can be rebuilt from the text without loss, for any feature names.",
  ["inputs"], "every tree and every list of feature names",
  "The two printing tests print a single leaf each and capture nothing.",
  [PR, Q], [("recursive printing", PR), ("question text", Q)],
  ["standard output of a child process that prints generated trees"]),
P("C20", "Vector arithmetic is element-wise and exact to rounding",
  "The vector helpers return, position by position, the sum, difference, product, quotient or scalar multiple of their arguments; the average and the sum of a list of vectors are taken per position over all of them; and the mean squared difference is the mean over positions of the squared difference. Two arguments of different lengths are rejected rather than truncated, and arguments are left unchanged.",
  ["inputs"], "all vectors of all lengths, including empty, negative, zero, subnormal and very large elements",
  "One test on two equal vectors of length three, where sum, product and order mistakes can cancel.",
  [NC], [("zip and map with a length assertion", NC)],
  ["the values returned by the public helpers"]),
P("C21", "The program reports the true test error of the model it trains",
  "Run in a directory holding the four multi-target files (with ten label columns), the command-line program trains a regression ensemble (300 iterations, learning rate 0.1, depth limit 3) on the two training files and prints the 11th training label vector, the mean squared error on the two test files, its square root, and the label and prediction of the first test row. The printed numbers are those of that model on those files. If one of the files is missing or holds a malformed record, the program fails and reports no error value.",
  ["inputs"], "every set of four well-formed files with ten targets and more than ten training rows, and every such set with one file missing or with a record that is no list of numbers of the header's length",
  "The program is never run by a test, and its training file is not in the repository.",
  ["main/src/main.rs", RE, DR], [("file names, configuration and order of reports", "main/src/main.rs")],
  ["standard output of the built program in a scratch directory"]),
P("C22", "Parallel training has no data race, undefined behaviour or memory error",
  "No execution of tree building, ensemble training, partitioning, scoring or prediction, with any number of worker threads, contains a data race, an out-of-bounds or use-after-free access, a read of uninitialised memory or any other undefined behaviour in this project's code.",
  ["schedules", "inputs"], "every interleaving and every input",
  "The tests run without any sanitizer or interpreter.",
  [RB, GB, AB, SF, DP, MC, RX], [("safe Rust; fork-join and parallel iterators only", "whole workspace")],
  ["thread and address sanitizer builds and Miri runs of training workloads"]),
P("C23", "Leaf-output formulas hold for every set of residuals",
  "For any non-empty set of residual vectors, the regression leaf output is their per-target mean, and the multi-class leaf output (for residuals between -1 and 1) is, per class, (K-1)/K times the sum of the residuals divided by the sum of |r|(1-|r|), or zero where that divisor vanishes. Both are independent of the order of the rows up to rounding, have one entry per target and never change the data.",
  ["inputs"], "every number of rows and targets and all residuals in [-1, 1], including exact 0, 1 and -1 and values that differ from them by rounding",
  "One test computes a value by hand with the wrong factor and prints it.",
  [LO, NC], [("mean", LO), ("sum over denominator with guard", LO)],
  ["the output of the leaf-output calculators"]),
P("C24", "Raising the depth limit only refines the tree",
  "The tree grown with a smaller depth limit is the tree grown with a larger limit (same data, same configuration otherwise) cut off at the smaller limit: the same questions above it, and each cut-off leaf holds exactly the rows of the leaves below it. Hence the training error of a regression tree never grows, and the training accuracy of a classification tree never falls, when the limit is raised; and a limit that no tree reaches has no effect on trees or ensembles.",
  ["inputs"], "every data set and every pair of depth limits from 0 to the largest number, for all kinds of trees",
  "No test builds one data set with two limits.",
  [RB, GB, AB, SF], [("levels counted from the root and compared with number_of_levels", RB+", "+GB+", "+AB)],
  ["public nodes of trees built with several limits; the project's scorers on training rows"]),
P("C25", "What is dropped is freed, and a model holds only its trees",
  "Using the library leaves nothing behind: repeating training, prediction, scoring, partitioning, sorting, printing or reading of files any number of times, calls that are refused included, does not make the process hold more memory, open files or threads than one repetition needs, once the results are dropped. A trained ensemble or a boosting tree holds only its nodes: its memory does not depend on the number of training rows, nor does a process that keeps many models grow otherwise than by their nodes.",
  ["histories", "inputs"], "every number of repetitions, every order of uses and every data set",
  "Each test runs once in a process that then ends.",
  [RB, GB, AB, BL, ME, AE, RE, DR, CB], [("owned values, dropped at the end of scope; no global state", "whole workspace"), ("boosting leaves keep an output, not rows", GB)],
  ["live bytes of a counting allocator, /proc/self/fd and /proc/self/task of a process that repeats sessions"]),
P("C26", "Learners coincide wherever their definitions coincide",
  "On the same data and limits: a boosting tree whose leaf output is the mean is the regression tree with its means in the leaves, and the approximate boosting tree has the same questions with each leaf holding the largest mean and its class; a one-iteration regression ensemble with learning rate 1 predicts and scores as the regression tree; the first tree of either classification ensemble groups the rows as the regression tree on the one-hot labels, a leaf value being K times the class's share minus 1; a one-iteration classification ensemble predicts the most frequent class of the leaf where it is unique; and with two classes both classification ensembles predict alike. All up to rounding and ties.",
  ["inputs"], "every data set, depth limit and, for the ensembles, number of iterations and learning rate",
  "No test trains two kinds of learners on the same data.",
  [RB, GB, AB, LO, BL, ME, AE, AX, MX, RE, SC], [("one split search shared by all builders", SF), ("shared initial guess, residuals and update", MC+", "+CB)],
  ["public nodes of the trees, and predictions and scores of the ensembles, trained by several learners"]),
]
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
for p in props:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    for f in p["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
