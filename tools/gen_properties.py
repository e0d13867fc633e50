#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

NODATA = "The repository's own tests that reach this code need data files that are not in the repository and assert almost nothing (they print). "

prop("C01", "Every tree split is the best admissible split (exact greedy growth)",
 "A tree node is split on the feature and cut that give the best objective (largest regularised gain for xgboost trees, lowest squared-error objective for plain trees) over all allowed columns and all cuts between distinct neighbouring values that leave at least the minimum number of samples on both sides; the reported score is that objective and the cut is the midpoint of the two values. A node stays a leaf only when the depth limit is reached, no admissible cut exists, or (xgboost) no admissible cut has positive gain.",
 ["inputs", "configurations"], "All finite feature matrices (ties, adjacent floats and huge values included), targets or gradients/hessians, row subsets in any order, column subsets, lambda, gamma, minimum child weights and depths.",
 NODATA + "Optimality is a statement about every alternative split of every node of every data set.",
 ["tree.go", "utils/math.go"], [("split search", "tree.go findBetterSplit"), ("node insertion", "tree.go maybeInsertChildNode"), ("argsort", "utils/math.go MemArgSort")],
 ["NewTree", "Tree.JNode", "Tree.Leftf/Rightf"], [{"name": "bestScoreSoFar", "meaning": "objective of the chosen split", "where": "tree.go"}])

prop("C02", "Trees partition their samples; prediction returns the reached leaf's value",
 "In every tree the samples of a node are split, without loss, duplication or an empty side, into those at or below the cut and those above it, down to at most the depth limit; a leaf's value is -G/(H+lambda) (xgboost) or the mean target (plain) of exactly its own samples, and the sample lists (where asked for), sample counts and node counts that nodes report are exact. Predicting any vector, alone or in a batch (into a fresh slice or a given one that is long enough), returns the value of the leaf reached by that same rule, also for vectors not seen in training, and reusing the same tree options for several trees does not change any of them.",
 ["inputs", "configurations", "histories"], "All finite matrices, targets, row/column subsets, options, and all query vectors, including values equal to a cut and infinities; all sequences of trees built with one options value.",
 NODATA + "Consistency between training-time partition and prediction-time routing must hold for every node and every query.",
 ["tree.go", "utils/math.go", "xjson.go"], [("partition", "tree.go maybeInsertChildNode"), ("leaf value", "tree.go NewTree"), ("routing", "tree.go PredictSingle/Predict")],
 ["NewTree", "Tree.Predict", "Tree.PredictSingle", "Tree.Branches", "Tree.JNode"])

prop("C03", "Training is stagewise boosting of the softmax model on the true gradients",
 "Without subsampling, every round fits, for each class in turn, one tree to the loss gradients at the current softmax probabilities (hessian-weighted leaf values; for regular boosting the Newton step sum(gradient)/sum(hessian) of each leaf, 0 where the hessian vanishes), and adds it, scaled by the learning rate, to that class's raw score, which starts at the base score. The trained model predicts the softmax of exactly those accumulated raw scores and all its numbers stay finite.",
 ["inputs", "configurations"], "All labelled finite data sets (any number of classes, any integer labels), both boosting kinds, both losses, all rounds, depths, learning rates, base scores, lambda, gamma, minimum child weights, with and without early stopping.",
 NODATA + "The claim relates every tree of every round to all trees before it.",
 ["xgb.go", "tree.go", "multiclass.go", "utils/loss_acti.go", "utils/math.go"], [("boosting loop", "xgb.go NewMultiClass"), ("Newton leaf update", "xgb.go updateLeaves"), ("probabilities", "utils/loss_acti.go SoftMaxDense"), ("prediction", "multiclass.go PredictSingle")],
 ["NewMultiClass", "JSONMultiClass text", "MultiClass.PredictSingle"])

prop("C04", "Predictions are proper class probabilities; class and accuracy follow them",
 "For every trained or reloaded model and every vector, prediction returns one finite probability in [0,1] per class summing to 1, however large the raw scores are and whatever scratch slice is supplied (a slice of the right length is filled with the result). The predicted class is the position, in the model's label list, of the largest probability (first one on ties), and the accuracy is 100 times the fraction of vectors whose predicted label equals the given label, with or without the optional class count.",
 ["inputs", "configurations", "histories"], "All models (also ones with no rounds at all), all vectors, all scratch slices (nil, short, exact, long, dirty), all sequences of prediction and accuracy calls.",
 NODATA + "Overflow, buffer reuse and ties only show on particular models and call histories.",
 ["multiclass.go", "utils/loss_acti.go"], [("probability", "multiclass.go PredictSingle"), ("argmax", "multiclass.go PredictSingleClass"), ("accuracy", "multiclass.go Accuracy")],
 ["MultiClass.PredictSingle", "MultiClass.PredictSingleClass", "MultiClass.Accuracy", "MultiClass.ClassLabels"])

prop("C05", "Early stopping freezes only the stalled class, after the agreed rounds",
 "With early stopping at N > 0 a class stops being boosted exactly when its training loss has failed to decrease, with respect to the previous boosted round, in N consecutive rounds, or has fallen to 1e-6 or less; every other class goes on being boosted, evaluated and predicted as the class it is. With N <= 0 every class is boosted in every round, and the model reports the true number of classes and, per class, the true number of rounds it was boosted for (-1 for a class that does not exist).",
 ["inputs", "configurations", "histories"], "All data sets and options; all interleavings of classes stopping at different rounds.",
 NODATA + "Misattribution only shows when one class stops while others continue.",
 ["xgb.go", "multiclass.go"], [("early stop bookkeeping", "xgb.go NewMultiClass"), ("counts", "multiclass.go Rounds/Classes")],
 ["NewMultiClass", "MultiClass.Rounds", "MultiClass.Classes", "MultiClass.PredictSingle", "JSONMultiClass text"])

prop("C06", "Row and column subsampling use exactly the drawn rows and columns",
 "A subsample of fraction f is an increasing list of distinct valid indexes in which every index appears with probability f (all of them for f = 1). With row subsampling every tree of an xgboost round is grown from exactly one such draw of distinct training rows, rounds that draw fewer rows than the minimum sample size are skipped and no others, and with column subsampling every split of every tree of a round, at any depth, uses only columns drawn for that round (an empty draw means all columns); regular boosting never subsamples.",
 ["inputs", "configurations", "schedules"], "All data sets, fractions in (0,1], minimum sample sizes and random draws.",
 "The only test prints samples of 10 elements; nothing relates a draw to the trees grown from it.",
 ["xgb.go", "tree.go"], [("draw", "xgb.go SubSample"), ("use of the draw", "xgb.go NewMultiClass"), ("column restriction", "tree.go maybeInsertChildNode / clone")],
 ["SubSample", "NewTree", "NewMultiClass", "JSONMultiClass text"])

prop("C07", "A model written to JSON and read back is the same model",
 "Writing any trained model as JSON and reading it back, through any reader buffering, yields a model with bit-identical predictions on every vector, the same class labels, class and round counts, feature importances and serialized text; an independent reader that evaluates the text, with the activation function it names, obtains the same probabilities. A write error at any point of the output is returned to the caller.",
 ["inputs", "configurations", "fault_sequences"], "All models (both kinds, any depth, any number of rounds and classes, any labels, with early-stopped classes), all readers, all failing writes.",
 NODATA + "A lost round, a lost field or a rounded number changes some predictions of some models only.",
 ["xjson.go", "utils/json.go", "multiclass.go"], [("writer", "xjson.go JSONMultiClass, utils/json.go JSONTree"), ("reader", "xjson.go UnJSONMultiClass, utils/json.go UnJSONTree")],
 ["JSONMultiClass", "UnJSONMultiClass", "utils.JSONTree", "utils.UnJSONTree"])

prop("C08", "Damaged model files are rejected or read as an intact prefix, never crash",
 "Reading any byte sequence as a model returns either an error or a model that can be evaluated on any sufficiently long vector without crashing. A truncated model file is either rejected or read as the rounds and trees that are completely present, unaltered and in order; an unknown activation name, a split node without both children or a round with more trees than classes is rejected, and a read error is returned.",
 ["inputs", "fault_sequences"], "All byte strings: every truncation point of valid files, corrupted and edited files, arbitrary text, and readers failing at any byte.",
 NODATA + "There is no test with a damaged model.",
 ["xjson.go", "utils/json.go"], [("reader and its validation", "xjson.go UnJSONMultiClass, utils/json.go UnJSONTree")],
 ["UnJSONMultiClass", "MultiClass.PredictSingle"])

prop("C09", "CSV data round-trips and is read exactly; malformed CSV is rejected",
 "Writing a labelled data set as CSV and reading it back gives the same labels, feature names, shape and row order, and values equal to within the four printed decimals; reading well-formed CSV (header or not, labels or not, any single-character separator that cannot occur in the data, quoted fields, CRLF, missing final newline) gives every row's exact numbers. A row of a different length, a value that is no number or too large for one, a non-integer label, a missing file or a read error gives an error, never a partial data set or a crash.",
 ["inputs", "fault_sequences"], "All data sets (any finite values, any integer labels, names free of separators, quotes, line breaks and leading blanks), all header/label settings and separators, all malformed texts, readers failing at any byte.",
 NODATA + "Exactness is per value, row and format variant.",
 ["utils/csv.go", "utils/libsvm.go"], [("writer", "utils/csv.go CSV"), ("reader", "utils/csv.go ParseCSVFromReader, recordsToData")],
 ["DataBunch.CSV", "ParseCSVFromReader", "DataBunchFromCSVFile"])

prop("C10", "libSVM data round-trips and is read exactly; malformed input is rejected",
 "Writing a labelled data set as libSVM text and reading it back gives the same labels, feature names, shape and row order, and values equal to within the four printed decimals; every non-blank line of a well-formed dense file, the last one included whether or not it ends in a newline, becomes one row with its exact numbers in order. A malformed term, a value that is no number or too large for one, a malformed label, a missing file or a read error gives an error, never a partial data set or a crash.",
 ["inputs", "fault_sequences"], "All dense data sets (any finite values, any integer labels, names free of blanks and colons), with or without header, any spacing, blank lines, line lengths; all malformed texts; readers failing at any byte.",
 NODATA + "Lost last lines and crashes on blank lines depend on the input's exact shape.",
 ["utils/libsvm.go"], [("writer", "utils/libsvm.go LibSVM"), ("reader", "utils/libsvm.go ParseLibSVMFromReader, parseLibSVMLine")],
 ["DataBunch.LibSVM", "ParseLibSVMFromReader", "DataBunchFromLibSVMFile"])

prop("C11", "Cross-validation folds are a true partition of the data",
 "The n folds offered for cross-validation have test sets that are disjoint, together contain every sample exactly once, and hold at least floor(samples/n) >= 2 samples each, while each training set is exactly the complement of its test set, every vector keeping its own label and the feature names being kept; after n calls nothing more is returned. Samples are assigned to folds at random: every sample is equally likely to be in each of the equally large folds, whatever fold any other sample is in beyond the folds' sizes, and every call draws anew. A fold count too large for the data is lowered to the largest feasible one and reported, fewer than four samples give an error (never a crash), and with copies requested no change to a fold reaches the original data or another fold.",
 ["inputs", "configurations", "histories", "schedules"], "All data sets (from empty upwards, labelled or not, named or not), all requested fold counts (also zero and negative, meaning five), all random assignments, all call sequences.",
 "No test looks at the folds at all; the assignment is random.",
 ["utils/stat.go"], [("assignment", "utils/stat.go CrossValidationSamples, fillRemaining, isInPrevious"), ("fold building", "utils/stat.go fillDataBunch")],
 ["CrossValidationSamples"])

prop("C12", "Cross-validation reports the mean held-out accuracy, also when concurrent",
 "The cross-validation score is the mean, over the folds, of the accuracy on each held-out fold of a model trained only on the rest with the given options (the defaults if none are given); it lies in [0,100], a fold that yields no model counting as 0. In channel mode exactly one error, one accuracy and one options value are delivered, in that order, equal to what is returned, with nothing left running; too few samples give an error in either mode.",
 ["inputs", "configurations", "schedules"], "All labelled data sets, fold counts and options, direct and channel mode, all fold assignments.",
 NODATA + "Needs a second computation of the same score on the same random folds.",
 ["cv/cv.go", "utils/stat.go"], [("fold loop", "cv/cv.go MultiClassCrossValidation")],
 ["cv.MultiClassCrossValidation"])

prop("C13", "Grid search evaluates every grid point once and returns the best",
 "For any number of workers, grid search evaluates each combination of the eight ranges exactly once, with all parameters of that combination, and returns one accuracy per combination, the largest of them as the best accuracy, and as best options the combination that achieved it (a combination is always returned). If requested, and only then, the best model found is written to a readable file; errors of the evaluations are returned, and no worker is left running or blocked afterwards.",
 ["inputs", "configurations", "schedules"], "All grids (any numbers of points per range), all worker counts including zero, fewer and more than the points, both boosting kinds, all completion orders.",
 NODATA + "Lost last batches appear only when the number of points is not a multiple of the number of workers.",
 ["cv/cv.go"], [("grid loop", "cv/cv.go Grid"), ("result collection", "cv/cv.go rescueConcValues"), ("best model file", "cv/cv.go writeBest")],
 ["cv.Grid", "xgbmodel*.json"])

prop("C14", "Gradient searches stay in the search space and report their true best",
 "The gradient and hybrid searches return options that lie inside the requested ranges in every parameter (depth and minimum child weight on their grid values) and are exactly the options whose evaluation gave the returned best accuracy, which is the last and largest of the strictly increasing accuracies returned. A single gradient step started inside the ranges ends inside them with finite values, changes no option other than the searched ones, leaves its input untouched when asked to deliver through a channel, delivers exactly one result, and leaves nothing running or racing.",
 ["inputs", "configurations", "schedules", "histories"], "All search spaces (degenerate ranges included), central and one-sided differences, all step sizes, data sets, fold assignments and goroutine schedules.",
 NODATA + "Aliasing of the best options, out-of-range fuzzing, NaN gradients and races depend on the search history and schedule.",
 ["cv/grad.go", "cv/hybrid.go", "cv/cv.go", "options.go"], [("step", "cv/grad.go GradStep, ParamaterGradStep"), ("bounds", "cv/grad.go checkAgainstOptions"), ("searches", "cv/grad.go GradientGrid, cv/hybrid.go HybridGradientGrid")],
 ["cv.GradientGrid", "cv.HybridGradientGrid", "cv.GradStep", "cv.ParamaterGradStep"])

prop("C15", "Options copies are complete, equality is exact, the validity check is right",
 "A copy of boosting options or of grid options agrees with the original in every setting and is independent of it. Option equality is reflexive and symmetric and holds exactly when all settings agree, so a copy always equals its original and a change of any one setting is noticed; the validity check accepts exactly rounds >= 1, learning rate > 0, row and column fractions in (0,1], lambda and gamma >= 0, minimum child weight >= 1, depth >= 2 and minimum samples >= 1. Default options are of the kind their name says, those for xgboost are valid, default search spaces are of ranges that end (at least one value, a positive step), and every call gives an independent value.",
 ["inputs", "configurations"], "All option values (numbers other than NaN), including every single-field difference and every boundary value.",
 "No test touches copying, equality or checking; a forgotten field is silent.",
 ["options.go", "cv/cv.go"], [("copy/equality/check", "options.go Clone, Equal, Check"), ("grid copy", "cv/cv.go Clone")],
 ["Options.Clone", "Options.Equal", "Options.Check", "GridOptions.Clone"])

prop("C16", "Confusion counts and rankings match the model's predictions",
 "For any model and labelled data the confusion matrix entry (i,j) is the number of vectors with actual label i predicted as label j, labels in the model's order, so its sum over known labels and its diagonal agree with the data and the accuracy. The top-N list of a label holds its N (or all, if fewer) most frequent predictions as positions in the label list with their counts in non-increasing order, an unknown label gives nothing, the printed report shows exactly the non-zero ones under their names and no label without vectors, and results do not depend on the order or number of earlier calls.",
 ["inputs", "histories"], "All models, data sets (labels unknown to the model included), N, and sequences of calls.",
 NODATA + "Shared scratch buffers make results depend on call history.",
 ["confu/confu.go"], [("matrix", "confu/confu.go MCConfusions, Matrix"), ("ranking", "confu/confu.go TopNForLabelM, TopNPerLabel, memIntSort"), ("report", "confu/confu.go PrintTopN")],
 ["MCConfusions", "Confusions.Matrix", "TopNForLabelM", "TopNPerLabel", "PrintTopN"])

prop("C17", "Feature importance is the total split score per feature, ranked",
 "The importance of a feature in a tree or model is the sum of the scores of all splits on it, over all nodes, classes and rounds; each feature used appears exactly once, others not at all, and the list is ordered from most to least important (highest gain first for xgboost, most negative objective first otherwise). Collecting importances into one set by adding or merging, also from concurrent goroutines, loses and duplicates nothing and does not depend on the order.",
 ["inputs", "configurations", "schedules", "histories"], "All trees and models, all sequences and interleavings of add and merge.",
 NODATA + "Concurrent additions are never exercised.",
 ["tree.go", "multiclass.go"], [("collection", "tree.go FeatureImportance, Feats.Add, Feats.Merge"), ("order", "tree.go Feats.Less"), ("model", "multiclass.go FeatureImportance")],
 ["MultiClass.FeatureImportance", "Tree.FeatureImportance", "Feats.Add/Merge/String"])

prop("C18", "Softmax, losses and encodings compute their mathematical definitions",
 "Softmax returns finite probabilities equal to exp(x_i)/sum_j exp(x_j) for all finite inputs however large, normalisation divides by the sum, both row by row for matrices; both losses are the mean squared difference, their gradients are prediction minus target (and the exact opposite for negative gradients), and their hessians are 1 and p(1-p). One-hot encoding has exactly one 1 per row, in the column of that row's label in order of first appearance; class-from-probability is the position of each row's largest entry (the first one on ties) and log-odds are log(p/(total-p)); all give the same result into a fresh or a reused destination and leave their inputs unchanged.",
 ["inputs"], "All finite vectors and non-empty matrices of any shape, also when they are part of a larger matrix, all non-empty label lists, nil and dirty destination buffers of the right shape.",
 "No test calls them with more than a fixed example, and none checks extreme inputs.",
 ["utils/loss_acti.go", "utils/libsvm.go", "xgb.go"], [("activation", "utils/loss_acti.go SoftMax, Normalization, activationDense"), ("losses", "utils/loss_acti.go SQErrLoss, MSELoss"), ("encoding", "utils/libsvm.go oneHotEncodeDense"), ("helpers", "xgb.go ClassesFromProbs, LogOddsFromProbs")],
 ["utils.SoftMax", "utils.SoftMaxDense", "utils.Normalization", "utils.SQErrLoss", "utils.MSELoss", "DataBunch.OHELabels/OHEKeys", "ClassesFromProbs", "LogOddsFromProbs"])

prop("C19", "Sampling, sorting and matrix helpers are exact and bounds-checked",
 "Sampling a slice or matrix returns the elements at the given indexes in the given order, argsort returns a permutation that sorts together with the sorted values, transposition swaps rows and columns, and column extraction and addition touch exactly the requested column. None of them changes its inputs (other than the column added to), results do not depend on what scratch buffers held before, and an index or column that does not exist is refused with a panic rather than served with wrong data.",
 ["inputs"], "All slices, non-empty matrices (also parts of a larger one), index lists not longer than what is sampled, columns (also just out of range) and dirty scratch buffers of the input's length; NaN is not sorted.",
 "The three tests that do run check one 10-element slice and one 3x3 matrix.",
 ["utils/math.go", "utils/sorter.go"], [("helpers", "utils/math.go SampleMatrix, SampleSlice, MemArgSort, ArgSort, TransposeFloats, DenseCol, AddToCol, ToOnes")],
 ["utils.SampleSlice", "utils.SampleMatrix", "utils.ArgSort", "utils.MemArgSort", "utils.TransposeFloats", "utils.DenseCol", "utils.AddToCol", "utils.ToOnes"])

prop("C20", "Training and prediction leave inputs untouched and models are shareable",
 "Training never changes the caller's data, labels, names or options, and a trained model does not change when those are modified afterwards, when other models are trained, or when its returned label list is modified; prediction never changes the vector or the model. One model may be queried, summarised and serialized, and independent models trained from the same data, from many goroutines at once without data races and with the same results as one after the other.",
 ["inputs", "schedules", "histories"], "All data sets, options, sequences of train/predict/modify, and goroutine schedules.",
 "No test runs anything concurrently on one model or compares inputs before and after.",
 ["xgb.go", "tree.go", "multiclass.go", "utils/math.go"], [("training", "xgb.go NewMultiClass"), ("prediction", "multiclass.go"), ("label copy", "multiclass.go ClassLabels")],
 ["NewMultiClass", "MultiClass.*", "JSONMultiClass"])

prop("C21", "Learning respects the symmetries of the data and fits separable classes",
 "Training without subsampling gives the same probabilities when class labels are renamed one-to-one, when features are rescaled by powers of two, when constant columns are appended, when a column is duplicated in place, when training is repeated, and when progress messages are switched on. A data set whose classes are well separated along one feature is learned to 100% training accuracy by both kinds of boosting with ordinary settings, also under row subsampling, and with the default settings as they come.",
 ["inputs", "configurations"], "All labelled data sets and their transformations; all separable data sets with enough samples per class; all random draws.",
 NODATA + "Metamorphic relations compare pairs of trainings; the tests only print accuracies.",
 ["xgb.go", "tree.go", "utils/libsvm.go"], [("training", "xgb.go NewMultiClass"), ("split search", "tree.go findBetterSplit"), ("label encoding", "utils/libsvm.go oneHotEncodeDense")],
 ["NewMultiClass", "MultiClass.PredictSingle", "MultiClass.Accuracy"])

prop("C22", "Label-name files are read completely or rejected",
 "Reading a label-name file returns exactly one name per label number listed, for the default blank and, with the name exactly as written, for any other given separator, including the last line when it does not end in a newline and ignoring blank lines, the last entry winning for a repeated number. A missing file, a line without a name or a non-integer label gives an error rather than a crash or a partial map; the simple name map gives every label its own decimal number as name.",
 ["inputs"], "All name files (any labels, names, separators, spacing, line endings at end of file), all malformed lines.",
 NODATA + "Only the author's own dictionary file is ever read.",
 ["confu/confu.go"], [("reader", "confu/confu.go ReadNameMap"), ("simple map", "confu/confu.go MakeSimpleNameMap")],
 ["ReadNameMap", "MakeSimpleNameMap"])

prop("C23", "Printed trees, options, data sets and matrices show what they contain",
 "The printed form of a tree lists, in depth-first order, the feature (by its name, or by its index when it has no name), the cut and both branches of every split, and the value of every leaf; the printed options show every listed setting, the printed data set every name, label and value in order, the printed matrix every element, and the text of a serialized node its fields. Numbers are the actual ones at the printed precision, printing changes nothing, and it never crashes, also when fewer names than features are given.",
 ["inputs", "configurations"], "All trees, lists of feature names of any length, options, data sets with or without names and labels, matrices (also parts of a larger one).",
 NODATA + "The tests print but never look at the text.",
 ["tree.go", "options.go", "utils/libsvm.go", "utils/math.go", "utils/json.go"], [("tree", "tree.go Print, feature"), ("options", "options.go String"), ("data", "utils/libsvm.go DataBunch.String"), ("matrix", "utils/math.go PrintDenseMatrix"), ("node", "utils/json.go JSONNode.String")],
 ["Tree.Print", "Options.String", "DataBunch.String", "utils.PrintDenseMatrix", "JSONNode.String"])

prop("C24", "Gradient steps follow the measured slope; searches start in the middle",
 "A gradient step changes each searched parameter (gamma, lambda, row and column fraction, learning rate, rounds) by its slope times its range's step times the step size, for both kinds of boosting. The slope is the change of the cross-validation accuracy per change of that parameter alone, between the value moved up and down by the delta fraction (central) or up and unmoved (one-sided). A move that leaves the range is shortened by a fifth at a time, down to a tenth, and otherwise not made; a parameter with zero slope, at zero, or whose lower probe is not valid stays. The gradient search starts, for each depth and minimum child weight, in the middle of the other ranges (the hybrid one at each grid value of rounds and lambda), takes the given number of steps, and keeps a step's result when it is better.",
 ["inputs", "configurations", "schedules"], "All data sets, search spaces and starting points inside them, both kinds of differences, all step sizes and delta fractions.",
 NODATA + "A wrong sign, a derivative against the wrong parameter or steps that are never taken still end inside the search space with some accuracy.",
 ["cv/grad.go", "cv/hybrid.go", "options.go"], [("step", "cv/grad.go ParamaterGradStep, GradStep, currentValue"), ("start", "cv/grad.go setSomeOptionsToMid"), ("searches", "cv/grad.go GradientGrid, cv/hybrid.go HybridGradientGrid")],
 ["cv.GradStep", "cv.ParamaterGradStep", "cv.GradientGrid", "cv.HybridGradientGrid"])

prop("C25", "Progress reports are true, and appear only when asked for",
 "Verbose training prints one line for every tree added to the model, in the order of rounds and classes, with its round, its class and the training loss of that class right after that tree was added (to three decimals), and logs each class that is stopped for lack of progress, once, with the round of its last tree. A verbose search announces the grid values of rounds and minimum child weight (gradient search: of minimum child weight) it goes through, in order, and every new best accuracy when it is found, and no other: the announced accuracies are the improvements among the returned ones, and the options announced last are the returned best ones. Without the verbose setting training and searches print nothing.",
 ["inputs", "configurations", "histories"], "All data sets, both kinds of boosting, all losses and options (early stopping and subsampling included), all three searches, any number of workers.",
 NODATA + "They never look at what is printed.",
 ["xgb.go", "cv/cv.go", "cv/grad.go", "cv/hybrid.go"], [("training", "xgb.go NewMultiClass"), ("grid", "cv/cv.go Grid, rescueConcValues"), ("gradient searches", "cv/grad.go GradientGrid, cv/hybrid.go HybridGradientGrid")],
 ["boo.NewMultiClass", "cv.Grid", "cv.GradientGrid", "cv.HybridGradientGrid"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
