"""What each check counts as a case and as a non-trivial one (goes into the evidence)."""
ASSUMPTIONS = ["the library is reached only through its exported API, built from the working tree of /repo",
               "library random draws come from math/rand/v2's top-level functions, which the build replaces by a generated stream"]
CHECKS = {}


def add(pid, rule, **kw):
    CHECKS[pid] = dict(rule=rule, **kw)


add("C01", "a case is a feature matrix (integers, ties, adjacent floats, huge and tiny values), targets or gradients/hessians, a row subset in some order, a column subset and tree options; non-trivial: the tree has at least one split (distinct printed cases are counted)",
    note="every split of every tree is compared with a brute-force search over all columns and cuts, rounding bounded explicitly")
add("C02", "a case is a tree case as in C01 plus query vectors and, for histories, several trees built from one options value; non-trivial: the tree has at least one split",
    note="the partition, counts, leaf values and reached leaf are recomputed from the data for every node and query")
add("C03", "a case is a labelled data set and valid options (both boosting kinds, three losses) without subsampling; non-trivial: at least one boosted tree has a split",
    note="the stagewise procedure is replayed on the trees the library wrote, with independent softmax, gradients and tree checker")
add("C04", "a case is a trained or hand-written model, query vectors and reused result slices; non-trivial: more than one class and at least one round",
    note="independent evaluator of the serialized trees; distribution predicate")
add("C05", "a case is a data set with options under which classes stop at different rounds; non-trivial: early stopping is on and at least two rounds were boosted",
    note="an automaton over recomputed losses accepts every behaviour within rounding of the true losses")
add("C06", "a case is a fraction and size, or a data set trained with a loss whose leaf values encode the set of rows of each tree; non-trivial: a tree was decoded or a sample drawn with a fraction strictly between 0 and 1",
    note="rows are decoded exactly; frequencies are judged by binomial tails of at most 1e-12, on a fixed generated stream")
add("C07", "a case is a trained or hand-written model with a way of delivering its text, or a model with a writer failing at a chosen byte; non-trivial: the model has a split and more than one round",
    note="round-trip through library and an independent parser and evaluator; every write call may fail")
add("C08", "a case is a model text damaged by truncation, line edits, byte noise or a failing reader; non-trivial: the damaged text differs from the original and is not empty",
    note="accepted texts must be complete models by an independent predicate, and must be usable")
add("C09", "a case is a data set written and read, or a CSV text drawn from a grammar with known numbers, or a malformed variant, or a reader failing at a byte; non-trivial: at least one row and one column",
    note="the grammar knows the exact number behind every cell")
add("C10", "a case is a data set written and read, or a libSVM text drawn from a grammar with known numbers, or a malformed variant, or a reader failing at a byte; non-trivial: at least one row and one feature",
    note="the grammar knows the exact number behind every term")
add("C11", "a case is a data set, a fold count, a random assignment and a sequence of calls; non-trivial: at least two folds of a data set with at least four samples", race=True,
    note="partition predicate on row identities; copies checked by modification")
add("C12", "a case is a labelled data set, a fold count and options in direct or channel mode; non-trivial: at least two folds gave a model", race=True,
    note="the score is recomputed on the same generated stream with an own fold loop")
add("C13", "a case is a data set, a grid (any number of points per range) and a worker count; non-trivial: at least two points", race=True,
    note="data with one provably best combination identifies the winner; goroutine snapshots find leaks and deadlocks without clocks")
add("C14", "a case is a data set, a search space (degenerate ranges included) and a search or single step; non-trivial: at least one evaluation was made", race=True,
    note="bounds and history predicates, written model files, recomputed accuracies, race detector")
add("C15", "a case is an options value drawn field by field through reflection, plus single-field changes; non-trivial: every case that reached its comparison, distinct by all fields",
    note="every exported field, found by reflection, takes part, so a new field is checked too")
add("C16", "a case is a model, labelled data (unknown labels included) and a sequence of calls; non-trivial: more than one class and more than two vectors",
    note="own recount from the model's predictions; predicate oracle for rankings, so ties may be resolved in any way")
add("C17", "a case is a trained or hand-written model or tree, or a sequence or interleaving of add and merge; non-trivial: at least two features are used, or any add/merge sequence", race=True,
    note="sums recomputed from the serialized trees; printed to three decimals, compared at that precision")
add("C18", "a case is a vector or matrix (also part of a larger one), a destination (none or dirty) or a label list; non-trivial: more than one element or class",
    note="definitions recomputed with shifted exponentials and explicit rounding bounds")
add("C19", "a case is a slice or matrix with index lists, columns or scratch buffers, sometimes out of range; non-trivial: more than one element",
    note="definitions by index; must-panic on indexes that do not exist")
add("C20", "a case is a data set, options and a history of train, ask, modify, write and read steps, or a set of goroutines doing them; non-trivial: every case that ran to its end", race=True,
    note="bitwise snapshots of inputs (with guard areas behind every slice) and of everything a model answers; race detector")
add("C21", "a case is a data set with a transformation, or a data set with separated classes; non-trivial: more than one class and at least one round",
    note="metamorphic comparison of two trainings; separable data must be learned to 100%")
add("C22", "a case is a label-name file drawn from a grammar with known meaning, a malformed variant, or any text; non-trivial: at least one entry",
    note="the grammar knows the map; must-reject oracle for malformed lines")
add("C23", "a case is a tree with a list of names, an options value, a data set or a matrix, and its printed text; non-trivial: the tree has a split, or any of the others (distinct texts are counted)",
    note="the text is parsed and compared, number by number, with the thing printed")
add("C24", "a case is data whose accuracy under given options is known for all folds, a search space, a start in it and one gradient step (all or one parameter) or a whole search; non-trivial: the slope of at least one stepped parameter, or the start of the search, is known",
    note="the place a step must lead to is computed from known accuracies, with rounding bounded")
add("C25", "a case is a training or a search with what it printed and logged; non-trivial: at least two rounds, or a verbose search",
    note="the printed lines are compared with losses recomputed along the model's trees, and with what the search returns")


# Properties (tests) the thorough tier also gives to the coverage-guided engine.
FUZZ = {
    'C01': ['TestC01_exactGreedySplits'],
    'C02': ['TestC02_partitionAndValues'],
    'C03': ['TestC03_stagewise'],
    'C04': ['TestC04_syntheticModels'],
    'C05': ['TestC05_earlyStopping'],
    'C06': ['TestC06_rowsOfTrees', 'TestC06_columnsOfTrees'],
    'C07': ['TestC07_syntheticRoundTrip', 'TestC07_treeSerializer'],
    'C08': ['TestC08_edits', 'TestC08_anything', 'TestC08_mustReject'],
    'C09': ['TestC09_exactReading', 'TestC09_malformed', 'TestC09_anything'],
    'C10': ['TestC10_exactReading', 'TestC10_malformed', 'TestC10_anything'],
    'C11': ['TestC11_partition'],
    'C12': ['TestC12_score'],
    'C13': ['TestC13_grid'],
    'C14': ['TestC14_searchKnown'],
    'C15': ['TestC15_optionsCloneEqual', 'TestC15_check'],
    'C16': ['TestC16_confusions'],
    'C17': ['TestC17_trees', 'TestC17_addMerge'],
    'C18': ['TestC18_softmaxVector', 'TestC18_oneHot'],
    'C19': ['TestC19_sampleMatrix', 'TestC19_argsort'],
    'C20': ['TestC20_histories'],
    'C21': ['TestC21_symmetries'],
    'C22': ['TestC22_read', 'TestC22_malformed', 'TestC22_anything'],
    'C23': ['TestC23_trees', 'TestC23_dataAndMatrices'],
    'C24': ['TestC24_step', 'TestC24_dial'],
    'C25': ['TestC25_training'],
}
for k, v in FUZZ.items():
    CHECKS[k]["fuzz"] = v
