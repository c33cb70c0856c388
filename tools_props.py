"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json
E1 = "col_gen_estimator/_col_gen_classifier.py"
E2 = "col_gen_estimator/_bdr_classifier.py"
E3 = "col_gen_estimator/_dtree_classifier.py"
E4 = "col_gen_estimator/_parameter_tuner.py"
E5 = "examples/dtree_experiment.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


prop("C01", "Column generation follows the master/pricing protocol",
     "In every training run the master model is built once, and each iteration solves the restricted master once, hands that solve's dual information to every pricing problem, then asks pricing problems for columns level by level in list order, each with the parameters configured for it. Every generated column is offered to the master exactly once, unchanged, in order and before the next master solve; a later level is asked only if no earlier level had a column accepted in that iteration, and (limits aside) another iteration follows exactly when a column was accepted. When an integer master is requested it is solved exactly once, after the last iteration, with its configured parameters, and training fails rather than returning a fitted model when it reports no solution.",
     ["histories", "programs", "configurations"],
     "every shape of pricing levels, every sequence of generated/accepted/rejected columns, every parameter assignment, with and without an integer master, first and repeated training",
     "The tests run the loop only through two concrete classifiers on a handful of rows; no test observes the order of calls, rejected columns, several pricing problems per level or a failing integer solve.",
     [E1], [("training loop", E1 + ": ColGenClassifier.fit"), ("pricing parameters", E1 + ": ColGenClassifier.get_subproblem_params")],
     ["calls received by the master and pricing objects", "exceptions raised by training"])
prop("C02", "Stopping limits are honoured and termination flags tell the truth",
     "With a positive iteration limit training never performs more iterations than the limit, with a positive time limit no pricing problem is asked for columns once the elapsed training time has passed the limit, and negative limits impose no bound. Training is reported as having reached the optimum exactly when it ended with an iteration in which every pricing problem was asked and no column was accepted. It is reported as time-limited exactly when the time limit stopped the pricing, so the two reports are never both true and both are reset by a new training run.",
     ["histories", "configurations"],
     "all limit values, all distributions of time over master, pricing, column insertion, and all points in the loop where a limit is crossed",
     "The tests never use a time limit, never cross an iteration limit in the middle of a productive run, and never check the flags after a limited run; wall-clock makes these points unreachable for ordinary tests.",
     [E1], [("limit checks", E1 + ": ColGenClassifier.fit")],
     ["mp_optimal_, time_limit_reached_, iter_ after training", "pricing calls under a virtual clock"])
prop("C03", "Reported training statistics match what actually happened",
     "After training, the reported number of iterations, of improving iterations, and of columns added per pricing problem equal the numbers of events that occurred in that run. The reported times for the master, each pricing problem, column insertion, the integer solve and the total equal the time spent in those calls in that run. A repeated training run starts all statistics from zero.",
     ["histories", "configurations"],
     "all call histories and all durations of the individual calls, including repeated training",
     "Tests compare a few counters on one tiny data set; attribution to the right pricing problem, rejected columns, times and repeated runs are never observed.",
     [E1], [("statistics", E1 + ": ColGenClassifier.fit")],
     ["performed_iter_, iter_, num_improving_iter_, num_col_added_sp_, time_* attributes after training"])
prop("C04", "Training validates its input and leaves it untouched",
     "Training with data that is not a finite two-dimensional matrix with one label per row, or with fewer than two classes (or more than two for the Boolean rule classifiers), raises ValueError and does not turn an untrained model into a trained one. Prediction with an untrained model raises NotFittedError, and prediction on data that is not a finite two-dimensional matrix raises ValueError. Training and prediction never modify the arrays passed in, valid data is always accepted whatever its container and numeric dtype, and the reported classes are the sorted distinct labels.",
     ["inputs"],
     "all malformed and well-formed data containers, dtypes, layouts and label vectors",
     "The tests contain a single one-class example; the generic estimator checks are skipped for these estimators.",
     [E1, E2, E3], [("validation", E1 + ": ColGenClassifier.fit"), ("class limit", E2 + ": max_classes"), ("predict guards", E2 + ", " + E3 + ": predict")],
     ["exceptions raised by fit/predict", "input arrays before and after", "classes_"])
prop("C05", "Predictions are labels of the training data for any label type",
     "Whatever representation the class labels have (non-contiguous or negative integers, whole-number floats, booleans, strings), prediction returns one label per row, every one of them taken from the classes seen in training and of their type. The prediction for a row is exactly the class the trained model's rule or tree assigns to it, i.e. label encoding and decoding never permute classes. Renaming the labels while keeping their order does not change which class index the Boolean rule classifiers predict.",
     ["inputs"],
     "all label representations, class counts and orders of first appearance",
     "All tests use labels that are already 0..k-1, for which a broken or missing label translation is invisible.",
     [E1, E2, E3], [("label encoder", E1 + ": fit"), ("inverse transform", E2 + ", " + E3 + ": predict")],
     ["classes_, predict() outputs, explanation / selected paths"])
prop("C06", "Hyperparameters round-trip and take effect; refitting forgets the past",
     "Every constructor argument can be read back unchanged, shown, and carried over to an untrained copy by the scikit-learn clone operation. Parameters changed on an existing model, directly through the parameter interface or by a grid search, take full effect at the next training. Training a model again behaves exactly as training a new model with the same parameters on the new data.",
     ["histories", "configurations"],
     "all parameter values, all sequences of construct / set parameters / clone / fit / refit on different data",
     "Tests build each model once and fit it once; cloning, set_params, grid search and refitting are not exercised at all (the generic estimator checks are skipped).",
     [E1, E2, E3], [("parameter storage", E2 + ", " + E3 + ": __init__"), ("rebuild on refit", E2 + ", " + E3 + ": reset_problems, set_params")],
     ["get_params, clone, repr, explanation and predictions after refit"])
prop("C07", "Boolean rule predictions are exactly the learned DNF formula",
     "A row is predicted as the larger label exactly when it has a nonzero value in every feature of at least one clause of the learned explanation, and as the smaller label otherwise. The prediction of a row does not depend on the other rows, their order, the numeric type or memory layout of the matrix, or on earlier predictions. Predicting never changes the model.",
     ["inputs", "histories"],
     "all trained rules (including the empty rule) and all 0/1 matrices",
     "Tests predict only the four training rows of one model.",
     [E2], [("clause evaluation", E2 + ": BDRMasterProblem.satisfies_clause"), ("prediction", E2 + ": BooleanDecisionRuleClassifier.predict")],
     ["predict() outputs versus master_problem.explanation"])
prop("C08", "The Boolean rule master LP is correct and its duals are a certificate",
     "After any sequence of clause insertions, the duals returned by solving the restricted master are nonnegative, satisfy the dual constraint of every clause in the master and of every penalty variable, and their dual objective equals the true optimum of the rule LP (weighted misses plus false positives under the complexity budget) over exactly the clauses accepted so far. A nonempty new clause is always accepted and the empty clause is reported as not added and has no effect.",
     ["inputs", "histories"],
     "all 0/1 data sets, complexity budgets, miss weights and clause insertion sequences",
     "Tests check the two duals of one four-row data set without added clauses.",
     [E2], [("master model", E2 + ": BDRMasterProblem.generate_mp, add_column, get_objective_coeff_mp, get_clause_coeffs"), ("duals", E2 + ": BDRMasterProblem.solve_rmp")],
     ["tuple returned by solve_rmp", "return value of add_column"])
prop("C09", "The exact clause pricing returns a best clause or proves there is none",
     "For any nonnegative duals, the exact pricing problem of the Boolean rule classifier returns a clause with the minimum reduced cost among all clauses of at most the allowed number of features, up to solver tolerance, whenever that minimum is negative, and returns nothing only when no clause has negative reduced cost. This stays true when the same pricing object is asked again with other duals.",
     ["inputs", "histories"],
     "all 0/1 data sets, size limits, and sequences of dual vectors given to one pricing object",
     "Tests ask for columns with two dual vectors on four rows.",
     [E2], [("pricing MIP", E2 + ": BDRSubProblem.create_submip, update_objective, generate_columns")],
     ["clauses returned by generate_columns"])
prop("C10", "The clause heuristic enumerates all small clauses of negative cost",
     "For any nonnegative duals the clause heuristic returns exactly the clauses with 1 to K distinct features whose reduced cost is negative, each once, as lists of valid increasing feature indices.",
     ["inputs"],
     "all 0/1 data sets, values of K and dual vectors",
     "Tests compare two outputs on four rows.",
     [E2], [("enumeration", E2 + ": BDRHeuristic.generate_columns")],
     ["clauses returned by generate_columns"])
prop("C11", "A Boolean rule run reported optimal solved the LP over all clauses",
     "Training of a Boolean rule classifier without iteration limit always terminates and reports optimality, and whenever optimality is reported the value of the final restricted master equals, up to solver tolerance, the optimum of the LP over all clauses within the complexity budget. With an iteration limit the value is never below that optimum.",
     ["inputs", "configurations"],
     "all 0/1 data sets, budgets, miss weights, with and without the heuristic level, all iteration limits",
     "Tests only check the flag on two tiny fits; the true optimum is never computed.",
     [E1, E2], [("pricing loop", E1 + ": fit"), ("exact pricing", E2 + ": BDRSubProblem")],
     ["mp_optimal_, final clause set and master duals"])
prop("C12", "The learned rule is the best one within budget over the clauses found",
     "The explanation consists of distinct clauses present in the master whose total complexity (one plus clause length each) does not exceed the budget. Its cost (miss weight times uncovered positive rows plus, summed over clauses, the negative rows covered) is the minimum over all selections of the clauses generated that respect the budget, up to solver tolerance.",
     ["inputs", "configurations"],
     "all 0/1 data sets, budgets and miss weights, and all sets of clauses the training may have generated",
     "Tests check one explanation where any reasonable selection is right.",
     [E2], [("integer master", E2 + ": BDRMasterProblem.solve_ip")],
     ["master_problem.explanation, clause_dict_"])
prop("C13", "Tree geometry, row routing and path identity are mutually consistent",
     "For every depth, the ancestors and left/right turns recorded for each leaf and path are those of the complete binary tree with children 2i+1 and 2i+2 and leaves numbered left to right, so that any assignment of splits to nodes sends every row to exactly one leaf. Row-by-row routing and set-based routing of training rows agree with each other and with comparing the feature to the threshold (left when not greater). Two paths are identified as the same exactly when leaf, target, cost and the set of node/split pairs are equal.",
     ["inputs"],
     "all depths, leaves, split assignments, row values (ties, infinities of scale, negative) and node orders",
     "Tests spell out depth 2 and a few routings by hand.",
     [E3, E5], [("geometry", E3 + ": Path.set_leaf, Leaf.create_leaf"), ("routing", E3 + ": row_satisfies_path, get_satisfied_rows"), ("identity", E3 + ": Path.is_same_as")],
     ["node lists of leaves and paths", "results of the routing and identity functions"])
prop("C14", "A trained decision tree is a well-formed tree and predicts by following it",
     "After training, exactly one selected path ends in each leaf, selected paths through the same node use the same split, and every split is one of the node's candidates, so every possible row (seen or unseen) follows exactly one selected path. Prediction always succeeds and returns for each row the label of that path, independently of the other rows and their order.",
     ["inputs", "configurations"],
     "all data sets, depths, candidate splits, initial trees, cut and pricing configurations, iteration limits and unseen rows",
     "Tests check the predictions on the training rows of a handful of tiny fits.",
     [E3], [("integer master", E3 + ": DTreeMasterProblem.solve_ip, consistency constraints"), ("prediction", E3 + ": DTreeClassifier.predict")],
     ["master_problem.selected_paths, predict()"])
prop("C15", "Every generated path is valid and its count of correct rows is exact",
     "Every path in the master problem of a trained tree visits exactly the ancestors of its leaf, uses a candidate split at each of them, and has a target that is one of the classes. The count attached to every generated path equals the number of training rows that follow it and have its target, also when duplicate rows were merged with weights.",
     ["inputs", "histories"],
     "all data sets, row preprocessing modes, pricing problems and intermediate solver solutions",
     "Tests look at one or two generated paths per pricing problem and not at intermediate solutions or merged rows.",
     [E3, E5], [("path construction", E3 + ": PathGenerator, DTreeSubProblem*, DTreeSubProblemHeuristic"), ("weights", E5 + ": preprocess")],
     ["paths passed to the master problem's add_column, master_problem.paths_"])
prop("C16", "Exact path pricing is sound and complete for its leaf",
     "For any duals, every path returned by an exact path pricing problem ends in its leaf (and has its target where the target is fixed), is structurally valid and has truly positive reduced cost. Unless the pricing solver was stopped before proving optimality, it returns nothing only if no path to that leaf has reduced cost above solver precision, and otherwise one of the returned paths has the maximum reduced cost up to solver precision; this stays true over a sequence of dual updates and newly added cuts.",
     ["inputs", "histories"],
     "all data sets, candidate splits, row weights, dual vectors and cut sequences given to one pricing object, for all three exact formulations",
     "Tests solve single pricing problems with hand-made duals, never compared with enumeration, never after several updates with cuts.",
     [E3], [("pricing models", E3 + ": DTreeSubProblemSat, DTreeSubProblem, DTreeSubProblemOld")],
     ["paths returned by generate_columns, gaps_"])
prop("C17", "The path heuristic proposes only improving, valid, distinct paths",
     "Every path proposed by the random path heuristic is structurally valid with no split used twice, carries a target with the highest weighted count among the training rows following it together with that count, and has positive true reduced cost; no two proposals of one call are identical, and when some path has positive reduced cost repeated calls eventually propose one. The reduced cost it computes for any path equals the count minus the duals of the leaf, of the rows and cuts following the path, and of its node/split pairs.",
     ["inputs", "histories"],
     "all data sets, weights, dual vectors, cut sets and random choices",
     "Tests run it twice with one seed on tiny data.",
     [E3], [("heuristic", E3 + ": DTreeSubProblemHeuristic.generate_columns, get_reduced_cost, update_subproblem")],
     ["paths returned by generate_columns, value of get_reduced_cost"])
prop("C18", "The tree master LP is correct and its duals are a certificate",
     "After any sequence of path insertions and cut rounds, the duals returned by solving the restricted master are dual feasible for every path in the master and every node/split pair, have nonnegative row components, and their total equals the optimal value of the tree LP over exactly the paths inserted and the row and cut constraints in force. Without row cuts that value equals the LP with all row constraints; with row cuts it lies between the LPs with all and with no row constraints. An improving iteration is reported exactly when the LP value rose.",
     ["inputs", "histories", "configurations"],
     "all data sets, path sets, insertion orders, cut settings and preprocessing modes",
     "Tests check dual values of one two-leaf example.",
     [E3], [("master model", E3 + ": DTreeMasterProblem.generate_mp, add_column, solve_rmp")],
     ["tuple returned by solve_rmp, rmp_objective_improved()"])
prop("C19", "Cuts are valid, needed, and known alike to master and pricing",
     "A cut is added only if the current LP solution violates it, and it corresponds to a row (real or a consistent virtual one) that follows exactly one path of every consistent tree, so no tree is ever cut off. Each cut constrains exactly the paths its row follows, including the paths inserted later, and the rows of new cuts are handed to the pricing problems in the order of their duals, exactly once. Cut rounds that end before their limit leave no enabled kind of row (real or virtual) violated by the LP solution.",
     ["inputs", "histories", "configurations"],
     "all LP solutions, split sets with nested thresholds, cut rounds and later insertions",
     "No test generates a cut: cuts are only attempted in every tenth master solve.",
     [E3], [("cut generation", E3 + ": CutGenerator, create_cut_gen_model, add_cuts, add_beta_cuts"), ("cut bookkeeping", E3 + ": get_satisfied_cuts, update_subproblem, add_cut_rows")],
     ["dual tuple and new cut rows returned by solve_rmp", "later duals and path insertions"])
prop("C20", "The returned tree is the best over the paths found and never degrades",
     "The number of training rows the returned tree predicts correctly equals the sum of its paths' counts, is the maximum over all consistent trees that can be assembled from the paths in the master, and hence is never below the best tree assembled from the initial paths. It never exceeds the true optimum over the candidate splits, and whenever training reports optimality with all pricing problems solved to optimality the final LP value is at least that optimum.",
     ["inputs", "configurations"],
     "all data sets, depths, candidate splits, initial trees, preprocessing modes, cut settings, pricing formulations and limits",
     "Tests compare predictions on tiny data; the best tree is never computed.",
     [E1, E3], [("integer master", E3 + ": DTreeMasterProblem.solve_ip"), ("column generation", E1 + ": fit")],
     ["selected_paths, paths_, rmp objective, mp_optimal_, predict on the training rows"])
prop("C21", "Row preprocessing never changes the learning problem",
     "Preprocessing reports for each row exactly the nodes and leaves it can reach, removes a row from the master only if it can reach at most two leaves or an identical-routing row is kept, and removes a row from pricing only if a kept row with the same label is routed identically by every tree over the candidate splits and carries its weight. Total weight per label and, for every path, the weighted count of correct rows equal those of the original rows. Stopping the merging early at a time limit preserves all of this.",
     ["inputs", "configurations"],
     "all data sets, duplicate structures, candidate splits, depths, merge modes and time limits",
     "No test runs the aggressive merging or the experiment's preprocessing.",
     [E3, E5], [("library preprocessing", E3 + ": DTreeMasterProblem.preprocess_rows"), ("experiment preprocessing", E5 + ": preprocess, preprocess_nodes")],
     ["attributes of the returned rows"])
prop("C22", "The experiment's tree import reproduces the source trees faithfully",
     "Splits collected from trained CART trees are exactly the distinct feature/threshold pairs used, numbered consecutively and stably under merging; nodes carry the split of the corresponding CART node, and merged candidate counts equal how often each split was seen. The initial leaves and paths built from them form one consistent complete tree whose targets and counts are the best possible and exact, hence at least as accurate as the CART tree. Trimming keeps the most frequently seen candidates (and the one used by the initial tree), at least one per node, and marks exactly the unused splits as removed.",
     ["inputs", "histories"],
     "all CART trees (including unbalanced and single-leaf ones), merge sequences, depths and trimming limits",
     "There are no tests of the experiment module.",
     [E5], [("import", E5 + ": get_all_splits, merge_all_splits, get_all_nodes, merge_all_nodes, get_all_leaves_paths, get_path_for_leaf, reduce_splits, add_rows_to_splits")],
     ["returned splits, nodes, leaves and paths"])
prop("C23", "The experiment command writes truthful results, never worse than CART",
     "Running the documented experiment command on a valid train/test file pair completes, respects the iteration and time limits, and writes one result file with one row for CART and one for column generation. The accuracies written are the actual fractions of training and test rows predicted correctly by the two trained models, and the column generation training accuracy is never below CART's. The column and iteration counts written equal those of the training run.",
     ["inputs", "configurations"],
     "all data files (separators, header or none, label types), depths, iteration and time limits and result directories",
     "The experiment command is never run by the tests.",
     [E5], [("experiment", E5 + ": main")],
     ["result CSV file, captured trained models"])
prop("C24", "Running statistics equal the exact statistics of the values pushed",
     "After any sequence of pushes and clears, the count, mean, sample variance and standard deviation equal (up to rounding) those of the values pushed since the last clear, with zero mean for no values and zero variance for fewer than two. Statistics of different objects do not influence each other.",
     ["inputs", "histories"],
     "all interleavings of pushes and clears of arbitrary finite values, including large offsets",
     "Tests push one short list without clearing in between.",
     [E4], [("Welford update", E4 + ": RunningStat.push, clear, mean, variance")],
     ["return values of the accessors"])
prop("C25", "The tuner explores first, then converges to the best-scoring value",
     "A tuned parameter only ever suggests one of its values: during the configured number of exploration calls (alternating two values in the period given by its switch flag, or choosing at random), then each value that has been scored fewer than four times, and after that only values whose optimistic score (mean plus count bonus plus a tenth of the deviation) reaches the best mean plus bonus. A score is credited to the value suggested last, or to the explicitly given one, and to no other. Suggestions are reproducible for a given seed whatever other random numbers or parameters are used in the program.",
     ["histories", "configurations"],
     "all value sets, exploration lengths, switch flags, seeds and score sequences",
     "Tests follow one short fixed sequence.",
     [E4], [("selection", E4 + ": Parameter.get_best_value, adjust_score")],
     ["values returned by get_best_value"])
prop("C26", "Each tuned solve applies, limits, records and scores correctly",
     "Every solve of a CP-SAT pricing model uses the currently suggested parameter values, the requested time limit and the given callback, and solves exactly the given model once. It records exactly one wall time and one gap, the gap being zero when optimality was proven, one when nothing was found or the signs of value and bound differ, and otherwise the relative distance of value and bound. Every tuned parameter receives, for the value it used, the negated sum of that gap and the used fraction of the time limit (a full fraction unless optimality was proven).",
     ["histories", "fault_sequences"],
     "all solver outcomes (optimal, feasible, infeasible, unknown), objective/bound pairs, solve times and time limits, in any order",
     "No test calls it directly; real solves in tests are all optimal within milliseconds.",
     [E1], [("solve and score", E1 + ": BaseSubproblem.solve_model")],
     ["parameters seen by the solver, solve_times_, gaps_, scores of the tunable parameters"])
prop("C27", "Models are isolated from each other and from the caller's objects",
     "Training or using one model never changes the predictions, learned rule or tree of another model, also when both were built from the same tree definition objects one after the other. Training does not change the lists, candidate splits, thresholds, targets or counts supplied by the caller, and a model trained on definition objects that already served another model satisfies the same guarantees as one trained on fresh ones.",
     ["histories"],
     "all sequences of building, training, refitting and predicting with several models, sharing or not sharing definition objects",
     "Tests build one model per test with fresh objects.",
     [E2, E3], [("own state", E2 + ", " + E3 + ": constructors"), ("reset of shared bookkeeping", E3 + ": DTreeMasterProblem.generate_mp")],
     ["predictions of earlier models, caller's objects before/after, validity of later models"])
prop("C28", "Solver failures never yield a wrong or falsely optimal model",
     "If a restricted master solve fails once and succeeds when tried again, training completes with the same guarantees as without the failure. If it keeps failing, or the integer master cannot be solved, training raises and an untrained model stays untrained. If a pricing solver finds nothing within its limit, training still completes with a well-formed model at least as good as the initial one.",
     ["fault_sequences", "histories"],
     "all positions and runs of solver failures (master LP, pricing, integer master) in a training run",
     "Solvers never fail in the tests; failures appear only on larger, numerically hard masters.",
     [E1, E2, E3], [("retry", E2 + ", " + E3 + ": solve_rmp / solve_lp"), ("integer solve check", E1 + ": fit; solve_ip"), ("empty pricing", E3 + ": generate_columns")],
     ["outcome of fit under injected solver statuses, resulting model"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
