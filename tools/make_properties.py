"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Every tree always partitions the training rows",
 "After any sequence of accepted and rejected grow and prune moves, the leaves of every tree form a partition of the training rows: each row lies in exactly one leaf, no leaf is empty, and each internal node holds exactly the rows of its two children, split at its own threshold (less-or-equal left, greater right). The tree stays one well-formed binary tree: the listed nodes are exactly those reachable from a single root, each internal node has two children one level deeper, and the sets of leaves, internal nodes, prunable nodes and splittable leaves it reports are exactly the right ones. Any new covariate row likewise falls in exactly one leaf, the one reached by following the thresholds.",
 ["histories", "inputs", "fault_sequences"],
 "every draw sequence of the sampler (accept-heavy and reject-heavy walks included), every finite covariate matrix (ties, constant, binary, unique, integer columns), every number of trees and iterations, default sampler, with or without a tree initializer",
 "The tests apply one or two hand-built mutations to trees over 1-5 rows; they never run the sampler, so no multi-step history of moves and no data with ties or deep trees is reached.",
 ["bartpy/tree.py", "bartpy/node.py", "bartpy/split.py", "bartpy/splitcondition.py", "bartpy/data.py", "bartpy/mutation.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/initializers/sklearntreeinitializer.py"],
 [("mutate keeps node list and links in step", "bartpy/tree.py"), ("split_node / update_mask apply the condition to the row mask", "bartpy/node.py, bartpy/data.py"), ("candidate split values exclude the column maximum", "bartpy/data.py random_splittable_value")],
 [("node list and child links", "shape of the tree", "bartpy/tree.py, bartpy/node.py"), ("mask", "rows outside the node", "bartpy/data.py")],
 ["tree step boundaries of the sampling schedule"])

prop("C02", "In-sample and out-of-sample predictions always agree",
 "At every completed iteration, the model's prediction for its own training rows, its prediction when those same rows are passed in as new data, and the sum over trees of the value of the leaf each row falls in are the same numbers. For a fitted estimator, the stored in-sample prediction samples match, one for one, the recorded models evaluated on the training covariates, and predicting without data equals predicting the training data.",
 ["histories", "inputs", "configurations"],
 "every sampling history (any accept/reject sequence, any number of trees, iterations, chains), every finite covariate matrix and target scale, both tree samplers, with or without an initializer",
 "No test calls predict after a sampling step; the cached in-sample path and the rule-based out-of-sample path are never compared on a tree the sampler built.",
 ["bartpy/tree.py", "bartpy/model.py", "bartpy/split.py", "bartpy/splitcondition.py", "bartpy/sklearnmodel.py", "bartpy/samplers/modelsampler.py"],
 [("prediction cache invalidated on update and mutation", "bartpy/tree.py"), ("combined min/max condition per variable", "bartpy/splitcondition.py")],
 [("cached tree prediction", "last in-sample prediction of the tree", "bartpy/tree.py")],
 ["Model.predict() / Model.predict(X) at sweep ends", "SklearnModel.predict() / predict(X)"])

prop("C03", "Each tree is always sampled against the residual of all the others",
 "Whenever a tree is about to be sampled, the target it sees is exactly the normalized training target minus the current sum of the predictions of all the other trees, and every node of that tree sees that same target. This holds at every tree of every sweep, so no contribution is ever lost, counted twice or left over from an earlier sweep.",
 ["histories", "configurations"],
 "every sampling history, any number of trees (one included) and sweeps, several sampling calls on the same model, both tree samplers, with or without an initializer",
 "The only related test sets one constant array on one node; the running aggregate over trees and sweeps is never exercised.",
 ["bartpy/model.py", "bartpy/tree.py", "bartpy/node.py", "bartpy/data.py", "bartpy/samplers/schedule.py"],
 [("refreshed_trees subtracts, refreshes and re-adds each tree", "bartpy/model.py")],
 [("running prediction", "sum of all tree predictions", "bartpy/model.py"), ("node targets", "residual seen by a node", "bartpy/data.py")],
 ["the tree step of the sampling schedule"])

prop("C04", "Cached node statistics are never stale",
 "At every point of sampling, the statistics a node reports - number of rows, sum of its target, the values of a column, its maximum, which columns can be split (have at least two distinct values among the node's rows), which columns are free of duplicates, and the frequency of a value - equal what a recomputation from the node's rows gives. This covers the nodes in the tree being sampled and the nodes of a proposed move.",
 ["histories", "inputs"],
 "every history of moves and target refreshes, every covariate matrix including ties, constant and two-valued columns and leaves of one or two rows",
 "Tests check the statistics once on 5-row matrices; inheritance of caches through splits, prunes and target updates is never followed.",
 ["bartpy/data.py", "bartpy/node.py", "bartpy/split.py"],
 [("caches carried to children by split conditions", "bartpy/node.py split_node, bartpy/data.py Data.__add__"), ("sum cache invalidated on update", "bartpy/data.py Target.update_y")],
 [("sum, count, splittable and unique caches", "memoised node statistics", "bartpy/data.py")],
 ["the tree and leaf steps of the sampling schedule"])

prop("C05", "Recorded posterior samples are immutable snapshots",
 "A recorded sample keeps, forever, the tree structures, leaf values, sigma and predictions the model had when it was recorded, whether inspected through its node list, through its parent-child links or through prediction. Continued sampling of the live model, later fits, changes to the caller's arrays and a trip through pickling or copying do not change it, and a sample never refers back to the live model's nodes.",
 ["histories", "fault_sequences"],
 "every sampling history before and after the recording, any interleaving of further sampling, refits, caller mutations of the data and pickling/copying",
 "No test records a sample at all; aliasing between a recorded sample and the live sampler only shows when sampling continues afterwards.",
 ["bartpy/tree.py", "bartpy/node.py", "bartpy/model.py", "bartpy/trace.py", "bartpy/samplers/modelsampler.py"],
 [("deep_copy_model / deep_copy_tree / deep_copy_node", "bartpy/model.py, bartpy/tree.py, bartpy/node.py")],
 [("recorded models", "trace of copies of the model", "bartpy/samplers/modelsampler.py")],
 ["recorded samples of the sampler and SklearnModel.model_samples"])

prop("C06", "Chain results do not depend on how workers are scheduled",
 "Each chain's recorded samples are determined by the data, the parameters and the random stream that chain draws from, and not by the number of workers, which worker runs it, whether workers share memory, how concurrently running chains interleave, or the order in which they finish. The fitted estimator holds every chain's samples exactly once, contiguous and in chain order: chains times samples-per-chain entries for models, in-sample predictions and acceptance records alike.",
 ["schedules", "configurations", "inputs"],
 "every number of workers and chains, process-like (isolated) and thread-like (shared memory) workers, every interleaving at source-line granularity, every completion order, slow and stalled workers",
 "No test fits the estimator, let alone in parallel; a race between chains needs a specific preemption between two statements.",
 ["bartpy/sklearnmodel.py", "bartpy/samplers/modelsampler.py", "bartpy/samplers/scalar.py", "bartpy/samplers/leafnode.py", "bartpy/samplers/unconstrainedtree/treemutation.py"],
 [("run_chain builds its own model per chain", "bartpy/sklearnmodel.py"), ("_combine_chains concatenates in submission order", "bartpy/sklearnmodel.py")],
 [("estimator attributes written while chains run", "state shared by chains in shared-memory workers", "bartpy/sklearnmodel.py"), ("scalar draw caches", "pre-drawn random numbers", "bartpy/samplers/scalar.py")],
 ["SklearnModel.fit / extract / model_samples under joblib"])

prop("C07", "Chains never share randomness",
 "The chains of one fit are independent: no random draw is consumed by two of them, and a chain's samples depend only on its own worker's random stream, whatever was fitted, copied or predicted earlier in the process. In particular no leaf value or sigma value is repeated exactly across chains, and changing one chain's random stream changes that chain and no other.",
 ["histories", "schedules", "configurations"],
 "every history of earlier fits (same or other estimators, same process), clones and copies before the fit, every assignment of chains to workers whose random states are independent",
 "No test runs two chains; leftover pre-drawn random numbers only exist after an earlier in-process fit.",
 ["bartpy/samplers/scalar.py", "bartpy/sklearnmodel.py", "bartpy/samplers/leafnode.py", "bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/unconstrainedtree/proposer.py"],
 [("scalar samplers draw in batches from the process-global generator", "bartpy/samplers/scalar.py"), ("each chain works on its own samplers", "bartpy/sklearnmodel.py")],
 [("scalar draw caches", "pre-drawn random numbers", "bartpy/samplers/scalar.py")],
 ["SklearnModel.extract per chain"])

prop("C08", "Parallel multi-dataset runs attribute each result to its own data",
 "Running a model over a list of data sets returns, in order, one fitted model per data set, whose samples, data, predictions and residuals come from exactly that data set's chains, whatever order workers finish in; the template model is left as it was. The permutation utilities built on it respect the same attribution: every null-distribution RMSE is computed on held-out rows paired with their own targets using the model trained on the complementary rows, with only the assessed column permuted.",
 ["schedules", "inputs", "configurations"],
 "every list of data sets (sizes may differ), number of chains and workers, completion order, and previously fitted or unfitted template models",
 "No test touches the runner or the feature-importance functions.",
 ["bartpy/runner.py", "bartpy/sklearnmodel.py", "bartpy/features/featureimportance.py", "bartpy/diagnostics/features.py"],
 [("convert_chains_models groups chains by data set", "bartpy/runner.py"), ("from_extract builds a model from chains", "bartpy/sklearnmodel.py")],
 [("list of delayed chains", "flattened chains of all data sets", "bartpy/runner.py")],
 ["run_models, null_rmse_distribution, original_model_rmse, null_feature_split_proportions_distribution"])

prop("C09", "Burn-in, thinning and traces record exactly the promised iterations",
 "A chain runs exactly burn-in plus sample-count full sweeps (every tree once in order, then every leaf of that tree, then sigma once) and records nothing during burn-in. Afterwards it records the first sample and then the requested fraction of samples at an even spacing, and each recorded model, in-sample prediction and acceptance rate describes the state at the end of that very iteration, index for index; the acceptance rate is the fraction of trees whose move was accepted in that iteration. Switched-off traces stay empty without affecting the others.",
 ["configurations", "histories"],
 "every burn-in and sample count (zero included), every thinning fraction in (0,1], every combination of storage flags, every number of trees and sampling history",
 "No test runs the model sampler.",
 ["bartpy/samplers/modelsampler.py", "bartpy/samplers/schedule.py", "bartpy/trace.py", "bartpy/sklearnmodel.py"],
 [("thinning test on the iteration index", "bartpy/samplers/modelsampler.py"), ("schedule generator", "bartpy/samplers/schedule.py")],
 [("traces", "recorded models, predictions, acceptance", "bartpy/samplers/modelsampler.py")],
 ["ModelSampler.samples and SklearnModel.extract"])

prop("C10", "A failed fit is all-or-nothing",
 "If fitting fails - a worker dies, a chain raises or is interrupted, work or results cannot be shipped, progress output fails, or the data are rejected - the failure is reported to the caller and the estimator still behaves exactly as it did before the call: a previously fitted one keeps giving its old predictions and residuals, an unfitted one stays unfitted. A fit that returns holds the full set of samples of all chains, and once faults stop the next fit succeeds and equals the fit of a fresh estimator.",
 ["fault_sequences", "crash_points", "schedules"],
 "every failure point of every chain (any draw), worker death before, during or after a chain, interruption of the parent while it waits, dispatch and result transport errors, output errors, invalid refit data; first fits and refits, any number of chains and workers",
 "Tests inject no failure and never refit.",
 ["bartpy/sklearnmodel.py", "bartpy/extensions/baseestimator.py", "bartpy/extensions/ols.py"],
 [("fit publishes data, model and samples", "bartpy/sklearnmodel.py")],
 [("estimator's data, model and samples", "what predict and residuals read", "bartpy/sklearnmodel.py")],
 ["SklearnModel.fit/predict/residuals around injected failures"])

prop("C11", "Interrupted sampling can be resumed safely",
 "If sampling of a model is interrupted while it draws a random number, between two steps of a sweep, or while a result is being logged, the model is still valid - trees partition the rows, cached and recomputed predictions agree - and sampling can be continued on it. In the continuation every tree is again sampled against the residual of all the others, no tree's contribution having been dropped or doubled by the interruption.",
 ["crash_points", "fault_sequences", "histories"],
 "every draw, step boundary and logging call as the interruption point, one or several interruptions, several exception kinds, abandoning a sweep part way, any number of trees, then any further history",
 "Tests inject no interruption; the damage only shows in the sweep after the interrupted one.",
 ["bartpy/model.py", "bartpy/tree.py", "bartpy/samplers/schedule.py", "bartpy/samplers/modelsampler.py"],
 [("refreshed_trees bookkeeping across an abandoned sweep", "bartpy/model.py")],
 [("running prediction", "sum of all tree predictions", "bartpy/model.py")],
 ["Model and sampling schedule after an injected exception"])

prop("C12", "Fits are reproducible and independent of process history",
 "Fitting in-process from a given state of numpy's global random generator gives bit-for-bit the same samples and predictions every time, no matter what was fitted, predicted, copied or cloned before in the process, whether the estimator is new, cloned, copied, unpickled or being refitted, and in what form equal data are passed (array or data frame). Refitting leaves no residue of the earlier fit, and a fit uses exactly the parameters the estimator reports at that moment, whether they came from construction or were set later.",
 ["histories", "inputs", "configurations"],
 "every history of earlier operations on the same or other estimators in the process, every parameter setting, every data set, estimators obtained by construction, clone, deepcopy, pickle or refit, parameters changed between fits",
 "No test fits twice; leftover pre-drawn numbers, shared default arguments and stale attributes need a second fit in the same process.",
 ["bartpy/sklearnmodel.py", "bartpy/samplers/scalar.py", "bartpy/samplers/leafnode.py", "bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/model.py"],
 [("draw caches start empty for each chain", "bartpy/sklearnmodel.py, bartpy/samplers/scalar.py")],
 [("scalar draw caches and default sampler objects", "state living longer than one fit", "bartpy/samplers/scalar.py")],
 ["SklearnModel.fit with seeded numpy generator"])

prop("C13", "Sampling always makes progress",
 "For every finite training set - including one row, constant targets, constant or duplicated columns, and rows that cannot be separated - every sampling step terminates within a bounded number of random draws, and the fit completes with finite predictions. When no grow or prune move is possible the tree is simply left unchanged; when any legal move exists it can eventually be proposed and accepted, so no tree is ever stuck in an absorbing state.",
 ["inputs", "histories", "configurations"],
 "every finite training set (target range representable; covariates within single precision when a tree initializer is used), every reachable tree state (all leaves unsplittable included), every grow/prune probability strictly between 0 and 1, every draw sequence",
 "Tests never run the sampler on degenerate data or in a saturated tree.",
 ["bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/unconstrainedtree/likihoodratio.py", "bartpy/data.py"],
 [("proposal retry on impossible moves", "bartpy/samplers/unconstrainedtree/proposer.py"), ("target normalization", "bartpy/data.py")],
 [], ["draw counts per step at the random-number seam", "SklearnModel.fit/predict results"])

prop("C14", "Tree moves are accepted by the Metropolis-Hastings rule of the posterior",
 "In every reachable state, a proposed grow or prune is accepted exactly when the logarithm of a fresh uniform draw is below the log of (posterior ratio times reverse-over-forward proposal probability) of the BART model of Chipman et al.: leaf values integrated out under their normal prior, depth-dependent splitting prior, and the actual probabilities with which the sampler chooses the move and its reverse. Consequently the log ratio of a move and of the move that undoes it are exact negatives.",
 ["histories", "inputs", "configurations"],
 "every reachable state of tree, residuals and sigma, every proposal, every prior setting and grow/prune probability, every draw sequence, default tree sampler",
 "No test evaluates an acceptance ratio or runs a step; errors need particular shapes (leaf with a prunable parent, unsplittable children, single-split tree) to show.",
 ["bartpy/samplers/unconstrainedtree/likihoodratio.py", "bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/model.py"],
 [("log_probability_ratio = transition + likelihood + tree prior", "bartpy/samplers/treemutation.py, bartpy/samplers/unconstrainedtree/likihoodratio.py"), ("comparison with a uniform draw", "bartpy/samplers/unconstrainedtree/treemutation.py")],
 [], ["proposal, uniform draw and outcome of every tree step"])

prop("C15", "Leaf values and sigma are drawn from their conditional posteriors",
 "Every sweep redraws every leaf of every tree from the normal posterior given that leaf's current residuals, the current sigma and the leaf prior (zero mean, standard deviation 0.5 / (k * sqrt(number of trees))), and redraws sigma from the inverse-gamma posterior given the current residuals of the whole model. Each draw uses the state at that very moment, and the drawn value is the one stored.",
 ["histories", "inputs", "configurations"],
 "every reachable model state, every prior setting (k, sigma shape and scale), number of trees and rows, every draw sequence",
 "No test draws a leaf value or sigma.",
 ["bartpy/samplers/leafnode.py", "bartpy/samplers/sigma.py", "bartpy/sigma.py", "bartpy/model.py", "bartpy/samplers/schedule.py"],
 [("LeafNodeSampler.sample", "bartpy/samplers/leafnode.py"), ("SigmaSampler.sample", "bartpy/samplers/sigma.py")],
 [("sigma", "current noise scale", "bartpy/sigma.py")],
 ["leaf and sigma steps of the sampling schedule"])

prop("C16", "Prediction is a pure, row-wise, thread-safe read in original units",
 "For a fitted estimator, the prediction of a row is the mean over all recorded samples of all chains of that sample's prediction for the row, mapped back to the units of the training target; it depends on nothing but the row's values and the fit. Predictions and residuals are therefore unchanged by repetition, by the other rows in the call, by row order, by array or data-frame form, by in-place changes to earlier arguments, and by any interleaving of calls from concurrent threads.",
 ["schedules", "histories", "inputs"],
 "every sequence of prediction, residual and error calls on a fitted estimator, from one or several threads interleaved at source-line granularity, every covariate matrix (training rows, new rows, rows on split thresholds and outside the training range, single rows)",
 "No test predicts with a fitted estimator; hidden caches only show in specific call sequences or interleavings.",
 ["bartpy/sklearnmodel.py", "bartpy/model.py", "bartpy/tree.py", "bartpy/splitcondition.py", "bartpy/data.py"],
 [("out-of-sample path recomputes from leaf conditions", "bartpy/tree.py, bartpy/splitcondition.py"), ("unnormalize_y", "bartpy/data.py")],
 [], ["SklearnModel.predict/residuals/l2_error/rmse"])

prop("C17", "A rejected proposal leaves no trace and an accepted one is applied exactly",
 "Proposing and evaluating a move never changes the tree, the other trees, the leaf values, the target or any prediction; if the move is rejected the model is exactly as before. If it is accepted, the tree afterwards differs from before by exactly that move: a grow replaces one leaf by one split with two non-empty children, a prune replaces one split with two leaf children by a leaf holding all their rows, and everything else is untouched. A move of the oblivious sampler does the same to every splittable leaf at once, or to every prunable split at once, each exactly as proposed.",
 ["histories", "inputs"],
 "every reachable state and every proposal, accepted or rejected, repeated proposals without acceptance, both move kinds at the root and deep in the tree",
 "Tests check that a proposed node is not in the node list once, on hand-built trees, without evaluating or rejecting a proposal.",
 ["bartpy/samplers/unconstrainedtree/treemutation.py", "bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/tree.py", "bartpy/node.py", "bartpy/mutation.py"],
 [("proposals build new nodes; mutate applies them", "bartpy/samplers/unconstrainedtree/proposer.py, bartpy/tree.py")],
 [("node list, links and values", "tree state", "bartpy/tree.py")],
 ["tree step of the sampling schedule"])

prop("C18", "Proposals cover exactly the legal moves with the documented probabilities",
 "For any tree, the proposer only proposes legal moves and can propose every legal one: grow or prune with the configured probabilities (or the only possible one), a splittable leaf or prunable split chosen uniformly, the split column uniformly among the columns with at least two distinct values in the leaf, and the threshold uniformly among the leaf's rows whose value is below the column maximum. This stays true as the tree evolves.",
 ["histories", "inputs", "configurations"],
 "every reachable tree, every covariate matrix, every grow/prune probability, long draw sequences crossing refills of the pre-drawn numbers",
 "Tests draw one grow and one prune and check only their types.",
 ["bartpy/samplers/unconstrainedtree/proposer.py", "bartpy/samplers/scalar.py", "bartpy/data.py"],
 [("uniform choices over splittable leaves, prunable splits, columns, values", "bartpy/samplers/unconstrainedtree/proposer.py, bartpy/data.py"), ("discrete sampler over move kinds", "bartpy/samplers/scalar.py")],
 [], ["frequencies of proposals at reached trees"])

prop("C19", "Residual-model extensions stay consistent through fits, refits and failures",
 "An estimator that combines a base model with BART predicts, for any rows and for its own training data, exactly the base model's prediction plus the BART prediction of the base model's training residuals, both from the same successful fit, and its residuals are the original training targets minus that prediction. The base estimator object supplied by the caller is never modified, a failed refit leaves base model and BART part as they were, and a clone has all parameters of the original, those of the BART part included.",
 ["histories", "fault_sequences", "inputs"],
 "every sequence of fits, refits on other data, failed fits (worker death, chain exceptions) and predictions, any base regressor, any number of chains and workers",
 "No test imports the extensions.",
 ["bartpy/extensions/baseestimator.py", "bartpy/extensions/ols.py", "bartpy/sklearnmodel.py"],
 [("fit base, then BART on residuals; predict adds both", "bartpy/extensions/baseestimator.py, bartpy/extensions/ols.py")],
 [("fitted base model", "base part of the prediction", "bartpy/extensions/")],
 ["ResidualBART / OLS fit and predict"])

prop("C20", "Fitting neither changes nor keeps referring to the caller's data",
 "Fitting, predicting, sampling and running permutation utilities never modify the covariates, targets, parameters or estimators passed in, in any worker arrangement, and also work when those arrays are read-only. After a fit returns, changing those arrays in place affects neither the fitted estimator's predictions, samples and residuals nor any other estimator fitted on the same arrays.",
 ["histories", "schedules", "inputs"],
 "every sequence of fits (in-process, isolated and shared-memory workers), predictions, permutation runs and in-place caller mutations before, between and after them; arrays and data frames, read-only arrays",
 "No test fits or mutates its inputs.",
 ["bartpy/sklearnmodel.py", "bartpy/model.py", "bartpy/data.py", "bartpy/runner.py", "bartpy/features/featureimportance.py"],
 [("training data are deep-copied into the estimator and each tree", "bartpy/sklearnmodel.py, bartpy/model.py")],
 [("training arrays", "covariates and target held by estimator and trees", "bartpy/data.py")],
 ["caller arrays before and after every operation; predictions after caller mutations"])

prop("C21", "Feature selection keeps exactly the columns that beat their threshold",
 "After a successful fit, a feature selector gives every column of the covariates a proportion (the share of all splits of all recorded samples made on that column, 0 without splits) and, per column and permutation, the same share in a model trained on the same covariates with a target permuted anew for that permutation. The local threshold of a column is the stated quantile (a fraction) of its own null proportions, the global one that of the per-permutation maxima; the support has one entry per column, in column order, true exactly where the proportion exceeds the threshold, and transform keeps exactly those columns. None of it depends on the order in which workers finish; a fit that fails is reported and leaves the earlier selection in force, and the model passed in is never changed.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "every training set (constant and never used columns included), every quantile from 0 to 1, number of permutations, chains, workers and completion order, every sequence of fits and failed fits",
 "No test calls these functions.",
 ["bartpy/features/featureselection.py", "bartpy/diagnostics/features.py", "bartpy/runner.py"],
 [("local_thresholds / global_thresholds / is_kept", "bartpy/diagnostics/features.py"), ("support mask", "bartpy/features/featureselection.py"), ("null models run through run_models", "bartpy/diagnostics/features.py")],
 [("proportions, null distribution and thresholds", "what the selection is made from", "bartpy/features/featureselection.py")],
 ["selector attributes, get_support and transform after each fit"])

prop("C22", "Diagnostics show exactly the recorded samples of the last successful fit",
 "The sigma trace, the least, mean and greatest node depth per sample, the tree-move acceptance rates, the share of all splits made on each column (proportions of splits, adding up to one) and the residual plots are computed from exactly the samples that the chains of the last successful fit recorded, each once and in chain order, and are drawn on the axes passed in. This also holds after failed refits, for copies, and for models made from an extract; reading diagnostics changes nothing about the estimator.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "every fitted estimator, number of chains, workers and completion order, every sequence of fits, failed refits, copies and other fits, every order of reading",
 "No test calls the diagnostics.",
 ["bartpy/diagnostics/features.py", "bartpy/diagnostics/trees.py", "bartpy/diagnostics/sigma.py", "bartpy/diagnostics/sampling.py", "bartpy/diagnostics/residuals.py", "bartpy/diagnostics/diagnostics.py", "bartpy/plotting.py"],
 [("loops over model_samples and acceptance trace", "bartpy/diagnostics/")],
 [("recorded samples", "published by fit", "bartpy/sklearnmodel.py")], ["return values and the series drawn on the axes"])

prop("C23", "Chains start from exactly the trees their initializer promises",
 "With a tree initializer every chain starts, before its first sweep, from trees set up one after another: each is the greedy least-squares regression tree (within the initializer's maximum depth and minimum number of rows per split) of the normalized target minus the predictions of the trees set up before it. It splits wherever limits and distinct values allow, each time at a best split of the node's rows with a threshold that is a value found in the node; the value of a leaf is the mean over its rows of that tree's target less the target's overall mean. The prediction of the initial model is the sum of these leaf values. Without an initializer every tree starts as a single leaf of value 0. This holds for every chain alike, after refits and copies, whatever was fitted, failed or was interrupted before.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "every finite training set (one row, constant columns, ties, a constant target included), every maximum depth and minimum split size, number of trees and chains, every history of builds, interrupted builds, fits, failed fits and copies",
 "The tests build one initialized tree on a handful of rows and look at its size; the residuals later trees are fitted to, the values and degenerate data are not checked.",
 ["bartpy/initializers/sklearntreeinitializer.py", "bartpy/initializers/initializer.py", "bartpy/model.py", "bartpy/sklearnmodel.py"],
 [("map_sklearn_tree_into_bartpy", "bartpy/initializers/sklearntreeinitializer.py"), ("refreshed_trees while initializing", "bartpy/model.py initialize_trees")],
 [("initial trees", "state before the first sweep", "bartpy/model.py")], ["trees of a new model, before its first sampling step"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
