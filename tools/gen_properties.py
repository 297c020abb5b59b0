"""Writes /verif/properties.jsonl (one property per line). Source of truth for the property texts."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

F = "pyforecaster/formatter.py"; S = "pyforecaster/scenarios_generator.py"; FC = "pyforecaster/forecaster.py"
SR = "pyforecaster/scenred.py"; HW = "pyforecaster/forecasting_models/holtwinters.py"
FA = "pyforecaster/forecasting_models/fast_adaptive_models.py"; RC = "pyforecaster/reconciliation/reconciliation.py"

prop("C01", "Generated features are exactly the requested, causal time windows",
 "For every transform configuration (functions, aggregation window, signed lags, relative lags, bins, nested or not) each generated column at time t is the requested function of exactly the samples the configuration designates relative to t: an aggregation window ends at t, a lag l moves it l steps (l aggregation windows when lags are relative) into the past when positive and into the future when negative, and a bin pair (a,b) covers the samples from b to a-1 steps back. Steps are rows of the frame; an aggregation window given as a time span covers that span even where rows are missing. "
 "The value is missing exactly when that window (for non-nested bins the range of all bins) or the row it is shifted from is not entirely inside the data, or contains a missing sample, so a feature built with non-negative lags never depends on any sample later than t.",
 ["inputs", "configurations"], "all frames (rows may be missing from their time grid), all transform configurations and sampling times",
 "The tests run a dozen configurations and look at shapes or plots; none compares a value with the window definition, and no finite list of configurations settles lag/window/bin arithmetic.",
 [F], [("Transformer.transform rolling/shift/bins", F)], ["Formatter.transform", "Transformer.transform"])
prop("C02", "Feature metadata states the true window of every generated column",
 "After a transform (or a metadata-only simulation) the metadata of a transformer lists exactly the generated columns, in their order, and each entry states the source signal, function and lag of that very column and the start and end of the window (relative to the prediction instant) of the samples the column really depends on (an un-aggregated column declares its aggregation window, whose last sample it is). "
 "A metadata-only simulation reports the same metadata as a real transform, and the overall time limits reported by the formatter are the extreme start and end over the transformers concerned.",
 ["inputs", "configurations"], "all transform configurations, single and multiple signals, functions, lags, bins",
 "No test reads a metadata value; fold construction, feature pruning and plots silently rely on them.",
 [F], [("metadata_n construction in Transformer.transform", F), ("Formatter.get_time_lims", F)], ["Transformer.metadata", "Formatter.get_time_lims"])
prop("C03", "Transformed features and targets stay row aligned and complete",
 "Transforming a frame returns features and targets with identical time indexes, containing exactly those time stamps of the input at which every generated feature and every target is defined, each row holding the values of its own time stamp; without targets exactly the time stamps with every generated feature defined are returned and their features are the same as in training form. "
 "With augmentation the original columns accompany the generated ones unchanged, without it only generated (and calendar) columns are returned, and the caller's frame is never modified.",
 ["inputs", "configurations"], "all frames (missing samples included), transform and target configurations, training and inference form",
 "The tests only check that shapes agree and that no NaN is left for one configuration; a shifted, dropped or duplicated row passes them.",
 [F], [("row filter in Formatter._transform", F)], ["Formatter.transform"])
prop("C04", "A formatter's output does not depend on what it did before",
 "The generated features, targets and metadata of a frame are a function of the formatter's configuration and that frame only: earlier transforms of other frames (any length, columns order, sampling time), metadata simulations, fold generation, pruning, pickling or copying the formatter, and evaluating the transforms in parallel threads, leave them unchanged.",
 ["histories", "configurations", "schedules"], "all histories of formatter operations before a transform",
 "Each test uses a formatter for one or two calls; state that leaks from one call to the next only shows in a history the tests do not contain.",
 [F], [("Transformer.transform keeps configuration separate from per-call state", F), ("concurrent transformer evaluation in Formatter._transform", F)],
 ["Formatter.transform", "Transformer.metadata"], state=[("Transformer.agg_freq / metadata", "per transformer configuration and last metadata", F)])
prop("C05", "Time cross-validation folds never leak across the feature look-back",
 "For any time index, number of folds and multiplier, every fold's test set is the contiguous set of samples within one window, training samples are exactly those farther than the largest feature look-back/look-ahead start from that window on both sides (so train and test are disjoint), the number of folds is folds times multiplier and together the test windows cover every sample. "
 "A look-back longer than the test window is refused instead of yielding folds.",
 ["inputs", "configurations"], "all time indexes, fold counts, multipliers and transform configurations",
 "The tests only check that train plus test is smaller than the whole for one configuration.",
 [F], [("Formatter.time_kfcv", F)], ["Formatter.time_kfcv"])
prop("C06", "Target normalisation is exact, reversible and touches only its target",
 "With normalisers and a normalising expression set, the returned target and generated features derived from a normalised signal equal the expression applied once, row by row, to the un-normalised value and that row's normaliser values, while columns not derived from a normalised signal are returned unchanged. "
 "Denormalising a frame of targets or of quantile predictions with the inverse expression restores the original values, and neither direction modifies the frames passed by the caller.",
 ["inputs", "configurations"], "all frames, normaliser windows, one or several normalised targets, point and quantile frames",
 "Tests check only that the round trip sum is small for a single target; scope (which columns) and values are never checked.",
 [F, FC], [("Formatter.normalize / denormalize / normalize_target_inner", F), ("ScenarioGenerator.anti_transform", FC)], ["Formatter.transform", "Formatter.denormalize"])
prop("C07", "Global form stacks exactly the per-series transforms, correctly labelled",
 "Transforming in global form returns, for every independent series in turn, exactly the rows and values obtained by transforming that series on its own with the shared signals, labelled with that series' name; no row mixes or borrows values from another series. "
 "Memory reduction only changes number types, and correlation reordering only permutes, within one transformed signal, which of its generated columns holds which values, in order of decreasing correlation with the first target (the training order being reused at inference).",
 ["inputs", "configurations"], "all sets of independent and shared series, flat and two-level columns",
 "Tests only run the code path on one frame and check the absence of NaN.",
 [F, "pyforecaster/big_data_utils.py"], [("global_form_preprocess / global_form_postprocess", F)], ["Formatter.transform(global_form=True)"])
prop("C08", "Step-ahead pruning keeps exactly the features its rule selects",
 "For any target step, pruning returns exactly the generated features whose window satisfies the chosen rule (periodic: the start or the end of the window is a whole number of periods before that of the target up to the tolerance; up_to: the window ends no later than the target; otherwise all) plus those among the last n lags, those ending no later than the requested seconds after the prediction instant and no later than the target, and the explicitly kept metadata features. "
 "Row order and values are untouched and the same step always selects the same features in fitting and prediction.",
 ["inputs", "configurations"], "all transform configurations, target steps, periods, tolerances, keep rules",
 "The only test draws a heat map of the selected columns.",
 [F, "pyforecaster/forecasting_models/gradientboosters.py"], [("Formatter.prune_dataset_at_stepahead", F)], ["Formatter.prune_dataset_at_stepahead"])
prop("C09", "Refitting equals fresh fitting and predicting leaves the model unchanged",
 "For every deterministic feature-based forecaster, its point and quantile predictions depend only on its current parameters, the last training set it was fitted on and the rows asked: refitting (other data, other number of targets) gives what a new forecaster gives, parameters changed through set_params before a fit act as if passed to the constructor, and any interleaving of predictions leaves later predictions unchanged. A step forecast by a model of its own (LGBForecaster, linear regression, the single steps of LGBMHybrid) gets the forecast it would get if it were the only target. "
 "Predictions carry the index of the rows asked and the target columns of the training targets, each row's prediction does not depend on the other rows, and neither fit nor predict modifies the frames passed in.",
 ["histories", "configurations", "inputs"], "all histories of construct, set_params, fit, predict, predict_quantiles over the forecaster classes",
 "Tests fit each forecaster once; a stale sub-model, a frozen parameter or a mutated input only appears after a second call.",
 [FC, "pyforecaster/forecasting_models/gradientboosters.py", "pyforecaster/forecasting_models/randomforests.py"],
 [("fit/predict/set_params/get_params of ScenarioGenerator subclasses", FC)], ["fit", "predict", "predict_quantiles", "set_params", "get_params"],
 state=[("fitted sub-models", "list of fitted estimators", FC)])
prop("C10", "Quantile forecasts are the point forecast plus the right error quantiles",
 "For forecasters with error-based quantiles, the quantile forecast of a row, target step and level is the point forecast plus that level's empirical quantile of the validation errors of that very step, taken over the validation rows of the same hour of day when hour-conditional and every hour was seen, over all validation rows otherwise. "
 "The data-frame form labels every value with its own target and level, converting to an array and back is lossless, forecasts are non-decreasing in the level, and the validation rows are the last val_ratio fraction of the data (all of it when unset), never used for training the point model. The probability mass of an interval is the share of the quantile forecasts in it.",
 ["inputs", "configurations"], "all validation sets, quantile vectors, numbers of steps, hour-conditional or not",
 "No test checks a quantile value; hour selection, axis order and labelling errors leave shapes intact.",
 [FC, "pyforecaster/forecasting_models/benchmarks.py"], [("_estimate_err_distr / _predict_quantiles / quantiles_to_df / train_val_split", FC)], ["predict_quantiles", "predict", "err_distr"])
prop("C11", "The scenario-fit row cap keeps an exact, aligned, ordered, reproducible subset",
 "With a row cap m and n validation rows, the post-fit stage uses exactly min(m, n) rows: distinct rows of the validation set, in time order, features and targets of the same row together, the same rows for the same seed; without a cap, or with n not above m, all rows are used. "
 "The cap never changes what the point model is trained on, the sample follows the hours' shares as closely as a seeded proportional draw can, and invalid caps are rejected.",
 ["inputs", "configurations"], "all row counts, caps, index types (time or not, duplicated stamps), seeds",
 "The tests cover four sizes; corner cases such as fewer rows than hours, capped strata and equal time stamps are not reached.",
 [FC], [("_maybe_subsample_for_scengen and helpers", FC)], ["fit (rows passed to predict and scengen.fit)", "err_distr"])
prop("C12", "Scenarios follow the forecast quantiles and the dependence of their own hour",
 "Sampled scenarios have one value per row, step and scenario; the value is the linear inter/extrapolation of that row's and that step's quantile forecast at the sampled rank, up to a negligible jitter, so the ranks of a step are uniform and ranks across steps follow the dependence learned from the validation errors of the row's own hour, for every estimator of the covariance. "
 "A fixed random state reproduces the scenarios up to that jitter, and with an additional node the first step of every scenario is the row's initial observation (zero when none is given). Quantile levels and tree nodes given through set_params before a fit act as if passed to the constructor.",
 ["inputs", "configurations"], "all quantile forecasts, numbers of rows, steps and scenarios, hours",
 "Tests only draw the scenarios; rows of one hour sampled with another hour's dependence, or swapped steps, look equally plausible.",
 [S, "pyforecaster/copula.py"], [("ScenGen.sample_scenarios / interp_scens", S), ("HourlyGaussianCopula.fit/sample", "pyforecaster/copula.py")],
 ["ScenGen.predict_scenarios", "predict_scenarios", "HourlyGaussianCopula.sample"])
prop("C13", "Scenario reduction yields a rooted tree that conserves probability",
 "Reducing scenarios to a tree with a given non-decreasing number of nodes per step (first one) returns exactly that many nodes at each step, each non-root node with one parent at the previous step, node values taken from the original scenarios' values at that step, and path/node probabilities that are multiples of 1/n, sum to one at each step and equal the sum of the children's probabilities. "
 "Once two scenarios are merged at a step they are identical at all earlier steps, also when scenarios coincide at some or all steps, and the caller's scenarios are not modified. Quantile trees have the requested counts and equal shares, and the values of a node's children are the evenly spaced quantiles of the scenarios that follow the node, which they share by their quantiles. Trees whose values are optimised (DiffTree, NeuralGas) keep counts, edges and probabilities, the scenarios and values returned with a tree are those of its nodes, and a start tree passed by the caller is not modified.",
 ["inputs", "configurations"], "all scenario sets (one or more variables), node counts per step",
 "Tests draw one tree per run; nothing checks counts, parents or probabilities.",
 [SR, "pyforecaster/tree_builders.py"], [("scenred / get_network / retrieve_scenarios_indexes", SR)], ["scenred", "ScenredTree.gen_tree", "predict_trees"])
prop("C14", "Pre-fitted trees are never altered and forecasts shift them step by step",
 "With offline tree reduction, the tree predicted for a row is the stored tree of that row's hour, same topology and probabilities, with every node's value increased by that row's forecast of the node's step (the initial observation at an additional root), independently of the other rows and of how many predictions were made before; stored trees never change. "
 "Using offline reduction without pre-fitted trees, or giving node counts to it, is refused, and switching between online and offline at any time only changes the mode used.",
 ["histories", "inputs"], "all sequences of tree predictions, mode switches and refits",
 "Tests call predict_trees once per mode and check no value.",
 [S, SR], [("ScenGen.fit prefit / predict_trees / tree_gen", S), ("superimpose_signal_to_tree", SR)], ["predict_trees"],
 state=[("ScenGen.trees", "stored tree per hour", S)])
prop("C15", "Holt-Winters follows its recursion whatever the batching of observations",
 "Feeding observations in any sequence of batches gives the same forecasts and the same final level, trend and seasonal state as feeding them one by one; each step-ahead forecast is level plus trend plus the two seasonal terms due at that step, and the state after each observation is given by the double-seasonal additive recursion with the fitted gains and seasonal limits (the trend is learned while fitting only, a missing observation counts as equal to its own forecast). "
 "A fit ends at the end of the training series: the recursion has run over it and then, repeatedly, over its last longest season. Saving and restoring the state resumes the same forecasts, and the error quantiles of a multi-model forecaster for a step are those of the sub-model that predicts that step.",
 ["histories", "inputs"], "all observation sequences, splits into predict calls, gains, periods, horizons",
 "Tests check that predictions look reasonable on one series (and are skipped for missing data).",
 [HW], [("run / HoltWinters._run / reinit / set_states", HW), ("HoltWintersMulti.fit/predict", HW)], ["predict", "get_states", "set_states"],
 state=[("a, b, s1, s2", "level, trend, seasonal states", HW)])
prop("C16", "Adaptive forecasters: prediction is causal, repeatable and keeps fitted state",
 "For the Fourier and Kalman adaptive forecasters, predicting never changes the fitted state, so repeated or interleaved predictions give the same results, the forecast at a row depends only on the fitted state and the observations up to that row, a prediction continues from the end of the training data as if the two were one run, and a copied or pickled forecaster predicts the same as the original. "
 "At each row the seasonal curve moves, by the smoothing factor or the gain of the Kalman filter, towards the projection of exactly the last m observations (taken from the stored history where the passed ones do not reach) onto the harmonics, and the forecast is the curve one period back plus the decaying correction of the last error; the multi-expert forecaster averages its experts with weights that follow their errors on the last observation. "
 "Error quantiles pair each forecast with the observation of its own step, and forecasts stay finite whatever the series (constant stretches included).",
 ["histories", "inputs"], "all sequences of fit/predict calls, observation sequences, window lengths and horizons",
 "The tests need data that is not in the repository; nothing checks purity or causality.",
 [FA], [("StatefulForecaster/Fourier_es/FK/FK_multi run and states", FA)], ["predict", "predict_quantiles", "generate_recent_history"],
 state=[("states", "filter state", FA)])
prop("C17", "Reconciled forecasts are coherent with the hierarchy and correctly labelled",
 "For every hierarchy and method, reconciled point forecasts, and every reconciled value, satisfy the hierarchy exactly: each aggregate column equals the sum of the bottom columns below it, at every time and step, whatever the order in which series appear. "
 "Forecasts that are already coherent are left unchanged, every column carries the series it was computed from, and hierarchy levels and bottom members are those of the given tree. Scores reported per hierarchy level are the mean, over the series of that level, of the score of each series' own forecasts at each step.",
 ["inputs", "configurations"], "all hierarchies (depth, order, names), methods, orders of the series in training and prediction data",
 "One test runs one hierarchy end to end and checks nothing about sums or labels.",
 [RC], [("get_summation_matrix / fit_reconciliation / reconcile", RC)], ["HierarchicalReconciliation.predict", "reconcile", "fit_reconciliation", "get_hierarchy_levels"],
 state=[("s_matrix, p_matrix, ordered_cols", "reconciliation mapping", RC)])
prop("C18", "Scores are exact group averages of their definition",
 "Every score (root mean square error, mean absolute percentage error, normalised absolute error, quantile score, CRPS, reliability) equals its definition averaged over exactly the entries of each group, whether groups split rows or steps, for frame or array quantiles in either axis order, with every level paired to its own forecast. "
 "Summary scores equal the score computed per grouping column with masked entries ignored, and scoring never modifies the forecasts, targets or groupings passed in.",
 ["inputs", "configurations"], "all forecasts, targets, groupings, masks and quantile levels",
 "Tests check shapes of a few results.",
 ["pyforecaster/metrics.py"], [("rmse/mape/nmae/quantile_scores/crps/reliability/summary_scores", "pyforecaster/metrics.py")], ["metrics functions", "summary_scores", "make_scorer"])
prop("C19", "Cross validation scores each fold with a model that never saw it",
 "In full cross validation and random-fold tuning each evaluated model is fitted only on the fold's training rows with the trial's parameters and scored only on the fold's test rows; the score reported for a trial is the mean over folds of that metric, and stored test targets and predictions are those of the same fold. "
 "Folds may be masks or positions, in any iterable. Parameters that a trial does not propose keep the value they have in the model passed, which tuning leaves unchanged, and each fold's model keeps the whole configuration of that model. "
 "The tuning history has one entry per trial with the parameters and value of that trial, random-fold tuning draws the fold anew for each trial, and parameters unknown to the model are refused.",
 ["inputs", "histories", "configurations"], "all fold lists (masks or positions), models, parameter spaces, numbers of trials",
 "Tests check the number of results only.",
 ["pyforecaster/trainer.py"], [("cross_validate / optuna_objective / hyperpar_optimizer", "pyforecaster/trainer.py")], ["cross_validate", "hyperpar_optimizer", "retrieve_cv_results"])
prop("C20", "Splitting and compacting data loses nothing",
 "Splitting a frame or array gives consecutive pieces, in order, of nearly equal size, whose concatenation is the original with unchanged types, for any number of pieces on either axis. "
 "Memory reduction keeps shape, labels and order and changes only number types: integers exactly (no overflow at type limits) and floats within single precision.",
 ["inputs"], "all frames/arrays, numbers of splits, axes, value ranges",
 "Tests run a single frame.",
 ["pyforecaster/big_data_utils.py"], [("array_split / reduce_mem_usage", "pyforecaster/big_data_utils.py")], ["array_split", "reduce_mem_usage"])
prop("C21", "Benchmark forecasters predict exactly what they promise",
 "Persistence forecasts repeat the current value for every step; seasonal persistence forecasts at step k the value observed one season before that step, using the remembered end of the training series where needed; both pair each forecast with the observation of its own step when estimating errors. "
 "The discrete-distribution forecaster returns, for every target and time of day, the observed relative frequencies of the values, summing to one, its point forecast is their expectation, and results carry the index of the rows asked.",
 ["inputs"], "all series, seasons, horizons, supports",
 "No running test covers these classes.",
 ["pyforecaster/forecasting_models/benchmarks.py", HW], [("Persistent/SeasonalPersistent/DiscreteDistr", "pyforecaster/forecasting_models/benchmarks.py")], ["fit", "predict", "predict_probabilities"])
prop("C22", "Categorical features are encoded consistently between fit and predict",
 "A forecaster that accepts categorical features maps equal categories to equal codes and different ones to different codes, with the same mapping at fit and at every later predict whatever subset or order of categories appears; unseen categories are refused with an error naming them. "
 "The caller's frames keep their categories, numeric columns are untouched, and refitting learns the categories of the new training set.",
 ["histories", "inputs"], "all histories of fits and predictions over categorical columns",
 "No test passes a categorical column.",
 [FC], [("encode_categorical", FC)], ["fit", "predict"], state=[("fitted encoders", "category to code mapping per column", FC)])
prop("C23", "Calendar features match each row's own time stamp",
 "Calendar features of each row (hour, day of week, minute of day, UTC offset, holiday class) are those of that row's own local time stamp, also across daylight-saving changes and year ends; the holiday class is 3 on a public holiday, else 2 on another day of a long weekend, else 1 on a bridge day, else 0. "
 "Whether the UTC offset is present is decided by the first frame transformed and stays the same for all later ones, being zero for later frames without time zone.",
 ["inputs", "histories"], "all time indexes, time zones, countries, sequences of zoned and naive frames",
 "The tests check the presence of one column.",
 [F], [("Formatter.add_time_features / add_holidays", F)], ["Formatter.transform"], state=[("Formatter.timezone", "sticky decision", F)])
prop("C24", "Multi-step forecasters route every step to its own model and features",
 "In the hybrid gradient-boosting and quantile-forest forecasters the i-th predicted column is produced by the model trained for the i-th target step, on the features selected for that step when a formatter is given, single-step models serving the first steps and the shared model the remaining ones in order; sequential and parallel evaluation agree. "
 "Quantile output pairs every value with its own step and level.",
 ["inputs", "configurations"], "all numbers of single and shared steps, rows, levels, parallel or not",
 "Tests for these classes need absent data and check error sizes only.",
 ["pyforecaster/forecasting_models/gradientboosters.py", "pyforecaster/forecasting_models/randomforests.py"],
 [("LGBMHybrid/QRF fit/predict", "pyforecaster/forecasting_models/randomforests.py")], ["predict", "predict_quantiles"])
NM = "pyforecaster/forecasting_models/neural_models/"
prop("C25", "Neural networks keep the shape they are built for: convex, monotone, bounded, invertible",
 "After any training, reloading, copying or refitting: every forecast of a partially input convex network (PICNN, RecStablePICNN; not with bounded outputs) is a convex function of the optimisation variables, the other inputs being kept; forecasts of monotone networks (PIQCNNSigmoid, StructuredPICNN) do not decrease when an optimisation variable grows; bounded outputs stay within z_min and z_max (in the units in which the targets are learned). "
 "A causal invertible network gives back its inputs from their embedding, for values of any size and with the same labels; output i of the embedding depends on inputs up to i only and grows with input i; end-to-end forecasts do not depend on where the exogenous columns stand. "
 "Optimising the controls of one instance returns controls near the minimum of a convex objective, leaves all other inputs and the caller's frame as they were, and returns the forecast of exactly the inputs it returns.",
 ["inputs", "histories"], "all data (also such that a free fit would break the shape), architectures, normalisations, losses and lines through the space of controls",
 "Tests draw figures and assert nothing on the shape; a weight that escapes the projection, a wrong inverse or a clobbered input passes them.",
 [NM + "ICNN.py", NM + "INN.py", NM + "layers.py"],
 [("reproject_weights", NM + "neural_utils.py"), ("PICNNLayer / CausalInvertibleLayer", NM + "layers.py"), ("PICNN.optimize", NM + "ICNN.py"), ("CausalInvertibleNN.predict / invert", NM + "INN.py")],
 ["predict", "optimize", "invert"])
prop("C26", "Tuning of recursive forecasters keeps the best candidate of an honest backtest",
 "Every candidate drawn lies within the limits given; it is scored, for each of the targets, by a fresh model trained on the initial seventy percent of the rows (without the columns of the other targets) whose forecasts of the following rows are compared with the values that came, all steps ahead. "
 "The candidate with the smallest mean squared error is kept, and the tuned model is the one obtained by fitting that candidate alone on all the data, for the target given. Candidates do not influence each other, whether scored one after the other or in parallel processes.",
 ["inputs", "configurations", "schedules"], "all series, targets, limits (scalar or vector), budgets, sequential and parallel evaluation",
 "Tests only run the tuning; a candidate scored on its training rows, a wrong alignment of the targets or the wrong winner pass them.",
 [HW, FA], [("tune_hyperpars / fit_sample / score_autoregressive", HW), ("StatefulForecaster.tune_hyperpars", FA)], ["tune_hyperpars", "HoltWinters.fit", "StatefulForecaster.fit"])
prop("C27", "Exponential smoothing forecasts follow their recursion from what was observed",
 "The forecast of an exponential smoothing model for k steps after a row is the level plus k trends plus the seasonal term due then, where the state has taken in exactly the observations up to and including that row: those of the frame passed, after the training data if the frame continues it, after the initial state otherwise; missing observations leave the forecasts of later rows as they were until the next observation. "
 "Forecasting leaves the model unchanged, works for frames of any length, and carries the index of the rows asked and the names of the steps ahead; each quantile is the forecast plus the empirical quantile of that level of the training errors of that very step, every forecast being compared with the observation of its own step.",
 ["histories", "inputs"], "all gains, seasons, series with gaps, and sequences of trainings, forecasts and copies",
 "The test (not among the stable ones) only draws the forecasts; one step of delay passes it.",
 ["pyforecaster/forecasting_models/statsmodels_wrapper.py"], [("StatsModelsWrapper.fit / ExponentialSmoothing.fit, predict / get_forecasts", "pyforecaster/forecasting_models/statsmodels_wrapper.py")], ["ExponentialSmoothing.fit", "ExponentialSmoothing.predict", "predict_quantiles"])
prop("C28", "Neural forecasters are forecasters: refit, save, clone, normalise and quantify alike",
 "What a neural forecaster predicts for a row is a function of the parameters and the data of its last fit (and the seed), whatever was fitted, set, saved, loaded, copied, cloned or optimised before, and whatever other rows are asked in whatever order; forecasts carry the rows' index and the targets' names, and frames passed in are not modified. A saved network read into any object, or a deep copy, is the same forecaster with the same parameters, quantile levels and error quantiles; a clone is an unfitted one of the same configuration. "
 "Normalisation is invisible: the forecasts and standard deviations are those of the same network trained on data normalised beforehand, brought back to the units of the targets, whichever inputs are exempted. "
 "Quantiles are the point forecast plus the error quantile of the validation rows (of the same hour if asked), or, for probabilistic networks, the mean plus the normal quantile times the standard deviation; with a normalising formatter forecasts are in the units of the original targets.",
 ["histories", "inputs", "configurations"], "all networks, architectures, batch sizes, normalisations, levels and histories",
 "The tests of networks need absent data or only draw figures; none is among the stable ones.",
 [NM + "base_nn.py", NM + "ICNN.py", NM + "INN.py"],
 [("NN.fit / predict / predict_quantiles / get_normalized_inputs", NM + "base_nn.py"), ("NN.save / load / set_params / __sklearn_clone__", NM + "base_nn.py")],
 ["fit", "predict", "predict_quantiles", "save", "load", "set_params"])
UT = "pyforecaster/utilities.py"
prop("C29", "Kalman filtering gives the least squares estimate of the state, however observations come",
 "Predicting a state and its covariance applies the transition and adds the process noise; taking in an observation gives the mean and covariance of the state given all that was observed: the mean moves by the gain times the difference between observation and expectation, the covariance stays symmetric and positive and no combination of components becomes more uncertain. "
 "Independent observations may be taken in together, one by one or in any order, an observation without error is taken over, one that says nothing changes nothing, and a chain of steps is the joint estimate given the whole series. Arrays passed in are not modified.",
 ["inputs", "schedules"], "all transitions, observation matrices, noises, priors and observations, and all orders of taking them in",
 "The tests only draw filtered series; a transposed matrix or a forgotten noise passes on the diagonal matrices used there.",
 [UT], [("kalman_predict / kalman_update / kalman", UT)], ["kalman", "kalman_predict", "kalman_update"])
prop("C30", "Bootstrap summaries describe the statistic over the samples asked",
 "Bootstrapping a statistic of a series evaluates it, whether given as a name or as a function, on as many samples as asked, each of the length of the series and drawn with replacement from its rows with equal chances whatever their labels, and returns the mean and the standard deviation of the values obtained; the same seed gives the same summary, and the series is not modified.",
 ["inputs", "configurations"], "all series, labels, statistics and numbers of samples",
 "The only test compares one statistic of one long series with a wide tolerance, and is not among the stable ones.",
 ["pyforecaster/stat_utils.py"], [("bootstrap", "pyforecaster/stat_utils.py")], ["bootstrap"])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
