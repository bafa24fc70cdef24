"""Writes /verif/properties.jsonl (one-off generator, kept so that the file is reviewable)."""
import json, os
P = "causal_effect_bandits/"
props = []

def add(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    props.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[P + f for f in files], state=state or [],
                     mechanism=[dict(name=n, where=P + w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

add("D01", "Splitting, indexing and appending observations never corrupts rows",
    "Splitting an observational data set into k folds or into two random subsamples is a partition: every unit lands in exactly one part, folds differ in size by at most one, the assignment is random, and each unit's covariates, exposure and response stay together and unchanged. Indexing and appending keep the same row correspondence, unit and feature counts, and order. Invalid arguments (k<1, proportion outside [0,1], mismatching features, missing exposure or response) are rejected with ValueError and leave the data set exactly as it was.",
    ["inputs", "histories"], "all data sets (any number of units including 0, one- or multi-dimensional covariates, with or without exposure/response) and all sequences of split/subsample/index/append operations",
    "One test splits one 4-row data set with k=1 and k=2 under a fixed seed; append, subsample, indexing, odd sizes, k>n and rejected calls are never exercised.",
    ["data.py"], [("ExpData.k_fold", "data.py"), ("ExpData.subsample", "data.py"), ("ExpData.append", "data.py"), ("ExpData.__getitem__", "data.py")],
    ["ExpData.cov/exp/rsp, len(), n_units, n_features"],
    [dict(name="cov/exp/rsp/n_units/n_features", meaning="parallel arrays describing the same units", where=P + "data.py ExpData")])

add("D02", "Covariate transformers keep exactly the requested columns",
    "Each covariate transformer returns, for every data set, precisely the requested covariate columns (identity: all; removal: all but the named index; mask: the listed indices in the listed order) as a table with one row per unit. Exposures, responses and units are passed through unchanged, and neither the input data set nor earlier results are modified.",
    ["inputs"], "all covariate tables, all valid index choices (including negative, repeated and reordered indices), and repeated use of one transformer on several data sets",
    "Tests only use removal of index 0 on a two-column table; masks, order, reuse and input preservation are never checked.",
    ["data.py"], [("get_identity_fn", "data.py"), ("get_remove_coordinates_fn", "data.py"), ("get_coordinate_mask_fn", "data.py")],
    ["returned ExpData"])

add("D03", "Fitted tabular conditionals are valid, floored distributions",
    "After fitting a table of P(Z|X), for every seen x the probabilities over all seen z values sum to one and each is at least 1/(number of seen z values x the minimum ratio); values whose empirical frequency is below that floor get exactly the floor, the remaining ones keep their empirical frequency except for giving up the mass the floor needed, and no order between frequencies is reversed. Supports and marginals are those of the fitted data, unseen values have probability zero, and predictions do not depend on earlier fits or earlier queries.",
    ["inputs", "histories"], "all finite-support samples (scalar or vector Z, any dtype, any ratio >= 1) and all sequences of fit/predict/print",
    "The single test fits one balanced 3x3 table in which smoothing never triggers, once.",
    ["data.py"], [("TabularCPD.fit", "data.py"), ("TabularCPD.predict", "data.py")],
    ["TabularCPD.predict, x_support, z_support, support_size, x_marginal, str()"],
    [dict(name="table/x_values/z_values", meaning="conditional probabilities and seen supports", where=P + "data.py TabularCPD")])

add("D04", "Linear data generator obeys its declared model",
    "Every generated data set has the requested number of units and features, binary treatment, standard normal covariates, treatment drawn with probability sigmoid(X gamma) (one half when no gamma is given), and response exactly X beta + tau T + noise with noise from the supplied noise model. A wrongly shaped gamma or a noise model of the wrong length is rejected with ValueError, and the generic generator also yields well-formed data with the requested number of units.",
    ["inputs", "configurations"], "all model parameters, dimensions and sample sizes; every random draw",
    "No test constructs these generators.",
    ["data.py"], [("LinearDataGenerator.generate", "data.py"), ("DataGenerator.generate", "data.py")], ["generate()"])

add("D05", "Data sets are values: never written to, and only their values matter",
    "Splitting, transforming, tabulating, fitting, scoring, updating arms and running bandits never modify a data set they are given (read-only arrays work), and an arm, like a data set that another one is appended to (be it an empty one), keeps its own copy, so that overwriting a data set afterwards has no effect on later results. What they compute depends only on the values in the data: equal values in another memory layout, as views of larger arrays, as integers of any width instead of floats, or as -0.0 instead of 0.0 give the same results (for tables and front-door estimators: provided the covariates of all data sets have the same type).",
    ["inputs", "configurations", "histories"], "all data sets in all representations of equal values, all consumers, all update histories",
    "Tests use freshly generated contiguous arrays of one type and never look at a data set again.",
    ["data.py", "parameters.py", "arms.py", "bandits.py"], [("ExpData", "data.py"), ("TabularCPD.fit", "data.py"), ("SampleSplittingArm.update", "arms.py"), ("FrontDoorLinearFiniteZ.transform", "parameters.py")], ["splits, tables, scores, widths, published results of arms and runs", "the arrays of the data sets"])

add("D06", "Separate objects do not influence each other",
    "Estimators, tables, arms, bandits, models, generators, covariate transformers and random functions that were built separately do not influence each other, whatever the order in which they are used, even when they were built with equal settings or from the same data sets, arrays, dictionaries and transformers, and even when they are the arms of one paper experiment: under the same random state each operation has the result it has when the object is the only one in the program. Results that were handed out (scores, nuisance values, samples, records of runs, intervals) do not change afterwards.",
    ["histories", "configurations"], "all sets of objects, all interleavings of their operations",
    "Tests create one object at a time and never return to an earlier one.",
    ["data.py", "parameters.py", "arms.py", "bandits.py", "scm.py", "paper_utils.py", "nonlinear_utils.py"], [("constructors", "parameters.py"), ("SampleSplittingArm.update", "arms.py"), ("generate_example_from_cpd", "paper_utils.py"), ("generate_random_nd_function", "nonlinear_utils.py")], ["every public result of every object"])

add("S01", "SCM sampling follows the declared graph",
    "Sampling a structural causal model evaluates every variable's conditional distribution exactly once per call, with the requested sample size and with the samples of exactly its declared parents in their declared order, and returns the covariates concatenated in the declared covariate order together with the declared treatment and response. Models whose variable order is not topological, or whose declarations are incomplete, are rejected with ValueError. Sampling leaves the model unchanged, so repeated calls are independent of each other.",
    ["programs", "inputs"], "all DAGs, variable dimensions, covariate selections, roles and sample sizes; all repeated calls",
    "Tests only sample two fixed three- and four-node graphs and compare low-order moments.",
    ["scm.py"], [("SCM.__init__ validation", "scm.py"), ("SCM.generate", "scm.py")], ["SCM.generate output, calls received by the conditional distributions"])

add("S02", "Treatment effects are interventional and leave the model intact",
    "The computed treatment effect of a structural causal model is the mean response when the treatment is forced to one for all units minus the mean response when it is forced to zero, every other mechanism being unchanged (so confounding does not enter). Afterwards, also when a mechanism raises an error midway, the model samples exactly as before.",
    ["programs", "inputs", "fault_sequences"], "all DAGs with deterministic or random mechanisms, all sample sizes, any point at which a mechanism fails",
    "No test calls it.",
    ["scm.py"], [("SCM.compute_treatment_effect", "scm.py")], ["return value; subsequent SCM.generate()"],
    [dict(name="cpds[treatment]", meaning="mechanism temporarily replaced by the intervention", where=P + "scm.py SCM.compute_treatment_effect")])

add("S03", "Conditional-distribution building blocks draw what they document",
    "Each building block returns one draw per unit of the documented conditional distribution: (transformed) linear or general function of the parents plus Gaussian noise with the given mean and (co)variance, Bernoulli with the logistic mean, or the branch distribution selected by the conditioning parent; scalar versus vector output follows the documented shape rules. Parents and parameters passed in are not modified, and incompatible shapes or lengths are rejected with ValueError.",
    ["inputs"], "all parent lists (scalar or vector parents, integer or float), parameters, noise scales and sample sizes",
    "Only used indirectly by code no test runs; no test calls them.",
    ["scm.py"], [("normal_cpd", "scm.py"), ("transformed_normal_cpd", "scm.py"), ("add_gaussian_noise", "scm.py"), ("structural_equation_with_noise", "scm.py"), ("logistic_bernoulli_cpd", "scm.py"), ("logistic_linear_bernoulli_cpd", "scm.py"), ("categorical_conditioning", "scm.py"), ("deterministic_cpd", "scm.py")],
    ["returned arrays"])

add("S04", "Example models report their true moments and effect",
    "For every random instance of the two bundled example models, the parameters published with it (true effect, means and variances of treatment, covariates and response) are those of the distribution the model samples from.",
    ["configurations", "inputs"], "all random instances of the back-door and front-door example models",
    "Tests compare one seeded instance with tolerances wider than the quantities themselves for the response variance, and never check the effect.",
    ["example_scm.py"], [("back_door_scm", "example_scm.py"), ("frontdoor_scm", "example_scm.py")], ["published parameter dictionary versus SCM.generate / compute_treatment_effect"])

add("N01", "Back-door scores equal the augmented inverse-propensity formula",
    "For any response and propensity predictors, the score of each unit is mu(1,z) - mu(0,z) + (y - mu(x,z)) (x/e(z) - (1-x)/(1-e(z))), where mu and e are the predictors fitted on (exposure, covariates)->response and covariates->exposure of the fitting data and e is clipped to [overlap, 1-overlap] (.05 unless set; without a limit, scoring where e is 0 or 1 is rejected with ValueError). The bundled variants use a ridge or RBF-kernel-ridge (penalty 1) response and a logistic-regression or boosted propensity, and setting the linear-logistic variant to the truth of a linear generator makes it use exactly the generator's parameters, whether or not it was fitted before; other generators are rejected.",
    ["inputs", "configurations"], "all data sets, feature dimensions, predictors, overlap limits",
    "The one test checks the fitted ridge coefficients of one instance; no score is ever compared with the formula and clipping never binds.",
    ["parameters.py"], [("AIPW.fit", "parameters.py"), ("AIPW.transform", "parameters.py"), ("AIPW._phi", "parameters.py"), ("AIPW.set_to_truth", "parameters.py")], ["calculate_score, transform"])

add("N02", "Back-door effect estimates are doubly robust and equivariant",
    "The mean score equals the back-door adjusted average treatment effect of the evaluated population whenever either the outcome predictor or the (unclipped) propensity predictor is correct, whatever the other one is. Where the predictors transform accordingly, scaling the response scales the scores, and swapping the roles of treatment and control negates them.",
    ["inputs"], "all finite populations with overlap, all wrong predictors, all rescalings",
    "No test checks the estimated effect, let alone under a misspecified nuisance model.",
    ["parameters.py"], [("AIPW._phi", "parameters.py"), ("AIPW.transform", "parameters.py")], ["mean of calculate_score"])

add("N03", "Front-door scores implement the front-door influence function",
    "The score of each unit is (y - mu(z,x)) (p(z|1) - p(z|0))/p(z|x) + sum_z' mu(z',x) (p(z'|1) - p(z'|0)) + (x/pi - (1-x)/(1-pi)) (sum_x' mu(z,x') p(x') - sum_{z',x'} mu(z',x') p(z'|x) p(x')), with the response model, table of mediator probabilities and exposure probability fitted on the fitting data, the probabilities in the first ratio and pi clipped to [overlap, 1-overlap], and p(z|x) zero for values not seen in fitting. On data from a front-door model whose response is linear the mean score therefore converges to the true causal effect, for scalar and vector mediators and for integer or float exposures.",
    ["inputs", "configurations"], "all finite-support mediators of any dimension, all fitting and evaluation data sets (including mediator values unseen in fitting), all overlap and floor settings",
    "Tests check the fitted pieces for one binary mediator; the score and the effect are never compared with anything, and vector mediators are never used.",
    ["parameters.py", "data.py"], [("FrontDoorLinearFiniteZ.fit", "parameters.py"), ("FrontDoorLinearFiniteZ.transform", "parameters.py"), ("FrontDoorLinearFiniteZ._phi", "parameters.py")], ["calculate_score, transform"])

add("N04", "Linear effect estimators match their closed forms",
    "The two-response linear estimator scores each unit by the difference of two ridge regressions (penalty 1, with intercept) fitted on treated and on control units, and becomes exact when set to the truth of a linear generator. The single-regression estimator scores each unit by the exposure row of n (D'D + lambda I)^-1 applied to that unit's (exposure, covariates) times response, so that its mean score on the fitting data is the ridge coefficient of the exposure, for binary or continuous exposure.",
    ["inputs"], "all data sets, dimensions, penalties",
    "No test uses either estimator.",
    ["parameters.py"], [("LinearParameterBinaryTreatment", "parameters.py"), ("LinearRegressionParameter", "parameters.py")], ["calculate_score"])

add("N05", "Nuisance estimators have a clean fit / score / reset life cycle",
    "An estimator reports itself ready exactly from the first fit on enough data onwards (enough treated and enough control units; at least one unit for the single-regression estimator). Before that the scores of the estimators that compare the groups are undefined (NaN). Fitting on insufficient data never fails and never changes a fitted model, and data of the wrong dimension is rejected with ValueError. Its scores depend only on the last sufficient fitting data (not on earlier fits, scorings or the order of rows), each unit's score depends only on that unit and the fitted model, and after a reset it behaves like a newly created estimator with the same settings.",
    ["histories", "inputs"], "all sequences of fit (sufficient, insufficient, wrong dimension), score and reset on every estimator kind",
    "Each tested estimator is fitted once, on ample data, and never reset or refitted.",
    ["parameters.py"], [("fit/has_enough_samples/reset of each NuisanceParameter", "parameters.py")], ["has_enough_samples, calculate_score, transform"],
    [dict(name="_has_been_fit, recent_data", meaning="readiness and last fitted data", where=P + "parameters.py")])

add("N06", "Nuisance confidence widths are sound, monotone numbers",
    "The width of the nuisance confidence sequence is always a non-negative real number or +infinity - never NaN, complex or negative, including for collinear, constant or few covariates - and equals the documented regression-ellipsoid radius (plus, for the front-door estimator, the exposure-probability boundary) of the most recently fitted data. For mixture parameters of at least 0.01 it never shrinks when the error probability or the overlap limit is decreased, and shrinks as the same data is replicated.",
    ["inputs", "configurations"], "all fitting data (including rank-deficient designs), all error probabilities, scales and mixture parameters",
    "Widths are only exercised through one arm on one binary covariate; no value or monotonicity is checked.",
    ["parameters.py"], [("AIPW.calculate_cs_width", "parameters.py"), ("FrontDoorLinearFiniteZ.calculate_cs_width", "parameters.py")], ["calculate_cs_width"])

add("A01", "Sample splitting stays honest over any update history",
    "An arm keeps every unit it was ever given (after its covariate transformation) in exactly one of two disjoint folds whose sizes after every update, and with stable splits also whose shares of every update, differ by at most one unit; with stable splits a unit never changes fold, and with re-splitting every (non-empty) update divides all the data afresh at random. The nuisance model is only ever fitted on the first fold and scores are only evaluated on the second. The reported unit and pull counts are those of the history.",
    ["histories"], "all sequences of updates of any sizes (including empty and odd), stable or re-split folds, any covariate transformation",
    "Two tests run seven equal-sized updates and check only the confidence bounds' order; fold contents are never inspected and re-splitting is never used.",
    ["arms.py", "data.py"], [("SampleSplittingArm.update", "arms.py"), ("SampleSplittingArm.get_num_units", "arms.py"), ("ExpData.append", "data.py")], ["data passed to the nuisance parameter; get_num_units, num_pulled"],
    [dict(name="split data", meaning="the two folds accumulated so far", where=P + "arms.py SampleSplittingArm")])

add("A02", "Arm estimates are the mean and variance of held-out scores",
    "After every update the effect estimate is the mean, and the variance estimate the mean squared deviation from it, of the scores of all held-out units under the current nuisance fit. Until the nuisance model has enough samples and a unit is held out (which takes two units in whatever updates they come) the arm reports an undefined effect, an infinite variance and the vacuous interval [0, inf); a NaN variance (undefined scores) is reported as ValueError.",
    ["histories", "inputs"], "all update histories and score functions, bundled or custom nuisance models",
    "One test compares one final variance to a 5% tolerance; the effect estimate and the insufficient-data case are never checked.",
    ["arms.py"], [("SampleSplittingArm.update", "arms.py")], ["ate, var_est, ci"])

add("A03", "Confidence intervals follow the selected method",
    "The interval returned and published after an update is the one prescribed by the chosen method from the held-out scores: chi-square at the given error probability, CLT at the error probability divided by the squared number of pulls, or the paper's finite-sample boundary with half of the error given to the nuisance width and a vacuous interval before burn-in; CLT and finite-sample bounds are clipped at zero and contain the variance estimate. A method whose interval is not defined yet (one held-out unit for chi-square, a negative boundary for finite samples) gives the vacuous interval. Smaller error probabilities never give narrower intervals once defined. Error probabilities outside (0,1) are rejected with ValueError without consuming the data, and invalid finite-sample settings or an unknown method are rejected with ValueError.",
    ["histories", "inputs", "configurations"], "all methods, settings, error probabilities, update histories and score distributions",
    "Tests only check that bounds enclose the estimate for the finite-sample method; CHI2 and CLT are never used.",
    ["arms.py"], [("SampleSplittingArm.update", "arms.py")], ["update() result, ci"])

add("A04", "Resetting an arm makes it indistinguishable from a new one",
    "Immediately after a reset an arm reports the same interval, effect, variance, pull and unit counts as a newly created one, keeping its name and cost. Given the same later updates and random state it then produces the same results as a new arm, whatever its history and nuisance model.",
    ["histories"], "all update histories before the reset, all later updates, every arm and estimator kind",
    "No test resets an arm.",
    ["arms.py", "parameters.py"], [("VarianceEstimatorArm.reset", "arms.py"), ("SampleSplittingArm.reset", "arms.py"), ("NuisanceParameter.reset", "parameters.py")], ["ci, ate, var_est, num_pulled, get_num_units"])

add("A05", "Bootstrap and base arms keep the arm contract",
    "The bootstrap arm keeps all data in two disjoint folds, draws the configured number n of resamples (default: four over the error probability, rounded up) each of which randomly partitions only the first fold, one part having an expected share of one n-th, and publishes as interval the corresponding order statistics of the resampled score variances, and as estimates the mean and variance of the second fold's scores; with too few samples or an empty second fold it is vacuous like every arm, and error probabilities outside (0,1) are rejected with ValueError without consuming the data. The generic arm counts pulls and reports the vacuous interval. Every kind of arm keeps the name and cost (by default one) it was given.",
    ["histories", "inputs"], "all update histories, resample counts, error probabilities and score functions",
    "No test uses the bootstrap or the generic arm.",
    ["arms.py"], [("BootstrapArm.update", "arms.py"), ("VarianceEstimatorArm.update", "arms.py")], ["ci, ate, var_est, num_pulled, get_num_units, calls to the nuisance parameter"])

add("A06", "Published intervals cover the truth and effects are unbiased",
    "Whatever the sizes of the updates, the published interval of a sample-splitting arm contains the true variance of the scores with at least the probability it states at that update (for Gaussian scores and chi-squared intervals at every sample size, for CLT intervals with large samples, for finite-sample intervals always), and the published effect has no bias and the standard error its number of held-out units implies. This holds although the nuisance parameter may fit its own training units perfectly, for new as for reset arms, and with stable as with redrawn splits.",
    ["histories", "inputs"], "all update histories, score distributions, error probabilities and overfitting nuisance parameters",
    "No test measures coverage; the tests' parameters cannot overfit noticeably.",
    ["arms.py", "data.py"], [("SampleSplittingArm.update", "arms.py"), ("SampleSplittingArm.reset", "arms.py"), ("ExpData.k_fold", "data.py")], ["ci and ate over repeated runs"])

add("B01", "Run records account exactly for what happened",
    "The record a run returns has, for every arm, one entry per round; the samples recorded for an arm in a round are the number of units it was actually updated with (given enough data), and the cumulative total after each round equals the sum of all recorded samples so far. The recorded bounds and variance estimates are the arm's own values after that round multiplied by its cost, including for arms not sampled in the round.",
    ["histories", "configurations"], "all algorithms, numbers of arms, costs, round sizes, interval traces (including ties, infinite and zero-width intervals) and real estimator arms with few samples",
    "Three tests run three arms with constant, untied estimates, unit costs and one deterministic width function.",
    ["bandits.py"], [("UniformAlgorithm.run", "bandits.py"), ("LUCBAlgorithm.run", "bandits.py"), ("SuccessiveEliminationAlgorithm.run", "bandits.py")], ["BanditData"])

add("B02", "Each algorithm samples exactly the arms its rule selects",
    "Uniform samples every arm once per round. Successive elimination samples exactly the surviving arms, and after a round drops precisely the arms, other than those with the smallest estimate, whose cost-adjusted lower bound is at least the lowest upper bound among the arms with the smallest estimate. LUCB samples every arm once and then always two different arms: among the arms with the smallest estimate one with the highest upper bound, and among the others one with the lowest lower bound (two different arms at random if all are tied).",
    ["histories", "configurations"], "all interval traces including ties, infinite and zero-width intervals, all costs and numbers of arms",
    "Tests follow one trace per algorithm without ties or costs.",
    ["bandits.py"], [("LUCBAlgorithm.select_arms", "bandits.py"), ("SuccessiveEliminationAlgorithm.run", "bandits.py"), ("UniformAlgorithm.run", "bandits.py")], ["sequence of arm updates"])

add("B03", "Runs stop exactly when they should, with the right arms",
    "A run ends at the first round (after LUCB's initial one) in which its confidence rule holds - for uniform and LUCB: all upper bounds finite and the smallest-estimate arm's upper bound below every other lower bound plus the tolerance (if several arms share the smallest estimate, any of them may be the one considered); for elimination: one survivor - or in which the cumulative samples strictly exceed the limit, and never later. It returns that single arm, or at the limit all arms (for elimination: all surviving arms) with the smallest cost-adjusted estimate (either answer is right in a round in which both hold); the result is never empty.",
    ["histories", "configurations"], "all interval traces, costs, tolerances, sample limits at and around round boundaries, unlimited runs",
    "Tests end on the sample limit or the confidence rule once per algorithm, with no tolerance, ties or exact hits of the limit.",
    ["bandits.py"], [("BAIBanditAlgorithm._check_fixed_conf_end_condition", "bandits.py"), ("run loops", "bandits.py")], ["BanditData.best_arm, number of rounds"])

add("B04", "With valid intervals the returned arm is optimal",
    "If every arm's interval contains its true variance throughout a run and the run ends by its confidence rule, then the returned arm's cost-adjusted variance is within the tolerance of the smallest one (and is the smallest for successive elimination). Some optimal arm always survives successive elimination, and runs with unlimited samples whose intervals shrink to their truths end if the best arm is unique or, for uniform and LUCB, the tolerance is positive.",
    ["histories", "configurations"], "all truths, costs, tolerances and all interval traces that contain the truth",
    "Tests check the returned arm for one easy instance per algorithm.",
    ["bandits.py"], [("elimination rule", "bandits.py"), ("BAIBanditAlgorithm._check_fixed_conf_end_condition", "bandits.py")], ["BanditData.best_arm"])

add("B05", "Arms receive the right data and error budget",
    "When a fixed data set is supplied, every arm reads it from the beginning in consecutive, non-overlapping slices of the round size (up to its end, and no unit twice if the data runs out), independently of the other arms and of the algorithm, so an arm's sequence of data depends only on how often it was sampled. Otherwise each update uses fresh generator draws of the round size that the arm has not seen before. Every update is given the overall error probability divided by the number of arms.",
    ["histories", "configurations"], "all algorithms, traces, round sizes, data sets, error probabilities and numbers of arms",
    "No test passes a fixed data set; tests' arms ignore data content and error probability.",
    ["bandits.py"], [("run loops: slice selection", "bandits.py"), ("error_prob / number of arms", "bandits.py")], ["arguments of arm.update and generator.generate"])

add("B06", "Bandit settings are validated and runs can be repeated",
    "Error probabilities or confidences outside (0,1), negative tolerances, and settings without either a confidence or a finite sample limit are rejected with ValueError; omitting the sample limit means no limit, omitting the error probability and the tolerance means .05 and none. Resetting a bandit resets all its arms, so that running it again on the same data and random state reproduces the run of a newly created bandit, and running one bandit then resetting does not influence another bandit that shares the arms.",
    ["configurations", "histories"], "all setting combinations, all algorithms, stub and real arms, any number of reruns",
    "Tests construct one valid configuration per algorithm and run it once.",
    ["bandits.py", "arms.py"], [("BAIBanditAlgorithm.__init__", "bandits.py"), ("BAIBanditAlgorithm.reset", "bandits.py")], ["constructor errors; BanditData of repeated runs"])

add("E01", "Paper experiments build one correct arm per adjustment set",
    "For every number of back-door paths M and all variable dimensions, the generated experiment has one front-door arm and exactly one back-door arm for each of the 2^M choices of one of Z_i or V_i per path; each arm's data consists of exactly the covariate columns of the variables in its name, and its cost is the sum of those variables' costs, and its intervals are computed with the requested method. All three algorithms are set up over these same arms, model, sample limit and round size.",
    ["configurations"], "all numbers of paths, dimensions of every variable, costs, naming styles, both experiment families",
    "No test runs this module.",
    ["paper_utils.py", "data.py"], [("generate_example_from_cpd", "paper_utils.py"), ("get_coordinate_mask_fn", "data.py")], ["data reaching each arm's nuisance parameter; arm.cost; arm.name"])

add("E02", "Paper models have the stated causal structure and are seed-determined",
    "In both experiment families V_i are exogenous, Z_i depends only on V_i, the binary treatment only on all V_i, Z_0 only on the treatment (taking at most ten values, the same ones under treatment and control), and the response on Z_0..Z_M only, with the declared dimensions (up to individual random functions of the nonlinear family that happen to be almost constant). In the linear family the treatment effect is on the larger side: at least that of each of ten random candidates, so that it is practically never negative. Building an experiment twice with the same seed gives the same model regardless of the global random state, and different seeds give different models.",
    ["configurations", "inputs"], "all seeds, numbers of paths and dimensions, all global random states",
    "No test runs this module.",
    ["paper_utils.py"], [("get_section_5_1_cpds", "paper_utils.py"), ("get_section_5_2_cpds", "paper_utils.py"), ("generate_example_from_cpd", "paper_utils.py")], ["SCM.generate, SCM.cpds, SCM.parents"])

add("E03", "Random nonlinear functions are well-behaved functions",
    "A generated random function maps (n, dim) inputs to (n, out_dim) outputs, each output row depending only on its input row, repeatably. The same seed gives the same function regardless of the global random state, different seeds differ, without a seed it is drawn from numpy's global random state, and its output coordinates are distinct draws made over the requested input range in every dimension; softmax maps any vector (and every column of a matrix by itself) to an order-preserving, shift-invariant probability vector whose log odds are the differences of the entries.",
    ["inputs", "configurations"], "all dimensions, (valid covariance) kernels, ranges, point counts, seeds and inputs",
    "No test runs this module.",
    ["nonlinear_utils.py"], [("generate_random_nd_function", "nonlinear_utils.py"), ("softmax", "nonlinear_utils.py")], ["values of the returned function"])

add("E04", "Result plots show exactly the recorded run",
    "Plotting a run draws, for each requested arm and only for those, its variance estimates, its lower and its upper bounds against the cumulative samples, omitting exactly the requested number of initial rounds, with the arm's name in the legend; the band spans the bounds and the recorded data is not modified. The surface plot shows the function's values at the corresponding grid coordinates over the requested ranges.",
    ["inputs"], "all run records, arm subsets, numbers of omitted rounds; all functions and (asymmetric) ranges",
    "No test runs this module.",
    ["plotting_utils.py"], [("plot_bandit_results", "plotting_utils.py"), ("plot_3d_function", "plotting_utils.py")], ["matplotlib artists"])

add("E05", "Every valid adjustment estimates the interventional effect",
    "Given enough data, in any split into updates, the effect published by every arm of a section 5.1 experiment - the front-door arm and each back-door arm - by sample-splitting and bootstrap arms on the bundled example models (front-door set, confounder as back-door set, back-door set) and on linear generators agrees with the effect of forcing the treatment, even when the unadjusted difference is far away, provided the response lies in the estimator's documented response model (for section 5.1: after moving the response by a constant). Without noise the linear effect is recovered up to the small ridge penalty.",
    ["inputs", "configurations", "histories"], "all generated models and seeds, dimensions, adjustment sets, estimators and splits into updates",
    "Tests compare effects loosely for one fixed estimator and model; none for the paper's experiments, the bootstrap arm or several updates.",
    ["arms.py", "parameters.py", "paper_utils.py", "example_scm.py", "data.py", "scm.py"], [("AIPW.calculate_score", "parameters.py"), ("FrontDoorLinearFiniteZ.calculate_score", "parameters.py"), ("generate_example_from_cpd", "paper_utils.py"), ("SampleSplittingArm.update", "arms.py"), ("LinearDataGenerator.generate", "data.py")], ["arm.ate against the effect of an intervention"])

add("E06", "Results are determined by the inputs and numpy's random state",
    "Setting numpy's global random state makes every computation repeatable: drawing from models and generators, building the paper's experiments, random functions, splitting and sub-sampling, fitting, scoring and tabulating, updating arms of every kind and running the three algorithms give the same results, in the same order, in every process, whatever the hash seed, the memory addresses of the objects, the environment and working directory, the state of Python's own random module and what the package was used for before.",
    ["configurations", "schedules", "histories"], "all programs over the package, all processes they run in",
    "Tests run once in one process, with one hash seed, and compare with loose tolerances.",
    ["data.py", "scm.py", "arms.py", "bandits.py", "paper_utils.py", "nonlinear_utils.py", "parameters.py"], [("SCM.generate", "scm.py"), ("ExpData.subsample", "data.py"), ("get_section_5_1_cpds", "paper_utils.py"), ("SuccessiveEliminationAlgorithm.run", "bandits.py"), ("LUCBAlgorithm", "bandits.py")], ["every result of a seeded program"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
