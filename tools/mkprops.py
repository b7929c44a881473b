"""Regenerates properties.jsonl from one table (kept as code so the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mechanism, where=files[0])],
                               state=[dict(name=n, meaning=m) for n, m in state])))

CM = "ylearn/causal_model/"
EM = "ylearn/estimator_model/"
prop("C01", "A causal graph answers structural queries exactly as the graph it was built with",
 "For every acyclic causal graph with unobserved-confounding arcs, the reported nodes, edges, parents, ancestors, descendants, topological order, confounded components and d-separation answers are exactly those of the mathematical graph given by the user. Every editing operation (adding or removing nodes, edges or arcs, taking a subgraph, cutting incoming or outgoing edges) yields exactly the edited graph, isolated nodes included. An edit that is asked to return a new graph leaves the original untouched.",
 ["inputs", "histories"], "all DAGs with any set of bidirected arcs, all node subsets, all sequences of edits (generated: up to 9 nodes and up to 12 chained edits)",
 "No test touches the graph class at all; correctness is over all graphs and edit histories.",
 [CM+"graph.py"], "CausalGraph keeps a causation dict, an observed digraph and latent arcs as keyed multi-edges; every query derives from these.",
 [("dag", "observed plus latent edges"), ("causation", "mapping node -> parents")])
prop("C02", "Returned backdoor, frontdoor and instrument sets satisfy their criterion",
 "Whenever the library returns an adjustment set, front-door set or instrument set for a treatment and an outcome, that set satisfies the corresponding graphical criterion in the user's graph, with unobserved confounding taken into account. A set reported as minimal has no valid proper subset, an exhaustive listing contains every valid set of the kind it lists and nothing else, and the yes/no validity questions answer the criterion exactly. Asking never alters the graph or the arguments.",
 ["inputs"], "all DAGs with latent arcs, all treatment/outcome pairs or small sets, all candidate sets (generated graphs up to 7 observed nodes)",
 "No test calls identification; the criterion quantifies over all paths of all graphs.",
 [CM+"model.py", CM+"graph.py", CM+"utils.py"], "path enumeration with blocking and collider checks over the graph with latent nodes made explicit",
 [])
prop("C03", "Identified causal effects equal the true interventional distribution",
 "When the general identification routine returns an estimand, evaluating that estimand on the observational distribution of any discrete structural model compatible with the graph gives exactly the true post-intervention distribution of the outcome. When the effect is not identifiable from the graph the routine raises its identification error, and it never raises it for an identifiable effect.",
 ["inputs", "programs"], "all semi-Markovian graphs, all disjoint treatment/outcome sets, all positive discrete models over them (generated: up to 6 observed variables)",
 "No test calls it; the guarantee is semantic (equality of distributions for all models), not structural.",
 [CM+"model.py", CM+"prob.py", CM+"graph.py"], "recursive ID over ancestral sets and confounded components, building nested probability expressions",
 [("Prob", "expression tree: variables, conditional, marginal, product, divisor")])
prop("C04", "Meta-learner effects equal the textbook S-, T- and X-learner computation",
 "For every dataset, treatment levels, pair of compared levels, base learner and mode (combined or separate treatments, class probabilities or values), the per-sample effects of the S-, T- and X-learners equal those obtained by fitting the same base learner as the method's definition prescribes on the same rows. Data with several treatments or outcomes, and with adjustment variables, covariates or both, are included.",
 ["inputs", "configurations"], "all data frames, treatment level labels, treat/control choices, base learners and learner modes",
 "Tests only check that fit and estimate return arrays of the right shape on a few fixed datasets.",
 [EM+"meta_learner.py", EM+"base_models.py", EM+"utils.py"], "level encoding, row selection per level, counterfactual feature construction, per-level model dictionaries",
 [("models", "fitted base learner per treatment level and outcome")])
prop("C05", "Double machine learning equals cross-fitted residual-on-residual regression",
 "The double machine learning estimator residualises outcome and treatment with nuisance models fitted on the other folds only and regresses the outcome residual on treatment residuals interacted with covariates; its effects equal that computation for every treat/control pair and every number of folds. With linear nuisances and no cross-fitting the estimated coefficient equals the partial least squares coefficient.",
 ["inputs", "configurations"], "all data frames, discrete and continuous treatments, covariate/adjustment splits, fold counts, nuisance models",
 "Tests only check array shapes; out-of-fold discipline is invisible to them.",
 [EM+"double_ml.py", EM+"base_models.py", EM+"causal_forest.py"], "K-fold nuisance fitting, residual construction, Kronecker treatment-covariate features",
 [("x_hat_dict / y_hat_dict", "out-of-fold nuisance predictions")])
prop("C06", "The doubly robust estimator is the cross-fitted AIPW estimate",
 "The doubly robust estimator's per-level pseudo-outcomes are the out-of-fold outcome prediction for that level plus the inverse-propensity weighted residual of the observed level, and its effects are the differences of final models fitted on these pseudo-outcomes. The estimate therefore reacts to the treatment level asked for, and remains correct when only one of the outcome and propensity models is correct.",
 ["inputs", "configurations"], "all data frames, numbers of treatment levels, compared levels, fold counts, nuisance models",
 "Tests only check shapes on one dataset family, and pass although the outcome model ignores the requested level.",
 [EM+"doubly_robust.py", EM+"propensity_score.py"], "pseudo-outcome construction per level with cross-fitting",
 [])
prop("C07", "Instrumental-variable estimates equal two-stage least squares on the same design",
 "The nonparametric two-stage estimator's effects equal two-stage regression of the outcome on first-stage predictions with the same basis expansions, for discrete and continuous treatments, any compared levels, with or without covariates. In exactly specified linear models with a valid instrument the effect equals the structural effect even under strong unobserved confounding, and it is unaffected by the treatment-outcome confounder's strength. The deep variant trains its outcome network on every sampled treatment with the row's own outcome, and its effects are the differences of that network between the compared levels.",
 ["inputs", "configurations"], "all data frames, instruments, basis functions, treat/control values",
 "Tests only check shapes; no oracle for the value of an IV estimate exists there.",
 [EM+"iv.py", EM+"deepiv.py"], "first-stage prediction, basis expansion, outer-product second-stage design",
 [])
prop("C08", "Bounds on causal effects are ordered, correct and tightened by assumptions",
 "Every reported pair of effect bounds is ordered and contains the effect consistent with the assumptions requested (no assumptions, non-negative or non-positive response, monotone selection, combinations of them). Each bound equals its closed-form formula evaluated on the fitted outcome means and treatment probabilities, and adding assumptions never widens the interval.",
 ["inputs", "configurations"], "all discrete treatments, outcome ranges, assumption sets, compared levels",
 "Tests only check that something is returned for one dataset; containment is a statement over all data.",
 [EM+"approximation_bound.py"], "bounds computed from conditional outcome means, treatment probabilities and outcome range",
 [])
prop("C09", "Effects obey the algebra of contrasts across all estimators",
 "For every estimator, the average effect equals the mean of the per-sample effects, swapping the compared levels negates the effect, comparing a level with itself gives zero, contrasts are transitive for the methods that compare levels through one fitted outcome model (not X-learners and trees, which fit each pair apart), and the per-level effect table agrees with pairwise estimates and has a zero column for the control level. Estimating on a subset, permutation or duplication of rows gives the corresponding subset, permutation or duplication of the results.",
 ["inputs", "configurations"], "all estimators, datasets, level pairs and row selections of the evaluation data",
 "Tests look at shapes for one default pair; these are relations between many calls.",
 [EM+"base_models.py", EM+"meta_learner.py", EM+"double_ml.py", EM+"doubly_robust.py", EM+"iv.py", EM+"causal_tree.py", EM+"causal_forest.py"], "estimate and effect-table entry points of each estimator",
 [])
prop("C10", "Estimation is repeatable and refitting leaves no trace of the past",
 "Estimating never changes the fitted estimator or the caller's data: any sequence of estimation calls with any arguments returns the same answers as each call made alone on a freshly fitted copy. Refitting an already used estimator on new data gives the same estimator as fitting a new one on that data, and fitting does not modify the data frames or base models passed in. With a fixed random state the whole fit-estimate run is reproducible.",
 ["histories", "inputs"], "all interleavings of fit and estimate calls over several datasets and argument choices, for all estimators",
 "Tests fit once and estimate once or twice with the same arguments; state leaks show only in longer histories.",
 [EM+"base_models.py", EM+"meta_learner.py", EM+"double_ml.py", EM+"doubly_robust.py", EM+"iv.py", EM+"approximation_bound.py", EM+"causal_tree.py"], "mutable encoder, treat/control and model attributes shared by fit and estimate",
 [("treat / control", "last compared levels"), ("transformer", "treatment encoder")])
prop("C11", "Effects do not depend on how labels, columns or row indexes are spelled",
 "Renaming treatment levels or columns, reordering columns, changing the data frame's row index, or passing single names versus one-element lists changes no estimated effect, up to the induced ordering of levels. Treatment levels given by the user are always interpreted in the user's own labels, including non-contiguous integers and strings.",
 ["inputs"], "all relabelings of levels and columns, all indexes (duplicated, non-numeric, shuffled), all estimators",
 "Tests use one spelling of each dataset, mostly 0/1 labels and the default index.",
 [EM+"utils.py", EM+"base_models.py", EM+"meta_learner.py", EM+"double_ml.py", EM+"doubly_robust.py", EM+"causal_tree.py", EM+"iv.py"], "treatment encoding helpers and data frame to array conversion",
 [])
prop("C12", "Causal tree leaves hold the treated-minus-control difference of their rows",
 "Every causal tree is a partition of the feature space respecting the requested depth and leaf-size limits, in which each row's effect is the difference between the mean outcomes of compared-level rows falling in its leaf; in honest mode it is that difference over held-out rows only, never rows that shaped the partition. Each split is the best one available under the method's criterion, and rows of other treatment levels have no influence.",
 ["inputs", "configurations"], "all datasets, depth/leaf/feature limits, level pairs, honest fractions and random states",
 "Tests check only output shapes for a handful of settings; split optimality and leaf contents are never inspected.",
 [EM+"causal_tree.py", EM+"_tree/tree_criterion.pyx", EM+"_tree/tree_criterion_lib.cpp", "ylearn/sklearn_ex/cloned/tree/_splitter.pyx", "ylearn/sklearn_ex/cloned/tree/_tree.pyx"], "compiled criterion with per-node treated/control sums updated incrementally",
 [("yt_sum / y0_sum", "running treated and control outcome sums")])
prop("C13", "Forest effects equal the averaging of their trees whatever the thread schedule",
 "A causal forest's effect is the average (tree forests) or the locally weighted regression (generalised forests, with weights averaging shared-leaf membership and summing to one) of its own trees on its own training rows. Results with a fixed random state are identical for any number of parallel workers and any thread interleaving, for concurrent estimation calls, and adding a constant to all outcomes changes no effect.",
 ["schedules", "inputs", "configurations"], "all worker counts, thread interleavings, datasets and forest settings",
 "Tests run with fixed job counts and only look at shapes; races and weighting errors are invisible.",
 [EM+"_generalized_forest/_base_forest.py", EM+"_generalized_forest/_grf.py", EM+"causal_tree.py", EM+"causal_forest.py", EM+"_generalized_forest/tree/_criterion.pyx", EM+"_generalized_forest/tree/_tree.pyx"], "joblib threads accumulating into shared arrays under a lock; per-tree seeds drawn before dispatch",
 [("alpha", "forest weight of each training row for each test row")])
prop("C14", "Policy trees recommend the level with the best average effect in the row's leaf",
 "A policy tree's predicted effects for a row are the averages of the supplied per-level effects over the training rows in its leaf, its recommendation is the level with the largest such average, and its splits maximise the total effect of the recommendations under the requested depth and leaf limits. Textual interpretations report the decision path really taken and the recommended level; effect interpreters report the mean effect of the leaf and agree with the underlying estimator's transformations.",
 ["inputs", "configurations"], "all effect tables, covariates, tree limits, treatment names and evaluation rows",
 "Tests check shapes and that calls do not fail on a few fitted estimators.",
 ["ylearn/policy/policy_model.py", "ylearn/policy/_tree/tree_criterion.pyx", "ylearn/effect_interpreter/policy_interpreter.py", "ylearn/effect_interpreter/ce_interpreter.py", "ylearn/sklearn_ex/cloned/tree/_splitter.pyx"], "multi-output regression tree with a max-sum criterion; decision-path text",
 [])
prop("C15", "The one-stop Why interface reports what its own estimators computed",
 "Effects, individual effects, what-if outcomes, policies and scores reported by the one-stop interface equal those of the fitted estimator it holds, for the treatments, levels and outcome named in the caller's own labels, and averages reported equal the averages of the individual values. The identified roles of columns (outcome, treatment, adjustment, covariate, instrument) are disjoint, respect everything the caller fixed, and the caller's data is never modified.",
 ["inputs", "histories", "configurations"], "all data frames with numeric or categorical treatments and outcomes, all levels, estimator choices and call sequences",
 "Tests call each method once on a few datasets and check only that it returns or its shape.",
 ["ylearn/api/_why.py", "ylearn/api/_wrapper.py", "ylearn/api/utils.py", "ylearn/api/_identifier.py", "ylearn/estimator_model/_factory.py"], "label encoders, preprocessing pipeline, estimator dictionary per treatment",
 [("estimators_", "estimator per treatment"), ("x_encoders_ / y_encoder_", "label encoders")])
prop("C16", "Uplift curves and scores equal their definition for every ordering of rows",
 "Cumulative gain, Qini, lift and their area scores equal the textbook count-based definition on the rows sorted by predicted uplift, for every outcome, treatment assignment, label choice and tie pattern, and do not depend on the input's row order among distinct scores, its index, or monotone rescaling of predictions. A perfect ranking never scores below its reverse, inputs are not modified, and a random baseline column does not change the other columns.",
 ["inputs"], "all prediction tables, treatment/outcome columns and labels",
 "No test checks a single curve value.",
 ["ylearn/uplift/_metric.py", "ylearn/uplift/_model.py", "ylearn/uplift/_plot.py"], "cumulative sums over rows sorted by prediction",
 [])
prop("C17", "Discovered causal structures are acyclic, complete and labelled like the data",
 "Every causal matrix returned by a discovery method covers exactly the data's columns in order, is acyclic after trimming, keeps only entries surviving the requested threshold and never invents an edge; cycle trimming removes at least one edge of every cycle and nothing when there is no cycle. Conversions of a matrix to dictionaries, edge lists and tables preserve every entry and its direction, and the roles derived from a discovered graph are consistent with it.",
 ["inputs", "configurations"], "all square weight matrices (positive, negative, cyclic), data column names, thresholds and seeds",
 "Tests run discovery on one or two toy datasets and assert it finishes.",
 ["ylearn/causal_discovery/_base.py", "ylearn/causal_discovery/_discovery.py", "ylearn/causal_discovery/_dydiscovery.py", "ylearn/causal_discovery/_proxy_pgm.py", "ylearn/causal_discovery/_proxy_gcastle.py", "ylearn/api/_identifier.py"], "threshold, two-cycle removal and weakest-edge cycle trimming over a weight matrix",
 [])
prop("C18", "Bayesian network sampling honours graph, interventions and the caller's state",
 "A fitted Bayesian network samples and predicts only values in each variable's observed domain, gives intervened variables exactly the intervened value everywhere, leaves variables not descending from an intervention untouched, and never changes the original network when asked for a copy. Any sequence of sampling, prediction and effect estimation with a fixed seed is reproducible and leaves the fitted parameters, the caller's data and the process-wide parameter store as they were; graph neighbourhood queries equal their definition.",
 ["inputs", "histories"], "all small DAGs with mixed variable types, all interventions and call sequences",
 "The Bayesian package has no tests.",
 ["ylearn/bayesian/_network.py", "ylearn/bayesian/_dag.py", "ylearn/bayesian/_base.py", "ylearn/bayesian/_modules.py", "ylearn/bayesian/_collectors.py", "ylearn/bayesian/_data.py"], "pyro model conditioned on fitted parameters and interventions; swapped global parameter store",
 [("params_", "posterior point estimates"), ("interventions_", "active interventions")])
prop("C19", "Preprocessing keeps rows aligned and treats new data like the training data",
 "The tabular preprocessors keep the row count, order and index of their input, produce at transform time the same columns as at fit time, map training rows to the same values whether fitted-and-transformed together or separately, send unseen categories to their reserved code, and never modify the caller's frame. Encoders invert exactly on known categories, and task inference depends only on the values, not on their order.",
 ["inputs", "histories"], "all mixed-type frames with missing values, unseen categories, arbitrary indexes and column orders",
 "Tests reach these only through whole-pipeline smoke runs.",
 ["ylearn/sklearn_ex/_data_cleaner.py", "ylearn/sklearn_ex/_dataframe_mapper.py", "ylearn/sklearn_ex/_transformer.py", "ylearn/utils/_common.py"], "fitted column lists, dtype metadata and category tables",
 [])
prop("C20", "Scores and importances of fitted effects equal their definition",
 "The residual-loss score of an estimator equals the loss computed from independently cross-fitted outcome and treatment residuals on the validation rows, prefers the estimator whose effects are closer to the truth in a randomised experiment, and scoring leaves the scored estimator unchanged. Propensity models return, for every row, one probability per level that is non-negative and sums to one in the order of the levels, performance metrics reported for tasks equal the standard definitions, and the importances of trees and forests are the normalised shares of the features in what the splits of the fitted trees gained: non-negative, summing to one, zero for features no split uses.",
 ["inputs", "configurations"], "all estimators, validation data, nuisance models and treatment levels",
 "Tests check that a score is produced, never its value.",
 [EM+"effect_score.py", EM+"propensity_score.py", "ylearn/utils/metrics.py"], "residual regression reused for validation, squared-error loss",
 [])
prop("C21", "The compiled tree code is memory-safe and free of undefined behaviour",
 "No input reachable through the public tree, forest and policy interfaces makes the compiled code read or write outside its buffers, use freed or uninitialised memory, leak on errors, or execute undefined arithmetic; malformed input is reported as a Python error instead. This includes leaves smaller than the number of treatments, empty or constant features, extreme values, very deep trees and corrupted pickles.",
 ["inputs", "schedules", "configurations"], "all datasets and settings accepted by the public interfaces, any number of threads",
 "Tests run uninstrumented builds, where an out-of-bounds access usually goes unnoticed.",
 ["ylearn/sklearn_ex/cloned/tree/_tree.pyx", "ylearn/sklearn_ex/cloned/tree/_splitter.pyx", "ylearn/sklearn_ex/cloned/tree/_criterion.pyx", "ylearn/sklearn_ex/cloned/tree/_utils.pyx", EM+"_generalized_forest/tree/_util_lib.cpp", EM+"_generalized_forest/tree/_criterion.pyx", EM+"_tree/tree_criterion_lib.cpp", EM+"_tree/tree_criterion.pyx"], "raw pointer arithmetic with bounds checks disabled, manual buffers",
 [])
prop("C22", "Synthetic experiment generators produce the structural model they report",
 "The synthetic data generators return data whose true effects, graphs and weights are the ones they report: generated graphs are acyclic with the requested size, weights are non-zero exactly on edges, simulated data satisfies the structural equations given the noise, and reported true effects align with the rows they belong to. The accuracy metrics for recovered graphs equal their definition.",
 ["inputs", "configurations"], "all sizes, noise types, seeds and graph families",
 "No test checks the generators; every benchmark relies on them.",
 ["ylearn/exp_dataset/gen.py", "ylearn/exp_dataset/exp_data.py"], "random DAG generation, topological simulation, train/validation split",
 [])
prop("C23", "Structure learning finds the linear system behind simulated data",
 "On data simulated from a linear acyclic system with errors of equal variance and strong effects, NOTEARS, GOLEM (both without rescaling), DAGMA and the temporal NOTEARS find the generating graph with its directions (and the temporal method and NOTEARS its weights up to sign). In the temporal methods the k-th lag matrix describes the effects of one particular earlier slice, so several lags together explain the series. Settings take effect as named: stronger penalties shrink the learned weights, the assumption about error variances selects the objective, scaling options make the result independent of units and origins of the columns, DAGMA does not depend on constants added to columns, rows have no order, and learning twice with one object gives the same matrix.",
 ["inputs", "configurations"], "all linear systems satisfying the stated assumptions, all seeds, numbers of lags and settings",
 "Tests only check that a matrix of some shape is returned.",
 ["ylearn/causal_discovery/_discovery.py", "ylearn/causal_discovery/_dydiscovery.py"], "augmented Lagrangian and likelihood objectives over weight matrices, lag matrices multiplied with shifted slices",
 [])
prop("C24", "Estimating through a causal model adjusts for what its graph justifies",
 "CausalModel.estimate and identify_estimate only ever fit an estimator with a set of variables that satisfies the back-door criterion for the treatment and outcome they are asked about, in the graph of the model. Without a given set they find one, whatever was asked of the model before; sets that violate the criterion are refused before anything is fitted, and IdentificationError is raised if there is no set. Names may be given as one name, a list or a set. The answer is the one the estimator gives when fitted directly with that set, which on linear systems is the true effect up to sampling error; an estimator that is fitted already is asked and not fitted again. identify_estimate fits one separate copy of the estimator per set and returns one effect each, for all back-door sets unless another style is chosen, leaving the estimator, the frame and the graph of the caller as they were.",
 ["inputs", "histories", "configurations"], "all mixed graphs, data, estimators with covariates, and sequences of questions",
 "Tests run one graph, one pair and one estimator, and never look at the set adjusted for.",
 ["ylearn/causal_model/model.py"], "cached adjustment sets between questions, handing names to estimators",
 [])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties ->", out)
