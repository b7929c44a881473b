DEFAULT = ("runtime monitoring: the real code is driven by generated and hostile workloads while an online monitor compares "
           "every observed result with an independent reference computation")
NOTE_DEFAULT = "exploration: deterministic seeded workloads; holds on everything executed, evidence lists what was observed"
TECH = {
 "C01": "runtime monitoring: model-based trace monitor, every query after every edit compared with a plain-set reference graph",
 "C02": "runtime monitoring: oracle over observed answers by exhaustive d-separation on generated mixed graphs",
 "C03": "runtime monitoring: returned estimands evaluated on exact random discrete structural models; Tian's criterion as identifiability oracle",
 "C04": "runtime monitoring: element-wise comparison of every effect array with a from-scratch recomputation using clones of the base learner",
 "C05": "runtime monitoring: instrumented nuisance learners leave an event log; offline monitor for out-of-fold discipline, then residual regression recomputed on the observed folds",
 "C07": "runtime monitoring: every effect array compared with an independent two-stage least-squares recomputation; training batches of the deep variant logged by an instrumented outcome network and checked offline",
 "C08": "runtime monitoring: every observed pair of bounds compared with its closed formula; containment of the known effect on generated populations with all potential outcomes",
 "C06": "runtime monitoring: instrumented nuisance learners leave an event log; offline monitor for out-of-fold discipline, then AIPW recomputed on the observed folds",
 "C09": "runtime monitoring: trace monitor over the answers of twenty kinds of estimator, checking the algebraic relations between contrasts, tables, averages and selections of rows",
 "C14": "runtime monitoring: every grown policy tree dissected by a monitor (partition, routing, chosen action, exhaustive search for better splits and trees); interpreters' recorded decisions and texts recomputed from the estimator's observed effects",
 "C10": "runtime monitoring: histories of fits and estimates recorded, each answer compared bit by bit with the same question asked alone of a fresh copy; frames, base models and earlier answers watched for change",
 "C11": "runtime monitoring: the same data in another spelling; every answer compared with the answer in the plain spelling",
 "C12": "runtime monitoring: every grown tree is dissected by a monitor (routing, limits, leaf contents, exhaustive search over admissible splits); rows that shape or fill an honest tree are identified by their observed influence",
 "C13": "runtime monitoring: forest weights and regressions recomputed from the routed rows of the forest's own trees; schedules perturbed by a line-level tracer that pauses threads, results of every worker count and of concurrent callers compared bit by bit",
 "C15": "runtime monitoring: every answer of the one-stop interface compared with the same question put to estimators fitted directly on data encoded by the monitor; roles checked against what the caller fixed; frames hashed",
 "C16": "runtime monitoring: every curve and score recomputed by counting over the ranked rows; the same table in another order, index, scale or set of columns must agree",
 "C17": "runtime monitoring: every matrix, dictionary and table compared with reachability and thresholds on plain edge sets; raw weights recorded by hooks inside the optimisers; roles compared with the discovered graph",
 "C18": "runtime monitoring: every probability, sample frequency, prediction and intervention of fitted networks compared with exact tables computed by enumeration from the recorded fitted distributions",
 "C19": "runtime monitoring: every encoded, cleaned or transformed table compared value by value with the caller's table; replayed on shuffled, new, empty and refitted inputs",
 "C20": "runtime monitoring: scores recomputed on the observed cross-fitting folds from a log of the nuisance models, metrics and importances from their definitions; randomised experiments with known effects",
 "C21": "sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer, bounds checks of Cython, Eigen and the C++ library over hostile fits, walks, pickles and threads; filled fresh memory and heap growth on the uninstrumented build",
 "C22": "runtime monitoring: generated graphs, residual noise and reported effects compared with the described structural model; metrics recomputed from their definition pair by pair",
 "C23": "runtime monitoring: learned matrices compared with the system which generated the data; dominance of solutions under an own implementation of the objectives; metamorphic relations of settings",
 "C24": "runtime monitoring: the set every fitted estimator adjusted for judged by exhaustive d-separation, its answer compared with a direct fit, least squares and the true effect, over histories of questions",
}
NOTE = {}
