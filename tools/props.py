import glob, os

OVER = {'crash points': 'crash_points', 'faults': 'fault_sequences', 'timings': 'schedules'}


def files_of(ps):
    out = []
    for p in ps:
        q = os.path.join('/repo', p)
        if os.path.isdir(q):
            out += sorted(os.path.relpath(f, '/repo') for f in glob.glob(q + '/**/*.rs', recursive=True) if 'gurobi' not in f and 'leveragings' not in f)
        else:
            assert os.path.isfile(q), p
            out.append(p)
    return list(dict.fromkeys(out))


def P(id, title, statement, over, text, why, files, mech, technique, level_note, todo=False, design='', **kw):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(dict.fromkeys(OVER.get(o, o) for o in over)), text=text), why_tests_cant=why,
                anchors=dict(files=files_of(files), mechanism=[dict(name=n, where=w) for n, w in mech], **kw),
                technique=technique, level_note=level_note, todo=todo, design=design)

NOTE = ("Seeded sampling, not a proof. Real code: the whole crate and its solver; stubs: weak learner (simulated party), "
        "rayon-core (simulated fork/join scheduler), libc clock/entropy/file calls (simulated).")
TECH = "deterministic simulation: seeded search over party replies, fork/join schedules and faults"
BO = "src/booster/"

PROPS = [
P("B01", "Every weak-learner call receives a valid, capped distribution",
  "In every round, the example weights a booster hands to the weak learner are as many as the examples, finite, non-negative and sum to one (up to solver accuracy). "
  "The first round is uniform (for all but the pairwise separation booster), and boosters with a capping parameter nu never put more than 1/nu on an example (the smooth booster: never more than 1/(kappa n)). "
  "This holds whatever hypotheses the weak learner answered before, and the run ends without a panic.",
  ["histories", "schedules", "inputs", "configurations"],
  "all histories of weak-learner replies (best, worst, stale, repeated, arbitrary), all booster parameters, all thread-pool schedules",
  "Tests only look at the final error on one dataset with a cooperative learner; no test looks at the weights of any round.",
  [BO + d for d in ("adaboost", "adaboostv", "madaboost", "smoothboost", "graph_separation_boosting", "lpboost", "erlpboost", "softboost", "totalboost", "cerlpboost", "mlpboost")] + ["src/common/utils.rs"],
  [("per-round weight update of each booster", "src/booster/*/*_algorithm.rs boost()"), ("entropy projection onto the capped simplex", "src/common/utils.rs")],
  TECH, NOTE, design="""A run of one booster against the simulated learner.  Every distribution it sends is an
observed message; the invariant (length, finiteness, sign, sum, cap, uniform first round) is
evaluated on each.  Scripts mix best, worst, stale, repeated, fixed and weak replies, so that
histories include adversarial sequences no real learner produces.  Tolerance 1e-5 (solver)."""),

P("B02", "Multiplicative boosters follow their published update, stop rule and vote",
  "AdaBoost and AdaBoostV multiply each example's weight by exp(-a u) where u is the example's margin under the received hypothesis and a is the published coefficient of its edge (AdaBoostV: relative to the smallest edge so far minus the tolerance); MadaBoost's weights are the same product, over all rounds and with its own published coefficient, capped at one; all are then normalised. "
  "The returned confidence is the sum of the answers weighted by these coefficients, divided by the sum of their absolute values, AdaBoost's training error is at most the product of sqrt(1 - edge^2), and a perfect hypothesis (edge one on every example) ends the run and is returned alone. "
  "The run ends before its number of rounds only for a perfect hypothesis.",
  ["histories", "schedules", "inputs", "configurations"],
  "all histories of weak-learner replies including bad, repeated and perfect ones, all tolerances and round limits, all thread-pool schedules",
  "Tests never look at weights or coefficients, only at one final loss.",
  [BO + d for d in ("adaboost", "adaboostv", "madaboost")] + ["src/hypothesis"],
  [("weight update and coefficient", "src/booster/{adaboost,adaboostv,madaboost}/*_algorithm.rs update_params(), boost()")],
  TECH, NOTE, design="""A step-wise reference of the three updates is fed the same replies.  AdaBoost/AdaBoostV:
log-ratios of consecutive messages equal -a u up to a common constant; MadaBoost: the
message equals the normalised capped product.  At the end: the vote, the training-error bound,
and the reason for ending.  Rounds whose edge is within 1e-9 of one are not predicted
(ill-conditioned), except perfect first rounds on dyadic uniform weights, which are exact."""),

P("B03", "Margin boosters return a vote within tolerance of the best soft margin",
  "When AdaBoostV finishes, the smallest margin of its vote is at least the smallest edge it has met minus the tolerance. "
  "When TotalBoost, SoftBoost, LPBoost, ERLPBoost, CERLPBoost or MLPBoost stops by itself or every reply was a best one, the soft margin of its vote (hard margin for TotalBoost) is at least the smallest edge met minus the tolerance. "
  "If every reply was a best hypothesis, it is also within the tolerance of the optimum of the soft-margin linear program over the whole hypothesis class, and it never exceeds that optimum.",
  ["histories", "schedules", "inputs", "configurations"],
  "all hypothesis classes, reply histories, capping parameters, tolerances, Frank-Wolfe strategies and thread-pool schedules",
  "Tests check no margin; the optimum of the linear program is not known to them.",
  [BO + d for d in ("adaboostv", "lpboost", "erlpboost", "softboost", "totalboost", "cerlpboost", "mlpboost")] + ["src/common/frank_wolfe.rs", "src/common/utils.rs"],
  [("sub-problems and stopping rules", "src/booster/*/{lp_model,qp_model,*_algorithm}.rs"), ("Frank-Wolfe steps", "src/common/frank_wolfe.rs")],
  TECH, NOTE, design="""The margin of the returned vote is compared with (a) the smallest edge that crossed the
seam and (b) the optimum of the soft-margin LP over the whole class, solved by an
independent reference (`lp.rs`, with duality gap as a certificate; uncertified cases are not
judged).  Slack 2e-4 for solver accuracy beyond the requested tolerance."""),

P("B04", "Every boosting run ends within its published number of rounds",
  "Whatever the weak learner answers (best, worst, stale, repeated, arbitrary), every booster asks it at least once and ends its run without a panic within the number of rounds its analysis gives for its parameters; "
  "LPBoost, whose analysis gives none, ends within one round more than the number of hypotheses when the replies are best ones. "
  "A configured limit on the number of rounds is never exceeded, and the maximum a booster reports (max_loop, info) is that of its analysis, before a run as well as during one; the terminated() of LPBoost, ERLPBoost and MLPBoost is the number of rounds the latest run took.",
  ["histories", "schedules", "inputs", "configurations"],
  "all reply histories (including misbehaving learners), booster parameters and thread-pool schedules",
  "Non-termination and panics on unlucky histories do not show on one dataset.",
  [BO + d for d in ("adaboost", "adaboostv", "madaboost", "smoothboost", "graph_separation_boosting", "lpboost", "erlpboost", "softboost", "totalboost", "cerlpboost", "mlpboost")],
  [("stopping rules", "src/booster/*/*_algorithm.rs preprocess(), boost()")],
  TECH, NOTE, design="""Bounded liveness: a step budget equal to the published bound (+1) is enforced by the
party, which ends the run as a violation when exceeded.  A third of the cases has a limit so small that it is reached.  Panics, aborts and hangs are violations."""),

P("B05", "The final hypothesis is a normalised vote over received hypotheses",
  "The combined hypothesis contains only hypotheses the weak learner has returned in this run; the absolute values of its weights sum to one (and no weight is negative but for the Ada family), so its confidences lie in [-1, 1] and equal the weighted sum of its parts. "
  "Its prediction is the sign of its confidence, and predicting a whole sample gives exactly the same as predicting row by row.",
  ["histories", "schedules", "inputs", "configurations"],
  "all reply histories, booster parameters, labels and thread-pool schedules",
  "Tests look at a loss value of one final hypothesis, never at its parts.",
  ["src/hypothesis", "src/booster"],
  [("combined hypotheses", "src/hypothesis/*.rs, src/hypothesis.rs"), ("weights of the vote", "src/booster/*/*_algorithm.rs postprocess()")],
  TECH, NOTE, design="""The returned object is inspected through serde and the public prediction calls and
recombined from the hypotheses that crossed the seam."""),

P("B06", "A booster that crashed or finished starts its next run from scratch",
  "If the weak learner panics in any round, or a run has finished, the next run on the same booster object behaves exactly like a run on a newly built one: the same weights in every round, the same number of rounds, the same final hypothesis, bit for bit. "
  "This holds after any sequence of earlier runs.",
  ["histories", "crash points", "configurations"],
  "all sequences of earlier complete and crashed runs (crash in any round), all boosters and parameters",
  "No test runs a booster twice or interrupts it.",
  ["src/booster"],
  [("per-run initialisation", "src/booster/*/*_algorithm.rs preprocess()")],
  TECH, NOTE, design="""One to three earlier runs on the same booster object, most of them crashed (panic out of the
learner) in a random round, then a run compared bit for bit with a fresh booster (no stealing, so sums
are split alike)."""),

P("B07", "Logging is transparent and every log row tells the truth",
  "A run under the logger sees the same weights in every round and returns the same hypothesis as a run without it. "
  "After it, the log file has the header and one complete row per round, whose columns are the objective value, training loss and test loss of the combined hypothesis at the end of that round and the milliseconds spent on boosting so far. "
  "Time spent on evaluating, printing or writing and jumps of the wall clock are not counted, and no file stays open.",
  ["histories", "timings", "inputs", "configurations"],
  "all reply histories, round durations, evaluation durations, wall-clock jumps, objectives, printing intervals and test samples",
  "The repository's tests do not read a log; timings cannot be controlled there.",
  ["src/research/logger.rs", "src/research.rs"],
  [("logging loop", "src/research/logger.rs run()")],
  TECH, NOTE, design="""The reference executes the booster step by step on the simulated clock and evaluates objective
and losses itself after each round; then the logged run must have sent the same messages, returned the
same vote, and written exactly the reference's rows."""),

P("B08", "The logger's time limit counts boosting time only and stops at once",
  "Under a time limit, a logged run stops after the first round at which the accumulated boosting time exceeds the limit, and not earlier; it then returns the combined hypothesis of that round and a complete log. "
  "Evaluation time and wall-clock jumps neither trigger nor postpone it, and a run that ends within its limit is unaffected.",
  ["histories", "timings", "configurations"],
  "all round durations, evaluation durations, clock jumps, limits in every unit",
  "Tests use the real clock and no time limit.",
  ["src/research/logger.rs"],
  [("time accounting", "src/research/logger.rs run()")],
  TECH, NOTE, design="""Same reference; the limit is drawn around the reference's times, often exactly at a
round's end, and the number of rounds must be the predicted one."""),

P("B09", "A failing disk never panics or corrupts a logged run",
  "When opening, creating or writing the log file fails at any call, the logged run returns an error instead of panicking or claiming success, leaves at most a prefix of the full log, and leaks no open file. "
  "Short and interrupted writes change nothing. "
  "The same logger can afterwards be run again and then behaves like a fresh one.",
  ["faults", "histories", "crash points"],
  "all positions and kinds of disk faults (errors, short, interrupted writes, full disk) in all runs",
  "A test cannot make the disk fail at a chosen call.",
  ["src/research/logger.rs"],
  [("file handling", "src/research/logger.rs run(), log()")],
  TECH, NOTE, design="""Faults at random calls of the logger's file operations; outcome (Err / Ok), file content (prefix),
open descriptors, and a second run of the same logger on a healthy disk are compared with the fault-free reference."""),

P("B10", "Reading a data file gives exactly its rows, however the disk delivers them",
  "A sample read from a CSV or svmlight file has exactly the file's rows in order, with the values, targets and column names of the file (unnamed columns are numbered by their position or index, `Feat. [i + 1]` for the i-th from zero), and columns found by name are the right ones, however reads are split up or interrupted. "
  "A missing file, an unknown target column or a read error at any call is reported as an error, never as a panic or a shortened sample, and no file stays open.",
  ["inputs", "faults", "configurations"],
  "all tables, encodings, target columns, read sizes, interruptions and error positions",
  "Tests read one file from a healthy disk.",
  ["src/sample/sample_reader.rs", "src/sample/sample_struct.rs", "src/sample/feature_struct.rs"],
  [("parsers", "src/sample/sample_reader.rs"), ("column lookup", "src/sample/sample_struct.rs")],
  TECH, NOTE, design="""Random tables in all encodings read through a disk that delivers arbitrary chunks, interruptions and
errors; the sample is compared cell by cell with the table."""),

P("B11", "A torn or damaged data file never becomes a wrong sample",
  "When the file was cut at any byte or damaged (flipped bits, zeroed, lost or repeated blocks, stray bytes), reading it either reports an error or gives a sample with exactly the rows that the damaged text spells. "
  "A line with a missing or surplus field, or a field that is not a number, is an error; there is never a panic, and every sample returned is rectangular with as many targets as rows.",
  ["inputs", "faults", "crash points"],
  "all truncation points and damages of all files",
  "Tests read well-formed files only.",
  ["src/sample/sample_reader.rs", "src/sample/sample_struct.rs"],
  [("parsers", "src/sample/sample_reader.rs")],
  TECH, NOTE, design="""A file is damaged as a crashed or failing disk would; an independent reference parser classifies the
damaged text (well-formed lines / malformed / unspecified) and the reader's outcome is compared."""),

P("B13", "A decision tree is the greedy tree for its criterion under every distribution",
  "For every criterion (entropy, edge, Gini, twoing), depth and distribution over the examples, also one with vanished weights, the tree returned is the one obtained by greedily splitting every node at the threshold best for the criterion; its leaves answer the weighted average label in [-1, 1], and zero-weight examples have no influence. "
  "The tree is a function of the features, has at most 2^depth leaves, and does not depend on the thread-pool schedule, on hash seeds or on whether the features are stored densely or sparsely; growing it never panics.",
  ["inputs", "schedules", "configurations"],
  "all feature tables, labels, distributions, criteria, depths, representations, fork/join schedules and hash seeds",
  "Tests build trees for two distributions on one machine's schedule and do not compare them with the best splits.",
  ["src/weak_learner/decision_tree", "src/weak_learner/common", "src/sample/feature_struct.rs", "src/common/utils.rs"],
  [("node growth", "src/weak_learner/decision_tree/decision_tree_algorithm.rs"), ("split search", "src/weak_learner/decision_tree/criterion.rs"), ("binning", "src/weak_learner/decision_tree/bin.rs")],
  TECH, NOTE, design="""The reference grows the greedy tree from exact dyadic weights; ties within rounding make a node
'not judged'.  Two schedules, two hash seeds, dense and sparse encodings of the same table are compared with it."""),

P("B14", "A regression tree is the greedy tree for the loss at the current predictions",
  "For both losses, every regularisation, depth and set of current predictions, the regression tree returned is the one obtained by greedily splitting every node at the threshold of the largest gain in gradient statistics, with leaf values minus the gradient sum over the regularised curvature sum. "
  "It is finite, a function of the features, and does not depend on the thread-pool schedule, hash seeds or sparse storage; growing it never panics.",
  ["inputs", "schedules", "configurations"],
  "all feature tables, targets, current predictions, losses, regularisations, depths, representations, schedules and hash seeds",
  "Tests do not compare a regression tree with anything.",
  ["src/weak_learner/regression_tree", "src/weak_learner/common", "src/sample/feature_struct.rs"],
  [("node growth", "src/weak_learner/regression_tree/regression_tree_algorithm.rs"), ("loss statistics", "src/weak_learner/regression_tree/loss.rs"), ("binning", "src/weak_learner/regression_tree/bin.rs")],
  TECH, NOTE, design="""As B13 with gradient statistics."""),

P("B15", "Gradient boosting descends by exact line search and returns what it fitted",
  "In every round, gradient boosting starts from zero predictions, moves them along the received hypothesis to the minimum of the training loss on that line (so the loss never rises), and tells the next call exactly these predictions; the returned hypothesis is the sum of the steps. "
  "It ends before its number of rounds only if the last hypothesis cannot lower the loss, never panics, and a run after a crash of the weak learner or under another thread-pool schedule gives the same result.",
  ["histories", "schedules", "crash points", "inputs"],
  "all targets, losses, reply histories (useless, worst, repeated, crashing learners) and fork/join schedules",
  "Tests only look at a final loss of one run with the shipped tree.",
  ["src/booster/gradient_boost", "src/common/loss_functions.rs", "src/weak_learner/regression_tree"],
  [("boosting loop", "src/booster/gradient_boost/gbm.rs boost()"), ("line search", "src/common/loss_functions.rs")],
  TECH, NOTE, design="""Learner = simulated party or the real regression tree behind a recorder; every message (predictions so far) is checked
to be a step along the answer to the minimum of the loss on that line (reference line search)."""),

P("B16", "Cross-validation folds partition the sample and are reproducible",
  "Each fold splits the sample into a training and a test part that together hold every row exactly once, unchanged and with its own target, in the requested share and number; no row is tested in two folds. "
  "Without shuffling the test parts are consecutive rows; with a seed, the folds are the same under every schedule and hash seed, other seeds give other folds, and any row may be drawn for either part. "
  "This holds for dense and sparse samples, and nothing panics.",
  ["inputs", "schedules", "configurations"],
  "all tables (dense, sparse), numbers of folds, ratios, shuffling seeds, schedules and hash seeds",
  "Tests do not use cross validation.",
  ["src/research/cross_validation.rs", "src/sample/sample_struct.rs", "src/sample/feature_struct.rs"],
  [("splitting", "src/sample/sample_struct.rs split()"), ("folds", "src/research/cross_validation.rs")],
  TECH, NOTE, design="""Folds are read off through the samples' own rows (unique ids); two runs under different schedules and hash seeds. Another seed must give another order of at least 20 test rows; under 60 seeds every row of a small sample must be drawn for testing and for training at least once (by chance each of these fails less than once in 10^16 samples)."""),

P("B17", "SmoothBoost follows its smooth measure and keeps its margin guarantee",
  "In every round, SmoothBoost weighs each example by 1 or (1 - gamma)^(N/2), whichever is smaller, where N sums, over the rounds so far, its margin minus theta = gamma / (2 + gamma), normalised; it ends at the first round where the total weight falls below kappa n, or at its published number of rounds. "
  "It returns the plain average of the received hypotheses. "
  "If it ended by falling below kappa n, or every reply kept the promised edge, less than a fraction kappa of the examples have a margin below theta.",
  ["histories", "schedules", "inputs", "configurations"],
  "all reply histories (promise kept or broken), parameters and thread-pool schedules",
  "Tests look at one final loss only.",
  ["src/booster/smoothboost"],
  [("measure update", "src/booster/smoothboost/smoothboost_algorithm.rs boost()")],
  TECH, NOTE, design="""Reference of the published measure, fed the same replies; stop rule, vote and guarantee at the end."""),

P("B18", "Pairwise separation boosting weighs unseparated pairs and classifies exactly",
  "In every round, the separation booster weighs an example by its share in the pairs of differently labelled examples that no received hypothesis has told apart yet; it ends exactly when no such pair is left or the last hypothesis separated none. "
  "The final hypothesis answers +1 exactly for those rows that look like some positive training example under all received hypotheses.",
  ["histories", "schedules", "inputs"],
  "all hypothesis classes, labels, reply histories, schedules and hash seeds",
  "Tests look at one final loss only.",
  ["src/booster/graph_separation_boosting", "src/hypothesis"],
  [("edge set", "src/booster/graph_separation_boosting/*_algorithm.rs boost()"), ("naive aggregation", "src/hypothesis/naive_aggregation.rs")],
  TECH, NOTE, design="""Reference edge set, fed the same replies; messages must be its degree distribution (1e-12); final answers are exact."""),

P("B22", "Exporting a tree writes that tree, or reports the failure",
  "The DOT file written for a decision or regression tree describes the tree itself: following its conditions leads every row to the answer the tree gives. "
  "When opening, creating or writing the file fails at any call, the export returns an error, leaves at most a prefix of the file and no open file; short and interrupted writes change nothing; it never panics.",
  ["faults", "inputs"],
  "all trees, all positions and kinds of disk faults",
  "A test cannot make the disk fail at a chosen call, and none reads the export.",
  ["src/weak_learner/decision_tree", "src/weak_learner/regression_tree"],
  [("export", "src/weak_learner/decision_tree/decision_tree_classifier.rs, src/weak_learner/regression_tree/regression_tree_regressor.rs to_dot_file()")],
  TECH, NOTE, design="""Export under disk faults and again on a healthy disk; the file is parsed and rows are followed through it."""),

P("B12", "Results depend on neither schedules nor hash seeds nor the storage format",
  "For the same history of weak-learner replies, AdaBoost, AdaBoostV, MadaBoost, SmoothBoost and the pairwise separation booster send the same weights in every round and return the same hypothesis (up to rounding), whatever the size of the thread pool, the stealing of its tasks and the hash seeds, and whether the sample is stored densely or sparsely. "
  "Naive Bayes, on every distribution over the examples, gives the same posteriors under all of these, and decides for the label with the largest product of weighted share and Gaussian densities (with the weighted mean and variance of the label, no variance below 1e-9).",
  ["schedules", "histories", "inputs", "configurations"],
  "all schedules, pool sizes, hash seeds, both storage formats, all reply histories, tables and distributions",
  "A test runs on one machine's schedule and one storage format.",
  [BO + d for d in ("adaboost", "adaboostv", "madaboost", "smoothboost", "graph_separation_boosting")] + ["src/weak_learner/naive_bayes", "src/sample/feature_struct.rs", "src/sample/sample_struct.rs"],
  [("parallel updates", "src/booster/*/*_algorithm.rs"), ("weighted mean and variance", "src/sample/feature_struct.rs"), ("posterior", "src/weak_learner/naive_bayes/nbayes_classifier.rs")],
  TECH, NOTE, design="""The replies of a first run are replayed as fixed answers under another environment and storage;
messages and results are compared (1e-6 relative; comparison ends at ill-conditioned rounds, e.g. an edge within
1e-6 of one).  Naive Bayes is compared with itself and with a reference whose rounding error is bounded;
decisions within that bound are not judged."""),

P("B19", "A neural network is trained by gradient descent on examples drawn by weight",
  "Training never panics and gives confidences in [-1, 1]; the same initial entropy gives the same network (up to rounding) on every thread pool and for dense and sparse storage, and examples of weight zero have no influence on it. "
  "Every epoch draws its minibatch anew among the examples of positive weight, without repetition and exactly by weight; a minibatch size of at least their number takes all of them. "
  "Each iteration is one step of gradient descent on the cross-entropy of the minibatch, of size 0.001 divided by the configured minibatch size, for networks with logistic, ReLU and identity hidden layers of any scale and threshold and one logistic or two soft-maximum outputs of scale 1.",
  ["inputs", "schedules", "configurations"],
  "all architectures, tables of moderate scale, distributions, initial networks and draws (entropy), schedules and storage formats",
  "Initial networks and draws are random; tests cannot fix them, let alone cover them.",
  ["src/weak_learner/neural_network", "src/common/task.rs", "src/common/utils.rs"],
  [("training", "src/weak_learner/neural_network/nn_hypothesis.rs train()"), ("minibatches", "src/weak_learner/neural_network/nn_weak_learner.rs produce()")],
  TECH, NOTE, design="""The simulated entropy source makes a training repeatable: (a) without hidden layers, descent is
predicted in function space from the initial outputs alone; (b) with hidden layers, a network of our own is drawn
from the same entropy (used only when it reproduces the initial outputs), trained by textbook back-propagation and
compared (1e-6; chaotic trajectories are not judged); (c) with tiny steps the loss must not rise; (d) minibatches of one
or two are identified by their effect over 120 entropies and tested against the weights, row by row and all light
rows together (tail below e^-23); the scale of the output layer must multiply the initial log odds;
(e) other schedules, sparse storage and other contents of weightless rows must not matter.
Soft-maximum hidden layers use a diagonal derivative in this code base and are exempt from (b) and (c); multi-class tasks
cannot be asked for, since `Task` is not exported."""),

P("B20", "The worst-case learner answers with the best of its fixed class",
  "Whatever it was asked before, the worst-case learner answers every distribution with a hypothesis whose edge is at least that of every other hypothesis it ever returns, with confidences in [-1, 1]. "
  "Its hypotheses' margins do not depend on the labels. "
  "Against it, LPBoost with the same capping parameter nu and tolerance (at least 0.05) needs at least n / (2 ceil(nu)) rounds on n examples.",
  ["histories", "inputs", "configurations"],
  "all sequences of distributions (also those of LPBoost runs), labels, tolerances and capping parameters",
  "The tests with this learner are commented out.",
  ["src/weak_learner/bad_learner", "src/common/utils.rs", "src/booster/lpboost"],
  [("class and choice", "src/weak_learner/bad_learner/worstcase_lpboost.rs")],
  TECH, NOTE, design="""All answers of a run (arbitrary distributions before, between and after an LPBoost run) are
tabulated; each must be the best of all of them for its own question.  The published lower bound is checked where the
construction's gaps are far above solver accuracy."""),

P("B21", "A saved model predicts as before, and a torn file is refused",
  "A decision tree, regression tree, naive Bayes classifier or weighted vote over them that was written as JSON and read back in another process (other thread pool, other hash seeds) gives exactly the same answer on every row, seen or unseen. "
  "If saving failed or a crash left only part of the file, loading returns an error; nothing panics.",
  ["inputs", "faults", "crash points"],
  "all models trained on generated tables, all positions of disk faults and of a crash while saving",
  "No test saves a model.",
  ["src/hypothesis/weighted_majority.rs", "src/weak_learner/decision_tree", "src/weak_learner/regression_tree", "src/weak_learner/naive_bayes", "src/weak_learner/common"],
  [("serialised forms", "src/weak_learner/*/node.rs, src/weak_learner/naive_bayes/*.rs, src/hypothesis/weighted_majority.rs")],
  TECH, NOTE, design="""Train and save on the simulated disk under faults (short, interrupted, failing writes, a full disk)
or a crash that keeps a prefix; load in a second simulated process; predictions are compared bit for bit."""),

P("B23", "Boosters and the shipped learners work together on every sample",
  "Every booster, run with the shipped decision tree, naive Bayes, neural network (features of moderate scale) or worst-case learner on any sample with both labels, ends without a panic within its published number of rounds. "
  "All distributions on the way are valid and all confidences lie in [-1, 1], naive Bayes answers each with the most probable label, and the result is the normalised vote over the received hypotheses.",
  ["inputs", "schedules", "configurations"],
  "all samples (dense, sparse), boosters, learners, parameters, schedules and entropy",
  "Tests run a few combinations on one dataset and look at the loss.",
  ["src/booster", "src/weak_learner", "src/sample", "src/common"],
  [("weak-learner call", "src/booster/*/*_algorithm.rs boost()"), ("learners", "src/weak_learner/*")],
  TECH, NOTE, design="""Real boosters against real learners; a recording party in between checks every distribution and every
answer.  The vote is recombined from the answers."""),

P("B24", "Boosters working side by side do not disturb each other",
  "If several boosters work on the same sample, their rounds interleaved in any order, each sends the same weights in every round and returns the same hypothesis as if it worked alone, bit for bit. "
  "This also holds when one of them is abandoned because its weak learner panicked.",
  ["schedules", "histories", "crash points", "configurations"],
  "all interleavings of two or three boosters of any kinds and parameters, all reply histories, a crash in any round",
  "No test has two boosters at once.",
  ["src/booster", "src/common"],
  [("state of a booster", "src/booster/*/*_algorithm.rs")],
  TECH, NOTE, design="""The scheduler picks which booster plays its next step (preprocess, boost, postprocess); each is compared
bit for bit with its own run alone (no stealing, so that sums are split alike)."""),

P("B25", "A learner's answer depends on the question, not on earlier ones",
  "A decision tree, regression tree, naive Bayes or worst-case learner that has been called any number of times gives the same answer as a newly built one with the same parameters. "
  "This holds whatever other learners on the same sample were called in between, and also after calls that were abandoned by a panic. "
  "Between equally good splits of a tree, the answer is one a new learner can give.",
  ["histories", "crash points", "configurations"],
  "all sequences of calls (complete or abandoned) on up to three learners, all distributions or current predictions",
  "No test calls a learner twice and compares.",
  ["src/weak_learner/decision_tree", "src/weak_learner/regression_tree", "src/weak_learner/naive_bayes", "src/weak_learner/bad_learner"],
  [("learners' state", "src/weak_learner/*/*_algorithm.rs, nbayes.rs, worstcase_lpboost.rs")],
  TECH, NOTE, design="""Sequences of calls on shared learner objects, a quarter abandoned by withholding part of the weights;
every completed answer is compared with that of a new learner on the same schedule; a different answer is accepted
only if one of 300 other hash seeds makes a new learner give it (ties)."""),

P("B26", "A sample answers for its rows through every change",
  "A sample read from CSV, svmlight or a data frame and then taken through any sequence of choosing another target column, renaming, splitting into folds and cloning still is the table that the same operations make of the rows: its shape, rows, columns (by position and by name), targets, distinct targets, counts of zeros, weighted means and variances (overall and per label) all agree. "
  "A wrong number of names or an unknown target is refused and leaves the sample as it was.",
  ["histories", "inputs", "schedules"],
  "all tables with distinct column names, all sequences of operations, all weights summing to one, schedules and hash seeds",
  "Tests read a sample and use it as it is.",
  ["src/sample"],
  [("operations", "src/sample/sample_struct.rs"), ("columns", "src/sample/feature_struct.rs"), ("folds", "src/research/cross_validation.rs")],
  TECH, NOTE, design="""A plain table of rows, names and targets goes through the same history; everything the sample can be asked is
compared after every step.  The first column numbers the rows, so that the rows of a fold are known."""),
P("B27", "Unsuitable samples and parameters are refused before any work",
  "A booster given a sample whose targets are not integers of exactly two kinds, or a capping parameter nu outside [1, n], refuses to run (panics) before it asks the weak learner anything, for every booster and every sample. "
  "So do the smooth booster for gamma outside [0, 0.5) or kappa outside (0, 1), the tree builders for depth 0 or bins of an unknown feature (and the regression tree builder without a loss), a data frame with missing values, columns of another type or another number of targets than rows, cross validation for a ratio outside (0, 1), the soft-margin objective for nu outside [1, n], and the reader of a sample without a file or a CSV target.",
  ["inputs", "configurations"],
  "all samples of up to a few dozen examples with unsuitable targets, all parameter values outside the documented ranges, all boosters",
  "No test makes an unsuitable request; what a booster would answer to one is meaningless rather than visibly wrong.",
  ["src/booster/" + d for d in ("adaboost", "adaboostv", "madaboost", "smoothboost", "graph_separation_boosting", "lpboost", "erlpboost", "softboost", "totalboost", "cerlpboost", "mlpboost")] + ["src/common/checker.rs", "src/sample", "src/research", "src/weak_learner/decision_tree", "src/weak_learner/regression_tree"],
  [("binary targets", "src/sample/sample_struct.rs is_valid_binary_instance()"), ("capping parameter", "src/common/checker.rs check_nu(), nu() setters"), ("smooth booster's parameters", "src/booster/smoothboost/smoothboost_algorithm.rs")],
  TECH, NOTE, design="""A request that must be refused is made inside the simulation; the learner counts how often it is
asked.  Acceptable requests (a shrunk case may become one) are skipped, so nothing is demanded about them here."""),

P("B28", "Votes combined by hand answer as their parts",
  "A weighted vote built from slices of weights and hypotheses (weight zero is dropped, the rest is normalised), extended by pushing, normalised, cloned, taken apart or nested answers, for classifiers and regressors alike, with the weighted sum of its parts' answers, and its label is the sign of that sum with zero counted as positive. "
  "The pattern aggregation answers positive exactly for examples whose pattern of predictions some positive training example has.",
  ["histories", "inputs", "schedules"],
  "all histories of these operations, hypotheses and weights, samples and thread-pool schedules",
  "Tests only use votes that a booster has built.",
  ["src/hypothesis", "src/booster/graph_separation_boosting"],
  [("vote", "src/hypothesis/weighted_majority.rs"), ("traits", "src/hypothesis/hypothesis_traits.rs"), ("patterns", "src/hypothesis/naive_aggregation.rs")],
  TECH, NOTE, design="""Hypotheses are look-up tables by point number; a list of (weight, table) goes through the same history of
operations and gives the expected sums.  Whole-sample answers (computed by the simulated pool) are compared with single ones bit by bit."""),
P("B29", "Margin boosters' rounds solve their published sub-problems",
  "In every round, the weights of LPBoost minimise the largest edge of the hypotheses received so far and its vote maximises their soft margin; those of SoftBoost and TotalBoost leave each of them an edge of at most the smallest edge met minus the tolerance, near the uniform weights; those of ERLPBoost minimise the largest edge plus the relative entropy over eta, up to a fraction of the tolerance. "
  "The weights of CERLPBoost and MLPBoost are the best response to the current vote under the same regularisation, and the vote moves by exactly the configured Frank-Wolfe rule (classic, short-step, line-search, blended pairwise); MLPBoost takes the answer of its (perturbed) linear program instead only if that has the larger objective value. "
  "A run ends by itself in the first round in which its published optimality gap is within the tolerance, whatever the replies were.",
  ["histories", "schedules", "inputs", "configurations"],
  "all hypothesis classes, reply histories, capping parameters, tolerances, Frank-Wolfe strategies and thread-pool schedules",
  "Tests look at the final error only; a wrong step usually still lowers it.",
  [BO + d for d in ("lpboost", "erlpboost", "softboost", "totalboost", "cerlpboost", "mlpboost")] + ["src/common/frank_wolfe.rs", "src/common/utils.rs"],
  [("sub-problems", "src/booster/*/{lp_model,qp_model,perturbed_lp_model}.rs"), ("Frank-Wolfe steps", "src/common/frank_wolfe.rs"), ("stopping rules", "src/booster/*/*_algorithm.rs boost()")],
  TECH, NOTE, design="""The booster is driven round by round; after each one its current vote is asked for.  The reference knows the
received hypotheses and the weights that crossed the seam and solves the sub-problems itself (simplex method with a duality gap;
pairwise ascent for the entropy-regularised one; exact capped projection; bisection for line searches), with certificates, and judges
objective values, not solutions, wherever these are not unique.  Slacks: 2e-4 for solver answers, 0.3 tolerances for ERLPBoost's and 0.9
nats for SoftBoost's sequential quadratic programs (the worst seen on the unchanged tree are 0.1 and 0.42: the crate stops them as soon as the quadratic
model's value grows, which the final guarantees B03, B04 tolerate; a first round in which the cap does not bind is held to 3e-4).  ERLPBoost's weights
are not judged on more than 100 examples, where the solver may stall.  Slack 12/eta for MLPBoost's Gumbel-perturbed program.  Stopping rules are judged
only when the gap is clearly on one side."""),
P("B30", "Naive Bayes answers by Bayes' formula on the weighted sample",
  "Trained on any distribution over the examples, Gaussian naive Bayes gives each label of the sample, for every row (of the training sample or of another one with the same features), the probability share * density of the label / density of the whole sample, where share is the label's total weight and a density is the product over the features of the normal density with the weighted mean and variance (no variance below 1e-9) of the label's or all examples. "
  "A label without weight has probability zero, and the answer is the label of the largest share * density. This holds for two or more labels, for dense and sparse storage of either sample, on every schedule, and for each of several models trained by one learner.",
  ["inputs", "schedules", "histories"],
  "all tables, label sets of two to four values, distributions (also those leaving a label without weight), storage formats and thread-pool schedules",
  "The tests train naive Bayes on one data set and print the error.",
  ["src/weak_learner/naive_bayes", "src/sample/feature_struct.rs", "src/sample/sample_struct.rs", "src/common/utils.rs"],
  [("training", "src/weak_learner/naive_bayes/nbayes.rs produce()"), ("densities", "src/weak_learner/naive_bayes/probability.rs"), ("answer", "src/weak_learner/naive_bayes/nbayes_classifier.rs"), ("weighted statistics", "src/sample/feature_struct.rs")],
  TECH, NOTE, design="""Models of several distributions are trained by one learner in one simulated run and asked about the
training rows and about new rows, stored either way.  The reference works with logarithms and carries a bound of its rounding error;
probabilities are compared where that is below 0.1, and decisions where the leading label is clear of it."""),

P("B31", "Objectives and losses measure what they are named after",
  "For every classifier with confidences in [-1, 1] and every sample with both labels, the soft-margin objective is the least average margin over the distributions capped at 1/nu, the hard-margin objective is the least margin, and the exponential loss is the mean of exp(-y h(x)) over the predicted labels; weighted votes are measured like single hypotheses. "
  "GBMLoss evaluates to the mean absolute (L1) or squared (L2) difference, gives the sign of the residual (zero where there is none) or the residual as its gradient and 0 or 1 as its second derivative, and its best coefficient leaves the least possible loss along the given direction.",
  ["inputs", "configurations", "schedules"],
  "all confidences, votes, labels and capping parameters; all targets, predictions and directions",
  "No test evaluates an objective; a wrong one only changes a column of a log.",
  ["src/research/objective_functions.rs", "src/common/loss_functions.rs", "src/hypothesis"],
  [("objectives", "src/research/objective_functions.rs eval()"), ("losses", "src/common/loss_functions.rs")],
  TECH, NOTE, design="""Classifiers are tables of confidences, alone and as a vote; the soft margin is computed from the dual program
(best threshold), not by the crate's greedy walk.  Best coefficients are judged by the loss they leave, against zero, nearby ones and all break points."""),
P("B32", "The console report repeats the log",
  "A logged run prints the progress line of every print_every-th round (by default every hundredth; none for usize::MAX), one closing line when the run ends by itself, and one time-out line instead when the time limit stops it; each line carries its round's number and that round's objective, losses and accumulated boosting time, rounded to the digits or unit shown. "
  "The summary before the first round names the weak learner, the objective, the number of examples, the time limit, the tolerance, the capping parameter and the bound on the rounds as they were set. This holds also for a console that takes a few bytes at a time or is interrupted.",
  ["histories", "faults", "configurations"],
  "all boosters, reply histories with rounds of up to hours, printing intervals, time limits in every unit; short and interrupted console writes",
  "No test reads what is printed.",
  ["src/research/logger.rs", "src/research/logger_builder.rs"] + [BO + d for d in ("adaboost", "adaboostv", "madaboost", "smoothboost", "lpboost", "erlpboost", "softboost", "totalboost", "cerlpboost", "mlpboost")],
  [("report", "src/research/logger.rs run(), print_stats(), time_format()"), ("summary values", "src/booster/*/*_algorithm.rs info()")],
  TECH, NOTE, design="""The write calls on standard output are caught, shortened and interrupted; the text (without colours) is read line by line
and compared with the rounds of the step-by-step reference of B07.  Column widths and wording other than the line tags and keys are not judged."""),
]
NOT_APPLICABLE = {}
