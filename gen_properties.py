#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the long texts stay reviewable)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

OBJ = "src/ObjectiveFunctions/objective_function.cpp"
CON = "src/ObjectiveFunctions/constraint_functions.cpp"
OPT = "src/Optimizers/optimization.cpp"
EGO = "src/Optimizers/efficient_global_optimization.cpp"
HIS = "src/Optimizers/optimization_history.cpp"
GLO = "src/Optimizers/globalOptimalDesign.cpp"
OCF = "src/Optimizers/optimization_constraint_functions.cpp"
KRI = "src/SurrogateModels/kriging_training.cpp"
SMD = "src/SurrogateModels/surrogate_model_data.cpp"
VEC = "src/LinearAlgebra/vector.cpp"
MAT = "src/LinearAlgebra/matrix.cpp"
EAO = "src/InternalOptimizers/ea_optimizer.cpp"
EAP = "src/InternalOptimizers/ea_population.cpp"
EAI = "src/InternalOptimizers/ea_individual.cpp"
DRV = "src/Driver/driver_xml.cpp"
API = "src/API/cppAPI.cpp"
DES = "src/Design/design.cpp"
STABLE = ("The 4 reliable tests run one fault-free study each from start to end and only check the exit status and "
          "that a non-empty globalOptimalDesign.xml appears. ")

add("C01", "Recorded values are the evaluator's own answers for the recorded designs",
    "Every (design, value) pair that a study records - in the objective's and each constraint's training data, in the optimisation history and in the reported optimum - carries a design that was handed to that function's evaluator in that same evaluation, and exactly the value that evaluation produced. "
    "An output file left over from an earlier evaluation, an earlier process or another function is never taken as the answer. "
    "The design handed to the evaluator equals the recorded design to the precision of the recording file; training data keep at least ten significant digits of every number they record, whatever its magnitude.",
    ["inputs", "histories", "fault_sequences", "configurations"],
    "all problems (dimension, bounds, number of constraints, shared or separate files), all sequences of evaluations, and every way an evaluator can misbehave while still exiting (writing nothing, writing late, leaving an old file, crashing in between, being restarted)",
    STABLE + "None of them compares a recorded row with what the evaluator saw or said, and none has a left-over output file on disk.",
    [OBJ, CON, DES, KRI, OPT],
    [("design hand-over file, process launch, output read-back", OBJ + ": evaluateDesign, writeDesignVariablesToFile, readOutputDesign"),
     ("recording of the sample", OBJ + ": addDesignToData; " + KRI + ": addNewSampleToData"),
     ("constraint evaluation", CON + ": evaluateDesign")],
    [("design vector file / output file", "the file protocol with the external evaluator")])

add("C02", "A failed evaluation stops the study with an error and records nothing",
    "If evaluating the objective or any constraint fails - the program cannot be started, exits with a non-zero status, is killed by a signal, or leaves no, an empty, an unparsable, an infinite or a not-a-number result - the study stops with an error and a non-zero exit status instead of continuing or reporting success, before any further evaluation is started. "
    "No row for the failed design appears in any training-data file or in the history, whichever of the functions failed. "
    "Everything recorded before the failure is left as it was. (In the initial design of experiments of the API the objective's samples are evaluated and recorded before the constraints'; they stay recorded when a constraint fails later.)",
    ["fault_sequences", "histories", "configurations"],
    "every evaluation of every function in the study may be the one that fails, in every listed way, at any iteration",
    STABLE + "Their evaluators never fail.",
    [OBJ, CON, EGO, OPT],
    [("exit status and output checks", OBJ + ": evaluateDesign / readOutput"),
     ("constraint evaluation before anything is recorded", EGO + ": performEfficientGlobalOptimizationOnlyWithFunctionalValues"),
     ("NaN check", OPT + ": abortIfCurrentDesignHasANaN"), ("exit status", "src/Rodeo.cpp: main")])

add("C03", "Training data only ever grows by whole rows, and survives a crash",
    "During a study each training-data file keeps every row it held when the study started, unchanged and in order, and gains exactly one row per completed evaluation of that function, in evaluation order, except that a new sample lying within 1e-4 (in every coordinate and the value) of a recorded one may be discarded. "
    "If the process dies at any instant, the objective's training-data file holds every row of every iteration completed before, and at most the one row being added. "
    "The samples evaluated by the initial design of experiments survive a crash likewise, up to the last completed save.",
    ["crash_points", "histories", "fault_sequences"],
    "every system-call boundary at which the process may be killed, in every study",
    STABLE + "No test kills the process, and none reads the training data back.",
    [VEC, MAT, KRI, OBJ, API],
    [("row append", VEC + ": appendToCSV"), ("whole-file save used by the design of experiments", MAT + ": saveAsCSV; " + API + ": performDoE"),
     ("discarding near-duplicates", KRI + ": addNewSampleToData")],
    [("training data CSV files", "the only durable state of a study")])

add("C04", "Restarting after a crash resumes from exactly the recorded rows",
    "A study started again in the directory left behind by one that died at any point either uses exactly the rows in the training-data files - its initial history lists each objective row once, in file order, with unchanged values - or refuses with an error and a non-zero status. "
    "It never invents, merges or alters a value: a design whose constraint value was not recorded before the crash counts as infeasible. "
    "Rows that are incomplete, not numeric or of the wrong length make it refuse instead of being used in part. Appending to a file whose last line is not terminated never fuses two rows.",
    ["crash_points", "histories", "fault_sequences"],
    "every crash point of the previous run (including repeated crashes), every combination of files being one row apart",
    STABLE + "No test restarts a study.",
    [MAT, OPT, SMD, VEC],
    [("reading training data", MAT + ": readFromCSV; " + SMD + ": readData"),
     ("initial history from training data", OPT + ": setOptimizationHistoryData, setOptimizationHistoryConstraintsData"),
     ("append", VEC + ": appendToCSV")])

add("C05", "History and optimum files agree with the recorded data after every iteration",
    "After start-up and after every iteration, the optimisation-history file has one row per initial sample followed by one row per evaluated design in order, with that design, its objective value, its constraint values, its improvement and its feasibility, and the optimum report names a row of that history with the same values. "
    "The improvement is the amount by which a feasible evaluated design is better than the best feasible initial sample (or, if there was none, than the first feasible design), and 0 otherwise. If the process dies at any instant, each of these two files holds its complete previous or its complete new version, never an empty or partial one.",
    ["crash_points", "histories", "configurations"],
    "every iteration of every study and every crash point between and inside the rewrites",
    STABLE + "They only look at the optimum report being non-empty at the end of a run that was not interrupted.",
    [HIS, GLO, OPT, MAT, DES],
    [("history update and save", HIS + ": updateOptimizationHistory, saveOptimizationHistoryFile"),
     ("optimum report", GLO + ": saveToXMLFile"), ("whole-file save", MAT + ": saveAsCSV")])

add("C06", "The design taken forward has the best acquisition value of all candidates",
    "In every iteration, with any number of threads and whatever the interleaving of the parallel candidate searches, the design selected by the search has an acquisition value at least as large as that of every candidate examined in that iteration. "
    "The local refinement that follows never returns a design with a lower acquisition value than the one it started from.",
    ["schedules", "inputs"],
    "all thread counts and all interleavings of the candidate loops, on all data sets",
    STABLE + "They use up to four threads and never look at candidates; the losing interleavings are rare on real hardware.",
    [OPT],
    [("global candidate search", OPT + ": searchCompleteDesignSpace"), ("local candidate search", OPT + ": searchAroundGlobalOptima"),
     ("gradient refinement", OPT + ": maximizeAcqusitionFunctionGradientBased")])

add("C07", "Parallel sections are free of data races and always finish",
    "While candidates are searched or surrogate models are trained with several threads, no two threads access the same memory without synchronisation when one of them writes. "
    "Every parallel section ends under every schedule: no deadlock, no abnormal termination, and the study completes as with one thread.",
    ["schedules", "configurations"],
    "all thread counts and interleavings (down to single memory accesses) of candidate search and model training, with and without constraints",
    STABLE + "Two of them use four threads, on whatever schedule the machine has, and notice a race only if it ruins the run.",
    [OPT, KRI, EAP, EAI, VEC, "src/SurrogateModels/INCLUDE/model_logger.hpp"],
    [("parallel candidate search", OPT + ": searchCompleteDesignSpace, searchAroundGlobalOptima"), ("parallel training", KRI + ": train"),
     ("random generators shared by threads", EAP + " / " + EAI)],
    [("random engines, surrogate models, loggers", "state reachable from several threads")])

add("C08", "Multi-threaded training keeps the best hyper-parameters found by any thread",
    "Training a Kriging model with any number of threads leaves it with hyper-parameters inside their bounds whose likelihood is at least that of the best solution found by each thread, whatever the schedule. "
    "Training again, or training another model, gives the same guarantee, and leaves the training data unchanged. "
    "If samples are held out for validation, the error on them takes the place of the likelihood in that training; afterwards - also when the hyper-parameters come from a warm-start file - they are samples of the model like all others.",
    ["schedules", "histories"],
    "all thread counts, interleavings of the reduction over threads, repeated trainings",
    STABLE + "They never look at the likelihood.",
    [KRI, EAO],
    [("reduction over threads", KRI + ": train"), ("per-thread optimisation", EAO + ": optimize")])

add("C09", "Concurrent log messages are whole lines, none lost",
    "Every message given to one of the log files by any thread appears there exactly once, as one contiguous entry with its time stamp and level, and messages of one thread keep their order. "
    "Earlier log contents are kept when a study is started again.",
    ["schedules", "histories"],
    "all interleavings of any number of threads logging, over restarts",
    STABLE + "Log files are not looked at.",
    ["src/SurrogateModels/INCLUDE/model_logger.hpp", "src/Optimizers/INCLUDE/optimization_logger.hpp",
     "src/ObjectiveFunctions/INCLUDE/objective_function_logger.hpp", "src/Driver/INCLUDE/driver_logger.hpp"],
    [("log mutex and append mode", "log() of each logger header")])

add("C10", "Every design sent to an evaluator is inside the box and on the discrete grid",
    "Every design at which a study evaluates the objective or a constraint lies within the box constraints, and each parameter declared discrete is a point lower bound + k * increment of its grid inside the box (the upper bound included when it is on the grid), namely the one nearest to the selected candidate; all functions of one iteration are evaluated at the same design. "
    "This holds for every problem, random stream, thread schedule and restart.",
    ["inputs", "schedules", "histories"],
    "all boxes, increments, data sets (including samples outside the box), random streams and schedules",
    STABLE + "The evaluated designs are not checked.",
    [OPT, "src/Design/design_bo.cpp", API],
    [("trust region and trimming", OPT + ": defineTrustRegion, trimVectorSoThatItStaysWithinTheBounds"), ("rounding to the grid", OPT + ": roundDiscreteParameters"),
     ("candidate generation", "src/Design/design_bo.cpp")])

add("C11", "The evaluation budget is spent exactly, each function once per iteration",
    "A study with a budget of N evaluations whose evaluators keep working performs exactly N iterations and then ends successfully, evaluating the objective exactly once and then each constraint with its own evaluator exactly once, in declaration order, in each of them. "
    "It makes progress in bounded work: no iteration ends without its evaluations, whatever the data, the random stream or the schedule.",
    ["histories", "configurations", "schedules"],
    "all budgets, numbers of constraints, data sets, random streams and schedules",
    STABLE + "The number of evaluations is not checked.",
    [EGO, OCF],
    [("main loop and termination", EGO + ": performEfficientGlobalOptimizationOnlyWithFunctionalValues"), ("constraint evaluations", OCF + ": evaluateConstraints")])

add("C12", "The reported optimum is the best feasible design of the whole history",
    "At every iteration the reported optimum is the first design in the history with the smallest objective among all initial samples and evaluated designs that satisfy every constraint, and is marked feasible; when there is none, it is the design with the smallest objective, and is marked infeasible. "
    "A design counts as feasible exactly when each constraint value satisfies its declared (strict) inequality and the design is inside the box. "
    "The reported feasible optimum therefore never gets worse from one iteration to the next, nor across restarts.",
    ["histories", "inputs", "configurations"],
    "all histories of objective and constraint values (including ties, none feasible, all feasible, first feasible found late), both inequality directions",
    STABLE + "The reported values are not compared with anything.",
    [GLO, HIS, OPT, OCF, CON],
    [("selection of the optimum", GLO + " / " + HIS + ": findTheGlobalOptimalDesign, findBestDesignIndex"), ("feasibility", OCF + ": checkConstraintFeasibility; " + CON + ": checkFeasibility")])

add("C13", "The evolutionary optimiser returns the best individual it ever evaluated",
    "The evolutionary optimiser returns an individual whose genes lie within the bounds and whose reported value is the objective evaluated at those genes, and no individual that it evaluated, or loaded for a warm start, was better. "
    "Identities of individuals are unique within the population at all times, the population never becomes empty, and the number of evaluations of one optimisation stays within the configured budget (or the initial population, if that is larger) plus one generation.",
    ["inputs", "histories"],
    "all objectives with finite values, bounds, population settings, random streams and sequences of warm-started runs",
    STABLE + "They only use it inside model training and do not look at its result.",
    [EAO, EAP, EAI],
    [("reproduction and identities", EAO + ": generateIndividualByReproduction"), ("tracking of best and worst", EAP + ": updatePopulationMinAndMax"),
     ("selection of deaths", EAP + ": pickUpAnIndividualThatWillDie")])

add("C14", "The initial design of experiments has the requested samples, inside the box",
    "A study started through the API with a design of experiments of n samples evaluates the objective exactly once at each of n designs inside the box and records those n designs with their values, and records the value of each constraint at the same n designs in that constraint's own file, before the first iteration. "
    "With the LHS strategy each of n equal slices of every parameter's range holds exactly one design; designs are not repeated.",
    ["inputs", "configurations"],
    "all boxes, sample counts, numbers of constraints and random streams",
    STABLE + "One of them uses the API with one box and one sample count; it does not look at the samples.",
    [API, VEC, MAT],
    [("sampling", MAT + ": fillRandom, fillRandomLHS"), ("evaluation and recording", API + ": performDoE, performDoEForConstraints")])

add("C15", "The surrogate in use always equals one rebuilt from the training file",
    "After any sequence of adding samples, training and restarting, the predictions of the surrogate model in use equal those of a model built afresh from the training-data file with the same hyper-parameters. "
    "In particular a sample that was added is in the file and in the model, or in neither. In a study this holds for the objective and for each constraint whenever the next design is searched.",
    ["histories", "fault_sequences"],
    "all sequences of add / train / reopen, data sets, model types, and I/O failures during an add",
    STABLE + "None compares a running model with its data file.",
    [KRI, "src/SurrogateModels/linear_regression.cpp", "src/SurrogateModels/surrogate_model.cpp", SMD],
    [("adding a sample", KRI + ": addNewSampleToData, updateModelWithNewData"), ("reading and normalising", SMD + ": readData, normalize")])

add("C16", "An optimiser's warm-start file restores the population, or is rejected",
    "A population written to a warm-start file and read back has the same individuals: same identities, and objective values and genes equal to the precision of the file. "
    "Genes and objective values are written with at least eight significant digits. A file that is missing, cut short inside a row or otherwise incomplete in a row is rejected with an error; a write that the disk could not complete is reported as an error. "
    "Optimising from a loaded population never returns anything worse than its best individual.",
    ["crash_points", "fault_sequences", "histories"],
    "all populations, all points at which the file may be cut, all write failures",
    STABLE + "None writes or reads a warm-start file.",
    [EAP, EAO],
    [("population file", EAP + ": writeToCSV, readFromCSV"), ("warm start", EAO + ": readWarmRestartFile, writeWarmRestartFile")])

add("C17", "Saved hyper-parameters reload unchanged, or are rejected",
    "Hyper-parameters saved by a trained model and loaded by another model on the same data give the same predictions to the precision of the file. "
    "The exponents are restored as well as the length scales. A hyper-parameter file that is missing, empty, unparsable or has the wrong number of entries is never used: loading fails with an error or the model keeps the parameters it had. "
    "A save that the disk could not complete is reported as an error.",
    ["crash_points", "fault_sequences", "inputs"],
    "all trained models, all ways of cutting or damaging the file, all write failures",
    STABLE + "None saves or loads hyper-parameters.",
    [KRI, VEC],
    [("save and load", KRI + ": saveHyperParameters, loadHyperParameters"), ("vector file", VEC + ": saveToCSV, readFromCSV")])

add("C18", "Running out of disk or memory is reported, never swallowed",
    "If the disk is full or a write fails while a study stores a training sample, the history, the optimum report or a design for the evaluator, or a needed file or process cannot be opened or started, or memory runs out, the study ends with an error and a non-zero status instead of continuing as if the data had been stored. "
    "The rows recorded before stay readable and complete: after space is available again the study can be restarted on them.",
    ["fault_sequences", "crash_points"],
    "every write, open, close, process launch and allocation of a study may be the one that fails, fully or partly",
    STABLE + "No test makes an I/O operation fail.",
    [VEC, MAT, KRI, GLO, OBJ, HIS],
    [("training data append", VEC + ": appendToCSV; " + KRI + ": addNewSampleToData"), ("whole-file saves", MAT + ": saveAsCSV"),
     ("optimum report", GLO + ": saveToXMLFile"), ("design hand-over", OBJ + ": writeDesignVariablesToFile")])

add("C19", "The study that runs is the study that was configured",
    "For every valid configuration file the study uses exactly what it says: the dimension, each parameter's bounds and discreteness, the budget, and for the objective and each constraint its own executable, design file, output file and training-data file, and for each constraint its inequality and limit, its kind of model, the numbers of training iterations, of candidates per search and of threads; the columns of the history carry the names of the parameters and constraints. "
    "The order of sections and items, line breaks (also CRLF), indentation and white space do not matter. "
    "A configuration that lacks a required item, has a number that is malformed or out of its range (bounds or limits that are not finite, bounds that are not ordered, counts that are not positive), a section that is not closed, an unknown constraint type or a model type that is not implemented, or contradicts itself is rejected with an error and a non-zero status before any evaluation.",
    ["configurations"],
    "all combinations of settings, orders of sections, numbers of constraints, shared or separate files, letter cases and white space",
    STABLE + "They use four fixed configurations.",
    [DRV, "src/Driver/configkey.cpp", "src/Driver/xml_functions.cpp", OBJ, CON],
    [("reading the configuration", DRV + ": readConfigurationFile"), ("definitions handed on", OBJ + ": setParametersByDefinition; " + CON + ": setConstraintDefinition")])

add("C20", "A study set up through the API runs as set up, or is refused at once",
    "A study set up through the C++ API uses exactly what the calls gave it - dimension, box, objective, constraints with their expressions, training-data files, design of experiments and its strategy, budget, working directory, name - whatever the order of the calls: an order either gives that study or is refused. "
    "A set-up that lacks dimension, objective, box, budget or working directory, or that is given bounds that are not finite or not ordered, a missing function, an empty name, a malformed constraint expression (anything but name, < or >, number), an unknown strategy, no samples for its design of experiments, or a dimension changed after it was used, ends with an error before any function is evaluated and before any file is changed.",
    ["configurations", "histories"],
    "all sequences of set-up calls and their arguments",
    STABLE + "One of them sets up an API study, correctly and in one order.",
    ["src/API/cppAPI.cpp", "src/API/rodeo_api.cpp", OPT],
    [("checks", "src/API/cppAPI.cpp: checkOptimizationSettings, parseExpression, setBoxConstraints"), ("hand-over", "src/API/cppAPI.cpp: setObjectiveFunction, addConstraint, run")])

add("C21", "A study touches only its own files, and is alone in its process",
    "A study creates, changes and removes only its own files: the training-data, design and output files it was given, the history, the optimum report and the logs, in its working directory (each under its name with .tmp appended while it is being written); every other file is left as it was, also when the study fails or dies. "
    "Studies run one after the other in one process (through the API) do not influence each other: each behaves, evaluates and records as if it ran in a process of its own, whatever the earlier ones were and however they ended, in another directory or in the same.",
    ["histories", "fault_sequences", "configurations"],
    "all sequences of studies in a process, all other files in the directory, all failures and crash points",
    STABLE + "Each runs one study in a fresh process and looks at no other file.",
    [OPT, HIS, GLO, OBJ, "src/API/cppAPI.cpp"],
    [("working directory", "src/API/cppAPI.cpp: run, changeDirectory"), ("files", HIS + ": saveOptimizationHistoryFile; " + GLO + ": saveToXMLFile")])

add("C22", "The search weighs each candidate by the models of the data recorded so far",
    "In every iteration the acquisition value of each candidate is the improvement expected below the best feasible objective value recorded so far - predicted by the objective's model, its uncertainty widened by a factor from 1 to 100 that is the same for all candidates of a search - times, for each constraint, the probability its own model gives that its inequality holds (for a built-in constraint: whether it holds). "
    "As long as no feasible design is recorded, candidates are ranked by their feasibility. Restarts, earlier iterations, crashes and other functions' data make no difference.",
    ["histories", "schedules", "fault_sequences"],
    "all histories of samples and restarts, numbers of constraints and threads",
    STABLE + "Acquisition values are not looked at.",
    ["src/Optimizers/optimization.cpp", "src/Optimizers/optimization_constraint_functions.cpp", OBJ, CON, "src/Design/design_bo.cpp"],
    [("expected improvement", OBJ + ": calculateExpectedImprovement; src/Optimizers/optimization.cpp: findTheMostPromisingDesignEGO"), ("constraints", "src/Optimizers/optimization_constraint_functions.cpp: estimateConstraints, calculateFeasibilityProbabilities")])

add("C23", "A test of a surrogate model reports what the trained model predicts, or fails",
    "A test of a surrogate model (SurrogateModelTester) trains the model that was chosen on the training-data file it was given and writes one row per sample of the test file, in their order: the sample, the value the trained model predicts there, if the test file has function values the true value and the squared error, and if asked for the variance. "
    "The generalisation error it prints is the mean of the squared errors, the error on the training samples that of the trained model on the samples it was trained with. "
    "A test file without values, a fraction of samples held out for validation, and earlier tests in the same process with other models, files or settings change nothing else. "
    "Damaged or missing files, values that are not finite, a fraction outside [0,1] and a missing model end with an error, never with a result or an abnormal end; the training and test files are never changed.",
    ["histories", "inputs", "fault_sequences"],
    "all training and test tables, kinds of model, held-out samples (a random draw), sequences of tests on one tester, failing writes and damaged tables",
    STABLE + "None of them runs a model test; the unit tests of this class are not among the reliable ones.",
    ["src/SurrogateModels/surrogate_model_tester.cpp", "src/SurrogateModels/surrogate_model.cpp", SMD, KRI, "src/SurrogateModels/linear_regression.cpp"],
    [("the test", "src/SurrogateModels/surrogate_model_tester.cpp: performSurrogateModelTest"), ("table", "src/SurrogateModels/surrogate_model.cpp: tryOnTestData, saveTestResults"), ("held-out samples", SMD + ": readData, revertBackToFullData")])

# not claimed: pure functions of their input
add("C90", "Linear algebra routines solve and factorise to numerical accuracy",
    "Solving, inverting and factorising well-conditioned systems gives results with residuals near machine precision, and an indefinite matrix is reported instead of solved.",
    ["inputs"], "all well-conditioned matrices", STABLE + "Accuracy is not tested.",
    ["src/LinearAlgebra/linear_solver.cpp", MAT], [("Cholesky solve", "src/LinearAlgebra/linear_solver.cpp")])
add("C91", "Correlation matrices are symmetric positive definite with unit diagonal",
    "For distinct samples and hyper-parameters within bounds, the correlation matrix is symmetric, has unit diagonal up to the regularisation, and is positive definite.",
    ["inputs"], "all sample sets and hyper-parameters", STABLE + "The matrices are not looked at.",
    ["src/CorrelationFunctions/exponential_correlation_function.cpp"], [("correlation matrix", "computeCorrelationMatrix")])
add("C93", "Normalising and denormalising a design are inverse to each other",
    "Mapping a design to normalised coordinates and back returns the design to rounding, for all boxes.",
    ["inputs"], "all boxes and designs", STABLE + "Not looked at.",
    [VEC, "src/Bounds/bounds.cpp"], [("normalisation", VEC + ": normalizeVector, denormalizeVector")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
