"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})

ELM, HP = "hpelm/elm.py", "hpelm/hp_elm.py"
S, SP, H5 = "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py", "hpelm/modules/hdf5_tools.py"
V, CV, LOO = "hpelm/mss_v.py", "hpelm/mss_cv.py", "hpelm/mss_loo.py"
M1, M2 = "hpelm/modules/mrsr.py", "hpelm/modules/mrsr2.py"

p("C01", "Training yields the L2-regularised least-squares optimum",
  "After train(), the output weights are the minimiser of the (class-weighted) squared error over the training rows plus norm times the squared size of the output weights, where the model's own hidden-layer representation is the design matrix, and predict() returns the hidden-layer representation times those weights. This holds for every mix of neuron types (including custom numpy ufuncs), every norm, both in-memory solvers, ELM and HPELM, array or HDF5 data. If neurons are duplicated or there are more neurons than samples the fit is still a least-squares fit: it predicts the training targets as well as the optimum does.",
  ["inputs", "configurations"], "all neuron mixes, norms, solvers, model classes, sample counts (also fewer samples than neurons), duplicated neurons, target kinds",
  "Existing tests check a few error thresholds on datasets and one or two hand-made fits; a wrong normal equation on a rare path (singular matrix fallback, weighting, custom neurons, first batch) passes them.",
  [ELM, HP, S, SP], [("add_batch accumulates H'H + norm*I and H'T", S), ("Cholesky with least-squares fallback", SP)],
  [("HH, HT", "accumulated covariance/correlation matrices", S), ("B", "output weights", S)], ["train()", "predict()", "project()"])

p("C02", "The batch size never changes any result",
  "For any data and any positive batch size (given at construction, as a train() argument or set on the model; smaller than, equal to, dividing or not dividing the number of rows, or larger than it), train, predict, project, error and confusion return the same values, up to rounding, as with all the data in one batch. This holds for regression and every classification mode, for ELM and HPELM, for arrays and HDF5 files.",
  ["inputs", "configurations"], "all (row count, batch size) pairs up to a bound, every mode, class, data source and operation",
  "Tests use one or two batch sizes and only check that a call runs or a sum is positive; dropping or doubling the rows of a last, partial or single-row batch is not noticed.",
  [ELM, HP], [("np.array_split batches", ELM), ("start/stop batch loops", HP)], [("batch", "rows per batch", ELM)], ["train()", "predict()", "project()", "error()", "confusion()"])

p("C03", "A model depends only on its neurons and the data since its last reset",
  "After any sequence of adding neurons, adding data, resetting, solving, training, predicting, changing the batch size and saving/loading, a solve or train gives exactly the model of a fresh object with the same neurons that saw the same data since the last reset (train() and adding neurons discard earlier data, add_data() accumulates in any order and any split). A model whose neurons changed since its last solution refuses to predict instead of using the stale solution; a reset alone keeps the solution usable.",
  ["histories"], "all operation sequences up to a depth from an alphabet of about ten operations, deduplicated on the full object state",
  "Each test performs one short fixed sequence from a fresh object; leftovers of an earlier training (matrices, class weights, ranking, solution) only show in particular sequences.",
  [ELM, HP, S, SP], [("reset() and B=None on neuron changes", S), ("_train_parse_args resets", ELM)],
  [("HH/HT/B/L", "training state", S), ("classification, wc, ranking, kmax_op", "training parameters", ELM)], ["add_data()", "train()", "predict()", "nnet.solve()", "nnet.reset()"])

p("C04", "Partial matrices on disk add up to the full training",
  "Splitting a dataset into row ranges and feeding each range to add_data or add_data_async with the same pair of matrix files, in any order, with any batch sizes, from one model object or from several copies loaded from the same saved model, leaves in the files exactly norm*I plus the full H'H, and the full H'T; solve_corr then gives the same model as one train() on all the rows. The files are created if absent, regularisation is counted exactly once, both files stay symmetric/complete, and a range added twice counts twice.",
  ["histories", "inputs"], "all ordered partitions of small datasets into ranges x batch sizes x sync/async x one/many/loaded models x existing or absent files",
  "The single parallel test splits once in two and checks an error below 1, far above what losing a range or adding the norm twice would cause.",
  [HP, H5, S, SP], [("norm subtracted before merging", HP), ("_prepare_fHH/_write_fHH", H5), ("get_corr symmetrises", SP)],
  [("fHH, fHT", "matrix files", H5)], ["add_data(fHH, fHT)", "solve_corr()"])

p("C05", "Parallel workers on the same matrix files lose nothing, in any interleaving",
  "When several processes call add_data at the same time with the same pair of matrix files, whether or not the files exist yet, then in every interleaving every call succeeds and the files end up with norm*I plus the contribution of every worker exactly once. No interleaving deadlocks.",
  ["schedules"], "all interleavings (preemption-bounded) of 2-3 real worker processes at file, lock and matrix I/O operations",
  "No test runs two workers concurrently; the losing schedules need one worker to finish inside another's check-then-create or read-modify-write window.",
  [HP, H5], [("inter-process lock files around create and read-modify-write", H5)], [("fHH, fHT, *.lock", "shared files", H5)], ["files after all workers exit", "worker exit status"])

p("C06", "Asynchronous training and prediction equal the synchronous ones and terminate",
  "For every interleaving of the main process, the reader and writer processes and the queue transport between them, train_async and add_data_async produce the same matrices and model, and predict_async has written the same complete output file when it returns, as train, add_data and predict; for every batch size and row range. Every interleaving terminates: no deadlock, and no helper process is left running or waiting.",
  ["schedules", "inputs"], "all reachable states of main/reader/writer/queue-feeder actors for 0-4 batches, every row range of small data",
  "Tests call the async methods once with a single batch and do not compare the result; OS scheduling exposes one interleaving.",
  [HP, H5], [("prefetch protocol over bounded queues; empty range / None terminate", HP), ("_ireader/_iwriter", H5)],
  [("qX_in/qX_out/qw_in", "queues", HP)], ["model after train_async", "output file at return", "helper processes at return"])

p("C07", "Row ranges select exactly the requested rows",
  "With istart and icount, HPELM train/add_data use, and predict/project/error process, exactly rows istart .. min(istart+icount, N)-1: results equal those of running the whole operation on just those rows. predict and project return or fill exactly one output row per selected row, in order, whether the target is a new array, a caller's array or an HDF5 file, and never write anything else.",
  ["inputs"], "all (N, istart, icount, batch) up to a bound x operation x input source x output target",
  "Tests only check that istart/icount change something, or that a call with a range runs; off-by-one rows at a range or batch boundary go unseen.",
  [HP], [("start/stop arithmetic of the batch loops", HP)], [], ["predict()", "project()", "train()", "add_data()", "error()"])

p("C08", "error() computes exactly the documented error",
  "error(T, Y) is the mean squared error for regression, the share of rows whose largest output is not the largest target for classification, the share of wrong labels (threshold 0.5) for multi-label, and the class-weight-averaged per-class misclassification rate for weighted classification, where a class without samples contributes zero. ELM and HPELM agree for arrays and HDF5 files, 1-d or 2-d, and the result is always a finite number.",
  ["inputs", "configurations"], "all small target/prediction matrices over a value alphabet with ties and thresholds x mode x class weights x class x source",
  "Tests evaluate one matrix per mode; ties, absent classes, values exactly at 0.5, integer or 1-d inputs are not reached.",
  [ELM, HP], [("_error", ELM), ("batched _error", HP)], [("classification, wc", "mode and weights", ELM)], ["error()"])

p("C09", "confusion() counts every sample exactly once",
  "In (weighted) classification, entry (i,j) of the confusion matrix is the number of rows whose largest target is class i and whose largest output is class j, so entries sum to the number of rows; in multi-label mode it is the number of rows where label i is true and label j is predicted. This holds for any batch size, ELM and HPELM, arrays and HDF5 files, and for regression models the call is refused.",
  ["inputs", "configurations"], "all small target/prediction matrices x mode x batch size x class x source",
  "Tests check one 4-row matrix and that sums are positive.",
  [ELM], [("confusion batch loop", ELM)], [], ["confusion()"])

p("C10", "Saving and loading preserves the model",
  "A model saved to a file or to bytes and loaded into any other model object (any class ELM/HPELM, solver, precision, dimensions, whether empty, with neurons or already trained) has the same inputs, outputs, neurons in the same order, output weights, norm, classification mode and class weights, and replaces whatever the object held before. It keeps the loading object's solver, precision and batch size, predicts and projects the same values, and continues to train exactly like the original given the same training options; saving does not change the saved model.",
  ["histories", "configurations"], "all reachable model states (empty, untrained, trained, pruned, loaded, retrained) x file/bytes x target object kinds, chained",
  "One test saves one trained model into one fresh object and compares fields; loading over a used object, other solvers, chains and further training are not covered.",
  [ELM, HP, S], [("dictionary format and restore", ELM)], [], ["save()/dumps()", "load()/loads()", "predict()", "train()"])

p("C11", "Model structure selection returns a correctly trained best-sized sub-network",
  "After train() with V, CV or LOO, the model consists of a subset of its original neurons, unchanged (at most kmax of them with OP), and its output weights are those of training exactly that sub-network on all the training rows with the same mode and class weights. The size chosen has the lowest validation / cross-validation / leave-one-out error - plus a penalty growing linearly with size to 1% of the full network's error - among the sizes examined, which include at least the smallest, the largest allowed and the ones at quarter points (leave-one-out errors of classification count a wrong sample by its squared PRESS factor). CV returns the mean error of that chosen size on the k test folds.",
  ["inputs", "configurations"], "all neuron counts up to a bound, selection methods, OP/kmax, modes, weights, every order the random ranking can give for small networks",
  "Tests only look at final accuracy thresholds or that more than one neuron survived; wrong retraining, wrong subset or a wrong reported error pass them.",
  [V, CV, LOO, ELM, S], [("ranking + interval halving + prune + retrain", V), ("_prune", S)],
  [("ranking, kmax_op", "selection parameters", ELM)], ["train(..., 'V'/'CV'/'LOO')", "nnet.get_neurons()", "predict()"])

p("C12", "Optimal pruning ranks every neuron once, most relevant first",
  "The multi-response sparse regression rankings return distinct valid regressor indices, as many as asked for (up to the number of regressors), with the regressor most correlated with the targets first. For a smaller limit they return the same leading indices, for orthogonal regressors they order by correlation with the targets, in general each next regressor is the one whose remaining correlation first equals that of the chosen ones as the fit moves to their least squares solution, and they do so for any number of targets, one regressor, duplicated regressors and limits above the number of regressors.",
  ["inputs"], "all small regressor/target matrices over a value alphabet x limits x both algorithms x target counts on both sides of the switch",
  "Tests run one random matrix per algorithm and do not look at the ranking.",
  [M1, M2, ELM], [("mrsr", M1), ("mrsr2", M2), ("switch at 10 outputs", ELM)], [], ["modules.mrsr()", "modules.mrsr2()", "train(..., 'OP')"])

p("C13", "The network keeps exactly the neurons it was given, in order",
  "Adding neurons in any sequence of types keeps every given weight and bias: the hidden representation has one column per neuron, grouped by type in order of first use and by insertion order within a type, each equal to what that neuron gives alone. Keeping a subset of neurons keeps exactly the selected columns and nothing else, for every subset and several neuron types, also when a type loses all its neurons and when neurons are added again later.",
  ["histories", "inputs"], "all sequences of add operations over several types up to a depth, all subsets and orders of selected neurons, followed by further additions",
  "Tests add at most two groups and never prune a multi-type network by a chosen index set.",
  [S, ELM], [("merge of neuron types", S), ("_prune index arithmetic", S)], [("neurons, L", "neuron list and count", S)], ["add_neurons()", "project()", "nnet.get_neurons()"])

p("C14", "validation_corr reports true validation errors and keeps the best size",
  "validation_corr returns increasing distinct network sizes not above the number of neurons (exactly those asked for if given as a vector, otherwise from 3 or the network size to the network size), and for each the error of the network of the first so many neurons solved from the stored matrices, evaluated on the whole validation set, with its confusion matrix for classification. The model becomes the smallest-error one of these with matching weights; results do not depend on the batch size.",
  ["inputs", "configurations"], "all network sizes up to a bound x steps (count or vector) x modes x batch sizes x validation rows",
  "Tests run it twice and compare the first and last error or a positive sum.",
  [HP, ELM, S], [("validation_corr", HP)], [], ["validation_corr()", "predict() afterwards"])

p("C15", "make_hdf5 stores exactly the given data",
  "Whatever the source - array of 1 or 2 dimensions, .npy, .txt/.csv with any delimiter and skipped header rows, compressed text, or a shape (zeros) - the resulting HDF5 file holds one 2-dimensional array with exactly those values in the requested dtype, for any compression level, replacing any previous file. The file is closed and immediately usable by HPELM.",
  ["inputs", "configurations"], "all sources x shapes x dtypes x delimiters x skiprows x compression levels x existing/absent target",
  "Tests only convert arrays with default options; text input is never exercised.",
  [H5], [("make_hdf5", H5)], [], ["file contents"])

p("C16", "normalize_hdf5 standardises data exactly once",
  "Normalising a file without given parameters replaces each column by (x-mean)/std computed over all its rows (constant columns become zeros) and returns the mean and standard deviation; calling it again leaves the data unchanged and returns the same parameters. With given mean and std it applies exactly these, leaves the caller's vectors unmodified, and the result never depends on the reading batch size.",
  ["inputs", "histories"], "all small matrices incl. constant columns x batch sizes x call sequences (fresh, again, with given parameters)",
  "There is no test of normalize_hdf5 at all.",
  [H5], [("normalize_hdf5", H5)], [("node attributes mean/std", "marker of a normalised file", H5)], ["file contents", "returned values"])

p("C17", "Invalid input is rejected and changes nothing",
  "Data with the wrong number of columns or more than two dimensions, different numbers of input and target rows, non-numeric data, unusable files, neurons of an unknown type or with weights or biases of a wrong shape, weight vectors of a wrong length, contradictory selection or classification options, missing validation data and matrix files of a wrong shape raise an error. The failed call of a model leaves neurons, solution and predictions, and any existing files, as they were, and keeps no file open.",
  ["inputs", "histories"], "an exhaustive catalogue of malformed arguments per API entry point, applied in every lifecycle state",
  "Tests try some malformed inputs on a fresh model and never look at the model afterwards.",
  [ELM, HP, S, H5], [("_checkdata", ELM), ("_checkcorr", HP), ("_prepare_fHH shape checks", H5)], [], ["exceptions", "predict() after the failure"])

p("C18", "Caller data is never modified and models share nothing",
  "No operation modifies arrays or files passed to it as input (data, targets, validation data, neuron weights and biases, class weights, normalisation vectors). Changing such arrays or returned predictions and hidden representations afterwards does not change a model, results returned before do not change by later calls, and nothing done to one model object changes the results of another.",
  ["histories", "inputs"], "every API operation x input dtype/memory layout/dimensionality, every pair of operations interleaved on two models",
  "Tests never look at their inputs after a call, and never interleave two models.",
  [ELM, HP, S, SP, V, CV, LOO], [("astype/np.array copies", S)], [], ["input arrays/files after each call", "predictions of the other model"])

p("C19", "HPELM never reads more than one batch of rows at once",
  "While training on, predicting from, projecting, validating on, or computing errors and confusion matrices of HDF5 files, HPELM (synchronous and asynchronous) never reads or writes more than `batch` rows of the data files in one access, touches no row outside the requested range, and reads each needed row a bounded number of times, so memory use does not grow with the number of rows.",
  ["inputs", "configurations"], "all (N, range, batch) up to a bound x every streaming operation, monitoring every file access",
  "No test observes data access; reading a whole file at once gives the same numbers on test-sized data.",
  [HP, H5, ELM], [("batch loops over HDF5 nodes", HP)], [], ["rows of each read/write of the data files"])

p("C20", "Operations on files compose in any order and see fresh contents",
  "Any sequence of training, predicting, projecting, error and confusion calls and rewriting files with make_hdf5, over the same HDF5 files and from several models in one process, works: an operation that finished holds no file open, so its files can be rewritten, and every operation reads the current contents and gives the result of the same operation on in-memory arrays.",
  ["histories"], "all operation sequences up to a depth over three shared files and two models",
  "Tests use every file once; the failure needs a file that was read earlier to be written again.",
  [ELM, HP, H5], [("file handles opened by _checkdata", ELM)], [("opened_hdf5", "open file handles", ELM)], ["exceptions", "results", "open files after each call"])

p("C21", "An interrupted part leaves no trace and blocks nobody",
  "If add_data to matrix files fails or its process is killed while its part of the data is being read or processed, the matrix files stay as they were (or, if absent, at most freshly initialised), no lock stays held, other workers proceed, and adding the part again gives the exact total. A process that dies or gets a read error at any such point can simply be restarted.",
  ["fault_sequences", "crash_points"], "every data access and processing step of add_data x {exception, SIGKILL} x first/later part x files absent/present, followed by recovery",
  "No test interrupts anything.",
  [HP, H5], [("results are merged into the files only at the end, under locks", HP)], [], ["matrix files after the fault", "a second worker", "the restarted part"])

p("C22", "Class weights act exactly as sample weights",
  "In weighted classification each training row counts with the weight of its class: integer weights give the same model as repeating the rows of each class that many times, equal weights the same as unweighted up to a common factor against the norm. Without given weights, each class gets (number of samples)/(samples of that class), over exactly the rows used for training (finite also for a class without samples); given weights are used as they are, for ELM and HPELM, synchronous and asynchronous, with and without model structure selection.",
  ["inputs", "configurations"], "all small label sequences x integer weight vectors x batch sizes x model classes x methods",
  "Tests only check that weighted training runs and that the heavier class wins in one example.",
  [ELM, HP, S, V, CV, LOO], [("wc vector from targets", ELM), ("sqrt weights on H and T", S)], [("wc", "class weights", ELM)], ["train('wc')", "predict()"])

p("C23", "Neurons compute their documented function, sample by sample",
  "With a = x.W + b, project() gives a for 'lin', 1/(1+exp(a)) for 'sigm', tanh(a) for 'tanh' and f(a) for a custom ufunc f; radial basis neurons give exp(-d^2/b) with d the city-block, Euclidean or Chebyshev distance to the centroid in the neuron's column of W. Every output row depends only on its own input row, so projecting or predicting any subset or order of rows gives the same rows, and 1-d input of a one-input model counts as one column.",
  ["inputs"], "all neuron types x input/neuron counts x input values from an alphabet x row subsets/orders x dtypes",
  "Only tanh with one neuron is compared to its formula.",
  [S, ELM], [("transformation functions", S)], [], ["project()", "predict()"])

p("C24", "Solvers and precisions are interchangeable",
  "The default solver, the basic solver and a loaded model, each in double or single precision and however the precision or solver name is spelled, give the same models, predictions and matrices up to the precision used; stored matrices can be read back, set and extended with more data in any of them. Matrices and output weights have the precision requested.",
  ["configurations", "histories"], "all pairs of solver/precision configurations x neuron mixes x sequences of add batch / get / set matrices / solve",
  "Tests check the precision attribute only; 'basic' is never run.",
  [ELM, S, SP], [("SLFN interface contract: same output as the basic solver", S)], [("HH triangle convention", "upper triangle only in the fast solver", SP)], ["train()", "nnet.get_corr()/set_corr()/solve()"])

p("C25", "Suggested RBF parameters come from the data",
  "rbf_param returns centroids that are rows of the data and strictly positive widths on the scale of the distances between rows in the requested metric (squared for l2; never more than 1.25 times the greatest one), one per requested neuron, of shapes directly usable for adding that many radial basis neurons, whatever random choices are made and whether the data is an array or an HDF5 file; it terminates on any data of at least two distinct rows.",
  ["inputs"], "all outcomes of the random choices for small data x distance kinds x sources",
  "No test calls it.",
  ["hpelm/modules/rbf_param.py"], [("rbf_param", "hpelm/modules/rbf_param.py")], [], ["modules.rbf_param()"])

p("C26", "The GPU solver computes the same models as the CPU solvers",
  "A model with the GPU solver gives the same matrices, output weights, projections and predictions as the basic solver, up to precision.",
  ["configurations"], "all neuron mixes, precisions and operation sequences on a CUDA device",
  "The GPU solver is not exercised by any test.",
  ["hpelm/nnets/slfn_skcuda.py"], [("SLFNSkCUDA", "hpelm/nnets/slfn_skcuda.py")], [], ["train()", "predict()"])

p("C27", "An operation that fails or is interrupted can simply be repeated",
  "If training, prediction, projection, an error or confusion matrix, solve_corr, validation_corr, make_hdf5 or rbf_param fails with a read or write error or lack of memory, or is interrupted, at any file access or matrix product, then the error reaches the caller, no file stays open, and repeating the call with the same model and files gives the same outcome as an undisturbed call. Operations that do not train leave the model as it was. (Model structure selection: faults at file accesses. Not for add_data in memory, asynchronous methods and normalize_hdf5, of which only error and open files are claimed.)",
  ["fault_sequences"], "every file access and matrix product of every operation x {I/O error, KeyboardInterrupt, MemoryError}, singly and in pairs, followed by a repetition",
  "No test makes a file access fail; every one succeeds there.",
  [ELM, HP, H5, S, SP, "hpelm/modules/rbf_param.py"], [("closing_hdf5", ELM), ("nnet.reset at the start of training", ELM), ("results assigned after the last read", HP)], [("opened_hdf5", "open file handles", ELM)], ["exceptions", "open files", "results of the repeated call"])

p("C28", "A failed asynchronous method reports the failure and never waits forever",
  "If reading a data file, writing the output file or computing fails at any point of train_async, add_data_async or predict_async, in the main process or in one of its reader and writer processes, then for every interleaving of these processes the method ends and raises an exception (or returns only with the complete result); no helper process is left, and the call can be repeated with the same model (a repeated training or part counts its data once). (Not for errors while a part is merged into the matrix files, and not for helpers killed from outside.)",
  ["fault_sequences", "interleavings"], "every file access and matrix product of every process x kinds of errors x all interleavings of small runs; damaged chunks of real files with real processes",
  "Every file access succeeds in the tests, and only a few of the possible schedules occur.",
  [HP, H5], [("errors of readers sent to the main process", H5), ("helpers stopped at the end", HP)], [("helpers", "running reader and writer processes", HP)], ["exceptions", "end of the call", "helper processes", "results of the repeated call"])

p("C29", "Neurons added without weights follow the documented defaults",
  "add_neurons without W or B generates exactly the missing part: linear neurons copy the first inputs (at most as many as there are inputs) without bias; other weights are random and different for every neuron and input, with a spread of projections that does not depend on the number of inputs (3/sqrt(inputs) per weight, 1 for centroids); widths of radial basis neurons are positive, so their outputs stay within [0, 1]. A given W or B and all previous neurons are kept, the same numpy seed gives the same neurons in every model class, and the model equals one with those neurons given explicitly.",
  ["inputs", "configurations"], "all neuron types x numbers of inputs and neurons x given parts x previous neurons x seeds; all sequences of additions",
  "Tests check the shapes for a few types only.",
  [ELM, S], [("default neuron initializer", ELM)], [], ["add_neurons()", "nnet.get_neurons()", "project()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
