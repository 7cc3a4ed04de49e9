"""Writes properties.jsonl and MANIFEST.json:  python3 catalog.py"""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ALG = "src/modopt/opt/algorithms/"
PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, level="model_checking"):
    PROPS.append(dict(
        public=dict(id=pid, title=title, statement=statement,
                    quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])),
        check=dict(property=pid, quick_cmd=f"python3 run.py {pid}",
                   thorough_cmd=f"python3 run.py {pid} --tier thorough",
                   technique=technique, level=level, level_note=note)))


LOCK = ("explicit-state exploration of the real code in lock step with a reference state machine: every execution "
        "within the bounds is enumerated, every intermediate state compared")
ADV = ("Operators are adversaries: every word of answers over a small alphabet is enumerated up to the stated depth, so "
       "all executions of the solver over that alphabet are covered; longer concrete runs over shapes and types add "
       "depth. Trusted: the hand-written reference recurrence, NumPy arithmetic; rounding differences are tolerated.")

prop("C01", "ForwardBackward/FISTA iterates obey the published recurrence",
     "Whatever the operators answer, the primal and auxiliary iterates of the forward-backward solver are those of the "
     "(accelerated) forward-backward recurrence with the configured step size, relaxation, parameter updates and FISTA "
     "variant (including the restart and greedy options). The same iterates result however a run is split into "
     "consecutive calls of iterate, and the final value handed out is the last extrapolated iterate.",
     ["histories", "configurations", "inputs"],
     "all sequences of operator answers over the alphabet up to the depth, all solver options, all splits of a run",
     "tests run one identity problem per option and look only at the end point, where a wrong momentum, restart or step "
     "cannot be told from a right one",
     [ALG + "forward_backward.py", ALG + "base.py"],
     [("FISTA parameter machine", ALG + "forward_backward.py:FISTA"), ("update step", ALG + "forward_backward.py:ForwardBackward._update")],
     LOCK, ADV)
prop("C02", "Generalised forward-backward iterates obey the published recurrence",
     "Whatever the operators answer, the generalised forward-backward solver updates every auxiliary variable with its "
     "own proximity operator, weight and step factor and the iterate is the weighted sum of the auxiliaries, with the "
     "configured step, relaxation and updates. Default weights are equal; results do not depend on how the run is split.",
     ["histories", "configurations", "inputs"],
     "all operator answers over the alphabet, 1 to 3 proximity operators, all listed weight vectors, updates and splits",
     "tests use proximity operators that all do the same thing, so swapped or mis-scaled members are invisible",
     [ALG + "forward_backward.py"], [("update step", ALG + "forward_backward.py:GenForwardBackward._update")], LOCK, ADV)
prop("C03", "POGM iterates obey the published algorithm",
     "Whatever the operators answer, the four state sequences (and the step parameters) of the proximal optimised "
     "gradient solver are those of Kim and Fessler's algorithm 3 with gradient restart and sigma-bar damping. Splitting a run into "
     "several iterate calls changes nothing, and the starting arrays and the operators' arrays are left untouched.",
     ["histories", "configurations", "inputs"], "all operator answers over the alphabet, all listed options and splits",
     "tests use an identity gradient where most of the update terms vanish",
     [ALG + "forward_backward.py"], [("update step", ALG + "forward_backward.py:POGM._update")], LOCK, ADV)
prop("C04", "Condat primal-dual iterates obey algorithm 3.1",
     "Whatever the operators answer, the primal and dual iterates of the Condat solver are those of algorithm 3.1 with "
     "the configured rho, sigma, tau and their updates, through the linear operator and its adjoint. Splitting a run "
     "into several iterate calls changes nothing.",
     ["histories", "configurations", "inputs"], "all operator answers over the alphabet, square and rectangular linear operators, all listed options and splits",
     "tests use an identity linear operator and identity-like proximity operators",
     [ALG + "primal_dual.py"], [("update step", ALG + "primal_dual.py:Condat._update")], LOCK, ADV)
prop("C05", "The gradient descent family obeys its documented updates",
     "Whatever the gradient and proximity operators answer, the vanilla, AdaGrad, RMSProp, momentum, Adam and SAGA "
     "solvers produce the iterates, directions and step normalisations of their documented update rules, including the "
     "step-size schedule, the epoch length and the bias corrections, for any split of the run into calls.",
     ["histories", "configurations", "inputs"], "all operator answers over the alphabet, six solvers, listed parameters, epochs 1-3, all splits",
     "tests only look whether a loose end value is reached",
     [ALG + "gradient_descent.py"], [("update rules", ALG + "gradient_descent.py"), ], LOCK, ADV)
prop("C06", "ADMM and fast ADMM obey Goldstein's algorithms 1 and 8",
     "Whatever the two sub-problem solvers answer, plain and fast ADMM hand them the right starting points and "
     "produce the primal, split and multiplier sequences of algorithms 1 and 8 (with restart), for any split of the "
     "run. The ADMM cost is the sum of its parts plus tau times the squared norm of the constraint violation, on schedule.",
     ["histories", "configurations", "inputs"], "all sub-problem answers over the alphabet, rectangular operators, tau/eta/alpha values, cost intervals, splits",
     "one test problem with identity operators; the fast variant's momentum and restart are not looked at",
     [ALG + "admm.py"], [("update steps", ALG + "admm.py:ADMM._update, FastADMM._update"), ("cost", ALG + "admm.py:ADMMcostObj")],
     LOCK, ADV + " Known finding: the observation handed to the sub-problem solvers holds the previous first variable where the multiplier belongs.")
prop("C07", "Solvers stop exactly when told to",
     "A run performs exactly the requested number of iterations unless the cost object or an early-stopping metric "
     "reports convergence, in which case it stops after that iteration; automatic runs happen at construction with the "
     "documented defaults, and Condat runs one extra round per reweighting. Every iteration is counted once, the cost is "
     "evaluated once per iteration on the iterates just computed, and outputs are set after every run.",
     ["histories", "configurations"], "all convergence answer words, all metric histories over the alphabet, all budgets and plans listed, every solver",
     "tests never make a cost or metric converge in the middle of a run",
     [ALG + "base.py", ALG + "forward_backward.py", ALG + "primal_dual.py", ALG + "gradient_descent.py", ALG + "admm.py"],
     [("run loop", ALG + "base.py:SetUp._run_alg, _iterations"), ("flags", ALG + "base.py:any_convergence_flag")], LOCK,
     "All words of convergence answers up to the depth; every solver class. Trusted: the run-length model.")
prop("C08", "Metrics are evaluated on schedule and reported completely",
     "For every solver, a user metric is evaluated on the first and then every metric_call_period-th iteration and on "
     "the last iteration of a run, on the variables of that very iteration, and all values, iteration indices and times are available in "
     "the metrics result after the run, in order and without loss over repeated runs.",
     ["histories", "configurations"], "all periods, budgets, splits and convergence points within the bounds, every solver",
     "tests only construct solvers with metrics; the recorded values are not compared with the iterates",
     [ALG + "base.py", "src/modopt/base/observable.py"], [("schedule", ALG + "base.py:SetUp._iterations"), ("report", ALG + "base.py:retrieve_outputs")],
     LOCK, "Every combination of period, plan and stopping point within the bounds. Trusted: schedule model.")
prop("C09", "Cost objects: total, schedule and windowed convergence test",
     "A cost object returns the sum of its operators' costs, evaluates only on multiples of the cost interval, records "
     "every evaluated value in order, and after each further test_range values reports convergence exactly when the "
     "relative change between the means of their two halves is within the tolerance, and at no other time. Its plot, when "
     "asked for, shows the base-10 logarithm of exactly the recorded values in the file named.",
     ["histories", "configurations"], "all cost histories over the alphabet up to the depth, all intervals, windows and tolerances listed",
     "tests feed one constant cost sequence",
     ["src/modopt/opt/cost.py"], [("windowed test", "src/modopt/opt/cost.py:CostParent._check_cost"), ("schedule", "src/modopt/opt/cost.py:CostParent.get_cost"), ("plot", "src/modopt/plot/cost_plot.py:plotCost")],
     LOCK, "All histories over the alphabet; ties with the tolerance that are decided by rounding are left out.")
prop("C10", "Observers are registered, notified and removed exactly once",
     "For every sequence of add, remove and notify operations, observers of an allowed signal are notified exactly "
     "once each per notification in registration order with the given arguments, also when observers fail, remove "
     "themselves or others, or notify again; unknown signals are refused. A metric observer keeps every value with "
     "its iteration index and raises its flag exactly when the relative spread of the last windows is below the threshold.",
     ["histories", "schedules"], "all operation sequences up to the depth over re-entrant and failing observers; all metric histories over the alphabet",
     "tests register one observer and notify once",
     ["src/modopt/base/observable.py"], [("notification", "src/modopt/base/observable.py:Observable.notify_observers"), ("flag", "src/modopt/base/observable.py:MetricObserver.is_converge")],
     LOCK, "All operation words up to depth; observers that add late joiners during a notification are outside the bounds.")
prop("C11", "Solvers leave inputs and operators alone and do not share state",
     "No solver modifies the arrays it was constructed with or arrays owned by its operators, even when operators "
     "return the array they were given or one they keep; results are the same as with copying operators. Changing a "
     "result in place changes none of those arrays, and reusing the arrays of the starting values does not change the "
     "run. Two "
     "solvers run in any interleaving of their iterations give the results they give alone.",
     ["histories", "schedules"], "every solver with every aliasing behaviour; all interleavings of two runs of n iterations",
     "tests use fresh arrays and look only at results",
     [ALG + "base.py", ALG + "forward_backward.py", ALG + "primal_dual.py", ALG + "gradient_descent.py", ALG + "admm.py"],
     [("copies", ALG + "base.py:SetUp.copy_data")],
     "exhaustive interleaving exploration of real solver steps, all aliasing patterns, compared with isolated runs",
     "All interleavings at iteration granularity and all listed aliasing operators.")
prop("C12", "Separable proximity operators return the minimiser",
     "The identity, positivity, sparse threshold (soft and hard), ridge, elastic net and group lasso proximity "
     "operators return, for every input and extra factor, the minimiser of their penalty plus half the squared "
     "distance; compositions with orthogonal linear operators and combinations act member by member. Inputs are not modified "
     "and results of earlier calls stay valid.",
     ["inputs", "configurations", "histories"], "all small vectors over a grid, shapes 1-D to 4-D, layouts, dtypes, weights, extra factors",
     "tests check two fixed arrays",
     ["src/modopt/opt/proximity.py", "src/modopt/signal/noise.py", "src/modopt/signal/positivity.py"],
     [("operators", "src/modopt/opt/proximity.py")],
     "exhaustive enumeration of a bounded input space against closed-form minimisers and competitor points",
     "All grid vectors up to length 4 and all listed shapes/layouts/types. Trusted: the closed forms.")
prop("C13", "OWL and k-support proximity operators are exact",
     "The ordered weighted l1 and the k-support proximity operators return the minimiser of their penalty for every "
     "input, weight sequence, k, beta and extra factor, including ties, zeros and negative entries, on one and the "
     "same instance called repeatedly.",
     ["inputs", "configurations", "histories"], "all small vectors over the grid, all listed weights, k, beta and factors",
     "tests check one array per operator, ordered and without ties",
     ["src/modopt/opt/proximity.py"], [("isotonic step", "src/modopt/opt/proximity.py:OrderedWeightedL1Norm"), ("theta search", "src/modopt/opt/proximity.py:KSupportNorm")],
     "exhaustive enumeration of a bounded input space against brute-force minimisers",
     "Oracles: enumeration of all block partitions (OWL) and optimality conditions (k-support).")
prop("C14", "Low-rank proximity operator is exact for every history of calls",
     "The low-rank operator returns the (soft or hard) singular value thresholding of its input for every sequence of "
     "calls, rank hints and extra factors: the adaptive rank estimate kept between calls never changes the result.",
     ["histories", "inputs"], "all sequences of ranks and factors up to the depth, all initial ranks, shapes and types listed",
     "tests call the operator once per configuration",
     ["src/modopt/opt/proximity.py", "src/modopt/signal/svd.py"], [("adaptive rank", "src/modopt/signal/svd.py:svd_thresh_coef_fast"), ("operator", "src/modopt/opt/proximity.py:LowRankMatrix")],
     LOCK, "All histories of true ranks and hints up to the depth. Trusted: dense SVD of NumPy; ties of hard thresholds left out.")
prop("C15", "Cost methods of the proximity operators return the penalty",
     "The cost method of every proximity operator returns the value of the penalty its operator minimises (zero for "
     "constraints), for every input and extra arguments, and sums over the members of combinations.",
     ["inputs", "configurations"], "all small vectors over the grid, all operators, weights and verbosity",
     "tests check one value per operator",
     ["src/modopt/opt/proximity.py"], [("cost methods", "src/modopt/opt/proximity.py:_cost_method")],
     "exhaustive enumeration of a bounded input space against the penalty formulas",
     "Known findings: order of the weights in the OWL cost, factor one half in the k-support cost.")
prop("C16", "Linear operators are linear and their adjoints are adjoint",
     "Matrix, identity, wavelet-convolution and combined linear operators compute the operator they stand for, are "
     "linear, and satisfy <A x, y> = <x, A* y> for every input; combinations return one part per operator and their "
     "adjoint the weighted sum (without weights: the mean) of the members' adjoints.",
     ["inputs", "configurations"], "all small matrices over the grid and their basis vectors, shapes, dtypes, layouts, weights",
     "tests check single images",
     ["src/modopt/opt/linear/base.py"], [("operators", "src/modopt/opt/linear/base.py")],
     "exhaustive enumeration of a bounded input space (all basis vectors) against dense matrices",
     "Adjointness is decided on complete bases, hence for all inputs of the enumerated sizes. Odd filters only.")
prop("C17", "The wavelet transform is PyWavelets' and is inverted exactly",
     "The wavelet operator returns the PyWavelets decomposition for every wavelet, mode, level, shape and type, its "
     "adjoint reconstructs exactly the data of the declared shape, and batches give the same as single images, with "
     "any number of jobs and any interleaving of the batch elements, whatever was transformed before. The PyTorch "
     "transform gives the same sub-bands, and the CuPy one the PyTorch coefficients in one vector.",
     ["inputs", "configurations", "histories", "schedules"], "wavelets, modes, levels, shapes, batches, all call sequences to the depth, all thread schedules up to the preemption bound",
     "tests use one wavelet and one shape, single-threaded",
     ["src/modopt/opt/linear/wavelet.py"], [("flattening", "src/modopt/opt/linear/wavelet.py:CPUWaveletTransform"), ("batches", "src/modopt/opt/linear/wavelet.py:CPUWaveletTransform.op")],
     "stateless model checking of batch threads under a controlled scheduler (preemption-bounded, complete) plus exhaustive input/history enumeration",
     "Schedules at source-line granularity in ModOpt's code; PyWavelets is the trusted reference.")
prop("C18", "Gradient operators: value, gradient, observed data and types",
     "The basic gradient operator computes the adjoint applied to (A x - y), its cost is half the squared distance, "
     "also after the observed data or the operators are replaced; observed data is converted and protected as "
     "requested and caller data is not modified.",
     ["inputs", "histories", "configurations"], "all small problems over the grid, all histories of replacing data and evaluating, shapes, types",
     "tests check one array",
     ["src/modopt/opt/gradient.py"], [("gradient", "src/modopt/opt/gradient.py:GradBasic"), ("data", "src/modopt/opt/gradient.py:GradParent.obs_data")],
     LOCK, "All histories up to the depth. Trusted: dense linear algebra.")
prop("C19", "Thresholding and positivity act entry by entry as documented",
     "Soft and hard thresholding and the positivity operator return the documented value for every entry, for scalar "
     "and array thresholds, real and complex data of any shape, layout or nesting, without modifying the input.",
     ["inputs", "configurations"], "all small vectors over the grid, shapes, layouts, types, nested data",
     "tests check one array",
     ["src/modopt/signal/noise.py", "src/modopt/signal/positivity.py"], [("thresh", "src/modopt/signal/noise.py:thresh"), ("positive", "src/modopt/signal/positivity.py:positive")],
     "exhaustive enumeration of a bounded input space against scalar definitions", "All grid vectors and listed shapes/types.")
prop("C20", "Singular value utilities are exact",
     "Decomposition, singular value thresholding, principal-component counting and coefficient thresholding return what "
     "a dense decomposition gives, for every shape, spectrum, threshold kind, number of components and rank estimate, "
     "and modify neither data nor thresholds.",
     ["inputs", "configurations"], "all listed spectra, shapes, types, component numbers and rank hints",
     "tests check one matrix",
     ["src/modopt/signal/svd.py"], [("thresholding", "src/modopt/signal/svd.py")],
     "exhaustive enumeration of a bounded input space against dense decompositions", "All listed shapes and spectra, every rank hint.")
prop("C21", "Added noise is scaled, reproducible and independent of global state",
     "Gaussian noise is sigma times the seeded standard normal draw (per slice for several sigmas), Poisson noise the "
     "seeded draw around the data; equal seeds give equal noise, calls do not disturb the global generator or each "
     "other, and inputs are not modified.",
     ["inputs", "histories", "configurations"], "all shapes, sigmas, seeds listed; all sequences of calls up to the depth",
     "tests check one seed",
     ["src/modopt/signal/noise.py"], [("add_noise", "src/modopt/signal/noise.py:add_noise")], LOCK,
     "Linear scaling and reproducibility decided for all listed seeds and shapes.")
prop("C22", "Convolution, filter banks and filter functions match their definitions",
     "Convolution of images, stacks and filter banks equals the direct sum (zero padding, or periodic wrapping for the "
     "Astropy method), rotated kernels included; trimming removes exactly the zero border and the filter functions "
     "return their formulas, for every shape and type.",
     ["inputs", "configurations"], "all pairs of impulses, shapes, types, layouts, methods",
     "tests check one 3x3 image",
     ["src/modopt/math/convolve.py", "src/modopt/signal/wavelet.py", "src/modopt/signal/filter.py"],
     [("convolve", "src/modopt/math/convolve.py"), ("filter banks", "src/modopt/signal/wavelet.py:filter_convolve")],
     "exhaustive enumeration of impulse pairs (bilinearity) and shapes against direct sums", "Impulse pairs decide bilinear maps of the enumerated sizes.")
prop("C23", "Cube, map and matrix layouts are exact, inverse rearrangements",
     "Converting between cubes, maps and matrices, rotating, transposing, flattening and padding stacks moves every "
     "value to its documented place, keeps the type, is undone by the inverse conversion, and refuses layouts that do not fit.",
     ["inputs", "configurations"], "all layouts and image sizes within the bounds, shapes up to 5-D, types and memory layouts",
     "tests check one array of distinct values",
     ["src/modopt/base/transform.py", "src/modopt/base/np_adjust.py"], [("layouts", "src/modopt/base/transform.py"), ("adjust", "src/modopt/base/np_adjust.py")],
     "exhaustive enumeration of shapes with all-distinct values (decides the permutation)", "Distinct values decide a rearrangement of the given shape.")
prop("C24", "Invalid arguments are refused, valid ones accepted and converted",
     "Every solver, operator and utility refuses arguments of the wrong type, value range or shape with the documented "
     "exception at construction or call, and accepts and converts all valid ones; the type checks convert integers, "
     "lists and arrays as documented without modifying their argument.",
     ["inputs", "configurations"], "every single invalid argument and pair of invalid arguments of every entry point listed, all FISTA options",
     "tests try one invalid value for some arguments",
     ["src/modopt/base/types.py", ALG + "base.py", ALG + "forward_backward.py"], [("checks", "src/modopt/base/types.py"), ("parameters", ALG + "base.py:_check_param")],
     "exhaustive enumeration of argument combinations against an acceptance table", "The acceptance table is the specification.")
prop("C25", "Back end selection and data movement keep the data",
     "For every set of installed back ends, a request gives that back end or, when it is missing, a warning and NumPy; "
     "moving data along any route of back ends keeps values, shapes and types, returns data already in place "
     "unchanged, and identifies the array module correctly. Solvers asked for a missing back end give the NumPy results.",
     ["configurations", "histories"], "all sets of present/absent/broken packages, all routes up to the depth, real TensorFlow and PyTorch",
     "tests run only with the packages of one environment and convert one array once",
     ["src/modopt/base/backend.py", ALG + "base.py"], [("selection", "src/modopt/base/backend.py:get_backend"), ("movement", "src/modopt/base/backend.py:change_backend")],
     LOCK, "CuPy is represented by a stand-in with its documented conversion rules.")
prop("C26", "Matrix routines: orthogonalisation, norms, rotations, spectral radius",
     "Gram-Schmidt rows are orthonormal and span the leading rows, the nuclear norm, projection and rotations match "
     "their definitions; the power method iterates the normalised operator until the norm settles or the budget ends, "
     "returns the last norm times the factor and its inverse, is reproducible by seed and restarts afresh on every call.",
     ["inputs", "histories", "configurations"], "all small matrices over the grid, sizes, types, tolerances, budgets, seeds",
     "tests check one matrix per function",
     ["src/modopt/math/matrix.py"], [("power iteration", "src/modopt/math/matrix.py:PowerMethod.get_spec_rad"), ("routines", "src/modopt/math/matrix.py")],
     LOCK, "All small matrices over the grid; the power iteration is compared step by step through its operator.")
prop("C27", "Statistics and image quality metrics match their formulas",
     "Gaussian kernels, median deviations, errors, signal-to-noise ratios and similarity of images (magnitudes "
     "normalised to [0, 1], inside the mask) equal their formulas for every image, mask, type and layout, invalid "
     "options and masks are refused, and the arguments are not modified.",
     ["inputs", "configurations"], "all small images over the grid with all masks, kernels of all sizes, types and layouts",
     "tests check one image and an all-ones mask",
     ["src/modopt/math/stats.py", "src/modopt/math/metrics.py"], [("stats", "src/modopt/math/stats.py"), ("metrics", "src/modopt/math/metrics.py")],
     "exhaustive enumeration of a bounded input space against the formulas", "scikit-image is the reference for SSIM.")
prop("C28", "Logs, warnings and file checks behave for every history",
     "For every sequence of setting up, writing and closing logs, each open log's file holds exactly its own messages "
     "in order, closing writes the last entry and releases the file, and a closed log does not grow. Warnings and "
     "errors reach stderr and the log, and file name and executable checks accept exactly what can be read or run.",
     ["histories", "inputs"], "all operation sequences over two logs up to the depth, all permission patterns over search paths",
     "tests set up and close one log",
     ["src/modopt/interface/log.py", "src/modopt/interface/errors.py"], [("log", "src/modopt/interface/log.py"), ("checks", "src/modopt/interface/errors.py")],
     LOCK, "Works in a scratch directory. One file is known by one name (no links, no change of directory between set-up and closing).")
prop("C29", "The external transform returns its result and leaves no litter",
     "Calling the external wavelet transform hands the data and options to the program and returns its result in the "
     "type of the input; if the program refuses, crashes, writes nothing or garbage, cannot start, is interrupted, or "
     "the disk fills, an exception is raised. In every case temporary files are removed when asked for and no other "
     "file is touched; filters are the program's answer to a centred impulse, trimmed on request.",
     ["fault_sequences", "crash_points", "configurations"], "every program behaviour and start failure, disk full at every listed size, all histories of failing calls",
     "the tests never run it: the external program is not installed",
     ["src/modopt/signal/wavelet.py", "src/modopt/interface/errors.py"], [("clean-up", "src/modopt/signal/wavelet.py:call_mr_transform"), ("filters", "src/modopt/signal/wavelet.py:get_mr_filters")],
     "exhaustive fault enumeration: a stub program with every listed behaviour, resource faults, all histories of faults up to the depth",
     "The program is a stub; scratch directory only.", level="fault_enumeration")
prop("C30", "Reweighting follows the published rule and takes effect",
     "After every sequence of inputs the weights equal the initial weights divided, for every input, by "
     "1 + |x| / (factor * initial weight); refused inputs change nothing, and whoever was given the weights sees the new ones. A "
     "reweighted primal-dual run equals a chain of runs with those weights.",
     ["histories", "inputs", "configurations"], "all histories of inputs over the grid up to the depth, shapes, types, primal-dual configurations",
     "tests reweight once",
     ["src/modopt/opt/reweight.py", ALG + "primal_dual.py"], [("rule", "src/modopt/opt/reweight.py:cwbReweight.reweight"), ("rounds", ALG + "primal_dual.py:Condat.iterate")],
     LOCK, "All histories over the grid up to the depth.")
prop("C31", "The transpose test tells adjoint pairs from others",
     "For every pair of operators, shapes, extra arguments and source of randomness the transpose test draws data of the "
     "given shapes, hands each operator its data and its extra argument (the first operator's when the second has none), "
     "and prints |<MX, Y> - <X, M.TY>|: zero up to rounding exactly for transposed pairs. Equal seeds repeat the data, a "
     "generator is used up in order, and the global generator is left alone.",
     ["inputs", "configurations", "histories"], "all shapes, extra arguments (falsy ones included), seeds and gaps listed; successive tests with one generator",
     "tests run one 3x3 pair and look at nothing but the absence of an exception",
     ["src/modopt/signal/validation.py"], [("transpose_test", "src/modopt/signal/validation.py:transpose_test")],
     LOCK, "All combinations of the listed shapes, arguments and sources.")

prop("C32", "Arguments left out stand for their documented defaults",
     "Every public function, operator and solver gives the same results, traces, printed output and warnings when optional "
     "arguments are left out as when their documented defaults are passed explicitly (step sizes and relaxation 1.0, 150 "
     "iterations, metrics every 5 iterations, tolerance 1e-4, hard thresholds in the signal package and soft ones in the "
     "proximity operators, and so on), whichever of them are left out together and whatever the other options are.",
     ["configurations", "inputs"], "all listed callables; all subsets of their options up to four, single options, pairs and "
     "complements beyond, and each option under every alternative value of another",
     "tests pass the options they are about, or leave all of them out and look at the end result of one easy problem",
     ["src/modopt/math/matrix.py", "src/modopt/math/stats.py", "src/modopt/opt/cost.py", "src/modopt/opt/proximity.py",
      "src/modopt/signal/svd.py", "src/modopt/signal/noise.py", ALG + "base.py", ALG + "forward_backward.py",
      ALG + "gradient_descent.py", ALG + "primal_dual.py", ALG + "admm.py"],
     [("solver defaults", ALG + "base.py:SetUp"), ("cost defaults", "src/modopt/opt/cost.py:CostParent")],
     "exhaustive enumeration of omitted-option subsets and contexts on the real code, differential against the explicit call",
     "All subsets within the stated sizes. Trusted: the hand-written table of documented defaults.")
prop("C33", "What is printed, and when",
     "Nothing is printed unless asked for. A cost operator asked to be verbose reports the very value it returns; a verbose "
     "cost object reports iteration number, cost and, when the windowed test is made, the relative change; a verbose solver "
     "reports convergence exactly when it stops for it; the power method its number of iterations; reweighting its round; "
     "opening and closing a log its name. Progress bars are sized to the requested iterations, advance once per iteration, "
     "and start over with every round of reweighting. Making an array read-only is announced only when that changes it, "
     "and an operator given to a solver is announced exactly when it descends from none of ModOpt's operator classes.",
     ["histories", "configurations"], "all words of loud and quiet calls, all cost histories over the alphabet, all convergence words, plans and bars listed",
     "tests do not look at the output",
     ["src/modopt/opt/cost.py", "src/modopt/opt/proximity.py", "src/modopt/opt/gradient.py", "src/modopt/opt/reweight.py",
      ALG + "base.py", ALG + "primal_dual.py", "src/modopt/math/matrix.py", "src/modopt/interface/log.py", "src/modopt/base/types.py"],
     [("cost report", "src/modopt/opt/cost.py:CostParent.get_cost"), ("solver report", ALG + "base.py:SetUp._iterations")],
     LOCK, "All words up to the depth. The wording of the reports is free, only the numbers in them are compared.")
prop("C34", "Any set of optional packages, any order of imports",
     "Whatever subset of the optional packages (Astropy, Matplotlib, scikit-image, scikit-learn, PyWavelets, joblib, Termcolor, "
     "pyFFTW) is missing, every module imports, in any order, and offers the same functions and classes; what needs a missing "
     "package refuses with ImportError before doing anything (the wavelet transform may also say that its backend is not "
     "available), convolution by Astropy falls back to SciPy and says so, messages lose their colours and nothing else, and "
     "everything else computes exactly what it computes with everything installed.",
     ["configurations"], "all subsets of nine packages closed under their dependencies (quick: at most two or at least eight hidden, and eight more), every module (thorough: every ordered pair) imported first, every entry of the option table of C32",
     "the test suite runs with everything installed",
     ["src/modopt/math/convolve.py", "src/modopt/math/stats.py", "src/modopt/math/metrics.py", "src/modopt/opt/proximity.py",
      "src/modopt/opt/linear/wavelet.py", "src/modopt/signal/wavelet.py", "src/modopt/interface/errors.py",
      "src/modopt/plot/cost_plot.py", "src/modopt/base/backend.py", "src/modopt/__init__.py"],
     [("convolution fallback", "src/modopt/math/convolve.py:convolve"), ("isotonic regression", "src/modopt/opt/proximity.py:OrderedWeightedL1Norm.__init__")],
     "exhaustive enumeration of sets of missing packages and import orders on the real code (a process per world), differential against the complete world",
     "All closed subsets (thorough). Absence is simulated by making the import fail. Trusted: the table of what needs which package.")

prop("C35", "Failures of what the user supplied come through",
     "When an operator, cost, schedule, metric, reweighting, sub-problem solver or progress bar supplied by the user raises, "
     "at whatever call of a run or of an operation, that very exception reaches the caller (an interrupt too), nothing "
     "supplied is called after it, the arrays of the caller are untouched and what metrics were shown before stands. The "
     "solver or operator can be used again: a further run performs its iterations and evaluates its metrics on schedule, a "
     "further call returns what a new instance returns, and other solvers know nothing of the failure.",
     ["crash_points", "histories"], "every call of every run and operation listed, eighteen kinds of exceptions, all words of failing and good calls up to the depth",
     "the tests never let an operator fail",
     [ALG + "base.py", ALG + "forward_backward.py", ALG + "primal_dual.py", ALG + "gradient_descent.py", ALG + "admm.py",
      "src/modopt/base/observable.py", "src/modopt/opt/cost.py", "src/modopt/opt/proximity.py", "src/modopt/opt/linear/base.py",
      "src/modopt/opt/gradient.py", "src/modopt/math/matrix.py", "src/modopt/signal/validation.py", "src/modopt/signal/svd.py"],
     [("run loop", ALG + "base.py:SetUp._run_alg, _iterations"), ("notification", "src/modopt/base/observable.py:Observable.notify_observers")],
     "exhaustive fault injection on the real code (every call of everything supplied), differential against the run without faults",
     "All single faults in runs of up to three (thorough: six) iterations, repeated faults as listed. StopIteration is left out.")

prop("C36", "Invalid arguments are refused as documented, valid ones accepted, and a refusal changes nothing",
     "Every solver, operator, cost, gradient and function refuses exactly the arguments its documentation excludes, with the "
     "documented kind of exception (TypeError or ValueError), whatever the other arguments are: starting points that are no "
     "arrays, parameters that are no floats or outside their range, updates that are not callable, metrics that are no "
     "dictionary or lack their linear operator, weights of wrong type, number or sum, restart settings that do not fit "
     "together, combinations of things without the needed methods, unknown names of methods, types, norms and wavelets, "
     "shapes that do not match. All other combinations of the values listed are accepted and work. A refused call or "
     "assignment leaves the caller's arrays, the object and later calls as they were.",
     ["inputs", "configurations", "histories"], "all combinations of up to three (four) unusual arguments of forty callables, all restart settings, all words of valid and refused assignments",
     "the tests check a few refusals, one at a time, and never what a refusal leaves behind",
     [ALG + "base.py", ALG + "forward_backward.py", ALG + "primal_dual.py", ALG + "gradient_descent.py", "src/modopt/opt/proximity.py",
      "src/modopt/opt/linear/base.py", "src/modopt/opt/linear/wavelet.py", "src/modopt/opt/gradient.py", "src/modopt/opt/cost.py",
      "src/modopt/opt/reweight.py", "src/modopt/base/types.py", "src/modopt/signal/svd.py", "src/modopt/signal/noise.py", "src/modopt/math/stats.py"],
     [("solver arguments", ALG + "base.py:SetUp"), ("restart settings", ALG + "forward_backward.py:FISTA._check_restart_params"),
      ("weights", ALG + "forward_backward.py:GenForwardBackward._set_weights"), ("combinations", "src/modopt/opt/linear/base.py:LinearCombo._check_inputs")],
     "exhaustive enumeration of argument words and assignment histories on the real code against a table of documented refusals",
     "The values listed per argument. Solvers are started from floating-point arrays.")

prop("C37", "Problems assembled from the library's own parts are solved",
     "A solver given the library's own gradient, proximity operators, linear operators, combinations and cost object computes "
     "the published recurrence with every part replaced by its mathematical definition, in every combination, and the cost "
     "object reports the objective at the iterates. With admissible step sizes the forward-backward, FISTA and POGM iterates "
     "keep within the published rates of convergence from the first iteration on, plain forward-backward never "
     "increases the objective, and every convergent solver (restarted FISTA, generalised forward-backward, Condat with a "
     "penalty of a transform, gradient descent) ends at a point that satisfies the optimality conditions of the problem stated.",
     ["configurations", "inputs"], "every solver with every proximity and linear operator of the library, all small problems of a grid",
     "the tests run few such combinations, on one problem, and compare with stored values or with the starting point",
     [ALG + "forward_backward.py", ALG + "primal_dual.py", ALG + "gradient_descent.py", "src/modopt/opt/proximity.py",
      "src/modopt/opt/gradient.py", "src/modopt/opt/linear/base.py", "src/modopt/opt/linear/wavelet.py", "src/modopt/opt/cost.py"],
     [("solvers", ALG + "forward_backward.py:ForwardBackward"), ("parts", "src/modopt/opt/proximity.py:ProximityParent"),
      ("objective", "src/modopt/opt/cost.py:costObj")],
     "exhaustive lock-step of assembled runs with references made of definitions; optimality conditions and rates on every problem of the grid",
     "Seventeen solver settings, ten proximity operators, four linear operators, all combinations of up to three blocks; "
     "problems with data over {-1, 0, 2} and three matrices. ADMM is left out (see the known findings of C06).")


prop("C38", "Computations stay on the device of the data",
     "With arrays of another array library (the CuPy back end) the forward-backward, generalised forward-backward, POGM, Condat and ADMM solvers given that back end, thresholding, the "
     "sparse, ridge, elastic-net and identity proximity operators and their compositions, the "
     "identity and matrix linear operators and the power method compute what they compute with NumPy arrays: the operators of the user are given "
     "arrays of the device only, in the same order and with the same values, results are arrays of the device, nothing is copied to the host and arrays of the "
     "two places are never mixed. Costs are numbers of the host.",
     ["configurations", "inputs", "histories"], "all solver settings x answer words of the proximity operators x ways to split a run; all operators x types x layouts",
     "the tests run on the CPU only; a function of the wrong library works there",
     [ALG + "base.py", ALG + "forward_backward.py", ALG + "primal_dual.py", ALG + "admm.py", ALG + "gradient_descent.py",
      "src/modopt/opt/proximity.py", "src/modopt/opt/linear/base.py", "src/modopt/signal/noise.py", "src/modopt/math/matrix.py", "src/modopt/base/backend.py"],
     [("array module of a solver", ALG + "base.py:SetUp"), ("copies", ALG + "base.py:SetUp.copy_data"),
      ("thresholding", "src/modopt/signal/noise.py:thresh"), ("random start", "src/modopt/math/matrix.py:PowerMethod._set_initial_x")],
     "exhaustive lock-step of the same executions on the host and on a device stand-in that refuses every implicit transfer",
     "CuPy is not installed: arrays with CuPy's dispatch and conversion rules stand in. Everything that takes no back end "
     "and works on NumPy arrays by design (gradient descent, GradBasic, positivity, low-rank, OWL, k-support, combinations) is left out.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as handle:
        for item in PROPS:
            handle.write(json.dumps(item["public"], ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [item["check"] for item in PROPS],
        "not_applicable": [],
        "notes": "Pure Python: nothing to build. run.py imports ModOpt from /repo/src (sources are compiled afresh, "
                 "byte code caches are ignored). catalog.py regenerates this file and properties.jsonl. No hooks in "
                 "/repo; the fix: commits are listed in known_findings.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as handle:
        json.dump(manifest, handle, indent=1, ensure_ascii=False)
        handle.write("\n")


if __name__ == "__main__":
    main()
