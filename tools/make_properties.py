"""Writes properties.jsonl.  The text of every property lives here."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=False):
    assert len(title) <= 80, (id, len(title))
    a = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe),
        "hook_needed": hook,
    }
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    L.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


prop("C01", "Prediction is exact Gaussian conditioning for every model and data set",
     "For every model (zero, known parameterized, or unknown linear mean; any valid or conditionally valid covariance, with or without noise), data set and target set, the predicted mean, variance (or full covariance) and weights are those of the Gaussian conditional law, i.e. the best linear unbiased predictor for a linear mean. "
     "The answer does not depend on the order of the data, on how targets are grouped, on accepted array types or shapes, on the output options, or on which internal solver route is taken after a solver failure; variances are clipped at zero exactly when requested. "
     "Inconsistent shapes are rejected.",
     ["inputs", "configurations", "fault_sequences"],
     "all means, kernels, dimensions, designs, observation vectors, targets, options, and a failing first solve",
     "The repository tests run one or two examples end to end without checking a predicted value against an independent computation; the fallback route is never executed.",
     ["gpmp/core/model.py", "gpmp/core/kriging.py", "gpmp/core/utils.py", "gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py"],
     [("kriging predictors", "gpmp/core/kriging.py"), ("predict", "gpmp/core/model.py")],
     observe=["values returned by prediction and by the weight/covariance entry points"])

prop("C02", "Calls do not modify their inputs or influence later results",
     "No prediction, leave-one-out, likelihood, norm, Fisher-information, sampling, initial-guess or parameter-fitting call modifies any array passed to it. "
     "After any sequence of such calls and parameter changes, a model answers exactly as a freshly built model holding the current parameters would, and two models never influence each other.",
     ["histories", "inputs"],
     "all sequences of calls up to a depth, on one model or two models sharing data",
     "Tests run each call once on fresh objects, never a sequence of calls with argument comparison afterwards.",
     ["gpmp/core/model.py", "gpmp/core/kriging.py", "gpmp/core/fisher.py", "gpmp/kernel/parameter_selection.py", "gpmp/num/torch_backend.py"],
     [("model methods", "gpmp/core/model.py"), ("overwrite options of solvers", "gpmp/core/kriging.py"), ("gamma table cache", "gpmp/num/shared.py")],
     state=[("covparam/meanparam", "current parameters of the model", "gpmp/core/model.py")],
     observe=["arguments before/after, results against a fresh model"])

prop("C03", "Leave-one-out equals deleting each observation and predicting it",
     "For every model and data set for which the reduced problems are well posed, the leave-one-out predictions, variances and errors equal those obtained by removing each observation in turn, predicting it from the others with the same parameters, and subtracting the prediction from the observed value. "
     "This holds for all mean types, for noisy and conditionally valid covariances, and for both accepted data shapes.",
     ["inputs", "configurations"],
     "all means, kernels, dimensions, designs and observation vectors",
     "No test compares the shortcut formulas with the brute-force definition.",
     ["gpmp/core/loo.py", "gpmp/core/linalg.py", "gpmp/core/model.py"],
     [("virtual cross-validation", "gpmp/core/loo.py"), ("diagonal of the inverse", "gpmp/core/linalg.py")],
     observe=["three arrays returned by leave-one-out"])

prop("C04", "Likelihoods and kernel norms equal their closed-form definitions",
     "For every model, data set and parameter vector passed in, the negative log-likelihoods (zero mean, given mean) and the negative log restricted likelihood equal the Gaussian log-densities of the data, the centred data and the orthonormal contrasts of the data, and the squared norms and inverse-covariance products equal their matrix definitions. "
     "The restricted criterion is unchanged by adding any trend of the mean family, all criteria are unchanged by reordering the data, and a covariance matrix that cannot be factorised gives an infinite criterion rather than an error.",
     ["inputs", "configurations", "fault_sequences"],
     "all means, kernels, dimensions, designs, observation vectors and parameters, and non-factorisable covariances",
     "Tests only use likelihood values as an objective to optimise; no value is compared with a density.",
     ["gpmp/core/likelihood.py", "gpmp/core/linalg.py", "gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py"],
     [("likelihoods", "gpmp/core/likelihood.py"), ("contrasts and norms", "gpmp/core/linalg.py")],
     observe=["scalars and vectors returned"])

prop("C05", "Fisher information equals the trace formula",
     "For every model, design and parameter vector, the finite-difference Fisher information matrix of the covariance parameters equals half the trace of products of the inverse covariance and its derivatives, and the contrast-space variant equals the same formula for the covariance of the contrasts when the mean is an unknown linear combination. "
     "The matrices are symmetric nonnegative definite, use the parameters passed in (or the model's own when omitted) and leave them unchanged.",
     ["inputs", "configurations"],
     "kernels, means, dimensions, designs, parameters and difference steps",
     "No test evaluates a Fisher information matrix.",
     ["gpmp/core/fisher.py", "gpmp/num/shared.py"],
     [("Fisher information", "gpmp/core/fisher.py"), ("five-point differences", "gpmp/num/shared.py")],
     observe=["matrices returned"])

prop("C06", "Sample paths have exactly the prior law, conditioned ones the posterior law",
     "Unconditional sample paths are a linear map of independent standard normal draws whose covariance is exactly the model covariance at the requested points, for both factorisation methods and any number of paths, each path using its own draws. "
     "Conditioning the paths on data makes every conditioned path pass through the data and gives the ensemble the posterior mean and covariance, for zero, unknown linear and known parameterized means, whatever the positions of the data and target indices.",
     ["inputs", "configurations"],
     "kernels, means, designs, index arrangements, observation vectors, and a basis of the random draws",
     "Random tests can only estimate the law; driving the map with basis vectors gives it exactly.",
     ["gpmp/core/sample_paths.py", "gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py"],
     [("sampling and conditioning", "gpmp/core/sample_paths.py")],
     observe=["arrays of paths under controlled normal draws"])

prop("C07", "Covariance functions match their definitions, diagonal and pairwise forms",
     "The exponential and Matern kernels equal the Bessel-function definition of their regularity at every distance, with variance and inverse length scales entering as documented; covariance matrices are symmetric, positive definite and have the variance on the diagonal. "
     "Pairwise evaluation gives the corresponding entries of the full matrix, omitted or identical second argument means the same points, and results do not depend on which regularities were evaluated before.",
     ["inputs", "histories", "configurations"],
     "regularities, dimensions, point sets, parameters, call forms, and orders of evaluation",
     "Tests never compare a kernel value with its definition and never vary the order in which regularities populate the shared table.",
     ["gpmp/kernel/matern.py", "gpmp/kernel/exponential.py", "gpmp/num/shared.py", "gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py"],
     [("Matern kernels", "gpmp/kernel/matern.py"), ("log-gamma table", "gpmp/num/shared.py"), ("scaled distances", "gpmp/num/numpy_backend.py")],
     state=[("log-gamma table", "grown on demand, shared by all kernels", "gpmp/config.py")],
     observe=["kernel values and matrices"])

prop("C08", "Criterion gradients equal true derivatives, whatever the call history",
     "For every selection criterion and parameter vector, the value and gradient delivered to optimisers and samplers are the value and the derivative of that criterion at the point asked for (a gradient request refers to the last value request made for gradients, at the same point, and is refused otherwise), in single-data-set and batch mode. "
     "This remains true after any sequence of evaluations with and without gradient, including evaluations that failed and were reported as infinite, and the parameter vector passed in is left unchanged.",
     ["histories", "inputs", "fault_sequences"],
     "sequences of evaluate / evaluate-without-gradient / gradient calls at several points, including failing ones",
     "Tests never interleave gradient and value calls nor compare gradients with differences.",
     ["gpmp/num/torch_backend.py", "gpmp/num/numpy_backend.py", "gpmp/kernel/parameter_selection.py"],
     [("differentiable criterion wrappers", "gpmp/num/torch_backend.py"), ("finite differences", "gpmp/num/numpy_backend.py"), ("criterion factory", "gpmp/kernel/parameter_selection.py")],
     state=[("last evaluated point and value", "what a gradient call refers to", "gpmp/num/torch_backend.py")],
     observe=["values and gradients"])

prop("C09", "The optimiser returns the best point seen, within bounds, despite failures",
     "Automatic parameter selection returns a point at which the criterion was evaluated and whose value is no larger than the value at the starting point or at any other point it evaluated, inside the bounds when bounds are given. "
     "This holds for every sequence of finite, infinite, not-a-number or linear-algebra-failing criterion answers for which some finite value was seen, for all supported methods; the starting point is not modified, and the reported history lists the evaluated points and values in order.",
     ["fault_sequences", "inputs", "histories"],
     "criterion answer scripts with failures at every position, starting points, bounds and methods",
     "Tests optimise one well-behaved criterion; the best-seen and failure handling paths are not exercised.",
     ["gpmp/kernel/parameter_selection.py"],
     [("optimiser wrapper with history", "gpmp/kernel/parameter_selection.py")],
     state=[("best point so far", "smallest recorded criterion value", "gpmp/kernel/parameter_selection.py")],
     observe=["returned parameters and information record"])

prop("C10", "Parameter selection procedures minimise the criterion they name",
     "Each selection or update procedure (maximum likelihood with constant mean, restricted likelihood, and the penalised variants) installs in the model the parameters it reports, whose criterion value is no larger than at its starting point and is stationary inside the bounds. "
     "The reported criterion value, prior parameters and callable criterion agree with the named criterion on the given data, whether the data come as arrays or as a loader covering the same data in one batch.",
     ["inputs", "configurations", "histories"],
     "procedures x data sets x means x starting points x array or loader input x repeated updates",
     "Tests run single procedures once without checking the criterion, starting point or model state.",
     ["gpmp/kernel/parameter_selection.py", "gpmp/kernel/prior_helpers.py", "gpmp/kernel/init.py"],
     [("selection procedures", "gpmp/kernel/parameter_selection.py")],
     observe=["model parameters, information record"])

prop("C11", "Initial guesses and empirical bounds follow the data as documented",
     "For every data set, the anisotropic initial guess returns length scales proportional to the range of each input with the dimension-dependent ball-volume factor, a variance equal to the squared norm of the data (modulo the trend for an unknown linear mean) in the unit-variance kernel with those length scales divided by the number of observations, and for a constant mean its generalised least-squares estimate. "
     "Permuting inputs permutes the guess, rescaling inputs or outputs rescales it, empirical bounds bracket the variance and length scales by the given factors, and a loader gives the answer for arrays with the variance and mean replaced by their batch-size weighted averages over batches.",
     ["inputs", "configurations"],
     "data sets, dimensions, scalings, permutations, array or loader input",
     "Tests call the initial guess as a step of an example without checking its value.",
     ["gpmp/kernel/init.py", "gpmp/kernel/bounds.py", "gpmp/kernel/utils.py"],
     [("initial guesses", "gpmp/kernel/init.py"), ("bounds", "gpmp/kernel/bounds.py")],
     observe=["parameter vectors and bounds returned"])

prop("C12", "Priors, penalised criteria and default hyperparameters match documentation",
     "Every prior log-density and penalised criterion equals its documented formula for all parameters and hyperparameters, and penalised criteria are exactly the restricted criterion minus the log priors. "
     "Default hyperparameters follow a settings store: after any sequence of accepted and rejected updates the values used are the last accepted ones (a rejected update changes nothing), and explicit arguments always take precedence over stored values and over values derived from the data or the prior anchor.",
     ["inputs", "histories", "fault_sequences"],
     "parameter and hyperparameter grids; all sequences of valid and invalid updates up to a depth; all presence patterns of optional arguments",
     "Tests do not evaluate priors nor change defaults.",
     ["gpmp/kernel/priors.py", "gpmp/kernel/prior_defaults.py", "gpmp/kernel/prior_helpers.py"],
     [("priors and criteria", "gpmp/kernel/priors.py"), ("settings store", "gpmp/kernel/prior_defaults.py")],
     state=[("default hyperparameters", "last accepted values", "gpmp/kernel/prior_defaults.py")],
     observe=["densities, criteria, stored defaults"])

prop("C13", "Every data-loader epoch visits each row exactly once, in a repeatable order",
     "Iterating a loader yields batches that partition the data set: every row (input with its own output) appears exactly once per epoch, in order without shuffling, with full batches except possibly the last, which is dropped only when requested; the length reported equals the number of batches. "
     "With shuffling, the order depends only on the seed and epoch number, differs between epochs, and is not disturbed by other iterators, indexing or random draws elsewhere; batch indexing and slicing agree with iteration.",
     ["histories", "inputs", "configurations", "schedules"],
     "sizes, shardings, batch sizes, options, and interleavings of iterations, epoch changes, indexing and outside random draws",
     "Tests iterate a few fixed loaders once; interleavings, all size/batch combinations and epoch histories are unexplored.",
     ["gpmp/dataloader.py"],
     [("loader iteration", "gpmp/dataloader.py")],
     state=[("epoch number", "selects the shuffling order", "gpmp/dataloader.py")],
     observe=["batches yielded"])

prop("C14", "A data set behaves as the concatenation of its shards",
     "However the rows are divided into shards, a data set has the length, rows, subsets, per-column minimum, maximum, mean, variance, standard deviation, quantiles and median of the concatenated arrays, for positive and negative positions; out-of-range positions and inconsistent shards are rejected. "
     "Splits and (repeated) k-fold partitions cover every index exactly once per repetition with fold sizes differing by at most one, and are reproducible from the seed.",
     ["inputs", "configurations", "histories"],
     "all compositions of small sizes into shards, all index lists, all fold counts, seeds and ratios",
     "Tests use one or two shardings and fold counts.",
     ["gpmp/dataloader.py", "gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py"],
     [("sharded data set", "gpmp/dataloader.py")],
     observe=["rows, statistics, index lists"])

prop("C15", "Scalers are exact inverses and normalise as advertised",
     "For every data array, each scaler fitted on it maps the data to the advertised statistics (zero mean and unit deviation, zero median and unit interquartile range, or unit range), its inverse maps back to the original values, and constant columns are handled without division by zero. "
     "Transforms leave their input unchanged and give the same values with and without the copy option, and collating batches restores the concatenated data.",
     ["inputs", "histories"],
     "data arrays including constant columns, copy options and round trips",
     "Tests cover two scalers on one array.",
     ["gpmp/dataloader.py"],
     [("scalers and collation", "gpmp/dataloader.py")],
     observe=["transformed arrays"])

prop("C16", "Mini-batch criteria aggregate exactly the batches they should",
     "A criterion evaluated over a loader equals the batch-size weighted mean (or sum) of the criterion over the batches it visits, and its gradient is the gradient of that quantity. "
     "With a full pass every batch is used once per evaluation; with a limited number of batches per evaluation, successive evaluations walk cyclically through the loader without skipping or repeating batches, and an empty loader is an error; averaging any batch function over a loader weights batches by their size.",
     ["histories", "inputs", "configurations"],
     "loader sizes, batch sizes, reductions, batches per evaluation and evaluation sequences",
     "Tests do not check batch aggregation across successive evaluations.",
     ["gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/kernel/parameter_selection.py", "gpmp/dataloader.py"],
     [("batch criterion", "gpmp/num/torch_backend.py")],
     state=[("position in the loader", "next batch for limited evaluations", "gpmp/num/torch_backend.py")],
     observe=["values, gradients, batches requested"])

prop("C17", "Parameter containers keep names, paths, values and bounds consistent",
     "After any sequence of reads, writes by name, path, slice or whole vector, slicings, concatenations and conversions, a parameter container returns for each name and path the value last written there, in normalised and natural scale consistently (natural value = inverse transform of the normalised one). "
     "Rejected operations change nothing, derived containers are independent of their source except for explicit views, and conversions from covariance parameter vectors place variance, length scales and noise under the right names.",
     ["histories", "inputs", "fault_sequences"],
     "operation sequences up to a depth over containers with every normalisation, against a dictionary model",
     "Tests check single operations on fixed containers.",
     ["gpmp/parameter/param.py"],
     [("parameter container", "gpmp/parameter/param.py")],
     state=[("normalised values", "one float per parameter", "gpmp/parameter/param.py")],
     observe=["values, names, paths, dictionaries"])

prop("C18", "Configuration changes are atomic and consistently visible",
     "After any sequence of backend, dtype, device and log-level requests, valid or not, the configuration reads back the last accepted values, rejected requests raise and change nothing, and the numerical layer keeps the backend it was loaded with and always has the data type in force. "
     "The backend comes from the environment variable when set, otherwise from what is installed, and clearing caches never changes computed results.",
     ["histories", "configurations", "fault_sequences"],
     "environment settings x operation sequences in fresh processes",
     "Tests run in one process with one backend.",
     ["gpmp/config.py", "gpmp/__init__.py", "gpmp/num/__init__.py"],
     [("configuration store", "gpmp/config.py")],
     state=[("backend, dtype, device, caches", "process-wide configuration", "gpmp/config.py")],
     observe=["configuration read-back, results, exceptions"])

prop("C19", "Both numerical backends implement the same array functions",
     "Every numerical function shared by the two backends returns, in the call forms both accept, for the same input values, shapes and options, the values, shapes and integer or floating kind of the reference array library in double precision, including empty, single-element, infinite and not-a-number inputs where defined. "
     "Conversion to and from plain arrays preserves values and shapes, and linear-algebra helpers satisfy their defining equations.",
     ["inputs", "configurations"],
     "all shared functions x shapes x axis/keyword options x special values, on both backends",
     "Tests run on whichever backend is installed and never compare them function by function.",
     ["gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/num/shared.py"],
     [("numpy facade", "gpmp/num/numpy_backend.py"), ("torch facade", "gpmp/num/torch_backend.py")],
     observe=["returned arrays"])

prop("C20", "Seeding makes every random facility of the numerical layer reproducible",
     "After setting the seed, any sequence of random calls of the numerical layer (uniform, normal, multivariate normal, choice, permutation) and of the library's sample paths, Metropolis and No-U-Turn samplers gives the same results as the same sequence after the same seed, whatever the state of other generators, and different seeds give different results. "
     "Draws have the requested shapes and supports: uniforms in [0,1), permutations and choices without replacement never repeat, chosen values have positive probability, and multivariate normal draws are the mean plus a linear image of standard draws with the requested covariance.",
     ["histories", "inputs"],
     "sequences of random calls, seeds, shapes and probability vectors",
     "Tests never replay a random sequence.",
     ["gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/core/sample_paths.py", "gpmp/mcmc/mh.py", "gpmp/mcmc/nuts.py"],
     [("random generator", "gpmp/num/numpy_backend.py")],
     state=[("generator state", "advances with each draw", "gpmp/num/numpy_backend.py")],
     observe=["draws"])

prop("C21", "Metropolis-Hastings moves exactly by the acceptance rule and keeps a true record",
     "For every sequence of proposals, uniform draws and target answers (finite, minus infinity, not-a-number), each chain moves to the proposal exactly when the draw satisfies the Metropolis rule and otherwise stays, and the recorded states, target values and acceptance flags always describe that trajectory. "
     "A state with zero target density is never entered, chains do not interact, the target is evaluated once per proposal, and the returned sample, acceptance rates and convergence statistics are functions of that record as defined.",
     ["histories", "inputs", "fault_sequences"],
     "all proposal/draw/answer histories up to a length for one and two chains, symmetric and general proposals, and adaptation schedules",
     "Random runs cannot enumerate acceptance decisions and failing target answers.",
     ["gpmp/mcmc/mh.py"],
     [("transition and record", "gpmp/mcmc/mh.py")],
     state=[("chain state and log density", "last accepted point", "gpmp/mcmc/mh.py")],
     observe=["recorded arrays, returned sample, rates"])

prop("C22", "The No-U-Turn transition leaves the target distribution invariant",
     "Enumerating every direction and selection draw of a transition, the probability of moving from one point of an orbit to another equals the probability of the reverse move within the same slice, so the target density is preserved; the new point is uniform among the slice points of the trajectory, the integrator is reversible and volume preserving, and points of zero density are never selected. "
     "Warm-up windows cover the middle of the warm-up exactly, the step size follows dual averaging of the recorded acceptance statistics and the inverse masses the variances of the last window, adaptation stops after warm-up, and the record describes the samples.",
     ["inputs", "schedules", "histories", "configurations"],
     "all random decisions of a transition up to a tree depth, targets, step sizes, mass matrices; all warm-up lengths up to a bound",
     "Sampling tests can only detect gross bias; detailed balance needs the exhaustive decision tree.",
     ["gpmp/mcmc/nuts.py"],
     [("tree building and selection", "gpmp/mcmc/nuts.py"), ("warm-up", "gpmp/mcmc/nuts.py")],
     observe=["selected state under scripted draws"])

prop("C23", "Sequential Monte Carlo steps keep weights, particles and targets consistent",
     "In every history of reweighting, resampling, moving and restarting, particle weights are (up to a common factor) multiplied by the density ratio between successive targets whose supports do not grow, the effective sample size is (sum w)^2 / sum w^2, resampling returns as many particles as before, all of positive weight, each at least as often as the whole part of its expected number under the residual scheme, and stored log-densities are those of the current target at the current positions. "
     "Moves propose with the scaled covariance of the population (or its average over groups of nearest neighbours), accept by the Metropolis rule and adapt the scale to the acceptance rate; runs always end at the final target, through intermediate targets whose effective sample size or survival fraction is within tolerance of the requested one unless it jumps there. "
     "Subset simulation returns the product of the conditional probabilities.",
     ["histories", "inputs", "fault_sequences"],
     "operation histories on small particle sets with scripted draws, density tables including minus infinity, and threshold sequences",
     "Random runs cannot enumerate resampling draws and density patterns.",
     ["gpmp/mcmc/smc.py"],
     [("particle set", "gpmp/mcmc/smc.py"), ("intermediate targets", "gpmp/mcmc/smc.py")],
     state=[("particles, weights, log densities", "current population", "gpmp/mcmc/smc.py")],
     observe=["particle arrays and logs"])

prop("C24", "Stein variational steps follow the kernelised gradient formula",
     "Each update moves every particle of finite log-density by the step size times the preconditioner times the average, over such particles, of kernel-weighted tempered target gradients plus kernel repulsion, with the bandwidth chosen by the documented rule, for any number of particles, dimension and target; the other particles stay where they are and contribute nothing to the average. "
     "Sampling with a number of iterations equals applying that many updates with the documented linear or geometric temperature schedule, keeps particles within bounds when given, and returns particles and histories of the documented shapes.",
     ["inputs", "histories", "configurations"],
     "particle configurations, targets, bandwidths, step rules and iteration counts",
     "No test evaluates an update against the formula.",
     ["gpmp/mcmc/svgd.py"],
     [("update rule", "gpmp/mcmc/svgd.py")],
     observe=["particles after each iteration"])

prop("C25", "Posterior samplers target exp(-criterion) restricted to the box",
     "The log-density handed to each sampler built from a selection criterion equals minus the criterion (divided by the temperature when one is given) inside the sampling box and minus infinity outside it or where the criterion fails, for every sampler offered. "
     "Returned samples have the documented shape, lie in the box, start from the requested points, and carry the log-density values of the points returned.",
     ["inputs", "configurations", "fault_sequences"],
     "samplers x criteria with failures x boxes x initialisations",
     "Tests never check the target seen by the samplers.",
     ["gpmp/mcmc/param_posterior.py"],
     [("sampler wrappers", "gpmp/mcmc/param_posterior.py")],
     observe=["target evaluations and samples"])

prop("C26", "Scoring rules and expected improvements equal their defining integrals",
     "For all means, positive standard deviations, thresholds and observations, including infinite truncation limits and points at the limits, the (truncated) continuous ranked probability score equals the integral of the squared difference between predictive and empirical distribution functions, and the expected-improvement terms equal the corresponding Gaussian moments. "
     "Scalars and arrays give the same values elementwise, scores are nonnegative, and truncation intervals add up.",
     ["inputs"],
     "grids of means, deviations, observations and truncation limits including limits",
     "Tests compare a handful of points.",
     ["gpmp/misc/scoringrules.py"],
     [("scores", "gpmp/misc/scoringrules.py")],
     observe=["scores"])

prop("C27", "Experimental designs fill the box they are asked to fill",
     "Every design generator returns the requested number of points in the requested dimension inside the box: grids contain every combination of equally spaced levels including the box corners, Latin-hypercube designs have exactly one point in each of the equal slices of each axis, and low-discrepancy or maximin variants keep that property. "
     "Design criteria equal their definitions: smallest and largest pairwise distances, centred discrepancy, and the largest distance from the box to the design; scaling maps the unit box affinely onto the box.",
     ["inputs", "configurations"],
     "dimensions, sizes, boxes, level counts and candidate sets",
     "Tests do not check designs.",
     ["gpmp/misc/designs.py"],
     [("designs and criteria", "gpmp/misc/designs.py")],
     observe=["point sets and criteria"])

prop("C28", "Model diagnostics report the metrics they name, on the data they name",
     "The performance report's error sums, normalised scores, determination coefficients, and probability integral transforms, for leave-one-out and test data, equal their definitions applied to independently computed predictions, with and without test data. "
     "Labelled tables keep each value under its row and column through indexing, assignment, appending and concatenation, and parameter reports convert variance and length scales correctly.",
     ["inputs", "histories", "configurations"],
     "models, data sets, with/without test data; table operation sequences",
     "Tests do not check reported metrics.",
     ["gpmp/modeldiagnosis/performance.py", "gpmp/modeldiagnosis/report.py", "gpmp/modeldiagnosis/utils.py", "gpmp/misc/dataframe.py"],
     [("performance metrics", "gpmp/modeldiagnosis/performance.py"), ("labelled table", "gpmp/misc/dataframe.py")],
     observe=["dictionaries and tables"])

prop("C29", "One-dimensional posteriors and their statistics are numerically exact",
     "For every continuous unnormalised one-dimensional log-density on an interval, the normalised density integrates to one, the distribution function is its monotone integral from 0 to 1, the quantile function inverts it, and mean and variance are its moments, however small the unnormalised density is as long as it is representable. "
     "Statistics of each parameter derived from a criterion use the section through the given point for that parameter only, the fast variant agrees with quadrature, and adding a constant to the criterion, however large, changes nothing.",
     ["inputs", "configurations"],
     "density shapes, intervals, offsets and parameter indices",
     "Tests do not use these routines.",
     ["gpmp/modeldiagnosis/un1ddist.py", "gpmp/modeldiagnosis/param_stats.py"],
     [("one-dimensional distribution", "gpmp/modeldiagnosis/un1ddist.py"), ("parameter statistics", "gpmp/modeldiagnosis/param_stats.py")],
     observe=["density, distribution, quantile, moments"])

prop("C30", "Benchmark functions equal their documented formulas, row by row",
     "Each benchmark test function (two bumps, wave, Branin-Hoo, Hartmann 4 and 6, borehole, 8-dimensional Dette-Pepelyshev, Ishigami) returns for every input row the value of its documented formula. "
     "Rows are treated independently, the output has one value per row, and the known minima are attained at the known points.",
     ["inputs"],
     "lattices over each function's domain, batch sizes and row orders",
     "Examples plot these functions; no test compares a value with the definition.",
     ["gpmp/misc/testfunctions.py"],
     [("test functions", "gpmp/misc/testfunctions.py")],
     observe=["function values"])

prop("C31", "Diagnostic figures show the quantities they name",
     "Every curve, interval, marker, histogram and label of the figures drawn from predictions, leave-one-out results, probability integral transforms, selection criteria and sampler records shows the named quantity of the named parameter or coordinate, for every selection and order of parameters, box, array form and backend. "
     "Prediction curves show the mean and the central Gaussian intervals of the requested levels (at most three); sections vary one coordinate over its own range and keep the others at the anchor point; drawing a figure does not modify the data it is given.",
     ["inputs", "configurations"],
     "figure kinds, parameter selections and orders, boxes, array forms, interval levels, record lengths and windows",
     "Tests draw no figure and cannot look at one; a wrong axis, label or interval is only visible by reading the drawn objects back.",
     ["gpmp/plot/plotutils.py", "gpmp/modeldiagnosis/plotting.py", "gpmp/mcmc/mh.py", "gpmp/mcmc/nuts.py", "gpmp/mcmc/smc.py", "gpmp/mcmc/svgd.py"],
     [("prediction and section figures", "gpmp/plot/plotutils.py"), ("criterion figures", "gpmp/modeldiagnosis/plotting.py")],
     observe=["drawn curves, patches, labels and scales"])

ORDER = L
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in ORDER:
        f.write(json.dumps(p) + "\n")
print(len(L), "properties")
