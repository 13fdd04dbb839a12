"""Static description of each check: backends, sharding, level, bounds."""

BOTH = ["numpy", "torch"]
P = {}


def add(pid, *, level, rule, assumptions=(), backends=BOTH, shards=(1, 2), timeout=(850, 850),
        case_timeout=60):
    P[pid] = dict(level=level, rule=rule, assumptions=list(assumptions), backends=list(backends),
                  shards=shards, timeout=timeout, case_timeout=case_timeout)


def plan(pid, tier):
    p = dict(P[pid])
    k = 1 if tier == "thorough" else 0
    p["shards"] = p["shards"][k]
    p["timeout"] = p["timeout"][k]
    return p


FLOAT = "float64 arithmetic; results are compared with an independent dense reference to stated tolerances"

add("C01", level="exploration", shards=(2, 4),
    rule="kernel x mean x dimension x parameter variant x lattice subset (all in 1-D) x options x solver fault",
    assumptions=[FLOAT, "ill-conditioned systems (condition number above 1e7) are outside the space"])

add("C03", level="exploration", shards=(2, 4),
    rule="kernel x mean x dimension x parameter variant x lattice subset (all in 1-D) x basis of observation vectors x options",
    assumptions=[FLOAT, "ill-conditioned systems (condition number above 1e7) are outside the space"])
add("C04", level="exploration", shards=(2, 4),
    rule="kernel x mean x dimension x parameters x lattice subset (all in 1-D) x basis of observation vectors x failing factorisations",
    assumptions=[FLOAT, "ill-conditioned systems (condition number above 1e7) are outside the space"])
add("C05", level="exploration", shards=(2, 4),
    rule="kernel x mean x dimension x parameters x lattice subset (all in 1-D) x finite-difference steps",
    assumptions=[FLOAT, "derivative accuracy limited by the documented central-difference step"])

NOT_APPLICABLE = {}

add("C07", level="model_checking", shards=(2, 3),
    rule="regularities x distances; covariance call forms on all lattice subsets; all evaluation orders with cache clearing up to length 3 (4 thorough)",
    assumptions=[FLOAT, "point coordinates of order one (the torch distance formula loses accuracy far from the origin)"])

add("C06", level="exploration", shards=(2, 4),
    rule="kernel x mean x dimension x designs x index arrangements x methods; law recovered from every basis vector of the normal draws",
    assumptions=[FLOAT, "standard normal draws of the numerical layer are independent (scripted by the check)"])

add("C02", level="model_checking", shards=(2, 4),
    rule="all call histories of length <= 2 over 19 operations and length 3 over 10 (12 thorough), on two models sharing data, per mean type and backend",
    assumptions=["a fresh model built from the same callables and parameters is the reference for later results"])

add("C13", level="model_checking", shards=(2, 4),
    rule="sizes <= 6 (7) x all shard layouts x batch sizes x flags, all shuffles of <= 4 (5) rows; all histories of length <= 3 over 10 operations and <= 5 (6) over 6 on a loader with two live iterators",
    assumptions=["an abandoned pass does not advance the epoch number"])
add("C14", level="exploration", shards=(1, 2),
    rule="all divisions of <= 6 (7) rows into shards x output shapes; all index subsets; all ratios in tenths x sizes; all (n, k) folds with n <= 13 (19)",
    assumptions=["shards are non-empty when statistics are asked for", "subset indices are in range"])
add("C15", level="exploration", shards=(1, 2),
    rule="all columns of length <= 4 (5) over four values x magnitudes and offsets x scalers; constant and nearly constant columns",
    assumptions=["columns whose spread is at the numerical threshold 1e-8 are outside the space", "deviation with either normalisation convention"])
add("C08", level="model_checking", shards=(2, 4),
    rule="criteria x kernels x means x dimensions x designs x parameters against differences of a dense reference; all call histories of length <= 3 over 14 calls and length 4 over 8 (5 over 7), single and batch, with failing points",
    assumptions=[FLOAT, "numpy delivers no gradient callable; its generic helper uses central differences"])
add("C09", level="fault_enumeration", shards=(3, 4),
    rule="methods x gradient forms x bounds x every placement of <= 2 (3) failing answers among the first evaluations, plus all answer scripts of length 4 (5) over five answers",
    assumptions=["SciPy's optimisers are deterministic", "faults beyond the enumerated evaluation numbers behave alike"])
add("C16", level="model_checking", shards=(2, 4),
    rule="loader geometries x batches per evaluation x reductions x all evaluation histories of length <= 3 (5) over five calls, long cyclic walks; averages over all small loaders",
    assumptions=["unshuffled loaders (shuffled ones are covered by the loader property)"])
add("C12", level="model_checking", shards=(2, 3),
    rule="priors and penalised criteria on parameter grids across every cut-off; all histories of length <= 2 over 43 updates and 3 (4) over 9; all presence patterns of the optional arguments; all small designs",
    assumptions=[FLOAT])
add("C11", level="exploration", shards=(2, 4),
    rule="initial guesses for all usable subsets of small lattices (d = 1..4) x kernels x means x presentations of the data; all shard layouts and batch sizes of five rows; bounds for all small designs with repeated coordinates",
    assumptions=[FLOAT, "designs with a positive range in every coordinate for the guesses"])
add("C10", level="model_checking", shards=(4, 4),
    rule="six procedures x select/update x two dimensions x three data sets x argument patterns x optimiser options x four data sources; all histories of length 2 (3) over ten (eight) procedures on one model; user criteria with a known minimum; invalid calls",
    assumptions=[FLOAT, "a returned point counts as a minimum when a compass search around it gains less than 0.02"], case_timeout=120)
add("C17", level="model_checking", shards=(2, 4),
    rule="all field-length patterns; all histories of length <= 2 over 33 operations and 3 (4) over 11 on four containers with a derived container and a live view; conversions x bounds patterns",
    assumptions=["parameter names are unique when read by name", "bounds are in natural scale, as the bounds test reads them"])
add("C18", level="model_checking", shards=(2, 4),
    rule="environment settings x installed packages in fresh processes; all request histories of length <= 2 (3) over 35 requests and 3 (4) over 9",
    assumptions=["a missing package is modelled by hiding it from the import system"], case_timeout=150)
add("C19", level="exploration", shards=(2, 4),
    rule="every shared function x all vectors of length <= 3 (4) over six values with infinities and not-a-number, cyclic fillings of matrices and cubes, empty shapes x axes and options; linear algebra on a family of matrices",
    assumptions=["NumPy and SciPy on the plain arrays are the reference", "call forms outside the common subset of both façades (positional axis, integer division of a split, sign of indefinite determinants) are outside the space"])
add("C20", level="model_checking", shards=(2, 4),
    rule="all sequences of length <= 2 over 20 random operations x seeds and length 3 (4) over 13 (8), replayed from the same seed with foreign generators in another state; shapes and supports for all sizes <= 7; all zero patterns of probability vectors",
    assumptions=["the distribution of the underlying uniform and normal generators is taken from NumPy and PyTorch"])
add("C21", level="model_checking", shards=(3, 4),
    rule="all scripts of target answers (six kinds) and draws for one chain up to three (four) steps and two chains of two steps, all acceptance patterns up to length six (eight) x window widths, all short state sequences for the convergence statistics, adaptation methods x block layouts x groupings",
    assumptions=["proposals in the enumerated scripts are distinct points", "a draw equal to the density ratio is outside the space"])
add("C22", level="model_checking", shards=(4, 4),
    rule="targets x starting points x momenta x step sizes x masses x slice levels x divergence thresholds; every direction and selection decision of trees of depth <= 2 and a part at 3 (all at 3), with exact probabilities; all warm-up lengths below 1300 (3000); all short acceptance sequences of the step-size adaptation",
    assumptions=["slices and turning points with floating-point ties are outside the space", "numpy gradients are finite differences (orbits are matched within 1e-5)"], case_timeout=150)
add("C30", level="exploration", backends=["numpy"], shards=(2, 4),
    rule="all nodes of two lattices per function over its domain, all selections of <= 3 (4) rows among five in four memory layouts, published minima",
    assumptions=["formulas as documented (the Ishigami coefficients are the documented 5 and 0.1)"])
add("C26", level="exploration", shards=(1, 2),
    rule="means x deviations x observations x all intervals between eight (eleven) limits including infinite and degenerate ones; every mixture of numbers and arrays; shapes; limits per element",
    assumptions=[FLOAT, "deviations are positive", "the lower limit does not exceed the upper one"])
add("C27", level="model_checking", backends=["numpy"], shards=(4, 4),
    rule="dimensions 1..4 (and 9, 60) x sizes <= 6 (8) x boxes; all level lists with <= 4 levels; all candidate sequences of length <= 4 (5) over four candidates; criteria on all multisets of <= 4 lattice points",
    assumptions=["the Latin-hypercube engine of SciPy is replaced by scripted candidates or recorded", "boxes have positive widths"])
add("C28", level="model_checking", shards=(2, 4),
    rule="all operation histories of length <= 2 over 32 operations and 3 (4) over 10 on four tables with a derived table; performance figures for kernels x means x designs x all combinations of seven options; reports over dimensions, parameter variants, bounds and outputs",
    assumptions=[FLOAT, "targets are not constant and predictive variances are positive", "row and column names are distinct when read by name"])
add("C29", level="exploration", shards=(2, 4),
    rule="nine density shapes x six (nine) intervals x additive constants, unbounded intervals, grid sizes; sections and statistics of two criteria x reference points x index lists x intervals x constants x argument sources",
    assumptions=["densities are continuous, with features resolved by adaptive quadrature on the interval", "unimodal sections for the mode"])
add("C23", level="model_checking", shards=(3, 4),
    rule="populations of <= 4 (5) particles: all weight tables over four values, all outcomes of the multinomial part, all density pairs x draws of a move, all histories of length <= 4 (5) over seven operations; all sequences of <= 3 acceptance rates; eight target families x two selection rules x sizes x requested fractions x schemes, whole runs and sequences of targets; subset simulation over tails, boxes, densities and thresholds",
    assumptions=["supports do not grow along a history", "draws and ratios at floating-point ties are outside the space", "the runs of the driver use a fixed generator seed per case"], case_timeout=120)
add("C24", level="exploration", shards=(3, 4),
    rule="all clouds of <= 3 (4) particles on three points in dimensions 1-3, repetitions included, x targets x temperatures x bandwidth rules; every assignment of four kinds of failure to the particles; preconditioners x boxes; runs of 0-3 (5) updates over schedules and histories",
    assumptions=[FLOAT, "numpy derivatives are differences: next to the edge of a box only the bounds and records are compared there"])
add("C25", level="fault_enumeration", shards=(3, 4),
    rule="four samplers x three criteria (one failing on a slab) x four ways of giving it x boxes x temperatures on a lattice of points; all accepted forms of the starting points; short runs of every sampler over dimensions, boxes, sizes and lengths",
    assumptions=["the samplers themselves are covered by their own properties", "runs use a fixed seed per case"], case_timeout=120)
add("C31", level="exploration", shards=(4, 4),
    rule="every selection and order of <= 3 parameters, panels and pooled plots x boxes x names x argument sources; all samples of <= 3 (4) transform values over four; curves over colour schemes x levels x labels x array forms; prediction sections over anchors x dimensions x sizes; sampler figures over chains x parameters x burn-in, particle clouds and logs",
    assumptions=["figures are read from the objects of the plotting library, not from pixels", "at most three interval levels"])
