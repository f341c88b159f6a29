"""Property metadata and the check groups that decide each property (used by check.py and tools/gen.py)."""

RULE = (
    "The public entry points named by the property are abstractly interpreted from their source into a gated-SSA "
    "value graph over symbolic arrays (symbolic dimensions, contents, keys and configuration; every call in the "
    "package is followed, every loop is a loop node, every branch a gate). Each obligation compares the value graph "
    "of the implementation with the graph of a reference formula written in vspec/, after both are normalised "
    "(element-wise polynomial/congruence value numbering), or states a rule over the events recorded along the "
    "graph (raise, draw, key use, write, concretisation). No code of the repository is executed."
)

P = "coreax/"


def prop(title, statement, groups, files, mechanism, text, why, over=("inputs", "configurations"), level_note=None, only=None):
    d = dict(title=title, statement=statement, groups=groups, files=[P + f for f in files],
             mechanism=[dict(name=n, where=P + w) for n, w in mechanism], over=list(over), text=text, why=why,
             note=level_note)
    if only is not None:
        d["only"] = only
    return d


SMALL = ("The tests compare a handful of fixed small arrays and default settings; the claim quantifies over every "
         "array size, content and setting. ")

PROPERTIES = {
    "C01": prop(
        "A coreset is exactly the indexed rows of its data",
        "A coresubset's points are exactly the rows of the data it was built from (supervision included, when the "
        "data has any) at its indices, in index order, and carry the weights of the index record rather than those "
        "of the original rows. A coreset can never be larger than the data it came from, and attempting to build "
        "one raises a ValueError. Weight solving replaces the weights only, leaving points and indices unchanged.",
        ["data:coresets", "data:coreset_too_large"],
        ["coreset.py"],
        [("Coresubset.points", "coreset.py:Coresubset.points"), ("build", "coreset.py:Coresubset.build"),
         ("solve_weights", "coreset.py:AbstractCoreset.solve_weights")],
        "every dataset, supervision, index array (duplicates, any order) and weight vector",
        SMALL + "Index/weight misalignment is invisible with uniform weights or sorted indices."),
    "C02": prop(
        "Data containers keep rows, supervision and weights aligned",
        "Weights default to one per row, scalars broadcast to every row and one-dimensional data is promoted to a "
        "single-column array, as is supervision. Indexing selects the same rows of data, supervision and weights; "
        "normalising preserves the ratios of the weights and makes them sum to one (with an option to leave zeros in place "
        "of NaN when the total is zero). Mismatched numbers of rows of data, supervision or weights are rejected "
        "with a ValueError.",
        ["data:containers", "data:supervised_mismatch"],
        ["data.py"],
        [("Data", "data.py:Data"), ("SupervisedData", "data.py:SupervisedData"), ("as_data", "data.py:as_data")],
        "every row count, dimension, weight specification and index",
        SMALL),
    "C03": prop(
        "Each kernel computes its documented function, symmetrically",
        "Every kernel evaluated at two points gives the value of its documented formula for every choice of its "
        "parameters, and is symmetric in its arguments. Evaluating a kernel on two sets of points gives the "
        "matrix whose (i, j) entry is the kernel of the i-th point of the first set and the j-th of the second, "
        "with single points and one-dimensional inputs promoted consistently.",
        ["kernels:formulas", "kernels:symmetry", "kernels:evaluation"],
        ["kernels/scalar_valued.py", "kernels/base.py"],
        [("compute_elementwise", "kernels/scalar_valued.py"), ("compute", "kernels/base.py:ScalarValuedKernel.compute")],
        "every pair of points, dimension and kernel parameter value",
        SMALL),
    "C04": prop(
        "Kernel gradients and divergences are the true derivatives",
        "For every kernel (and every sum, product, power and tensor product of kernels) the gradient with respect to "
        "the first or second argument equals the derivative of the kernel's own value with respect to that argument, "
        "and the divergence equals the trace of the mixed second derivative. The derivatives evaluated on sets of "
        "points are those of each pair, in the order first index, second index, coordinate.",
        ["kernels:gradients", "kernels:evaluation", "algebra:operators", "algebra:derived"],
        ["kernels/scalar_valued.py", "kernels/base.py"],
        [("grad_x/grad_y/divergence elementwise", "kernels/scalar_valued.py"), ("algebraic kernels", "kernels/base.py")],
        "every pair of points, dimension and kernel parameter value",
        SMALL + "Derivative formulas are only sampled at a few points and parameter values, often with unit scales."),
    "C05": prop(
        "Kernel algebra evaluates as pointwise algebra",
        "Adding, multiplying and raising kernels (with kernels or with numbers, from either side) gives a kernel "
        "whose value is the pointwise sum, product or power of its parts, and a tensor product kernel multiplies "
        "its feature kernel and response kernel values. Invalid operands are rejected rather than "
        "silently accepted.",
        ["algebra:operators", "algebra:derived"],
        ["kernels/base.py"],
        [("operators", "kernels/base.py:ScalarValuedKernel")],
        "every combination of component kernels and inputs",
        SMALL),
    "C06": prop(
        "The Stein kernel is the Langevin Stein operator of its base kernel",
        "The Stein kernel of a base kernel and a score function equals the divergence of the base kernel plus the "
        "inner products of each base gradient with the score at the other argument plus the product of the base "
        "kernel with the inner product of the scores, for every pair of points (one-dimensional inputs included).",
        ["algebra:stein"],
        ["kernels/scalar_valued.py"],
        [("SteinKernel", "kernels/scalar_valued.py:SteinKernel")],
        "every base kernel, score function and pair of points",
        SMALL),
    "C07": prop(
        "Gramian means are the exact weighted means, whatever the block size",
        "The mean of a kernel over one or both of its arguments is the weighted average of the Gram matrix with the "
        "normalised weights of the data, and the Gramian row-mean is the mean over both arguments of one dataset. The result "
        "does not depend on the block size or unrolling used to compute it, including block sizes that do not divide "
        "or that exceed the number of points.",
        ["kernels:means"],
        ["kernels/base.py"],
        [("compute_mean", "kernels/base.py:ScalarValuedKernel.compute_mean"), ("gramian_row_mean", "kernels/base.py:ScalarValuedKernel.gramian_row_mean")],
        "every dataset size, weights, axis, block size and unroll factor",
        SMALL + "Padding and weighting errors cancel for uniform weights or dividing block sizes."),
    "C08": prop(
        "MMD, joint MMD and AMCMD equal their defining formulas",
        "The maximum mean discrepancy between two weighted datasets is the square root of the non-negative part of "
        "the weighted mean of the kernel within each set minus twice that across them; the joint variant uses the "
        "product of the feature and response kernels on pairs. The average maximum conditional mean discrepancy is "
        "the documented regularised conditional-embedding formula averaged over the points of the dataset it is "
        "conditioned on. None of them depends on block sizes or unroll factors.",
        ["metrics:mmd", "metrics:jmmd", "metrics:amcmd"],
        ["metrics.py"],
        [("MMD", "metrics.py:MMD"), ("JMMD", "metrics.py:JMMD"), ("AMCMD", "metrics.py:AMCMD")],
        "every pair of weighted datasets, kernel and configuration",
        SMALL),
    "C09": prop(
        "KSD equals the weighted mean of its Stein kernel",
        "The kernelised Stein discrepancy of a dataset against a reference is the square root of the weighted mean "
        "of the Stein kernel over all pairs of points of the dataset (weighted by its own weights), minus the "
        "documented Laplace and entropic corrections when they are requested, for plain and supervised data alike.",
        ["metrics:ksd"],
        ["metrics.py"],
        [("KSD", "metrics.py:KSD")],
        "every dataset, weights, kernel, score and correction setting",
        SMALL),
    "C10": prop(
        "Weight optimisers solve the documented problems",
        "Both weight optimisers use the Gram matrix of the coreset (with the regularisation added to its diagonal) "
        "and the kernel mean of the full dataset, taken at the coreset points in coreset order: the Bayesian "
        "quadrature optimiser returns the solution of that linear system, the MMD optimiser the minimiser of the "
        "corresponding quadratic programme over the probability simplex, rescaled to sum to one. The result does not depend on "
        "block sizes, and supervised data is rejected with a ValueError.",
        ["weights:optimisers"],
        ["weights.py"],
        [("SBQWeightsOptimiser", "weights.py"), ("MMDWeightsOptimiser", "weights.py"), ("_prepare_kernel_system", "weights.py")],
        "every dataset, coreset, kernel, regularisation and block size",
        SMALL),
    "C11": prop(
        "Regularised least-squares solvers solve the regularised system",
        "Every least-squares solver solves the linear system of the given matrix plus the regularisation times the "
        "given identity, and stacked systems are solved independently of each other. The randomised eigendecomposition "
        "is built from a range finder with the requested power iterations and oversampling, eigenvalues below the "
        "relative cutoff are treated as zero, and invalid settings are rejected with a ValueError.",
        ["weights:least_squares", "validation:numerics"],
        ["least_squares.py"],
        [("MinimalEuclideanNormSolver", "least_squares.py"), ("RandomisedEigendecompositionSolver", "least_squares.py")],
        "every matrix, target, regularisation and configuration",
        SMALL),
    "C12": prop(
        "Kernel herding picks the greedy maximiser at every step",
        "Each step of kernel herding (reduction and refinement) selects the point maximising the kernel mean minus "
        "the running average of kernel similarities to the points already selected, counting refined points "
        "and excluding already selected points when uniqueness is requested. Refinement replaces slots in order "
        "starting from the existing selection, selections are indices of the caller's dataset, and a probabilistic "
        "selection draws from the tempered distribution over the same scores.",
        ["solvers:herding_refine"],
        ["solvers/coresubset.py"],
        [("KernelHerding", "solvers/coresubset.py:KernelHerding"), ("_greedy_kernel_selection", "solvers/coresubset.py")],
        "every dataset, weights, kernel, initial coreset and setting",
        SMALL),
    "C13": prop(
        "Iterative herding repeats refinement with decaying temperature",
        "Iterative kernel herding is the requested number of kernel-herding refinements, each starting from the "
        "previous result with a fresh sub-key and the documented temperature schedule, reusing the same kernel mean.",
        ["solvers:herding_iterative"],
        ["solvers/coresubset.py"],
        [("reduce_iterative", "solvers/coresubset.py:KernelHerding.reduce_iterative")],
        "every dataset, iteration count and setting",
        SMALL),
    "C14": prop(
        "Random sampling draws the requested distribution",
        "A random sample draws exactly the requested number of indices of the dataset, with the data's weights as "
        "probabilities when weighting is requested and uniformly otherwise, without replacement exactly when "
        "uniqueness is requested, and from the key it was given.",
        ["solvers:random_sample"],
        ["solvers/coresubset.py"],
        [("RandomSample", "solvers/coresubset.py:RandomSample")],
        "every dataset, weights, key and setting",
        SMALL),
    "C15": prop(
        "Stein thinning picks the greedy minimiser at every step",
        "Each step of Stein thinning (reduction and refinement) selects the point minimising the Stein kernel "
        "diagonal plus twice the accumulated Stein kernel similarities to the points already selected, minus the documented "
        "regularisation terms, excluding already selected points when uniqueness is requested. Selections are "
        "indices of the caller's dataset, for plain and supervised data alike.",
        ["solvers:stein_thinning"],
        ["solvers/coresubset.py"],
        [("SteinThinning", "solvers/coresubset.py:SteinThinning"), ("_greedy_kernel_selection", "solvers/coresubset.py")],
        "every dataset, weights, kernel, score, initial coreset and setting",
        SMALL),
    "C16": prop(
        "RPCholesky performs randomly pivoted Cholesky",
        "Each step of randomly pivoted Cholesky draws a pivot with probability proportional to the residual "
        "diagonal, subtracts the pivot column's contribution from the residual (clipped at zero), and never picks a "
        "pivot twice when uniqueness is requested. The result holds exactly the requested number of dataset indices.",
        ["solvers:cholesky"],
        ["solvers/coresubset.py"],
        [("RPCholesky", "solvers/coresubset.py:RPCholesky")],
        "every dataset, kernel, key and setting",
        SMALL),
    "C17": prop(
        "Greedy kernel points picks the loss minimiser at every step",
        "Each step of greedy kernel points adds the candidate point that minimises the documented "
        "regularised kernel-ridge loss on the given responses given the points already selected, updates its cached "
        "Gram matrix and identity at the new slot, and respects candidate batching and the uniqueness setting.",
        ["solvers:greedy_points"],
        ["solvers/coresubset.py"],
        [("GreedyKernelPoints", "solvers/coresubset.py:GreedyKernelPoints")],
        "every supervised dataset, kernels, regularisation, batch and initial coreset",
        SMALL),
    "C18": prop(
        "Kernel thinning halves exactly and keeps the best candidate",
        "One round of kernel thinning splits its points pairwise into two disjoint halves, assigning each pair by the "
        "documented probability computed from the square-root kernel and the points assigned so far. The reduction "
        "halves as many times as the requested size allows, adds the documented baseline coreset, keeps the candidate whose "
        "maximum mean discrepancy from the data is smallest, and refines it by replacing each point with the best alternative; it "
        "returns exactly the requested number of indices of the caller's data.",
        ["solvers:thinning_half", "solvers:thinning"],
        ["solvers/coresubset.py"],
        [("KernelThinning", "solvers/coresubset.py:KernelThinning")],
        "every dataset, kernel, size, failure probability and key",
        SMALL),
    "C19": prop(
        "Compress++ composes halving and thinning over the right subsets",
        "Compress++ uses the largest power-of-four prefix structure of the data it documents, recursively compresses its "
        "four quarters by halving, and reduces the result with kernel thinning of the configured "
        "kernels; the coreset's indices and points are those of the caller's dataset, through every level of nesting. A "
        "coreset size or oversampling parameter that is too large for the data raises a ValueError.",
        ["solvers:compress", "solvers:thinning_half", "solvers:thinning"],
        ["solvers/coresubset.py"],
        [("CompressPlusPlus", "solvers/coresubset.py:CompressPlusPlus")],
        "every dataset, kernel, oversampling parameter and key",
        SMALL),
    "C20": prop(
        "MapReduce reduces every partition and keeps dataset indices",
        "A map-reduce solve partitions the data into leaves, reduces every leaf with the base solver, repeats on the union of the "
        "leaf coresets until one leaf remains, and returns the base solver's coreset of that. Padding carries zero "
        "weight, no real data row is lost between the levels, and for coresubset solvers the final indices refer to rows of the "
        "dataset the caller passed in, not to a partition.",
        ["composite:map_reduce"],
        ["solvers/composite.py"],
        [("MapReduce", "solvers/composite.py:MapReduce")],
        "every dataset size, leaf size and base solver",
        SMALL + "Errors in re-indexing only show up with more than one level or a padded last leaf."),
    "C21": prop(
        "Recombination eliminates points while preserving the centre of mass",
        "Each elimination step of Carath\u00e9odory recombination moves the weights along a null vector of the augmented test "
        "matrix by the smallest step that makes a weight zero, so that weights stay non-negative; tree recombination groups "
        "the points, recombines the group centres and rescales the surviving weights. Points of zero weight are discarded or "
        "zeroed as the mode requests, and every returned index is an index of the caller's dataset, of the requested number.",
        ["recombination:caratheodory", "recombination:tree"],
        ["solvers/recombination.py"],
        [("CaratheodoryRecombination", "solvers/recombination.py:CaratheodoryRecombination"),
         ("TreeRecombination", "solvers/recombination.py:TreeRecombination")],
        "every dataset, weights, test functions, mode and tree factor",
        SMALL),
    "C22": prop(
        "Score functions and Stein conversion are built from the data given",
        "The score returned by kernel density matching is the gradient of the logarithm of the Gaussian kernel density "
        "estimate of the data, at every query point (single points and sets of points alike). Converting a kernel to a "
        "Stein kernel keeps the base kernel, uses the score matched to the given data whenever a score-matching method is "
        "given (also when the kernel already is a Stein kernel), keeps an existing score otherwise, and defaults to kernel density matching "
        "with the kernel's own length scale (or one, when it has none).",
        ["score:kde", "score:conversion", "algebra:stein"],
        ["score_matching.py"],
        [("KernelDensityMatching", "score_matching.py:KernelDensityMatching"), ("convert_stein_kernel", "score_matching.py:convert_stein_kernel")],
        "every dataset, length scale, kernel and query point",
        SMALL),
    "C23": prop(
        "Sliced score matching minimises the sliced objective on matching rows",
        "Sliced score matching trains the network by the documented sliced objective (with the analytic variance reduction when "
        "requested), averaged over points and random directions, with the noise levels sigma * gamma^i each weighted by its variance "
        "when noise conditioning is on. Every epoch uses a fresh batch of rows drawn with its own key, pairs each row with its own "
        "random directions, and the returned score is the trained network with its final parameters. Invalid counts are rejected with a ValueError.",
        ["score:sliced_loss", "score:sliced_match", "score:sliced_validation"],
        ["score_matching.py"],
        [("SlicedScoreMatching", "score_matching.py:SlicedScoreMatching")],
        "every dataset, epoch count, batch size, network and noise schedule",
        SMALL + "Training is only tested by convergence on toy distributions."),
    "C24": prop(
        "Approximate kernels are exact except for the regressed row mean",
        "An approximate kernel evaluates, differentiates and diverges exactly as its base kernel. Its Gramian row mean is the "
        "documented least-squares regression: kernel features against the selected points, fitted on the randomly chosen training "
        "rows (without replacement) to the kernel mean at those same rows, and evaluated at every row of the data, in order. Non-positive "
        "numbers of points are rejected with a ValueError.",
        ["approx:row_means", "approx:rejections"],
        ["approximation.py"],
        [("MonteCarloApproximateKernel", "approximation.py"), ("ANNchorApproximateKernel", "approximation.py"),
         ("NystromApproximateKernel", "approximation.py")],
        "every dataset, base kernel, key and number of points",
        SMALL),
    "C25": prop(
        "Shared utilities keep order, rows and sign",
        "Pairwise application gives the function of the i-th point of the first set and the j-th of the second at entry (i, j); squared "
        "distance and difference are those of the two points; padding appends only zero rows to every array of a tree and never "
        "disturbs the rows already there; repeating leaves extends with the last leaf, keeping None; batches are prefixes of independent "
        "permutations; only negative values strictly within the threshold are set to zero; the median heuristic is the square root of half the median squared "
        "distance over distinct pairs.",
        ["utils:pairs", "utils:padding", "utils:sampling"],
        ["util.py", "kernels/util.py"],
        [("pairwise", "util.py:pairwise"), ("tree_zero_pad_leading_axis", "util.py"), ("tree_leaves_repeat", "util.py"),
         ("sample_batch_indices", "util.py"), ("median_heuristic", "kernels/util.py")],
        "every function, array, tree, size and key",
        SMALL),
    "C26": prop(
        "All randomness comes from the caller's key",
        "Every random choice of a solver, weight optimiser, least-squares solver or approximate kernel is drawn with the key it was given or keys "
        "derived from it, so that the same inputs and key always give the same result and no clock, global generator, environment or "
        "object identity is consulted. Each step of the iterative solvers (every pivot of RPCholesky, every refinement of iterative herding, every "
        "candidate batch of greedy kernel points, every halving of kernel thinning, every training epoch) draws with its own derived key.",
        ["rules:deterministic", "rules:keyed", "solvers:random_sample", "solvers:cholesky", "solvers:herding_iterative", "solvers:greedy_points", "solvers:thinning_half",
         "solvers:thinning", "weights:least_squares", "approx:row_means", "score:sliced_match", "utils:sampling"],
        ["solvers/coresubset.py", "approximation.py", "least_squares.py", "score_matching.py", "util.py"],
        [("random keys", "solvers/coresubset.py"), ("sample_batch_indices", "util.py:sample_batch_indices")],
        "every key, dataset and configuration",
        SMALL + "Key reuse or a constant key leaves every sampled test passing."),
    "C27": prop(
        "No function changes its arguments or shared state",
        "Kernels, metrics, solvers, weight optimisers and data containers never write to the arrays, lists or objects they are given, nor to "
        "module-level state: calling them twice with the same inputs gives the same results, in any order and interleaving with other calls.",
        ["rules:pure", "rules:deterministic"],
        ["solvers/coresubset.py", "solvers/composite.py", "solvers/recombination.py", "kernels/base.py", "metrics.py", "weights.py", "data.py", "util.py"],
        [("whole package", "util.py")],
        "every call history",
        "Tests build fresh objects for every case, so state shared between calls is never observed."),
    "C28": prop(
        "Computations can be traced and compiled",
        "Kernels, metrics, weight optimisers, least-squares solvers, solvers and score functions take no Python-level decision (branch, "
        "conversion to a Python number, host numpy call, data-dependent shape) on the contents of arrays, weights or keys, so they can be used "
        "under jit, vmap and scan for any inputs; the explicit-size mode of recombination is the documented exception.",
        ["rules:traceable"],
        ["solvers/coresubset.py", "solvers/composite.py", "solvers/recombination.py", "kernels/base.py", "metrics.py", "weights.py", "least_squares.py"],
        [("whole package", "solvers/coresubset.py")],
        "every input, weights, state and configuration",
        "Tests compile a few entry points in their default configuration only."),
    "C29": prop(
        "Invalid settings are rejected, valid ones accepted",
        "Kernels reject exactly non-positive scales, negative constants and out-of-range degrees, powers, weightings or indices with a ValueError and non-kernel components "
        "with a TypeError; solvers reject non-positive coreset sizes and, when run, sizes larger than the dataset, and accept every size up to it; unknown "
        "recombination modes, map-reduce leaves not larger than the coreset, base solvers without explicit size, negative regularisation and invalid least-squares settings "
        "are rejected with a ValueError when the object is built.",
        ["validation:kernels", "validation:solvers", "validation:oversize", "validation:numerics", "score:sliced_validation", "approx:rejections",
         "data:supervised_mismatch", "data:coreset_too_large", "utils:padding", "utils:sampling"],
        ["kernels/scalar_valued.py", "kernels/base.py", "solvers/base.py", "solvers/composite.py", "solvers/recombination.py", "solvers/coresubset.py", "least_squares.py", "metrics.py"],
        [("__check_init__", "kernels/scalar_valued.py"), ("coreset size", "solvers/base.py:ExplicitSizeSolver")],
        "every parameter value, boundary values included",
        SMALL),
    "C30": prop(
        "Every solver returns the requested number of the caller's own rows",
        "Every coresubset solver returns exactly the requested number of indices (recombination: at most as many as test functions plus one), each "
        "a row number of the dataset the caller passed in (not of a padded, sorted, partitioned or subsampled copy), together with that very dataset, supervision and "
        "weights included; the coreset's points are those rows.",
        ["solvers:herding_refine", "solvers:herding_iterative", "solvers:random_sample", "solvers:stein_thinning", "solvers:cholesky", "solvers:greedy_points",
         "solvers:thinning_half", "solvers:thinning", "solvers:compress", "composite:map_reduce", "recombination:caratheodory", "recombination:tree",
         "data:coresets", "validation:oversize"],
        ["solvers/coresubset.py", "solvers/composite.py", "solvers/recombination.py", "coreset.py"],
        [("Coresubset", "coreset.py:Coresubset"), ("reduce", "solvers/coresubset.py")],
        "every dataset, supervision, weights, key and configuration",
        SMALL),
    "C31": prop(
        "Refinement and cached solver state agree with a fresh solve",
        "Reducing a dataset equals refining from the documented empty starting point, refinement keeps the selection made so far for the slots it does "
        "not replace, and passing back a solver state gives exactly what recomputing that state from the dataset would, for every solver that has one "
        "(kernel herding, RPCholesky, greedy kernel points); the state returned is the one that was used.",
        ["solvers:herding_refine", "solvers:herding_iterative", "solvers:stein_thinning", "solvers:cholesky", "solvers:greedy_points"],
        ["solvers/coresubset.py"],
        [("HerdingState", "solvers/coresubset.py:HerdingState"), ("RPCholeskyState", "solvers/coresubset.py:RPCholeskyState"),
         ("GreedyKernelPointsState", "solvers/coresubset.py:GreedyKernelPointsState")],
        "every dataset, initial coreset, state and configuration",
        SMALL),
    "C32": prop(
        "Zero-weighted rows carry no influence",
        "Rows of zero weight (padding in particular) contribute nothing to kernel means, MMD or recombined weights, are never selected by kernel herding or Stein thinning "
        "while a row of positive weight is available, nor by weighted random sampling, and the padding added by block-wise evaluation and map-reduce is always zero-weighted.",
        ["kernels:means", "metrics:mmd", "solvers:herding_refine", "solvers:stein_thinning", "solvers:random_sample", "composite:map_reduce", "utils:padding",
         "recombination:caratheodory", "recombination:tree", "data:containers"],
        ["kernels/base.py", "kernels/util.py", "solvers/coresubset.py", "solvers/composite.py", "util.py"],
        [("_block_data_convert", "kernels/util.py"), ("_greedy_kernel_selection", "solvers/coresubset.py"), ("MapReduce", "solvers/composite.py")],
        "every weighted dataset, block size and configuration",
        SMALL),
}


def na(title, statement, files, mechanism, text, why, reason, over=("inputs", "configurations")):
    d = prop(title, statement, [], files, mechanism, text, why, over)
    d["reason"] = reason
    return d


NOT_APPLICABLE = {
    "N01": na(
        "Coresets approximate the full dataset better than random samples",
        "The discrepancy between a solver's coreset and the full dataset is, for realistic data, smaller than that "
        "of a uniform random sample of the same size.",
        ["solvers/coresubset.py", "solvers/recombination.py"],
        [("greedy selection", "solvers/coresubset.py")],
        "every dataset of a realistic class", "Quality is a statistical statement over data distributions.",
        "It quantifies over the runtime data distribution; no static argument bounds a discrepancy value."),
    "N02": na(
        "Optimised weights satisfy their constraints to solver tolerance",
        "Weights returned by the constrained optimisers are non-negative and sum to one up to the tolerance of the "
        "underlying quadratic-programme solver.",
        ["weights.py"], [("solve_qp", "weights.py")],
        "every Gram matrix and kernel mean", "Convergence depends on conditioning, which tests only sample.",
        "Convergence of an iterative third-party solver (jaxopt OSQP) in floating point is a runtime quantity outside "
        "the source of this repository; the problem handed to it is decided under C10."),
    "N03": na(
        "Results are numerically accurate and free of overflow",
        "Kernel, metric and least-squares results stay finite and accurate for ill-conditioned or extreme inputs.",
        ["kernels/scalar_valued.py", "metrics.py", "least_squares.py"],
        [("precision threshold", "util.py:apply_negative_precision_threshold")],
        "every floating-point input", "Rounding depends on magnitudes no test enumerates.",
        "Rounding and overflow of compiled XLA arithmetic depend on runtime magnitudes and on the compiler; the "
        "analysis works over real arithmetic."),
    "N04": na(
        "Kernels are positive semi-definite",
        "The Gram matrix of every kernel on every finite set of points is positive semi-definite.",
        ["kernels/scalar_valued.py"], [("compute_elementwise", "kernels/scalar_valued.py")],
        "every finite point set", "No finite sample shows semi-definiteness.",
        "Positive definiteness is an analytic theorem (Bochner) about the formula, not a dataflow fact; the formula "
        "itself is decided under C03."),
    "N05": na(
        "Recombined coresets preserve the centre of mass to the stated tolerance",
        "The weighted mean of the test functions over the recombined coreset equals that over the dataset up to "
        "floating-point tolerance.",
        ["solvers/recombination.py"], [("null-space elimination", "solvers/recombination.py")],
        "every dataset and test functions", "Depends on the numerical rank of the data.",
        "It rests on the numerical null space computed by an SVD at run time; the elimination steps that use it are "
        "decided under the recombination property."),
}
