#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay readable)."""
import json, os
P = []
S = "include/albatross/src/"
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
      quantifier=dict(over=over, text=" ".join(qtext.split())),
      why_tests_cant=" ".join(why.split()),
      anchors=dict(files=[S+f for f in files],
        mechanism=[dict(name=n, where=S+w) for n, w in mech],
        observe_at=observe, hook_needed=None)))

prop("C01", "Exact GP predictions are the textbook Gaussian conditional",
 """Fitting a Gaussian process with any covariance and mean function to any dataset, and predicting any features, gives exactly the conditional Gaussian
 mean, marginal variances and joint covariance that the prior, the training values and their measurement noise define; the mean-only, marginal and joint predictions agree with each other.
 Predicting features wrapped as measurements adds measurement-only noise while predicting plain features does not, and the mean function is removed before conditioning and added back afterwards.
 Fitting several datasets of different feature types at once is the same as conditioning on all of them, and the reported prior is the distribution of the measurements before any data.""",
 ["inputs", "configurations"], "all covariance/mean combinations, dataset sizes, noise levels, duplicate and far-apart features, feature order",
 "tests compare a handful of fixed toy datasets with loose tolerances; the identity is over every dataset, noise and model composition",
 ["models/gp.hpp", "core/model.hpp", "core/fit_model.hpp", "core/prediction.hpp", "covariance_functions/representations.hpp", "covariance_functions/mean_function.hpp"],
 [("gp_mean_prediction / gp_marginal_prediction / gp_joint_prediction", "models/gp.hpp"), ("_fit_impl", "models/gp.hpp")],
 ["model.fit(..).predict(..).mean()/marginal()/joint()", "model.prior(..)"])

prop("C02", "Updating a fitted GP equals refitting on all of the data",
 """Fitting a Gaussian process on part of the data and updating it, once or several times, with the rest gives the same predictions (mean, marginal and joint) as one fit on all of the data, however the data is split and ordered.
 Reordering the training data or splitting it into different batches never changes any prediction, and updating leaves the original fit untouched.""",
 ["histories", "inputs"], "all splits of a dataset into one fit and a sequence of updates, with and without mean function and measurement noise",
 "one split of one dataset is tested; the guarantee is over every sequence of updates",
 ["models/gp.hpp", "core/fit_model.hpp", "linalg/block_symmetric.hpp"],
 [("_update_impl", "models/gp.hpp"), ("BlockSymmetric", "linalg/block_symmetric.hpp")],
 ["fit_model.update(..).predict(..)"])

prop("C03", "A GP rebuilt from its own prediction reproduces that prediction",
 """A model rebuilt with fit_from_prediction from a joint Gaussian prediction reproduces that prediction's mean and covariance at the same features, for any mean function, including (near) singular prediction covariances.
 When the rebuilt features capture everything the training data says about some query (which needs measurement noise that is independent from datum to datum), the predictions of the rebuilt model at that query equal those of the original model.""",
 ["inputs", "configurations"], "all joint predictions (full and low rank), mean functions, and inducing sets",
 "two fixed examples are tested",
 ["models/gp.hpp", "models/sparse_gp.hpp", "covariance_functions/representations.hpp"],
 [("fit_from_prediction", "models/gp.hpp"), ("ExplainedCovariance", "covariance_functions/representations.hpp")],
 ["model.fit_from_prediction(features, joint).predict(..)"])

prop("C04", "Cross validation predicts each fold from the other folds only",
 """For any grouping of a dataset, cross validated predictions (means, marginals and joints), their scores and the per-fold results equal what a model fitted on the other groups alone would say about the held out group, with results reported in the order of the original dataset.
 The fast leave-one-out and leave-one-group-out shortcuts of Gaussian processes agree with explicitly refitting without the group and predicting the held out measurements, their noise included, as documented.
 Folds partition the data: every held out index appears in exactly one test fold and never in that fold's training data.""",
 ["inputs", "configurations"], "all datasets, all groupings (uneven, singleton, interleaved groups) and all prediction types",
 "fixed toy data and one or two groupers are tested",
 ["evaluation/cross_validation.hpp", "evaluation/cross_validation_utils.hpp", "evaluation/folds.hpp", "models/gp.hpp", "eigen/serializable_ldlt.hpp"],
 [("leave_one_group_out_conditional", "evaluation/cross_validation_utils.hpp"), ("concatenate_*_predictions", "evaluation/cross_validation_utils.hpp")],
 ["model.cross_validate().predict(..)", "cross_validated_scores"])

prop("C05", "Likelihoods equal the Gaussian densities they are named after",
 """The negative log likelihoods (of a residual under a scalar, diagonal, dense or factorised covariance, and of a prediction against a measured truth) equal the exact Gaussian density including constants, and a Gaussian process' log likelihood of a dataset is the log density of the data under the model's measurement prior plus the parameter prior.
 Leave-one-out and leave-one-group-out likelihood metrics equal the sum of the held-out densities, RMSE tuning metrics the mean of the held-out errors per fold, and differential entropy equals that of the Gaussian.""",
 ["inputs", "configurations"], "all residuals, positive definite covariances, datasets, groupings and models",
 "tests use single hand-picked examples or compare the library to itself",
 ["evaluation/likelihood.hpp", "evaluation/differential_entropy.hpp", "evaluation/model_metrics.hpp", "evaluation/prediction_metrics.hpp", "models/gp.hpp"],
 [("negative_log_likelihood", "evaluation/likelihood.hpp"), ("LeaveOneOutLikelihood", "evaluation/model_metrics.hpp"), ("log_likelihood", "models/gp.hpp")],
 ["negative_log_likelihood(..)", "model.log_likelihood(..)", "LeaveOneOutLikelihood{}(dataset, model)"])

prop("C06", "Prediction scores equal their definitions and stay finite",
 """RMSE, standard deviation, chi squared consistency, CRPS, variogram score, energy score and the Wasserstein-2 distance equal their published definitions for any prediction, truth and weights; measured truths count their own uncertainty.
 They are non-negative, never fail for valid (also strongly correlated) distributions, respect the invariances of their definition (translation, reordering of components, scaling), and the energy score (of a positive definite covariance) is deterministic for a given seed and converges to its exact expectation.""",
 ["inputs", "configurations"], "all means, covariances (ill conditioned and perfectly correlated ones included), truths, weights, orders and seeds",
 "unit tests check particular low dimensional examples mostly with unit weights",
 ["evaluation/prediction_metrics.hpp"],
 [("energy_score / variogram_score / crps_normal / wasserstein_2", "evaluation/prediction_metrics.hpp")],
 ["score::*", "distance::wasserstein_2", "RootMeanSquareError, StandardDeviation, ChiSquaredCdf"])

prop("C07", "Sparse GP predictions follow the FITC/PITC equations",
 """A sparse Gaussian process (any grouping, any inducing points, either QR backend) predicts exactly what the dense FITC/PITC equations with those groups, inducing points, mean function and nuggets give, and equals the exact Gaussian process (up to the nuggets) when the inducing points are the training points.
 Updating a sparse fit with new groups equals fitting everything at once, its log likelihood is the density of the data under the approximated prior (with a single group, the exact one), and rebasing onto inducing points or refitting from a prediction reproduces the posterior there.""",
 ["inputs", "histories", "configurations"], "all datasets, groupings, inducing strategies and update sequences",
 "tests use one toy dataset and loose comparisons",
 ["models/sparse_gp.hpp", "linalg/qr_utils.hpp", "linalg/spqr_utils.hpp", "linalg/block_diagonal.hpp"],
 [("compute_internal_components / _fit_impl / _update_impl / log_likelihood", "models/sparse_gp.hpp")],
 ["sparse_gp_from_covariance(..).fit/update/predict/log_likelihood"])

prop("C08", "Covariance functions equal their formulas and give valid covariances",
 """Each built-in covariance function (radial kernels, constants, polynomials, noise, nugget) evaluates to its documented closed form for every pair of features, is symmetric, and yields positive semi-definite matrices for any set of features.
 Covariance and cross-covariance matrices, diagonals and mean vectors are exactly the pairwise evaluations in feature order, whether computed serially or with any thread pool, and setting a parameter by name changes exactly that parameter of that term.""",
 ["inputs", "configurations", "schedules"], "all feature sets (duplicates, large spread, several dimensions), parameter values, and thread counts",
 "a few features and default parameters are tested",
 ["covariance_functions/radial.hpp", "covariance_functions/polynomials.hpp", "covariance_functions/noise.hpp", "covariance_functions/nugget.hpp", "covariance_functions/covariance_function.hpp", "covariance_functions/callers.hpp", "covariance_functions/distance_metrics.hpp", "covariance_functions/representations.hpp"],
 [("squared_exponential_covariance, matern_*", "covariance_functions/radial.hpp"), ("compute_covariance_matrix", "covariance_functions/callers.hpp")],
 ["cov(x, y), cov(xs), cov(xs, ys), cov(xs, pool)"])

prop("C09", "Composed covariance and mean functions follow their algebra",
 """Sums and products of covariance functions evaluate to the sum and product of their terms, scaling functions scale, measurement-only terms contribute only between two measurements, and terms not defined for a feature type contribute nothing to a sum.
 Covariances extend bilinearly to linear combinations of features and dispatch on the held alternative for variant features, in any nesting and regardless of the order of the arguments.
 Mean functions obey the same sum, product, measurement, variant and linear-combination rules, and the call trace names the parts that were evaluated.""",
 ["inputs", "programs"], "all nestings of sums/products/scalings/measurement wrappers over scalar, variant, measurement and linear combination features",
 "the dispatch has a large combinatorial space of callers of which tests visit a few types",
 ["covariance_functions/callers.hpp", "covariance_functions/covariance_function.hpp", "covariance_functions/mean_function.hpp", "covariance_functions/measurement.hpp", "covariance_functions/scaling_function.hpp", "core/linear_combination.hpp", "covariance_functions/call_trace.hpp"],
 [("VariantForwarder / LinearCombinationCaller / MeasurementForwarder / SymmetricCaller", "covariance_functions/callers.hpp"), ("SumOfCovarianceFunctions / ProductOfCovarianceFunctions", "covariance_functions/covariance_function.hpp")],
 ["(a + b * c)(x, y) for wrapped features"])

prop("C10", "Length scales derived from a target reproduce that target",
 """Deriving a length scale from a required increase of the standard deviation (process noise) over a distance gives a kernel which has that process noise over that distance, for every radial kernel and every achievable target, and unachievable targets give a finite positive result.
 A kernel's state space representation covers the range of its features in order at no coarser than the kernel's resolution.""",
 ["inputs", "configurations"], "all distances, variances and targets over many orders of magnitude",
 "tests probe one distance per kernel",
 ["covariance_functions/radial.hpp", "details/traits.hpp"],
 [("derive_*_length_scale, process_noise_equivalent", "covariance_functions/radial.hpp")],
 ["derive_length_scale*, state_space_representation"])

prop("C11", "RANSAC only reports consensus sets that satisfy its rules",
 """Whatever the data and the random draws, RANSAC's reported inliers and outliers are disjoint and cover all groups, every inlier not in the candidate set satisfies the inlier test against the model fitted on that candidate set, and the consensus size and consensus test hold; the model kept is the best scored (lowest) of the accepted iterations and equals a plain fit on its consensus (candidates and inliers).
 Invalid configurations are reported as such and never run, failures and exhausted budgets are reported by the matching return code, and running again gives the same result.""",
 ["inputs", "configurations", "histories"], "all datasets, groupings, configurations and sequences of random draws",
 "a few contaminated datasets with fixed configuration are tested",
 ["models/ransac.hpp", "models/ransac_gp.hpp", "models/conditional_gaussian.hpp"],
 [("ransac()", "models/ransac.hpp"), ("get_gp_ransac_functions", "models/ransac_gp.hpp")],
 ["ransac(..)", "model.ransac(..).fit(..)", "RansacOutput"])

prop("C12", "Least squares, null model and conditional Gaussian are exact",
 """A least squares fit of a full rank design minimises the squared residual (targets of unequal variance being rejected) and predicts from the resulting coefficients; the null model predicts its fixed prior everywhere regardless of data; a conditional Gaussian's fit on any subset of its indices, predicting any other subset, equals dense Gaussian conditioning.
 This holds for every dataset size, noise and subset, and predictions are reported in the requested order.""",
 ["inputs"], "all datasets, design matrices, index subsets",
 "single toy data sets are tested",
 ["models/least_squares.hpp", "models/null_model.hpp", "models/conditional_gaussian.hpp"],
 [("LeastSquares::_fit_impl", "models/least_squares.hpp"), ("ConditionalGaussian", "models/conditional_gaussian.hpp")],
 ["LeastSquares fit/predict", "NullModel", "ConditionalGaussian"])

prop("C13", "Distribution and dataset operations preserve pairing and statistics",
 """Sums, differences, scalar and matrix multiples, subsets, and concatenations of distributions give the exact mean and covariance of the transformed Gaussian, and marginals agree with the joint they came from.
 Subsetting, concatenating, de-duplicating and aligning (features that match at most once) datasets keep every feature paired with its own target mean and variance, in the documented order (de-duplication keeps the last occurrence), losing and inventing nothing.
 Transforming or printing a distribution or dataset never alters its operands and prints to the stream it was given.""",
 ["inputs", "histories"], "all distributions, datasets, index lists (repeats, permutations) and operation sequences",
 "tests check a few fixed vectors",
 ["core/distribution.hpp", "core/dataset.hpp", "core/concatenate.hpp", "core/transformed_distribution.hpp", "indexing/subset.hpp"],
 [("JointDistribution / MarginalDistribution", "core/distribution.hpp"), ("concatenate_datasets / align_datasets", "core/dataset.hpp")],
 ["operators on distributions", "subset/set_subset/concatenate/align_datasets/deduplicate"])

prop("C14", "Grouping and filtering partition data without loss",
 """Grouping a vector or dataset by any function assigns each element to exactly one group in original order, the indexers, counts, keys, first group, min and max agree with the groups, and combining the groups gives back the same elements.
 Filter, apply, index_apply, unique and complement operations and the summaries of grouped values (min, max, first, last, sum, mean, any, all) equal their plain-loop definitions for any input, including empty results and repeated values.""",
 ["inputs", "histories"], "all vectors/datasets, group functions (including single group, all distinct), predicates and chains of operations",
 "a couple of fixed group-bys are tested",
 ["indexing/group_by.hpp", "indexing/filter.hpp", "indexing/apply.hpp", "indexing/subset.hpp", "indexing/unique.hpp"],
 [("Grouped, GroupBy, GroupIndexer", "indexing/group_by.hpp"), ("filter", "indexing/filter.hpp"), ("indices_complement", "indexing/subset.hpp")],
 ["group_by(..).groups()/indexers()/counts()/apply()/combine()", "filter", "unique_values"])

prop("C15", "Parallel apply gives the serial result under every schedule",
 """Applying a function over a vector, map or grouping with any thread pool and any scheduling of its workers calls the function exactly once per element, gives the results of the serial version in the same order, and returns (also when a call throws, in which case an exception of one of the calls reaches the caller) only once all calls have finished.
 Without a pool, or with a pool of at most one thread, everything runs in order on the calling thread.
 Everything built on it (covariance matrices evaluated in blocks that cover all pairs, block solves, inverse blocks, held out predictions, models given a pool) is free of data races and gives the serial result.""",
 ["schedules", "inputs"], "all input sizes, thread counts and worker interleavings (randomised delays), throwing elements",
 "tests run one timing per case",
 ["utils/async_utils.hpp", "indexing/apply.hpp", "covariance_functions/callers.hpp"],
 [("apply(xs, func, pool) / block_range", "utils/async_utils.hpp")],
 ["apply(.., pool)", "apply_map", "partition_triangular"])

prop("C16", "Structured matrix operations equal their dense counterparts",
 """The serializable LDLT (solve, square-root solve, inverse diagonal, inverse blocks, log determinant), block diagonal, block symmetric and explained/explicit inverse representations, and block-wise products, differences and accumulations give the same result as the dense matrices they stand for, for every positive definite matrix (also where pivoting reorders rows), block partition and right hand side shape.
 Truncated solves use exactly the eigen directions above the threshold, stacking and sub-setting of matrices keep every entry in its place, and the conditioning estimate stays within a small factor of the truth.
 Printing the eigen directions of a covariance lists each requested direction once with its own coefficients.""",
 ["inputs"], "all positive definite matrices with any pivoting pattern, block partitions including 1x1 blocks, vector, matrix and sparse right hand sides",
 "fixed random examples that often need no pivoting are tested",
 ["eigen/serializable_ldlt.hpp", "linalg/block_diagonal.hpp", "linalg/block_symmetric.hpp", "linalg/block_utils.hpp", "covariance_functions/representations.hpp", "utils/eigen_utils.hpp", "indexing/block.hpp", "linalg/print_eigen_directions.hpp"],
 [("SerializableLDLT::inverse_diagonal/inverse_blocks/sqrt_solve", "eigen/serializable_ldlt.hpp"), ("block_inner_product", "linalg/block_utils.hpp")],
 ["ldlt.solve/inverse_blocks/...", "BlockDiagonal ops", "truncated_psd_solve"])

prop("C17", "Dense and sparse QR helpers reconstruct and solve the same systems",
 """For any full rank matrix, the permutation, triangular factor, solve, square-root-transpose solve and QᵀB products obtained from a dense or a sparse (SuiteSparse) QR satisfy their defining equations, and both backends agree on every solve.
 Ordering methods and thread settings never change the solution.""",
 ["inputs", "configurations"], "all tall and square matrices, sparsity patterns, right hand sides and ordering methods",
 "tests use a few random matrices",
 ["linalg/qr_utils.hpp", "linalg/spqr_utils.hpp", "eigen/serializable_spqr.hpp", "cereal/suitesparse.hpp"],
 [("get_R, sqrt_solve, get_P", "linalg/qr_utils.hpp"), ("SPQR_create, spqr variants", "linalg/spqr_utils.hpp")],
 ["get_R/get_P/permute_cols/sqrt_solve"])

prop("C18", "Named parameters read back as set, and tuning vectors round trip",
 """Whatever sequence of reads and writes (by name, by map, by value, by tunable vector, through compositions of covariance and mean functions and models whose parameter names are distinct), a parameter reads back the last value and prior set to it, the part it belongs to uses it, others are untouched, and unknown names are rejected (or reported as not set by the if-exists functions).
 Conversion to tunable values and bounds and back is lossless and in a consistent order, skipping fixed parameters and respecting each prior's bounds and log scale; parameters are valid exactly when inside their prior's bounds.
 Copies are independent, and printed parameters show every name and value.""",
 ["histories", "configurations"], "all sequences of parameter operations over nested covariance/mean/model compositions",
 "tests check a few sets and gets on one object",
 ["core/parameters.hpp", "core/parameter_handling_mixin.hpp", "core/parameter_macros.hpp", "covariance_functions/covariance_function.hpp", "models/gp.hpp"],
 [("ParameterHandlingMixin", "core/parameter_handling_mixin.hpp"), ("get_tunable_parameters / set_tunable_params_values", "core/parameters.hpp")],
 ["set_param, get_params, set_params_if_exists, get_tunable_parameters, param_lookup"])

prop("C19", "Priors are normalised densities consistent with their bounds",
 """Each parameter prior's log density equals the logarithm of the named distribution's density (so it integrates to one over its support where it is proper) and is minus infinity outside its support.
 Outside of a prior's bounds the density is zero (up to the epsilon that keeps positive parameters off zero and the far tail of a positive Gaussian) and inside it is positive; log scale and fixed flags, names and equality reflect the prior's actual type and exact arguments.
 A model's prior log likelihood is the sum over its parameters.""",
 ["inputs", "configurations"], "all prior types, arguments and evaluation points",
 "tests evaluate one or two points per prior, or only equality",
 ["core/priors.hpp", "core/parameters.hpp", "stats/gaussian.hpp"],
 [("Prior::log_pdf", "core/priors.hpp")],
 ["prior.log_pdf, lower_bound, upper_bound", "parameter_prior_log_likelihood"])

prop("C20", "Serialised objects load back equal and behave the same",
 """Every serialisable object (parameters, priors, datasets, distributions, dense/sparse/block matrices, factorisations, fits, fitted models, variants, RANSAC results) written to a JSON, binary or portable archive and loaded back equals the original and gives the same predictions (and updates), for any content including extreme and non-finite numbers, and leaves the original unchanged.
 Several objects written to one archive are read back in order without disturbing each other, and truncated input is reported as an error instead of giving a wrong object.""",
 ["inputs", "fault_sequences", "configurations"], "all object shapes and contents, archive types and truncation points",
 "tests use one object per type",
 ["cereal/eigen.hpp", "cereal/dataset.hpp", "cereal/distribution.hpp", "cereal/gp.hpp", "cereal/parameters.hpp", "cereal/priors.hpp", "cereal/variant.hpp", "cereal/suitesparse.hpp", "cereal/serializable_ldlt.hpp", "cereal/representations.hpp", "cereal/ransac.hpp", "cereal/block_utils.hpp", "cereal/least_squares.hpp", "cereal/fit_model.hpp", "cereal/model.hpp"],
 [("save/load overloads", "cereal/eigen.hpp")],
 ["cereal archives of albatross types"])

prop("C21", "Compression round trips bytes and rejects corrupt input",
 """For any byte content, element type and compression level, compressing then decompressing returns exactly the original data, with every overload (strings, vectors, arrays, pointer and size) interoperating.
 The safe decompression entry points return failure, never crash, never write outside the destination and never report success with different content sizes, for truncated, corrupted, empty or foreign input.""",
 ["inputs", "fault_sequences"], "all byte strings, levels and corruptions/truncations of frames",
 "tests use a few sizes and one kind of corruption",
 ["utils/compress.hpp"],
 [("zstd::compress / decompress / maybe_decompress", "utils/compress.hpp")],
 ["zstd::compress, decompress, maybe_decompress"])

prop("C22", "Map helpers behave like plain dictionary operations",
 """Lookup with a default, membership, key and value extraction and joining two maps give exactly what the same operation on an ordinary dictionary gives, for any map type, and the second map wins when both hold a key.
 Differences, symmetric differences, unions, intersections and key subsets of ordered maps hold exactly the keys set theory says, in the map's own order, with the values of the left map unless a merge function (called once per shared key with the left value first) says otherwise.
 Inputs are never modified, and a strict join of overlapping maps or a subset by unsorted keys is rejected instead of giving a wrong answer.""",
 ["inputs", "histories"], "all maps (empty, overlapping, disjoint), keys and operation sequences",
 "tests use maps with two or three entries",
 ["utils/map_utils.hpp"],
 [("map helpers and Grouped", "utils/map_utils.hpp")],
 ["map_at_or, map_keys, map_join, ...", "Grouped"])

prop("C23", "Spanning tree results are optimal forests of the given graph",
 """For any undirected weighted graph (disconnected ones, parallel edges, self loops, ties and negative weights included), the minimum (maximum) spanning tree uses only given edges, has no cycle, and has the least (greatest) total weight among the spanning trees of the component that holds the lightest (heaviest) edge.
 The spanning forests connect exactly what the edges connect with the least (greatest) total weight, one tree per connected component.
 Vertices, membership, adjacency and printing of a graph describe exactly the edges that were added.""",
 ["inputs", "histories"], "all graphs: disconnected, tied, negative, zero weights, dense and sparse, any insertion order",
 "tests use a few small graphs",
 ["graph/minimum_spanning_tree.hpp"],
 [("minimum_spanning_tree / maximum_spanning_tree / forest", "graph/minimum_spanning_tree.hpp")],
 ["minimum_spanning_tree, maximum_spanning_tree, *_forest, Graph"])

prop("C24", "Chebyshev polynomials and bases equal their trigonometric definitions",
 """The Chebyshev polynomials of the first and second kind and the basis matrices built from them equal their trigonometric definitions at any point of [-1, 1] and any degree, column k holding degree k and every point's row being independent of the other points.
 The recurrences and identities between the two kinds hold, and a negative degree is rejected.""",
 ["inputs"], "all degrees, evaluation points (end points included) and numbers of points",
 "tests check a few functions",
 ["polynomial/chebyshev.hpp"],
 [("chebyshev evaluation", "polynomial/chebyshev.hpp")],
 ["albatross/src/polynomial/chebyshev.hpp public functions"])

prop("C25", "Chi squared and incomplete gamma functions are accurate and monotone",
 """The regularised incomplete gamma function and the chi squared distribution function agree with the true values to better than 1e-6, lie in [0, 1], and are (to that accuracy) non-decreasing in the argument and non-increasing in the degrees of freedom, for arguments and degrees of freedom over many orders of magnitude.
 They reach their limits at zero and infinity, and negative or NaN arguments give NaN.
 The consistency test of a residual against a covariance is the chi squared distribution function of its squared Mahalanobis norm, whatever the representation of the covariance, invariant to reordering and rescaling.""",
 ["inputs"], "all arguments and degrees of freedom across many orders of magnitude, covariance matrices and residuals",
 "tests compare on a fixed grid or a few random draws",
 ["stats/chi_squared.hpp", "stats/incomplete_gamma.hpp", "stats/gauss_legendre.hpp"],
 [("incomplete_gamma, chi_squared_cdf", "stats/incomplete_gamma.hpp")],
 ["incomplete_gamma, chi_squared_cdf, chi_squared_consistency_cdf"])

prop("C26", "Statistics and random helpers sample and summarise correctly",
 """The Gaussian density and log density, the uniform Kolmogorov-Smirnov statistic and the Gauss-Legendre tables equal their definitions.
 Random sampling without replacement returns the requested number of distinct, in-range members of the population with every subset equally likely, Gaussian fills and multivariate normal samples follow the requested mean and covariance, random covariances are symmetric positive definite, and evenly spaced grids hit both end points with even spacing.
 All random helpers are reproducible from the state of the given generator.""",
 ["inputs", "configurations"], "all sizes, seeds and distributions",
 "tests check a fixed seed or a few values",
 ["stats/gaussian.hpp", "stats/ks_test.hpp", "stats/gauss_legendre.hpp", "utils/random_utils.hpp", "details/traits.hpp"],
 [("random_without_replacement, random_multivariate_normal", "utils/random_utils.hpp"), ("uniform_ks_test", "stats/ks_test.hpp")],
 ["uniform_ks_test, gaussian::pdf, random_*"])

prop("C27", "Variant, vector and cast helpers preserve values exactly",
 """Converting, extracting and assigning between vectors of variants and vectors of their alternatives (also inside datasets) keeps values, order and pairing, and picks exactly the elements that hold the alternative.
 The any, all and containment helpers equal their plain-loop definitions for any vector including empty ones, and casts between sizes, indices and doubles return the same value whenever it is representable and are rejected when it is not.""",
 ["inputs"], "all vectors including empty, all alternatives, the full range of each integer type",
 "tests use one short vector per helper",
 ["utils/variant_utils.hpp", "utils/vector_utils.hpp", "details/typecast.hpp"],
 [("to_variant_vector, extract_from_variants, set_variants", "utils/variant_utils.hpp"), ("cast::*", "details/typecast.hpp")],
 ["extract_from_variants, to_variant_vector, cast::to_*"])

prop("C28", "The ensemble sampler keeps valid states and targets the density",
 """Whatever the target density, dimension, walker count and random draws, every walker's reported log probability is the density at its own parameters, moves never leave the support, a rejected proposal leaves the walker unchanged, and walkers move along lines through another walker.
 Over many iterations the samples follow the target density, initial walkers are all valid, and every callback sees each iteration once, in order, with states that a later run can be resumed from.""",
 ["histories", "configurations", "inputs"], "all densities with bounded or unbounded support, walker counts, seeds and iteration counts",
 "tests run one chain with one seed and loose tolerances",
 ["samplers/ensemble.hpp", "samplers/initialization.hpp", "samplers/callbacks.hpp", "samplers/state.hpp"],
 [("stretch_move_step / ensemble_sampler", "samplers/ensemble.hpp")],
 ["ensemble_sampler(..)", "callbacks", "initial_params_from_*"])

prop("C29", "Tuning respects bounds and never returns a worse model",
 """Finite difference gradients equal the true derivative inside the bounds and never evaluate outside of them, serially or in parallel.
 Greedy and general tuners return parameters inside their bounds whose objective is no worse than the starting point, leave fixed parameters untouched, and combine metrics over several datasets by the documented aggregation.""",
 ["inputs", "configurations", "histories"], "all objectives, bounds, start points, thread pools, fixed/free parameter mixes",
 "tests tune two smooth functions",
 ["tune/finite_difference.hpp", "tune/greedy_tuner.hpp", "tune/tune.hpp", "tune/tuning_metrics.hpp"],
 [("compute_gradient", "tune/finite_difference.hpp"), ("greedy_tune", "tune/greedy_tuner.hpp"), ("GenericTuner / ModelTuner", "tune/tune.hpp")],
 ["compute_gradient, greedy_tune, get_tuner(..).tune()"])

prop("C30", "CSV output has one aligned row per datum that reads back",
 """Writing any dataset, with or without predictions and extra per-row data, gives one header and one row per datum, every row having exactly the header's columns in the same order and the numbers reading back as the values written.
 Feature, target, variance and prediction columns belong to the same datum on each row, and missing columns are blank rather than shifted.""",
 ["inputs", "configurations"], "all datasets, prediction types, feature serialisers and metadata",
 "tests write one dataset",
 ["utils/csv_utils.hpp"],
 [("write_to_csv / to_map", "utils/csv_utils.hpp")],
 ["write_to_csv(..) text"])

prop("C31", "Equality means the same value, and copies are independent",
 """Every value, fit and model of the library compares equal to itself, to its copies (constructed, assigned, moved) and to one made from the same inputs, and unequal, in both directions, to one which differs in any part that its predictions or meaning depend on (a parameter or prior, a name, an insight, a number, a key, a size).
 Comparing never fails whatever the sizes, and changing a copy leaves the original, its comparisons and its predictions as they were.""",
 ["inputs", "histories"], "all values of all sizes, all single changes, copies and moves, fits, updated and rebuilt fits",
 "tests compare a few equal objects after serialisation",
 ["core/parameters.hpp", "core/priors.hpp", "core/distribution.hpp", "core/dataset.hpp", "core/model.hpp", "core/fit_model.hpp", "eigen/serializable_ldlt.hpp", "covariance_functions/representations.hpp", "linalg/block_symmetric.hpp", "models/ransac.hpp", "indexing/group_by.hpp"],
 [("ModelBase::operator==", "core/model.hpp"), ("SerializableLDLT::operator==", "eigen/serializable_ldlt.hpp")],
 ["operator==, copy and move of the library's types"])

prop("C32", "Fit models answer for exactly their data, however they are asked",
 """For any model, also a user's which defines only some kinds of predictions, fitting, updating (to a new fit, in place, to another type of fit) and predicting in every way the interface offers (of kept or temporary fits, as mean, marginal or joint, with measurement noise, of no features) gives exactly what the model's definitions say for the data it was given so far: a kind which is defined is used as it is, others follow from the most specific one defined.
 Predictions of a temporary fit stay valid, and no operation changes the model, other fits or copies.""",
 ["inputs", "histories", "configurations"], "all models of partial definition, all histories of fits, updates, copies and predictions",
 "tests call one of the ways for one dataset",
 ["core/model.hpp", "core/fit_model.hpp", "core/prediction.hpp", "core/traits.hpp"],
 [("FitModel::update / update_in_place / predict", "core/fit_model.hpp"), ("Prediction::mean / marginal / joint", "core/prediction.hpp")],
 ["model.fit(..), fit.update(..), fit.predict(..).mean()/marginal()/joint()"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            n = p["statement"].count(". ") + 1
            if n > 3: print("too many sentences", p["id"], n)
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
