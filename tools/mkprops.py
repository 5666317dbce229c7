"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
import os

I, H, C = "inputs", "histories", "configurations"
FS, CP = "fault_sequences", "crash_points"


def P(pid, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": t.strip(), "meaning": t.strip(), "where": files[0]} for t in state.split(",")]
    if observe:
        a["observe_at"] = [observe]
    return {
        "id": pid,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": a,
    }


PROPS = [
    P(
        "P01",
        "Predictions are the exact kriging posterior",
        "For every design, response vector, covariance parameter vector and mean type (zero, known parametric, unknown linear combination of basis functions), the predicted mean, variance and full posterior covariance at any targets equal the Gaussian conditional (zero or known mean) or the best linear unbiased predictor (unknown linear mean) implied by the same mean and covariance functions. "
        "At an observed point the prediction returns the observed value with (numerically) zero variance, and reported variances are never negative. "
        "Every accepted way of passing the data (flat or column responses, plain or backend arrays, one or many targets, kernels that are only conditionally positive definite) gives the same answer.",
        [I, C],
        "all designs, responses, targets, mean functions, covariance functions and parameters for which the kriging system is well posed; both numerical backends",
        "A test fixes one dataset and one model; agreement must hold for every dataset, dimension, smoothness, mean basis and target layout, including the fallback path taken only when the block system cannot be solved.",
        ["gpmp/core/kriging.py", "gpmp/core/model.py", "gpmp/core/utils.py"],
        [
            ("zero-mean kriging", "gpmp/core/kriging.py:kriging_predictor_with_zero_mean"),
            ("universal kriging block system", "gpmp/core/kriging.py:kriging_predictor"),
            ("nullspace fallback", "gpmp/core/kriging.py:_kriging_predictor_nullspace"),
            ("mean handling and post-processing", "gpmp/core/model.py:Model.predict"),
        ],
        observe="Model.predict, Model.kriging_predictor, Model.kriging_predictor_with_zero_mean",
    ),
    P(
        "P02",
        "Kriging obeys its algebraic invariances",
        "Predicting is linear in the responses, equals the returned weights applied to the (centred) responses, and commutes with permuting observations, permuting, duplicating or batching targets, rescaling the responses with the variance, translating or rescaling the inputs with the length scales, and swapping input coordinates together with their length scales. "
        "With an unknown linear mean the weights reproduce every basis function exactly, so adding any combination of basis functions to the responses shifts the prediction by that combination and leaves the variance unchanged. "
        "Adding an observation never increases the predictive variance, which never exceeds the prior variance for a zero or known mean, and the posterior covariance matrix is symmetric, positive semi-definite and has the reported variances on its diagonal.",
        [I, C],
        "all well-posed designs, responses, targets, parameters and transformations of them",
        "These are relations between pairs of runs over all inputs; a finite list of expected outputs cannot state them.",
        ["gpmp/core/kriging.py", "gpmp/core/model.py"],
        [
            ("kriging weights", "gpmp/core/kriging.py:kriging_predictor"),
            ("posterior variance", "gpmp/core/kriging.py:_compute_posterior_variance"),
        ],
        observe="Model.predict(return_lambdas=True), Model.kriging_predictor(return_type)",
    ),
    P(
        "P03",
        "Leave-one-out equals refitting without the point",
        "For every mean type, dataset and covariance parameters, the leave-one-out prediction and variance at each observation equal those obtained by actually predicting that observation from all the others with unchanged parameters. "
        "The leave-one-out error is the observed value minus the leave-one-out prediction, for every observation and in the order of the data.",
        [I, C],
        "all datasets (any size, dimension, ordering), mean types, covariance parameters; both backends",
        "The closed-form shortcut has to agree with n separate refits for every dataset; a test pins a few numbers.",
        ["gpmp/core/loo.py", "gpmp/core/linalg.py", "gpmp/core/model.py"],
        [
            ("virtual cross-validation, zero/known mean", "gpmp/core/loo.py:_loo_with_zero_mean"),
            ("contrast-space LOO", "gpmp/core/loo.py:_loo_with_linear_predictor_mean_cpd"),
            ("diagonal of the inverse", "gpmp/core/linalg.py:diag_Kinv_from_chol"),
        ],
        observe="Model.loo",
    ),
    P(
        "P04",
        "Likelihood criteria are the exact Gaussian log-densities",
        "The likelihood criterion equals minus the log-density of the responses under the Gaussian model, and the restricted likelihood equals minus the log-density of any orthonormal set of contrasts, including every constant. "
        "The restricted criterion and the associated norms are unchanged when a combination of mean basis functions is added to the responses or when the basis is replaced by an equivalent one, and all criteria are unchanged by reordering the data. "
        "When the covariance matrix cannot be factorised the criterion is plus infinity on both backends instead of an exception or NaN.",
        [I, C],
        "all datasets, mean functions, covariance functions and parameters, including parameters for which the covariance matrix is numerically singular",
        "A wrong constant, a dropped determinant term or a mis-sized contrast space shifts or distorts the criterion only for some data shapes; tests never compare the value with an independent density.",
        ["gpmp/core/likelihood.py", "gpmp/core/linalg.py"],
        [
            ("ML", "gpmp/core/likelihood.py:negative_log_likelihood_zero_mean"),
            ("REML", "gpmp/core/likelihood.py:negative_log_restricted_likelihood"),
            ("norms", "gpmp/core/linalg.py:norm_k_sqrd, k_inverses"),
        ],
        observe="Model.negative_log_*, Model.norm_k_sqrd*, Model.k_inverses",
    ),
    P(
        "P05",
        "Criterion gradients and Fisher information are true derivatives",
        "For every criterion, dataset and parameter vector, the gradient returned after an evaluation is the derivative of the criterion at that parameter vector, and for a criterion on the full data asking for it at a point that was not evaluated is refused rather than answered with a stale value. "
        "The Fisher information matrix is symmetric, positive semi-definite and equals the expected information of the Gaussian model (in contrast space for an unknown linear mean).",
        [I, H],
        "all criteria, parameter vectors, datasets, and all interleavings of evaluations and gradient requests",
        "Optimisers converge acceptably with slightly wrong gradients, so example tests pass; only comparison with an independent derivative at many points settles it.",
        ["gpmp/num/torch_backend.py", "gpmp/num/numpy_backend.py", "gpmp/num/shared.py", "gpmp/core/fisher.py", "gpmp/kernel/parameter_selection.py"],
        [
            ("evaluate/gradient protocol", "gpmp/num/torch_backend.py:DifferentiableSelectionCriterion"),
            ("finite differences", "gpmp/num/shared.py:derivative_finite_diff"),
            ("Fisher information", "gpmp/core/fisher.py"),
        ],
        state="last evaluated parameter and value",
        observe="make_selection_criterion_with_gradient, gnp.grad, gnp.value_and_grad, Model.fisher_information*",
    ),
    P(
        "P06",
        "Covariance functions are the documented positive-definite kernels",
        "The half-integer Matérn kernels equal the Bessel-function Matérn correlation for every smoothness index and distance, decrease from 1 at distance 0 towards 0 without NaN however large the distance, and the covariance equals the variance times the kernel of the length-scale-weighted distance. "
        "Covariance matrices are symmetric and positive semi-definite, the cross-covariance, same-points and element-wise forms agree with one another up to the documented tiny diagonal nugget, and the value does not depend on which kernels were evaluated earlier in the process.",
        [I, H, C],
        "all smoothness indices, point sets (including duplicates and coincident points), anisotropic parameters and call histories",
        "Errors in one coefficient of one smoothness order, in one call form or in the growing coefficient table only show for particular orders and call sequences.",
        ["gpmp/kernel/matern.py", "gpmp/kernel/exponential.py", "gpmp/num/shared.py", "gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py"],
        [
            ("Matérn polynomial", "gpmp/kernel/matern.py:maternp_kernel"),
            ("scaled distances", "gpmp/num/*_backend.py:scaled_distance, scaled_distance_elementwise, cdist"),
            ("coefficient cache", "gpmp/num/shared.py:compute_gammaln"),
        ],
        state="cached log-gamma table",
        observe="kernel.maternp_kernel, matern32_kernel, exponential_kernel, maternp_covariance",
    ),
    P(
        "P07",
        "Simulated paths have the model law and honour the data",
        "Unconditional sample paths are centred Gaussian vectors with the model covariance at the requested points, for both factorisation methods, any number of paths and duplicated points allowed by the method. "
        "Conditioning a set of paths on observations makes every path pass through the observed values at observed points and yields paths whose mean and covariance are the kriging posterior mean and covariance at the other points, whatever the mean type, the index order or overlap of observation and target indices.",
        [I, C],
        "all designs, index subsets and orders, mean types, seeds, path counts",
        "The law of a random output and an affine identity in all index arrangements are not visible in a single seeded run.",
        ["gpmp/core/sample_paths.py"],
        [
            ("sampling", "gpmp/core/sample_paths.py:sample_paths"),
            ("conditioning by kriging", "gpmp/core/sample_paths.py:conditional_sample_paths, conditional_sample_paths_parameterized_mean"),
        ],
        observe="Model.sample_paths, Model.conditional_sample_paths*",
    ),
    P(
        "P08",
        "Parameter selection never returns a worse point than it visited",
        "Every selection or update procedure returns parameters whose criterion value is no worse than at the starting point and at any point visited during the search, lies inside the requested (or automatic) bounds, and is stored in the model. "
        "The diagnostics returned with it are truthful: the reported optimum value, start, bounds and history agree with re-evaluating the criterion the procedure documents, including its prior and the prior hyper-parameters that were passed.",
        [I, H, C],
        "all datasets, starting points, bounds, optimisers, criteria (likelihood, restricted likelihood, penalised variants), also when the criterion is infinite or fails on part of the domain",
        "A search that returns the last rather than the best point, or optimises a slightly different criterion, still gives plausible fits on the example data.",
        ["gpmp/kernel/parameter_selection.py", "gpmp/kernel/prior_helpers.py"],
        [
            ("search wrapper with history", "gpmp/kernel/parameter_selection.py:autoselect_parameters"),
            ("selection procedures", "gpmp/kernel/parameter_selection.py:select_parameters_with_*, update_parameters_with_*"),
            ("prior anchors", "gpmp/kernel/prior_helpers.py:resolve_covparam0_*, resolve_logsigma2_logrho_prior_args"),
        ],
        state="best visited parameters and value",
        observe="returned model parameters and info object",
    ),
    P(
        "P09",
        "Priors and penalised criteria have their documented shape",
        "Each prior on the covariance parameters has the documented form for every parameter vector and hyper-parameter: linear in the log-variance, Gaussian with the calibrated coverage, decreasing outside the soft cut-offs, infinite at or below the minimal length scale with its mode exactly at the reference length scale. "
        "Each penalised criterion equals the restricted likelihood minus its log-prior, using the explicitly passed hyper-parameters when given and the current process-wide defaults otherwise, and invalid hyper-parameters are rejected without changing the defaults.",
        [I, H],
        "all covariance parameters, hyper-parameters, and sequences of default changes",
        "The regularisation only matters far from the data-dominated region, so sign or cut-off errors leave the example fits unchanged.",
        ["gpmp/kernel/priors.py", "gpmp/kernel/prior_defaults.py", "gpmp/kernel/prior_helpers.py"],
        [
            ("priors", "gpmp/kernel/priors.py"),
            ("default hyper-parameters", "gpmp/kernel/prior_defaults.py"),
            ("minimal length scale", "gpmp/kernel/prior_helpers.py:compute_logrho_min_from_xi"),
        ],
        state="process-wide default hyper-parameters",
        observe="log_prior_*, neglog_f_logrho, neg_log_restricted_posterior_*, compute_logrho_min_from_xi",
    ),
    P(
        "P10",
        "Both numerical backends give the same results",
        "The same model, data and sequence of operations gives the same numbers (up to stated rounding) with the NumPy and the PyTorch backend: covariance matrices, predictions, leave-one-out, criteria and their gradients, priors, initial guesses, bounds, data statistics, selected parameters' criterion values, performance metrics, scoring rules and parameter containers. "
        "When one backend rejects an input or reports an infinite criterion the other one does too; only the random streams differ, so shuffled results agree in sizes and coverage.",
        [I, C],
        "all models, data and operations available on both backends",
        "Each test process uses one backend, so disagreement between the two is never observed.",
        ["gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/core", "gpmp/kernel", "gpmp/dataloader.py"],
        [("backend dispatch", "gpmp/num/__init__.py")],
        observe="same public calls in two processes",
    ),
    P(
        "P11",
        "The numerical layer follows one array semantics on both backends",
        "Every routine of the backend-neutral numerical layer used to write models (element-wise functions, reductions, sorting, splitting, statistics, factorisations and triangular, Cholesky and general solves, distances, Gaussian densities) returns on each backend what NumPy/SciPy define for the same call, for all shapes and values it accepts, where axes and boundary rules are given explicitly if the libraries' own defaults differ. "
        "Random routines return values of the requested shape with the documented law.",
        [I, C],
        "all routines of the numerical layer, shapes, axes and values",
        "Custom user models rely on any routine, axis or option; the shipped tests only exercise those the examples need.",
        ["gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/num/shared.py"],
        [("torch wrappers", "gpmp/num/torch_backend.py"), ("numpy wrappers", "gpmp/num/numpy_backend.py")],
        observe="gpmp.num functions",
    ),
    P(
        "P12",
        "Datasets, splits and loaders partition the data exactly",
        "For every dataset (single or sharded), splitting, subsetting and k-fold procedures produce disjoint, jointly exhaustive pieces whose rows keep the right inputs paired with the right responses. "
        "For every batch size, shuffle, drop-last, seed and sequence of epochs, one pass of a loader yields each row exactly once (except a dropped incomplete last batch), in batches of the announced sizes and number, reproducibly for a given seed and epoch and independently of other iterators. "
        "Indexing, iteration, length and statistics agree with those of the concatenated arrays.",
        [I, H, C],
        "all dataset sizes, shardings, batch sizes, seeds and iteration histories",
        "Off-by-one and mispairing errors need particular size/batch/shard combinations or repeated epochs.",
        ["gpmp/dataloader.py"],
        [("dataset", "gpmp/dataloader.py:Dataset"), ("loader", "gpmp/dataloader.py:DataLoader")],
        state="epoch counter, shards",
        observe="Dataset and DataLoader public methods",
    ),
    P(
        "P13",
        "Mini-batch criteria aggregate exactly the batches they visit",
        "A criterion evaluated through a loader equals the batch-size-weighted mean (or sum) of the per-batch criterion over exactly the batches of one pass, or over exactly the requested number of consecutive batches, continuing where the previous evaluation stopped and wrapping around at the end. "
        "Its gradient is the gradient of that same value over the same batches, and with a single full batch it equals the criterion on the whole arrays.",
        [I, H, C],
        "all loaders, batch sizes (including uneven last batches), batches per evaluation, reductions and sequences of value and gradient calls",
        "Wrong weights only show with uneven batches, and cursor errors only after several evaluations.",
        ["gpmp/num/torch_backend.py", "gpmp/num/numpy_backend.py", "gpmp/kernel/parameter_selection.py", "gpmp/dataloader.py"],
        [("batch criterion", "gpmp/num/*_backend.py:BatchDifferentiableSelectionCriterion")],
        state="batch iterator position, cached gradient",
        observe="make_selection_criterion_with_gradient(dataloader=...)",
    ),
    P(
        "P14",
        "Scalers invert exactly and normalise as documented",
        "Fitting a scaler and transforming the fitted data gives the documented location and scale per column (zero mean and unit deviation, median and interquartile range, unit interval), and undoing the transform restores any data, including columns that are constant. "
        "Transforms are affine and the same for every row, so predictions made on scaled responses map back to the original scale by the inverse transform (means) and the squared scale (variances).",
        [I, H],
        "all data matrices, columns with zero spread, one or many columns, repeated fits",
        "Constant columns, single rows, refits and variance back-transforms are exactly the cases tests leave out.",
        ["gpmp/dataloader.py"],
        [("scalers", "gpmp/dataloader.py:Normalizer, RobustScaler, MinMaxScaler, ObservationScaler")],
        state="fitted location and scale",
        observe="fit/transform/inverse_transform",
    ),
    P(
        "P15",
        "Parameter containers keep values, names and transforms consistent",
        "After any sequence of reads, writes, slices, selections and concatenations, every entry keeps its name, path, normalisation and bounds, writing through one access path is visible through all others, and no other entry changes. "
        "Natural-scale and normalised values are inverse images of each other for every normalisation, bounds checks report exactly the entries outside their bounds, and writes to unknown names or with inconsistent lengths are refused.",
        [I, H],
        "all parameter layouts and sequences of operations",
        "The container is a small state machine with several aliases to each value; only sequences reveal stale or shifted entries.",
        ["gpmp/parameter/param.py"],
        [("container", "gpmp/parameter/param.py:Param"), ("builders", "gpmp/parameter/param.py:make_anisotropic_param, param_from_covparam_anisotropic*")],
        state="values, paths, normalisations, names, bounds",
        observe="Param public methods",
    ),
    P(
        "P16",
        "Scoring rules equal the integrals they stand for",
        "The closed-form CRPS, threshold-weighted CRPS and expected-improvement moments of a Gaussian prediction equal their defining integrals for every mean, deviation, observation and interval, including infinite bounds and degenerate orderings. "
        "They are non-negative where defined so, the truncated score adds up over adjacent intervals to the full score, and scores are translation invariant and scale with the unit of the data.",
        [I],
        "all means, deviations, observations, thresholds and intervals",
        "Branches for the position of the observation relative to the interval need systematic generation against numerical integration.",
        ["gpmp/misc/scoringrules.py"],
        [("scores", "gpmp/misc/scoringrules.py")],
        observe="crps_gaussian, tcrps_gaussian, ei1_up, ei2_up",
    ),
    P(
        "P17",
        "Designs fill the requested box and their criteria are exact",
        "Every design generator returns the requested number of points inside the requested box; Latin hypercubes have exactly one point per stratum in each coordinate and optimising for distance keeps that structure; regular grids contain every combination exactly once. "
        "Distance criteria, discrepancy and the fill-distance approximation equal their definitions, and scaling maps the unit cube onto the box in each coordinate.",
        [I, C],
        "all dimensions, sizes, boxes and random states",
        "Only generated sizes and boxes expose wrong strata, swapped coordinates or bounds.",
        ["gpmp/misc/designs.py"],
        [("designs", "gpmp/misc/designs.py")],
        observe="regulargrid, randunif, ldrandunif, maximinlhs, maximinldlhs, maxdist, mindist, discrepancy, filldist_approx, scale",
    ),
    P(
        "P18",
        "Metropolis-Hastings chains are consistent and leave the target invariant",
        "For every target and proposal, each recorded state is either the previous state or an accepted proposal, the recorded log-density is that of the recorded state, accept flags and rates match the moves, and states of zero density are never entered. "
        "With a fixed proposal one transition leaves the target distribution unchanged, and the convergence and rate diagnostics equal their definitions on the stored chains.",
        [I, H, C],
        "all targets (bounded, multimodal, heavy tailed), proposal scales, numbers of chains, block structures, chain lengths, burn-in and adaptation settings, seeds",
        "Invariance is a statement about the distribution of the output; bookkeeping errors show only for particular rejection patterns.",
        ["gpmp/mcmc/mh.py"],
        [("transition", "gpmp/mcmc/mh.py:MetropolisHastings.mhstep"), ("scheduling and adaptation", "gpmp/mcmc/mh.py:MetropolisHastings.scheduler"), ("diagnostics", "gpmp/mcmc/mh.py:compute_sliding_rates, compute_gelman_rubin_rhat")],
        state="chains, acceptance, log-target values, proposal scale",
        observe="chain arrays after runs",
    ),
    P(
        "P19",
        "NUTS integrates reversibly and leaves the target invariant",
        "The leapfrog integrator is time-reversible and volume preserving and conserves energy to second order; tree building stops on the documented turning criterion and only visits states on one leapfrog trajectory through the start. "
        "One transition with the default divergence threshold, started from the target, leaves it unchanged, including for targets with bounded support or steep curvature; sampling is reproducible for a seed, returns the requested number of draws, and reported log-densities, acceptance and depth statistics match the draws.",
        [I, H, C],
        "all smooth targets, step sizes, mass matrices, tree depths, seeds",
        "Sampler correctness is distributional, and errors in the multinomial weights or stopping rule bias results without failing any example.",
        ["gpmp/mcmc/nuts.py"],
        [("leapfrog", "gpmp/mcmc/nuts.py:leapfrog"), ("tree", "gpmp/mcmc/nuts.py:build_tree"), ("transition", "gpmp/mcmc/nuts.py:nuts_transition"), ("warm-up", "gpmp/mcmc/nuts.py:nuts_sample")],
        state="tree endpoints, running variance, dual averaging",
        observe="leapfrog, nuts_transition, nuts_sample",
    ),
    P(
        "P20",
        "Sequential Monte Carlo keeps weighted particles consistent",
        "After any sequence of reweighting, resampling and moving, the weights are non-negative with the right ratios (equal after resampling), the effective sample size and resampling counts follow from the weights (residual resampling keeps at least the integer part of each expected count), initial particles lie in the box, and stored log-densities are those of the stored particles. "
        "Reweighting equals importance weighting from the previous to the new target, moves leave the current target invariant, and the final particles are distributed as the requested target; rare-event probabilities are estimated without bias beyond sampling error.",
        [I, H, C],
        "all targets, boxes, particle numbers, resampling schemes, tempering or level sequences, seeds",
        "Particle bookkeeping after several stages and the law of the result cannot be pinned by expected outputs.",
        ["gpmp/mcmc/smc.py"],
        [("particles", "gpmp/mcmc/smc.py:ParticlesSet"), ("driver", "gpmp/mcmc/smc.py:SMC"), ("subset simulation", "gpmp/mcmc/smc.py:run_subset_simulation")],
        state="particles, weights, log-densities, log",
        observe="ParticlesSet and SMC attributes, run_smc_sampling, run_subset_simulation",
    ),
    P(
        "P21",
        "SVGD steps follow the Stein update exactly",
        "For every particle set, target and bandwidth rule, the kernel matrix, its gradient and one update equal the Stein variational formula computed particle by particle, and permuting the particles permutes the result. "
        "A run records and returns exactly the iterates of that update, keeps particles inside the box when one is given, and never moves a particle to a non-finite value because one particle has zero density.",
        [I, H, C],
        "all particle numbers, dimensions, targets, bandwidths, step rules",
        "Vectorised kernel-gradient formulas are easy to get wrong by a sign, factor or transpose with plausible-looking clouds.",
        ["gpmp/mcmc/svgd.py"],
        [("kernel", "gpmp/mcmc/svgd.py:rbf_kernel_matrix"), ("step", "gpmp/mcmc/svgd.py:svgd_step"), ("driver", "gpmp/mcmc/svgd.py:svgd_sample")],
        observe="svgd functions",
    ),
    P(
        "P22",
        "Posterior samplers target the criterion inside the sampling box",
        "Whatever the sampler (Metropolis-Hastings, NUTS, SMC, SVGD), the log-density it uses is minus the selection criterion (divided by the temperature where the sampler has one) inside the sampling box and minus infinity outside or where the criterion fails, so every sample of a run started in the box lies in the box. "
        "Returned samples have the requested counts and shapes, per-sample log-densities agree with re-evaluating the criterion, and starting points and boxes are taken from the selection result as documented.",
        [I, C],
        "all selection results, boxes, temperatures, sampler settings, seeds",
        "Temperature, box truncation and ordering of mean and covariance parameters are configuration combinations no example covers together.",
        ["gpmp/mcmc/param_posterior.py"],
        [("samplers", "gpmp/mcmc/param_posterior.py:sample_from_selection_criterion_*"), ("log target", "gpmp/mcmc/param_posterior.py:get_log_target_values")],
        observe="sample_from_selection_criterion_{mh,nuts,smc,svgd}",
    ),
    P(
        "P23",
        "One-dimensional parameter distributions are proper and consistent",
        "For every unnormalised log-density of moderate level and every interval, the reported density integrates to one, the distribution function is monotone from 0 to 1 and is its integral, quantiles invert it, and mean and variance are its moments. "
        "Statistics of a parameter profile criterion (mean, variance, quantiles, mode) agree with those of exp(-criterion) on the requested interval, for slow and fast variants, and do not change the model or the parameter vector used.",
        [I],
        "all log-densities, intervals, grids, parameter indices",
        "Quadrature and inversion have to be right for every shape of density, not one.",
        ["gpmp/modeldiagnosis/un1ddist.py", "gpmp/modeldiagnosis/param_stats.py"],
        [("distribution", "gpmp/modeldiagnosis/un1ddist.py"), ("profile statistics", "gpmp/modeldiagnosis/param_stats.py")],
        observe="Unnormalized1DDistribution, selection_criterion_statistics*, fast_univariate_stats",
    ),
    P(
        "P24",
        "Performance metrics and diagnosis reports are computed as documented",
        "For every model and dataset, the leave-one-out and test metrics (sums of squares, RMSE, Q2, R2, ratios, PIT values) equal their definitions computed from the model's own predictions, whether predictions are passed in or computed, and whatever the layout of the responses. "
        "The diagnosis report shows the model's parameters on their natural scale, the projected bounds, the criterion at start and optimum, and descriptive statistics of the data that equal their definitions.",
        [I, C],
        "all datasets, models, combinations of optional arguments",
        "Metrics are only printed by the examples, never compared with definitions.",
        ["gpmp/modeldiagnosis/performance.py", "gpmp/modeldiagnosis/report.py", "gpmp/modeldiagnosis/utils.py"],
        [("metrics", "gpmp/modeldiagnosis/performance.py:compute_performance"), ("report", "gpmp/modeldiagnosis/report.py:modeldiagnosis_init"), ("description", "gpmp/modeldiagnosis/utils.py:describe_array")],
        observe="compute_performance, modeldiagnosis_init, describe_array, sigma_rho_from_covparam",
    ),
    P(
        "P25",
        "Labelled tables keep labels attached to values",
        "After any sequence of indexing, assignment, row and column appends and concatenations, each value of a labelled table is found under the row and column label it was stored with. "
        "Appending to or slicing one table never changes another, and the printed table shows each value in its labelled cell.",
        [I, H],
        "all table shapes, labels and operation sequences",
        "Label misalignment needs specific operation sequences; the examples only print freshly built tables.",
        ["gpmp/misc/dataframe.py"],
        [("table", "gpmp/misc/dataframe.py:DataFrame")],
        state="data, row names, column names",
        observe="DataFrame operations",
    ),
    P(
        "P26",
        "Initial guesses and empirical bounds scale with the data",
        "Initial covariance parameters have length scales proportional to the range of each input coordinate and, given those length scales, the variance equal to the mean square of the responses (of their contrasts for an unknown mean) in the metric of the correlation matrix, with the generalised-least-squares constant mean, and multiplying the responses or the coordinates by a factor changes them by exactly that factor. "
        "Empirical bounds and minimal length scales follow the documented variance and smallest-gap rules in every coordinate, including repeated coordinates, and giving the same data as arrays or as one batch gives the same result.",
        [I, C],
        "all datasets, dimensions, mean types, scalings",
        "Equivariance over all scalings and the repeated-coordinate branches are not expressible as expected outputs.",
        ["gpmp/kernel/init.py", "gpmp/kernel/bounds.py", "gpmp/kernel/prior_helpers.py"],
        [("initial guess", "gpmp/kernel/init.py"), ("bounds", "gpmp/kernel/bounds.py:empirical_bounds_factory"), ("minimal length scale", "gpmp/kernel/prior_helpers.py:compute_logrho_min_from_xi")],
        observe="anisotropic_parameters_initial_guess*, empirical_bounds_factory, compute_logrho_min_from_xi",
    ),
    P(
        "P27",
        "Calls leave their inputs alone and do not depend on earlier calls",
        "No prediction, criterion, gradient, selection, sampling, diagnosis, scaling or design-criterion call modifies the arrays, lists or parameter vectors the caller passed, and no call except selection and updates changes the model. "
        "The result of a call is the same in a fresh process and after any other sequence of calls, so caches and global defaults never leak into results unless the user set them.",
        [I, H],
        "all public operations and all sequences of them",
        "Aliasing and cache contamination appear only in particular call orders.",
        ["gpmp/core", "gpmp/kernel", "gpmp/num", "gpmp/modeldiagnosis", "gpmp/dataloader.py"],
        [("shared coefficient cache", "gpmp/num/shared.py:compute_gammaln"), ("prior defaults", "gpmp/kernel/prior_defaults.py"), ("in-place updates", "gpmp/num/torch_backend.py, gpmp/core/kriging.py")],
        state="caches, defaults, caller arrays",
        observe="inputs before/after, results before/after other calls",
    ),
    P(
        "P28",
        "Fixing the seed fixes every random result",
        "After setting the library seed, every operation that draws from the library's generator (uniform, normal and multivariate normal draws, permutations, choices, sample paths, Metropolis-Hastings and NUTS chains, SVGD starts, shuffles) reproduces exactly the same values in any process and whatever happened before, different seeds give different values, and consecutive draws differ. "
        "Operations given their own seed or generator (loaders, splits, folds, NUTS, particle sets) depend on that alone, and epochs or repetitions under one seed still differ from one another.",
        [I, H],
        "all seeds, operations and interleavings of them",
        "Accidental use of another global generator is invisible unless runs are repeated under different interleavings.",
        ["gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/dataloader.py", "gpmp/mcmc"],
        [("generators", "gpmp/num/*_backend.py:set_seed, rand, randn, choice, permutation, multivariate_normal.rvs")],
        state="process-wide generators",
        observe="repeated runs",
    ),
    P(
        "P29",
        "Test functions equal their published formulas",
        "Each analytic test function returns, for every point of its domain and any number of points, the value of its published closed form, row by row and independently of the other rows, with the documented input dimension and box.",
        [I],
        "all points of the documented domains, any batch size",
        "A wrong coefficient or summation range changes values smoothly and no example compares against the formula.",
        ["gpmp/misc/testfunctions.py"],
        [("functions", "gpmp/misc/testfunctions.py")],
        observe="gpmp.misc.testfunctions.*",
    ),
    P(
        "P30",
        "How the numbers are stored does not change any result",
        "Predictions, leave-one-out errors, likelihood criteria, Fisher information, covariance matrices, sample paths, initial guesses, bounds, parameter selection, dataset statistics, scalers, scores, performance metrics and designs give the same result for the same numbers however these are held: as integers or floating-point numbers, in row or column order, as reversed, strided or partial views, read-only, as backend or NumPy arrays, or as lists where array-likes are accepted. "
        "No storage form truncates a value or a step, and none that one backend accepts raises with the other.",
        [I, C],
        "all argument values representable exactly in every form, all combinations of storage forms of the arguments, all public numerical operations, both backends",
        "Tests pass freshly created double arrays; a truncation or an ignored stride needs another storage form.",
        ["gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/core", "gpmp/kernel", "gpmp/dataloader.py", "gpmp/modeldiagnosis/performance.py"],
        [("conversion", "gpmp/num/*_backend.py:asarray, asdouble"), ("entry points", "gpmp/core/utils.py:ensure_shapes_and_type, gpmp/kernel/utils.py:prepare_data, gpmp/dataloader.py:Dataset")],
        observe="results of the same call on two storage forms",
    ),
    P(
        "P31",
        "Figures show the values they are about",
        "Every drawing function puts on the axes exactly the numbers it documents: credible bands at the requested levels around the mean, predictions and intervals of the leave-one-out plot, cross sections through the right points and coordinates with the others held fixed, the empirical distribution function of PIT values, criterion profiles and maps evaluated at the drawn parameters, and traces, rates, densities and histograms of the samplers. "
        "Each panel refers to the parameter, dimension, chain or particle set its label or position announces, and drawing leaves the data and the drawn object unchanged.",
        [I, C],
        "all data, models, parameter vectors, boxes, selections of parameters or dimensions and sampler histories",
        "The tests only run the plotting code or skip it; nothing reads back what has been drawn.",
        ["gpmp/plot/plotutils.py", "gpmp/modeldiagnosis/plotting.py", "gpmp/mcmc/mh.py", "gpmp/mcmc/nuts.py", "gpmp/mcmc/svgd.py", "gpmp/mcmc/smc.py"],
        [("bands and sections", "gpmp/plot/plotutils.py:Figure, crosssections, plot_loo"), ("criterion plots", "gpmp/modeldiagnosis/plotting.py"), ("sampler plots", "gpmp/mcmc/*.py:plot_*")],
        observe="artists of the drawn axes",
    ),
    P(
        "P32",
        "The requested backend and precision are the ones in use",
        "The backend in use is the one last requested through the configuration before the numerical layer is loaded, otherwise the one named (in any letter case) in the environment, otherwise torch when installed and NumPy when not; an unsupported backend or precision is refused without changing anything, every created array is double precision, and configuration queries and the environment of later processes agree with what is in use. "
        "Subpackages and public names can be imported in any order and style and always give the same objects and results, with or without torch installed.",
        [C, H],
        "all environments, sequences of accepted and refused configuration requests, and import orders, each in a fresh process, with and without torch",
        "Tests run in processes whose backend is fixed beforehand by the environment, with one import order.",
        ["gpmp/config.py", "gpmp/__init__.py", "gpmp/num/__init__.py", "gpmp/kernel/__init__.py", "gpmp/mcmc/__init__.py", "gpmp/modeldiagnosis/__init__.py"],
        [("requests", "gpmp/config.py:set_backend, set_dtype, update, _detect_backend"), ("lazy packages", "gpmp/__init__.py:__getattr__, gpmp/mcmc/__init__.py:__getattr__")],
        state="process-wide configuration, environment variables",
        observe="gpmp.config.get_config, types of created arrays, imported names",
    ),
    P(
        "P33",
        "Data that do not fit together are refused",
        "Inputs, responses, targets, boxes and shards whose shapes do not go together (too few, too many or several columns of responses, a flat list of points, targets with another number of coordinates, shards of unequal lengths) are refused with an error by predictions, leave-one-out, likelihood criteria, initial guesses, parameter selection, performance metrics, datasets and cross sections: they are never broadcast, truncated or turned into a number. "
        "So are mean types, mean functions and mean parameters that do not go together. "
        "A refusal changes neither the data nor the model, which goes on giving the same results.",
        [I, C],
        "all sizes and dimensions, mean types, entry points and ways of spoiling one shape",
        "Tests pass sound data; a shape check that is lost leaves every sound call unchanged while broadcasting makes the unsound ones succeed.",
        ["gpmp/core/utils.py", "gpmp/core/model.py", "gpmp/core/likelihood.py", "gpmp/core/kriging.py", "gpmp/dataloader.py", "gpmp/plot/plotutils.py", "gpmp/num/torch_backend.py"],
        [("shape checks", "gpmp/core/utils.py:ensure_shapes_and_type, validate_model_mean"), ("shards", "gpmp/dataloader.py:Dataset.__init__"), ("failed factorizations against misuse", "gpmp/num/torch_backend.py:cholesky_solve, _is_linalg_exception")],
        observe="exceptions; parameters of the model and data after the refusal",
    ),
    P(
        "P34",
        "A failure or interruption in the middle is reported and leaves nothing behind",
        "When a function supplied by the user (covariance, mean, criterion, density) fails from any of its calls on, or is interrupted at any of them, the operation that called it ends with that failure instead of returning a result (as documented, failed factorizations count as infinite criteria, and densities a Metropolis-Hastings sampler cannot evaluate as zero). "
        "The parameters of the model, the data and the settings of the process are then as before, and the same call made again gives what it gives when nothing failed. "
        "Passes over a loader that are abandoned or nested do not change the passes made afterwards.",
        [FS, CP],
        "all operations, mean types, classes of failures and interruptions, and calls at which they happen (one after another up to two)",
        "Tests let the functions they supply succeed; which call fails, with what class and what was half done at that point can only be enumerated.",
        ["gpmp/kernel/parameter_selection.py", "gpmp/num/numpy_backend.py", "gpmp/num/torch_backend.py", "gpmp/core/kriging.py", "gpmp/core/fisher.py", "gpmp/mcmc/mh.py", "gpmp/mcmc/nuts.py", "gpmp/mcmc/smc.py", "gpmp/mcmc/svgd.py", "gpmp/dataloader.py", "gpmp/plot/plotutils.py"],
        [("failures that count as infinite criteria, and the others", "gpmp/kernel/parameter_selection.py:autoselect_parameters; gpmp/num/numpy_backend.py, gpmp/num/torch_backend.py:evaluate*, _is_linalg_exception"), ("gradients switched off for an evaluation", "gpmp/num/torch_backend.py:evaluate_no_grad"), ("proposals whose density fails", "gpmp/mcmc/mh.py:mhstep"), ("passes", "gpmp/dataloader.py:DataLoader.__iter__")],
        state="model parameters, gradient mode, open figures, position of a loader",
        observe="exceptions; parameters, data and settings after them; results of the repeated call",
    ),
]

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(PROPS))
