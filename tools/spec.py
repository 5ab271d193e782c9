"""The specification: one entry per property.  tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

TECH = "deterministic simulation with fault injection: seeded search over {what}; {oracle}"
P = []


def prop(id, title, statement, over, text, tests, files, mech, observe, what, oracle, note, level="exploration", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  observe=observe, what=what, oracle=oracle, note=note, level=level, hook=hook))


NA = []


def na(id, title, statement, over, text, tests, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, reason=reason))


MB = "pymc_extras/model_builder.py"
SS = "pymc_extras/statespace/"

prop("B01", "A saved model survives interrupted, failed and concurrent saves",
     "After a save of a fitted model returns, loading that path yields exactly the posterior, data and configuration that were saved, until another save to the same path succeeds. "
     "A save that crashes, runs out of disk, is interrupted or races with other saves and loads leaves the file loading as exactly one complete earlier or newer model, never a mixture and never an unreadable file. "
     "Models already in memory, loaded or fitted, never change because of a later save.",
     ["crash_points", "fault_sequences", "histories", "schedules"],
     "any history of fit, save, load and failed save over any number of paths, any crash, write error or interrupt point in a save, any interleaving of concurrent savers and loaders",
     "tests save once to a fresh temporary file and load it back; no crash, no failing write, no earlier version, no concurrent caller",
     [MB], [("atomic save", "ModelBuilder.save"), ("eager load", "ModelBuilder.load")],
     ["file at the path given to save", "ModelBuilder.load result", "InferenceData of live models"],
     "histories of fit/save/load with crashes, disk faults, interrupts and thread schedules",
     "content digests against the set of versions the path may hold",
     "Sampled crash points over every call of the real arviz/xarray/h5netcdf I/O stack in forked processes; process crash is simulated, power loss is not.",
     level="fault_enumeration")

prop("B02", "A saved model loads as the same model, and nothing else loads",
     "Loading a saved model gives a model of the same class with the same identifier, configuration, results and training data, rows and columns paired as they were fitted, which predicts and refits exactly as the saved one would. "
     "A truncated, foreign or missing file, a file of another model class, version or configuration, or one whose metadata were changed is refused with an error. "
     "Loading never changes the file or any live model.",
     ["inputs", "fault_sequences", "histories"],
     "any configuration of nested numbers, strings, lists, tuples and arrays, any data frame (columns, index, dtypes), any chain of saves, loads and refits, any truncation point or metadata change",
     "tests save and load one configuration and one data set once, and never load a damaged or foreign file",
     [MB], [("load", "ModelBuilder.load"), ("identity", "ModelBuilder.id"), ("stored data", "ModelBuilder.fit"), ("configuration", "ModelBuilder._model_config_formatting")],
     ["loaded model: id, model_config, sampler_config, idata, data containers, predictions", "exceptions of load", "bytes of the file"],
     "data, configurations, save/load/refit chains and damaged or foreign files",
     "field-by-field comparison of the loaded with the saved model; refusal of every file that is not an intact save of that model",
     "Bit rot inside an HDF5 file is out of scope (no checksums); truncation at any byte is in.", level="fault_enumeration")

prop("B03", "A fitted model keeps predicting from its last completed fit",
     "Every prediction, point or posterior or prior, equals what a fresh model holding only the last completed fit would give for the same input and seed, whatever predictions, saves, loads, failed or interrupted calls came before. "
     "Failed and interrupted fits leave the previous fit in place, and predictions never alter the stored posterior, training data or observed data, nor any result when asked not to extend them. "
     "Repeating a fit with the same data and seed gives the same results.",
     ["histories", "fault_sequences"],
     "any history of fits, predictions, prior samples, saves, loads, parameter changes, refused inputs, failing samplers and interrupts at any line, on one or several models",
     "tests call each method once on a fresh or fitted model and check shapes; none fails, interrupts or repeats a call",
     [MB, "pymc_extras/linearmodel.py"],
     [("fit", "ModelBuilder.fit"), ("predict", "ModelBuilder.predict"), ("posterior predictive", "ModelBuilder.sample_posterior_predictive"),
      ("prior predictive", "ModelBuilder.sample_prior_predictive")],
     ["return values of predict, predict_posterior, predict_proba, sample_prior_predictive", "idata groups after every call"],
     "histories of calls with refused data, failing samplers and interrupts at seeded lines",
     "closed-form predictions of the last completed fit and equality with a fresh replica",
     "MCMC itself is stubbed; predictive sampling is real.", level="fault_enumeration")

prop("S01", "Kalman filters and smoothers compute the exact Gaussian posterior",
     "For any linear Gaussian state-space system, whichever filter is chosen and whichever observations are lost, filtered, predicted and smoothed means and covariances and the log likelihood equal those of the joint Gaussian distribution of states and the observations that arrived. "
     "An observation that did not arrive carries no information, and one that arrived is always used. "
     "Data passed by the user are never modified.",
     ["fault_sequences", "inputs", "configurations"],
     "any system, static or time-varying matrices, any pattern of lost observations (elements, steps, bursts, sensors, everything), any of the filters, any restart point splitting the series",
     "tests compare filters with each other and with one reference on fully observed or fully missing steps of a few fixed models",
     [SS + "filters/kalman_filter.py", SS + "filters/kalman_smoother.py", SS + "core/statespace.py", SS + "utils/data_tools.py"],
     [("missing data handling", "BaseFilter.handle_missing_values"), ("smoother recursion", "KalmanSmoother.build_graph"),
      ("likelihood", "SequenceMvNormal logp")],
     ["filter outputs", "model logp of the observed data", "sample_conditional_posterior"],
     "systems and observation-loss patterns with sensor dropout, bursts and restarts",
     "dense joint-Gaussian reference model and a split/restart equivalence",
     "Seeded sample of small systems; agreement to 1e-6 relative. SteadyStateFilter is checked only where its steady-state assumption holds.")

prop("S02", "Simulated and forecast trajectories follow the documented state-space law",
     "Draws from the state-space distribution, from unconditional sampling and from forecasts follow exactly the Gaussian law of the system's matrices, with every shock drawn independently, and repeat exactly for the same seed. "
     "A forecast starts from the requested origin, covers exactly the requested horizon with the right calendar labels, and pairs scenario columns with the variables they are named after, whatever was forecast before. "
     "Objects passed as dictionaries of scenarios are not rewritten.",
     ["histories", "inputs", "schedules"],
     "any random stream, any system with static or time-varying matrices, any history of forecast calls with any origin, horizon and scenario container",
     "tests check shapes, names and a handful of indexes; none checks the distribution of a trajectory nor a second forecast call",
     [SS + "filters/distributions.py", SS + "core/statespace.py"],
     [("trajectory sampling", "LinearGaussianStateSpace.rv_op"), ("forecast", "PyMCStateSpace.forecast"),
      ("unconditional sampling", "PyMCStateSpace._sample_unconditional")],
     ["LinearGaussianStateSpace draws", "sample_unconditional_posterior", "forecast", "sample_statespace_matrices"],
     "random streams and histories of sampling and forecast calls",
     "joint Gaussian law of the whole trajectory with fixed error bounds, calendar of the forecast, equality of repeated seeds",
     "Law checked to 7 standard errors over 150-400 draws per run.")

MG = "pymc_extras/model/marginal/"

prop("M01", "Marginalizing a discrete variable preserves the model's joint density",
     "After any sequence of marginalize, unmarginalize, clone and refused calls, the log density of a marginal model equals the log of the original model's density summed over every configuration of the variables currently marginalized, at every point. "
     "A request that cannot be honoured is refused and leaves the model, its coordinates and its clones as they were. "
     "Unmarginalizing restores the original model, and the order in which variables are listed never changes the result.",
     ["histories", "inputs", "schedules"],
     "any hierarchical model of Bernoulli, categorical, uniform and Markov-chain variables with scalar or batched dependents, any history of edits, any iteration order of sets",
     "tests marginalize one model once per feature and compare with one hand-written mixture; none edits twice, clones, or mixes refusals with successes",
     [MG + "marginal_model.py", MG + "distributions.py", MG + "graph_analysis.py"],
     [("edit", "MarginalModel.marginalize"), ("marginal logp", "finite_discrete_marginal_rv_logp"), ("axis analysis", "subgraph_batch_dim_connection")],
     ["MarginalModel.logp", "free_RVs, value variables and coordinates", "clone()"],
     "edit histories, set iteration orders and refused edits",
     "full enumeration of the discrete configurations with the unmarginalized model's density",
     "Seeded sample of models with up to a few hundred joint configurations; a refusal that leaves the model intact is allowed.")

prop("M02", "Recovered marginals are the exact conditional distribution",
     "For every posterior draw, the probabilities recovered for a marginalized variable are its conditional distribution given that draw's other values and the data, with the other marginalized variables summed out. "
     "Sampled values follow those probabilities, independently across draws and elements, stay in the support and repeat for the same seed. "
     "The inference data passed in gain the recovered variables and are otherwise untouched.",
     ["histories", "inputs", "schedules"],
     "any model and marginalized subset, any posterior whose draws differ, any random stream and iteration order",
     "tests recover one or two variables of fixed models and compare means loosely",
     [MG + "marginal_model.py"],
     [("recovery", "MarginalModel.recover_marginals")],
     ["recover_marginals result", "InferenceData passed in"],
     "random streams, set iteration orders and posterior draws",
     "full enumeration of the conditional distribution per draw, sampling law with fixed error bounds",
     "Seeded sample of models with up to 200 joint configurations; recoveries the library refuses (Markov chains) are only checked to leave everything intact.")

INF = "pymc_extras/inference/"

prop("I01", "find_MAP returns the posterior mode",
     "find_MAP returns the mode of the posterior: under every optimiser and gradient backend, from every start point, seed and jitter, in whatever order the variables were declared and whatever dims and transforms they have. "
     "Every value is returned under its own variable's name and in its own shape, and transformed values and deterministics are those of the mode. "
     "A search that is interrupted or fails leaves the model, the arguments and the global random state unchanged, and a later search still finds the mode.",
     ["histories", "inputs", "schedules", "fault_sequences"],
     "any model, optimiser, backend, start point, seed, jitter and set iteration order, any earlier search interrupted at any evaluation",
     "tests optimise one model with two variables from the default start and check one value",
     [INF + "find_map.py"],
     [("search", "find_MAP"), ("compiled loss", "scipy_optimize_funcs_from_loss"), ("start point", "make_initial_point")],
     ["dictionary returned by find_MAP", "start point and loss given to the optimiser", "model and global random state after the call"],
     "start points, random streams, set iteration orders and searches interrupted at a seeded evaluation",
     "closed-form modes of conjugate block models",
     "Unimodal, well-scaled posteriors only; agreement to the optimiser's tolerance.")

prop("I02", "The Laplace approximation is the Gaussian at the mode and its draws follow it",
     "fit_laplace reports the posterior mode and the inverse curvature there, each entry labelled with the variable and element it belongs to, in every declaration order, shape, space and gradient backend. "
     "Its draws follow that Gaussian independently across chains and draws, appear under the right names, dims and coordinates, repeat for the same seed, and deterministics are computed from them. "
     "Curvature that gives no valid covariance is reported, or replaced by the nearest valid one, as asked; the model, arguments and global random state are left unchanged.",
     ["inputs", "schedules", "fault_sequences"],
     "any model, declaration order, shape, dims, space, backend, chains, draws, random stream and set iteration order, any degenerate or wrong-sign curvature",
     "tests fit two small fixed models with one declaration order and loosely compare two parameters",
     [INF + "laplace.py", INF + "find_map.py"],
     [("fit", "fit_laplace"), ("covariance", "fit_mvn_to_MAP"), ("sampling", "sample_laplace_posterior"), ("repair", "get_nearest_psd")],
     ["fit group (mean_vector, covariance_matrix)", "posterior, observed_data and constant_data groups"],
     "random streams, set iteration orders and faulty curvature",
     "closed-form mode and curvature of conjugate block models, sampling law with fixed error bounds",
     "Models with closed-form curvature only; law checked to 7 standard errors over 300-900 draws.")

DI = "pymc_extras/distributions/"

prop("D01", "Random draws of every distribution follow the density the model uses",
     "Draws of the extreme value, Chi, Maxwell, Skellam, generalized Poisson and beta-negative-binomial distributions and of the R2D2 prior follow the law defined by the closed form of their density, and the log density equals that form everywhere, in the tails and outside the support included. "
     "Elements of a batch and successive draws are independent, a seed repeats them exactly whatever came before, and shapes and dims are those of the parameters. "
     "No value a random generator may return leads to a draw that has no density or to a sampler that does not return.",
     ["inputs", "schedules"],
     "any parameters, batches and broadcasting, any random stream including the most extreme uniforms, any way of drawing (pm.draw, prior predictive, size, shape, dims)",
     "tests compare a few moments or quantiles at a few fixed parameters with loose bounds",
     [DI + "continuous.py", DI + "discrete.py", DI + "multivariate/r2d2m2cp.py"],
     [("sampler", "GenExtremeRV.rng_fn"), ("sampler", "GeneralizedPoissonRV.rng_fn"), ("density", "Skellam.skellam_logp"), ("prior", "R2D2M2CP")],
     ["pm.draw, pm.sample_prior_predictive", "pm.logp, pm.logcdf", "Model.initial_point"],
     "random streams, among them extreme ones, parameters and ways of drawing",
     "closed-form distribution functions with fixed error bounds (Dvoretzky-Kiefer-Wolfowitz), closed-form log densities",
     "Law checked with 1500-4000 draws per run; parameters within ordinary ranges.")

# ---------------------------------------------------------------------------------------------- not applicable
na("N01", "Spline bases, pivoted Cholesky and conjugate gradients are exact",
   "Interpolated spline designs, the pivoted Cholesky factor and the conjugate-gradient solver return the mathematically defined result for every input.",
   ["inputs"], "every matrix, tolerance and knot set", "tests sample a few matrices",
   ["pymc_extras/utils/spline.py", "pymc_extras/utils/pivoted_cholesky.py", "pymc_extras/utils/linear_cg.py"],
   [("interpolation", "bspline_interpolation"), ("factorisation", "pivoted_cholesky"), ("solver", "linear_cg")],
   "Pure functions of their input: no schedule, clock, I/O, randomness or fault for a simulator to control; deciding them is input generation, not simulation.")
na("N02", "Model tables show every variable with its expression",
   "The printed model table lists every variable of a model with its distribution, dimensions and expression.",
   ["inputs", "programs"], "every model", "tests print a few models",
   ["pymc_extras/printing.py"], [("table", "model_table")],
   "Pure rendering of a model graph: no nondeterminism or fault reaches it.")
na("N03", "Gaussian-process approximations and histogram approximation are faithful",
   "The projection approximations of Gaussian processes and the histogram approximation of large data keep the target density within their documented error.",
   ["inputs"], "every data set and kernel", "tests check one data set each",
   ["pymc_extras/gp/latent_approx.py", "pymc_extras/distributions/histogram_utils.py"],
   [("projection", "ProjectedProcess"), ("histogram", "histogram_approximation")],
   "Deterministic numerical approximations of a pure function; nothing in them is scheduled, timed, stored or able to fail part-way.")

# property of each "fix:" commit, by subject
FIXES = {
    "underflow of marginal likelihoods in constant graphs": "M01",
    "make ModelBuilder.save atomic": "B01",
    "keep rows of X and y paired in the data stored by ModelBuilder.fit": "B02",
    "do not let later saves change a loaded ModelBuilder model": "B01",
    "accept a single observation in LinearModel": "B01",
    "treat partially missing observations exactly in the Kalman filters": "S01",
    "log-likelihood of SquareRootFilter": "S01",
    "UnivariateFilter with missing values, several series and time-varying matrices": "S01",
    "independent initial draws and aligned matrices in LinearGaussianStateSpace": "S02",
    "state and observation counts of LinearGaussianStateSpace with time-varying T or H": "S02",
    "state intercept and time-varying matrices in the Kalman smoother": "S01",
    "initialise the square root filter with the Cholesky factor of P0": "S01",
    "observation intercept in conditional samples of the observed states": "S01",
    "use_data_time_dim with explicit steps in unconditional sampling": "S02",
    "keep forecast scenarios aligned with the model": "S02",
    "default forecast start with verbose=False": "S02",
    "sample time-varying statespace matrices": "S02",
    "compile_kwargs in impulse_response_function": "S02",
    "do not modify the data passed to build_statespace_graph": "S01",
    "use the fit's missing_fill_value and cov_jitter in conditional samples and forecasts": "S01",
    "SquareRootFilter with a single state or with zero variances in Q or H": "S01",
    "forecast horizon taken from the scenario index": "S02",
    "single-step trajectories with time-varying matrices in LinearGaussianStateSpace": "S02",
    "accept integer scenarios in forecast": "S02",
    "do not marginalize variables that are summed over their first dimension": "M01",
    "marginal logp with multivariate dependents or permuted batch dimensions": "M01",
    "leave the model and its clones unchanged when a marginalization is refused": "M01",
    "unmarginalize variables given by name": "M01",
    "logp of marginal models with Potentials of dependent variables": "M01",
    "refuse marginalizations that would make the model graph cyclic": "M01",
    "marginal logp of several dependents observed with the same value": "M01",
    "support axes of a marginalized DiscreteMarkovChain": "M01",
    "recovered probabilities of nested or batched marginalized variables": "M02",
    "refuse unknown names in recover_marginals": "M02",
    "load saved models with lists or tuples in model_config": "B02",
    "keep all rows and columns of X in the data stored by fit": "B02",
    "keep the observed data of the fit in sample_prior_predictive": "B03",
    "leave earlier results in place when ModelBuilder.fit fails": "B03",
    "use random_seed for the predictive samples of ModelBuilder.fit": "B03",
    "keep the fitted model when ModelBuilder.fit fails": "B03",
    "discard a partly built model in sample_prior_predictive": "B03",
    "order of the variables in the Laplace approximation": "I02",
    "Laplace approximation with a single parameter, chain or draw": "I02",
    "Laplace approximation of vector variables without dims": "I02",
    "fit_laplace outside of a model context": "I02",
    "return_raw in fit_laplace": "I02",
    "gradient_backend in fit_laplace": "I02",
    "nearest PSD matrix when eigenvalues are repeated": "I02",
    "jax hessian-vector products with trust-constr": "I01",
    "jitter_rvs in find_MAP": "I01",
    "parameters of the random draws of BetaNegativeBinomial": "D01",
    "draws of GeneralizedPoisson beyond its support": "D01",
    "logp of Skellam with zero or large means": "D01",
    "logp of Skellam far from zero": "D01",
    "shape of the draws of GenExtreme with parameters of size one": "D01",
    "scalar draws of GeneralizedPoisson": "D01",
    "logp of batched DiscreteMarkovChain with batched init_dist or several lags": "D02",
    "support point of batched DiscreteMarkovChain": "D02",
}
