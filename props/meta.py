"""Texts of the properties (tools/gen.py writes properties.jsonl and MANIFEST.json from them)."""
NA = {
 "N01": "Whether the iteration reaches the optimum depends on the whole trajectory of a nonlinear iteration over the data; no sound static argument in reach bounds it. Its inductive parts (each step solves the Newton equations, only improving steps are accepted, stopping only when converged) are claimed as C20-C22.",
 "N02": "The accumulated rounding error of a fit depends on the conditioning of the data and on the code of the LAPACK library, which is outside the analysed program; no static bound is in reach. Precision of the family functions and of conversions is claimed as C35 and C38.",
 "N03": "The number of iterations and the running time depend on the data at run time; no static bound exists beyond the iteration limit, which C22 covers.",
}
FIT = "src/fit.rs"
META = [
 dict(id="C01", title="Deviance, AIC, BIC and degrees of freedom equal their definitions",
  statement="For every data set, weights, offset and penalty, the deviance of a fit is twice the frequency- and variance-weighted gap between the saturated and the fitted log-likelihood, AIC and BIC are the deviance respectively minus twice the maximised likelihood plus their parameter penalties (with the log-variance-weight normalisation), and the residual degrees of freedom are the summed frequencies minus the number of parameters.",
  quant="all responses, design matrices, frequencies, variance weights, offsets, coefficient values, link and response families; all 32 intercept/standardisation/weight/offset settings, 4 penalties, both dispersion kinds",
  why="Tests compare a handful of data sets with R; the combinations of standardisation, two kinds of weights, offset and penalty are barely sampled, and an error in an unsampled combination is silent.",
  files=[FIT, "src/data.rs", "src/glm.rs"], mech=[("deviance, aic, bic, ndf", "src/fit.rs impl Fit"), ("weighted sums", "src/data.rs impl Dataset"), ("likelihood terms", "src/glm.rs trait Glm")]),
 dict(id="C02", title="Score and Fisher information are the derivatives of the penalised likelihood",
  statement="At every coefficient vector the reported score is the gradient, and the reported Fisher information the expected negative Hessian, of the weighted log-likelihood plus the penalty, both expressed in the coordinates of the user's own design matrix, whatever internal scaling or solver is used.",
  quant="all data and all coefficient vectors, every setting of intercept, standardisation, weights, offset and penalty",
  why="Finite-difference tests sample single points of single configurations; coordinate changes that cancel without standardisation or with unit weights stay invisible.",
  files=[FIT, "src/data.rs", "src/regularization.rs", "src/glm.rs"], mech=[("score, fisher", "src/fit.rs impl Fit"), ("gradient and curvature of penalties", "src/regularization.rs IrlsReg impls"), ("coordinate transforms", "src/data.rs impl Standardizer")]),
 dict(id="C03", title="Dispersion estimate and coefficient covariance follow their definitions",
  statement="The dispersion is one for families without a free dispersion and otherwise the deviance over the effective-sample-size-corrected weight total; the coefficient covariance is the dispersion times the inverse information without a penalty, and the sandwich of penalised and unpenalised information with one, in the user's coordinates.",
  quant="all data, weights and configurations",
  why="Tests check isolated numbers; the sandwich form, the effective sample size and the coordinate change only differ from simpler wrong formulas in combinations that tests do not sample.",
  files=[FIT, "src/data.rs"], mech=[("dispersion, covariance", "src/fit.rs impl Fit"), ("n_eff, sum_weights", "src/data.rs impl Dataset")]),
 dict(id="C04", title="Likelihood-ratio, Wald and score tests equal their definitions",
  statement="For every alternative coefficient vector, and for the null model, the likelihood-ratio statistic is twice the gap of the penalised likelihoods, the Wald statistic the Fisher quadratic form of the coefficient difference and the score statistic the inverse-Fisher quadratic form of the score, evaluated at the alternative; the z statistics are coefficients over their standard errors.",
  quant="all data, all alternatives given in external coordinates, all configurations",
  why="The statistics are invariant under correct coordinate changes only; tests sample few data sets, mostly without weights or standardisation.",
  files=[FIT], mech=[("lr_test*, wald_*, score_test*", "src/fit.rs impl Fit")]),
 dict(id="C05", title="Tests against the null model use the best intercept-only fit",
  statement="The null likelihood is the maximum over the intercept alone (with the offset, frequencies and variance weights of the fit, unpenalised), in closed form where that exists and by another fit of exactly that model otherwise, all other coefficients being zero; the omnibus likelihood-ratio, Wald and score tests compare the fit with exactly these coefficients.",
  quant="all data, offsets, weights and configurations",
  why="The closed form only holds without an offset; tests cover few of the intercept, offset and weight combinations, which take four different paths.",
  files=[FIT, "src/data.rs"], mech=[("null_like, null_model_fit, lr_test, wald_test, score_test", "src/fit.rs impl Fit")]),
 dict(id="C06", title="p-values use the right statistic, reference distribution and degrees of freedom",
  statement="Wald p-values are two-sided normal tails for families without free dispersion and Student t tails with the residual degrees of freedom otherwise, the likelihood-ratio p-value is the chi-squared tail with the number of tested covariates, the drop-one p-values compare the deviance with that of the same fit without the column, and a p-value whose reference distribution does not exist is not a number rather than a failure.",
  quant="all data and configurations, both dispersion kinds",
  why="Tests compare single values with R; a wrong degrees-of-freedom or tail is only visible for particular families and weights.",
  files=[FIT], mech=[("pvalue_wald, pvalue_lr_test", "src/fit.rs impl Fit")]),
 dict(id="C07", title="Hat matrix, leverage, Cook's distance and influence equal their definitions",
  statement="The hat matrix is the derivative of the fitted responses with respect to the observed ones at the fitted (penalised) information, leverages are its diagonal, Cook's distances and one-step coefficient influences are the corresponding leverage-corrected quantities with both kinds of weights, and the exact leave-one-out coefficients are those of the same fit with the observation's frequency set to zero.",
  quant="all data and configurations",
  why="Tests cover unweighted or un-penalised samples; weights, penalty and standardisation interact in these formulas.",
  files=[FIT, "src/data.rs"], mech=[("hat, leverage, cooks, infl_coef", "src/fit.rs impl Fit")]),
 dict(id="C08", title="Every kind of residual equals its definition",
  statement="Response, Pearson, deviance, working, partial, standardised, studentised and quantile residuals equal their published definitions in terms of the fitted means, variance function, link derivative, weights, dispersion and leverages, in every configuration.",
  quant="all data and configurations",
  why="Nine residual kinds times all weight, offset, intercept, standardisation and penalty settings; tests sample a few of the products.",
  files=[FIT], mech=[("resid_*", "src/fit.rs impl Fit")]),
 dict(id="C09", title="Prediction applies the fitted coefficients to new data in the user's coordinates",
  statement="For every new design matrix and optional offset, the prediction for a row is the inverse link of the row's linear predictor with the public coefficients, the intercept added exactly when the model has one, and the given offset (and only it) added.",
  quant="all new data with any number of rows, all configurations",
  why="Prediction on data other than the training data is hardly tested, least of all with standardisation, penalties and offsets together.",
  files=[FIT], mech=[("predict", "src/fit.rs impl Fit")]),
 dict(id="C14", title="R squared and residual sum of squares of linear models equal their definitions",
  statement="For linear regression the residual sum of squares is the frequency- and variance-weighted sum of squared residuals, and R squared is one minus the ratio of the deviances of the fit and of the best intercept-only model (offset included), whether or not the fit is penalised.",
  quant="all data, weights, offsets, penalties and settings",
  why="Tests check two unpenalised data sets; weights, offsets and penalties enter fit and null model through different paths.",
  files=[FIT, "src/response/linear.rs"], mech=[("r_sq, rss", "src/fit.rs impl Fit<Linear>")]),
 dict(id="C30", title="Every family's variance, mean and log-partition describe one exponential family",
  statement="For each response family the derivative of the log-partition function is the mean, its second derivative is the variance function, the variance function is the family's textbook one, and the family is declared with a free dispersion exactly when it has one.",
  quant="all natural parameters and means in the domain, all families",
  why="Tests evaluate a few points; a wrong branch threshold or stable rewriting only shows in a sub-range.",
  files=["src/glm.rs", "src/response/linear.rs", "src/response/poisson.rs", "src/response/logistic.rs", "src/response/binomial.rs", "src/response/exponential.rs", "src/response/gamma.rs", "src/response/inverse_gaussian.rs"],
  mech=[("log_partition, variance, DISPERSED", "impl Glm for each family")]),
 dict(id="C31", title="Link, inverse link, natural parameter and its derivative agree",
  statement="For every family and link the link function is the documented one, the inverse link undoes it in both directions, the natural parameter is the canonical link of the mean, and its reported derivative is its actual derivative.",
  quant="all linear predictors and means in the domain, all family and link pairs",
  why="Tests check a few values of each link; a formula that is wrong only beyond a threshold, or a derivative that is wrong for non-canonical links, silently degrades convergence and standard errors.",
  files=["src/link.rs", "src/response/linear.rs", "src/response/poisson.rs", "src/response/logistic.rs", "src/response/binomial.rs", "src/response/exponential.rs", "src/response/gamma.rs", "src/response/inverse_gaussian.rs"],
  mech=[("func, func_inv, nat_param, d_nat_param", "impl Link / Transform for each link")]),
 dict(id="C32", title="Specialised functions equal the generic definitions they replace",
  statement="Every family- or link-specific replacement of a generic function (per-observation likelihood, error and variance adjustment) is equal to the generic definition on the whole domain, and the generic definitions are y eta - A(eta) and the division or multiplication by the link derivative.",
  quant="all responses, natural parameters and linear predictors, all overriding implementations",
  why="A specialisation is only exercised by its own family's few tests, often at points where a wrong one agrees.",
  files=["src/glm.rs", "src/link.rs", "src/response/logistic.rs"], mech=[("log_like_natural, adjust_*", "src/glm.rs, src/link.rs and overriding impls")]),
 dict(id="C33", title="The saturated likelihood is the maximum of the likelihood for each response",
  statement="For every admissible response the saturated log-likelihood is the supremum over the natural parameter of y eta - A(eta), including at the boundary of the response domain where it is finite.",
  quant="all admissible responses, boundaries included, all families",
  why="The deviance is compared on few data sets; boundary responses such as zero counts take separate branches.",
  files=["src/response/poisson.rs", "src/response/logistic.rs", "src/response/binomial.rs", "src/response/exponential.rs", "src/response/gamma.rs", "src/response/inverse_gaussian.rs", "src/response/linear.rs", "src/math.rs"],
  mech=[("log_like_sat", "impl Glm for each family"), ("prod_log", "src/math.rs")]),
 dict(id="C34", title="Exactly the admissible responses are accepted, unchanged",
  statement="A response value outside a family's domain (negative or non-integral where that matters, beyond the number of trials, not finite) makes the build fail with an invalid-response error, and every admissible one enters the model with its numerical value.",
  quant="all response values of every accepted response type, every position in the data",
  why="Tests try a couple of bad values in one position; special values and domain edges are unbounded.",
  files=["src/response.rs", "src/model.rs", "src/response/poisson.rs", "src/response/logistic.rs", "src/response/binomial.rs", "src/response/exponential.rs", "src/response/gamma.rs", "src/response/inverse_gaussian.rs", "src/response/linear.rs"],
  mech=[("into_float", "impl Yval for each response type"), ("conversion of all responses", "src/model.rs build")]),
 dict(id="C35", title="Family functions neither overflow nor lose most of their digits",
  statement="For every linear predictor, mean or response of ordinary magnitude, the inverse link, link, natural parameter, log-partition, variance and likelihood of every built-in family evaluate to a finite number close to the exact value in both single and double precision: no overflow where the result is representable, no cancellation that leaves only a few correct digits, no spurious zero, infinity or NaN.",
  quant="all arguments over many decades on both sides of zero and of the domain boundaries, every family and link, f32 and f64",
  why="Naive formulas agree with careful ones on moderate arguments, which is all tests sample; extreme linear predictors occur in the middle of a fit.",
  files=["src/response/logistic.rs", "src/response/binomial.rs", "src/response/poisson.rs", "src/response/exponential.rs", "src/response/gamma.rs", "src/response/inverse_gaussian.rs", "src/response/linear.rs", "src/link.rs"],
  mech=[("links", "src/response/*.rs impl Link"), ("log_partition, variance", "src/response/*.rs impl Glm"), ("likelihoods", "src/glm.rs and overrides")]),
 dict(id="C50", title="Results do not depend on which results were asked for before",
  statement="Every statistic of a fit is the same whether it is the first one requested or is requested after any sequence of other requests, with the same or with different arguments, and no request changes the fit observably.",
  quant="every sequence of calls on a fit, all data and settings",
  why="Fits store intermediate results for later use; tests mostly ask for one statistic of a fresh fit, and a stale or shared stored value shows only in a particular order of calls.",
  files=[FIT], mech=[("memo cells", "src/fit.rs Fit"), ("statistics", "src/fit.rs impl Fit")]),
 dict(id="C36", title="Response distributions have the fitted mean and dispersion-scaled variance",
  statement="The distribution object used for quantile residuals has, for every mean and dispersion, that mean and the dispersion times the variance function as its variance, and constructing it does not fail for any mean the inverse link can return.",
  quant="all means and dispersions, all families with a distribution",
  why="Tests compare few quantile residuals; a swapped scale and rate agree at dispersion one.",
  files=["src/response/linear.rs", "src/response/poisson.rs", "src/response/logistic.rs", "src/response/binomial.rs", "src/response/exponential.rs", "src/response/gamma.rs"],
  mech=[("get_distribution", "impl Response for each family")]),

 dict(id="C10", title="Standardisation rescales by weighted moments and is undone exactly",
  statement="With standardisation enabled the stored design matrix is the user's one shifted and scaled per column by its weighted mean and weighted standard deviation, constant columns do not cause division by zero, and the maps between internal and public coefficients are inverse to each other and preserve every linear predictor; without it both maps are the identity.",
  quant="all design matrices, weights, coefficient vectors and settings",
  why="Tests check a few matrices; a wrong weight in the moments or a missing intercept correction only shows for particular combinations of weights, intercept and offset.",
  files=["src/data.rs", "src/model.rs"], mech=[("Standardizer", "src/data.rs"), ("build", "src/model.rs impl ModelBuilderData")]),
 dict(id="C20", title="Each solver step solves the weighted normal equations with the penalty",
  statement="From every state the candidate for the next coefficients is the solution of the penalised Newton (Fisher scoring) equations of the weighted likelihood at the current coefficients, with offset, both kinds of weights, link derivatives and quadratic penalty all entering exactly once and the intercept not penalised.",
  quant="all data, coefficient states, families and links, all weight, offset, intercept, standardisation and penalty settings",
  why="A wrong step direction still converges to the right answer on easy data, so end-to-end tests pass while convergence is lost or the fixed point moves for some settings.",
  files=["src/irls.rs", "src/regularization.rs", "src/link.rs", "src/data.rs"], mech=[("working matrix and vector", "src/irls.rs impl Irls"), ("penalised solve", "src/regularization.rs IrlsReg impls")]),
 dict(id="C21", title="The solver only accepts steps that do not worsen its objective",
  statement="When the penalty's internal state has converged, a candidate is accepted in full only if it strictly improves the objective, otherwise only a fraction of it that improves the model likelihood is taken, and no step is taken when there is none; the fit reported is the recorded step with the best penalised likelihood, or the starting point if no step was taken.",
  quant="all solver states, all objective values, all configurations",
  why="Step halving and selection of the best step are hardly ever reached by ordinary data, as the code itself notes.",
  files=["src/irls.rs", "src/math.rs", "src/glm.rs"], mech=[("acceptance", "src/irls.rs Iterator for Irls"), ("step scaling", "src/irls.rs step_scale"), ("selection of the best step", "src/glm.rs regression")]),
 dict(id="C22", title="The solver stops exactly when converged or at the iteration limit",
  statement="Iteration ends when the candidate equals the current coefficients, when no improving fraction exists, or one step after both the likelihood and the coefficients changed by at most the tolerance, never before an iterative penalty has converged; taking more than the configured number of steps is an error carrying that limit and the complete history, and every inner loop ends.",
  quant="all solver states, tolerances, iteration limits and configurations",
  why="Termination depends on floating-point comparisons over unbounded histories; tests see only a few converging runs.",
  files=["src/irls.rs", "src/regularization.rs", "src/math.rs"], mech=[("stop conditions", "src/irls.rs Iterator for Irls"), ("limit", "src/irls.rs step_with"), ("convergence of the splitting", "src/regularization.rs terminate_ok")]),
 dict(id="C23", title="Recorded steps, likelihoods and counters describe the steps taken",
  statement="Each step records the new coefficients together with the penalised likelihood at exactly those coefficients and advances counter, history and solver state once; the fit's coefficients, likelihood, iteration count and history are those of the run, in public coordinates where they are public.",
  quant="all solver states and configurations",
  why="Caches that lag one step behind or penalties counted twice leave the coefficients right and corrupt only likelihood-derived quantities in particular settings.",
  files=["src/irls.rs", "src/glm.rs", "src/fit.rs"], mech=[("step_with, make_last_step", "src/irls.rs impl Irls"), ("regression", "src/glm.rs trait Glm"), ("Fit::new, history", "src/fit.rs impl Fit")]),
 dict(id="C24", title="L1 and elastic-net splitting updates follow the method's equations",
  statement="For L1 and elastic-net penalties the split variable is the soft-thresholded coefficient-plus-dual, the dual accumulates the remaining gap and is rescaled with the augmentation parameter, the intercept is never thresholded, and convergence is only reported when primal and dual residuals are within tolerance.",
  quant="all splitting states, thresholds, coefficients and both penalties",
  why="Splitting converges slowly from wrong updates too, and only particular sequences of residuals trigger rescaling.",
  files=["src/regularization.rs"], mech=[("Lasso, ElasticNet", "src/regularization.rs IrlsReg impls")]),
 dict(id="C26", title="Every fit option reaches the solver, in any setting order",
  statement="Tolerance, iteration limit, penalties and starting coefficients given to the fit builder reach the solver unchanged (starting coefficients converted to internal coordinates), independent of the order in which they are set, later settings override earlier ones, unset options keep their documented defaults, and the fit reports the options used.",
  quant="all option values, all orders of all subsets of the setters",
  why="Tests set one or two options in one order; a setter that resets another option, or a starting point in the wrong coordinates, changes nothing most tests see.",
  files=["src/fit/options.rs", "src/model.rs", "src/glm.rs"], mech=[("setters", "src/fit/options.rs impl FitConfig"), ("start of the regression", "src/glm.rs regression")]),
 dict(id="C40", title="Building a model validates every shape and never panics",
  statement="For every combination of given arrays the build succeeds exactly when all lengths agree with the number of responses and all responses are valid, a second value for the same setting is refused, and every failure is reported as an error of the documented kind rather than a panic.",
  quant="all lengths of all arrays, all subsets of optional arrays",
  why="The number of shape combinations is unbounded and tests try a few wrong ones.",
  files=["src/model.rs", "src/data.rs", "src/error.rs"], mech=[("build", "src/model.rs impl ModelBuilderData")]),
 dict(id="C41", title="The model stores exactly the arrays it was given",
  statement="Responses, design matrix, offset, frequencies and variance weights are stored each in its own role, unchanged apart from the documented intercept column and standardisation, absent arrays stay absent, and the order of the builder calls does not matter.",
  quant="all arrays, all subsets and orders of builder calls",
  why="Swapped roles of same-typed arrays only show when both are given with distinct values.",
  files=["src/model.rs", "src/data.rs"], mech=[("builder setters and build", "src/model.rs impl ModelBuilderData")]),
 dict(id="C11", title="Frequency weights mean repeated observations",
  statement="A fit with integer frequency weights has the same likelihood, information, tests, p-values, dispersion, residuals and solver steps as the fit of the data set in which each observation is repeated that many times.",
  quant="all data, all positive integer frequencies, every combination of intercept, standardisation, variance weights, offset and penalty",
  why="Tests replicate rows of one or two data sets and compare coefficients; a statistic that counts rows instead of frequencies in one combination of settings stays unseen.",
  files=[FIT, "src/data.rs", "src/irls.rs"], mech=[("weighted sums and observation counts", "src/data.rs impl Dataset"), ("statistics", "src/fit.rs impl Fit")]),
 dict(id="C12", title="Unit weights, unit frequencies and a zero offset change nothing",
  statement="Giving variance weights or frequencies that are all one, or an offset that is all zero, yields the same statistics, residuals, influence measures, predictions and solver steps as not giving them.",
  quant="all data and every combination of the other settings",
  why="The presence of a weight array selects other code paths than its absence; tests rarely compare the two.",
  files=[FIT, "src/data.rs"], mech=[("optional arrays", "src/data.rs impl Dataset"), ("statistics", "src/fit.rs impl Fit")]),
 dict(id="C13", title="A constant added to the offset is absorbed by the intercept",
  statement="Adding a constant to every offset of a model with intercept, at coefficients whose intercept is lower by that constant, leaves the likelihood, information, dispersion, tests against alternatives, residuals, influence and predictions unchanged, and the solver moves to correspondingly shifted coefficients.",
  quant="all data, offsets and constants, every combination of standardisation, weights and penalty",
  why="An offset that is dropped or counted twice on one path only shows for non-zero offsets on that path.",
  files=[FIT, "src/data.rs", "src/glm.rs"], mech=[("linear predictor", "src/data.rs Dataset::linear_predictor"), ("prediction", "src/fit.rs Fit::predict")]),
 dict(id="C15", title="The order of the observations does not matter",
  statement="Reordering the observations together with their weights and offsets leaves every scalar and coefficient-wise result and every solver step unchanged and reorders the per-observation results accordingly.",
  quant="all data, all permutations, every combination of settings",
  why="Tests use one order of each data set; an index or alignment slip between responses, weights and offsets is invisible for constant or sorted data.",
  files=[FIT, "src/data.rs", "src/irls.rs"], mech=[("weighted sums", "src/data.rs impl Dataset"), ("per-observation results", "src/fit.rs impl Fit")]),
 dict(id="C16", title="Internal standardisation is invisible in the results",
  statement="Without a penalty, the standardised and the unstandardised fit at the same coefficients agree in every public result and their solver steps correspond; with a penalty, standardising is the same as supplying columns that are already centred and scaled.",
  quant="all data, coefficients, weights, offsets; with and without intercept; all penalties",
  why="Each public result has to undo the internal coordinates separately; tests check few results in few settings.",
  files=[FIT, "src/data.rs"], mech=[("coordinate transforms", "src/data.rs impl Standardizer"), ("statistics in external coordinates", "src/fit.rs impl Fit")]),
 dict(id="C17", title="Order and units of the predictors do not matter",
  statement="Reordering the predictors reorders coefficient-wise results and changes nothing else; rescaling a predictor (without a penalty, or with standardisation) rescales its coefficient, score and covariance accordingly and leaves all other results and the solver's path unchanged.",
  quant="all data, permutations of the predictors and positive units, every combination of settings",
  why="Tests do not permute or rescale columns in combination with weights, penalties and standardisation.",
  files=[FIT, "src/data.rs", "src/regularization.rs"], mech=[("penalties", "src/regularization.rs"), ("coordinate transforms", "src/data.rs impl Standardizer")]),
 dict(id="C18", title="A common factor of all variance weights scales results predictably",
  statement="Without a penalty, multiplying every variance weight by one positive constant changes no coefficient, solver step, dispersion estimate, leverage, influence coefficient, prediction or unweighted residual. Likelihoods, deviance, information, score, Cook's distances and the likelihood-ratio, Wald and score statistics are multiplied by that constant, the covariance is divided by it, and Pearson, deviance, standardised and studentised residuals and z statistics are multiplied by its square root.",
  quant="all data, weights and positive constants, every combination of settings without a penalty",
  why="Tests fit with one set of weights; whether every formula carries the weights to the right power shows only when all of them are scaled.",
  files=[FIT, "src/data.rs", "src/irls.rs", "src/glm.rs"], mech=[("weights", "src/data.rs Dataset::apply_total_weights"), ("dispersion", "src/fit.rs Fit::dispersion")]),
 dict(id="C42", title="A built model never panics: failures are errors or NaN",
  statement="Once building a model has succeeded, fitting it and asking the fit for any public result never panics, for any number of observations, weights and offset: failing linear algebra and non-convergence are reported as errors where the operation returns a result, and undefined statistics as NaN.",
  quant="all data and shapes including a single observation and more parameters than observations; every configuration; every outcome of the linear solvers and of nested fits",
  why="Panics hide in nested fits, degenerate shapes and failing solves that ordinary test data never trigger.",
  files=[FIT, "src/irls.rs", "src/data.rs", "src/model.rs"], mech=[("public methods", "src/fit.rs impl Fit"), ("nested null fit", "src/fit.rs Fit::null_model_fit"), ("solver step", "src/irls.rs")]),
 dict(id="C37", title="Single and double precision behave alike",
  statement="Both floating-point types are supported with the same constants, a sign that is zero at zero and propagates NaN, and a comparison that is the type's total order, so that selections among results involving NaN or signed zeros are well defined.",
  quant="both types and all values including signed zeros, infinities and NaN",
  why="Tests run mostly in double precision on ordinary numbers; the exceptional values only matter in degenerate fits.",
  files=["src/num.rs"], mech=[("Float", "src/num.rs")]),
 dict(id="C38", title="No computation loses the caller's precision through a conversion",
  statement="Data, counts, constants and results keep the precision of the floating-point type chosen by the caller: nothing is rounded through a narrower type or cut to an integer on the way.",
  quant="every conversion in the library, all values",
  why="A detour through a narrower type changes only the last digits, within the tolerance of most tests.",
  files=["src/fit.rs", "src/data.rs", "src/glm.rs", "src/irls.rs", "src/response/binomial.rs", "src/response/gamma.rs"], mech=[("numeric conversions", "src")]),
 dict(id="C51", title="Results depend on nothing but the inputs",
  statement="Building, fitting and every statistic are deterministic functions of their arguments: no global or thread-local state, clock, randomness, environment, file, thread timing or memory address influences them, and one fit never affects another.",
  quant="all programs, histories of calls and environments",
  why="Tests run each fit once in one process; state kept between fits shows only in particular sequences.",
  files=["src/lib.rs", FIT, "src/irls.rs", "src/glm.rs", "src/data.rs", "src/model.rs"], mech=[("all functions", "src")]),
 dict(id="C52", title="Optional features add results without changing others",
  statement="Enabling the optional statistics feature adds methods only; everything available without it gives the same results.",
  quant="all data and settings, both feature sets",
  why="The test suite runs with the feature enabled; builds without it are not tested.",
  files=["src/lib.rs", FIT, "src/glm.rs", "src/response.rs"], mech=[("conditional compilation", "src")]),
 dict(id="C25", title="Failures of the solver or the linear algebra reach the caller",
  statement="When a linear solve fails in any step, that step and the whole fit fail with the linear-algebra error and its source, an error of any step is the result of the fit, and a failing inversion in a statistic is that statistic's error; nothing is reported as an error when nothing failed.",
  quant="all solver states, histories of steps, outcomes of every solve and inversion, all settings",
  why="Singular systems and exhausted iterations hardly occur in tests; a swallowed failure looks like convergence and returns coefficients that were never optimal.",
  files=["src/irls.rs", "src/glm.rs", FIT, "src/regularization.rs", "src/error.rs"], mech=[("step", "src/irls.rs Iterator for Irls"), ("regression", "src/glm.rs"), ("fallible statistics", "src/fit.rs")]),
 dict(id="N01", title="A fit that reports success maximises the penalised likelihood",
  statement="Whenever fitting reports success, the reported coefficients maximise the penalised likelihood over all coefficient vectors up to the tolerance.",
  quant="all data, settings and starting points", over=["inputs", "configurations", "histories"],
  why="Tests check convergence for a few data sets only.",
  files=["src/irls.rs", "src/glm.rs"], mech=[("iteration", "src/irls.rs impl Iterator for Irls")]),
 dict(id="N02", title="Results are accurate to the working precision",
  statement="For well-conditioned data every result of a fit agrees with its exact value up to a small multiple of the rounding unit.",
  quant="all well-conditioned data and settings", 
  why="Tests compare a few data sets up to coarse tolerances.",
  files=["src/fit.rs", "src/irls.rs"], mech=[("linear algebra", "src/fit.rs, src/irls.rs")]),
 dict(id="N03", title="Fitting takes few iterations and time proportional to the data",
  statement="Fitting well-behaved data needs a number of iterations that does not grow with the data, and each iteration takes time linear in the number of observations.",
  quant="all well-behaved data", 
  why="Tests do not measure iteration counts or time.",
  files=["src/irls.rs"], mech=[("iteration", "src/irls.rs")]),
]
