"""property id -> how it is checked"""
GVN = "Value-graph analysis: the MIR of the public entry points is abstractly interpreted into gated algebraic terms over the inputs (loops by fixpoint / summation, library calls by leaf semantics), one run per configuration; each public observable's term is compared with the specified term by normal form, or by random interpretation (Gulwani-Necula) with steering towards unreached branches."
RULE = "one obligation per public observable and configuration (intercept x standardize x freq x var weights x offset x penalty x dispersion kind); refuted when an interpretation of the uninterpreted inputs makes the extracted and the specified term differ, undecided when the value is not understood"

T_GVN = "abstract interpretation of the MIR into a gated value graph, compared with the specified value graph by normal form and random interpretation"
N_GVN = "Every configuration is enumerated; data, sizes and family functions stay symbolic. Equality is by algebraic normal form where that suffices, otherwise by random interpretation of the graph (one-sided: a refutation is always a real difference of the extracted terms, agreement is probabilistic). Real arithmetic, not rounding."


def stat(title):
    return dict(title=title, module="props.stat", tasks="tasks", level="other", explanation=GVN, rule=RULE, technique=T_GVN, note=N_GVN)


PROPS = {
    "C01": stat("likelihood statistics"),
    "C02": stat("score and Fisher"),
    "C03": stat("dispersion and covariance"),
    "C04": stat("hypothesis tests"),
    "C05": stat("null model"),
    "C06": stat("p-values"),
    "C07": stat("influence"),
    "C08": stat("residuals"),
    "C09": stat("prediction"),
    "C14": stat("linear regression"),
}

FAMX = "Every implementation of the family, link and response traits is found in the type-checked program; its MIR is abstractly interpreted into a term in elementary functions; the terms are related to each other and to the specification by 600-digit evaluation (and symbolic-step differentiation) over the whole domain including every branch threshold found in the terms."
FAMR = "one obligation per family/link pair and identity; refuted at a concrete point of the domain"
FAMT = "abstract interpretation of each implementation's MIR into an elementary-function term; identities between terms (derivatives, inverses, limits) decided in high-precision arithmetic incl. branch thresholds"
FAMN = "All implementations in the crate are enumerated from the program. Identities are checked on the extracted terms, exactly up to 600 digits, at a grid that brackets every threshold; real arithmetic, not rounding."


def famp(title, tasks="tasks"):
    return dict(title=title, module="props.family", tasks=tasks, level="other", explanation=FAMX, rule=FAMR, technique=FAMT, note=FAMN)


PROPS.update({
    "C30": famp("family coherence"), "C31": famp("link coherence"), "C32": famp("overridden functions"), "C33": famp("saturated likelihood"),
    "C34": famp("responses", "yval_tasks"), "C36": famp("response distributions"),
})

SX = "The solver's step function is abstractly interpreted once per configuration from an arbitrary symbolic state (coefficients, likelihood, counters, splitting variables, tolerances); the gated terms of the returned step and of the updated state are related to the specified transition by random interpretation that visits both sides of every acceptance, convergence and limit condition."
SR = "one obligation per transition rule and configuration (intercept x standardize x freq x var weights x offset x penalty); refuted when an interpretation of the symbolic state makes the extracted transition differ from the specified one"


def solv(title):
    return dict(title=title, module="props.solver", tasks="tasks", level="other", explanation=SX, rule=SR, technique="abstract interpretation of the solver step's MIR from a symbolic state into a gated transition term, compared with the specified transition by random interpretation",
                note="One inductive step from an arbitrary state, so histories of any length are covered; loops inside a step are over-approximated with their exit conditions. Real arithmetic; the conditioning epsilon is taken as zero.")


PROPS.update({"C20": solv("Newton step"), "C21": solv("acceptance"), "C22": solv("termination"), "C23": solv("solver records"), "C24": solv("splitting")})


def dat(title, expl, rule):
    return dict(title=title, module="props.data", tasks="tasks", level="other", explanation=expl, rule=rule, technique="abstract interpretation of the builder's MIR on symbolic arrays with independent symbolic dimensions, compared with the specified values by normal form and random interpretation",
                note="All 32 settings are enumerated; data and dimensions are symbolic. Comparisons of gated conditions are decided on an exhaustive grid of small dimensions.")


PROPS.update({
    "C10": dat("standardisation", "The builder is abstractly interpreted; the stored design matrix, its scaling tables and both coefficient maps become terms over the user's data.", "one obligation per identity and setting: scaling tables are the weighted moments, scaled data times internal coefficients is the user's linear predictor, in both directions"),
    "C26": dat("fit options", "The option setters and the start of the regression are abstractly interpreted for every permutation of every subset of settings; the options that reach the solver are read off the symbolic solver object.", "one obligation per permutation of settings and per option and data setting"),
    "C40": dat("input validation", "The builder is abstractly interpreted with a separate symbolic length for every array; the condition under which it succeeds is a gated formula over the lengths and the validity of responses.", "the success condition equals 'all lengths agree, all responses valid, nothing given twice'; no path of the builder panics"),
    "C41": dat("stored data", "The builder is abstractly interpreted for every setting in two orders; the fields of the stored data set are compared with the arrays given.", "one obligation per stored array and setting"),
})


def rel(title):
    return dict(title=title, module="props.rel", tasks="tasks", level="other",
                explanation="Both presentations of the data are abstractly interpreted from the builder to every public statistic and to one solver step from an arbitrary state; each result is a term over the inputs. The second presentation's inputs are written as functions of the first's and the two terms are compared under random interpretations of the inputs and of the family's uninterpreted functions.",
                rule="one obligation per public statistic (and per solver step) and configuration; refuted when an interpretation makes the two presentations' terms differ, confirmed in 60-digit arithmetic",
                technique="relational value-graph analysis: extracted terms of two configurations compared under a substitution of the inputs by random interpretation",
                note="Statistics are compared at corresponding coefficients, and one solver step from corresponding states, so fits of any length correspond; the (arbitrary) starting point and, for repeated rows, per-group influence measures are not compared. Nested refits of the null model are covered by C05.")


PROPS.update({"C11": rel("replication"), "C12": rel("neutral settings"), "C13": rel("offset shift"), "C15": rel("row order"), "C16": rel("scaling equivariance"), "C17": rel("column equivariance"), "C18": rel("weight scale")})


PROPS["C42"] = dict(title="panics", module="props.panic", tasks="tasks", level="other",
    explanation="Building, fitting, one solver step from an arbitrary state and every public method of a fit are abstractly interpreted with linear-algebra failures and non-convergence as symbolic outcomes. Every construct that can panic (unwrap/expect of an error, explicit panic, failed assertion, index or slice out of bounds, incompatible array shapes) is recorded with the condition under which control reaches it; the condition is examined over small shapes and random interpretations.",
    rule="one obligation per public method and configuration: no recorded panic has a satisfiable condition; each reachable one is reported with its site",
    technique="abstract interpretation with path conditions; reachability of every panicking construct from each public method",
    note="Generic over family and float type: panics inside a family's own functions or in external crates are outside. Arrays the caller passes to methods are assumed to have the documented length, and the model to have at least one parameter.")


PROPS["C35"] = dict(title="numerical range", module="props.numeric", tasks="tasks", level="other",
    explanation="The MIR of every family and link function is abstractly interpreted into a term that keeps each floating-point operation as written; the term is evaluated in an abstract domain of intervals paired with a bound on the accumulated rounding error, over a partition of the function's domain, for f32 and f64.",
    rule="one obligation per function, family/link pair and format: on every interval of the partition the rounding-error bound stays within a fixed number of digits of the value (or of what a relative change of the argument does), and no operation leaves the finite range; refuted at a point of an interval where the format's own arithmetic misses the exact value by more than ten times that",
    technique="abstract interpretation of the MIR with an interval and rounding-error domain (f32 and f64)",
    note="Elementary functions are assumed accurate to a few units in the last place. Linear predictors up to the size where the mean leaves the format; responses and means over many decades; the likelihood at fixed responses. The binomial is analysed for one number of trials. Linear algebra is outside.")


PROPS["C50"] = dict(title="memo transparency", module="props.memo", tasks="tasks", level="other",
    explanation="Every public statistic of a fit is abstractly interpreted with the memo cells of the fit modelled: from a fit whose cells are empty, recording what it stores, and from a fit in which an arbitrary subset of the cells already holds what other methods store there (for each argument). The two results are compared.",
    rule="one obligation per public statistic (and second argument) and configuration: the result with any subset of the memo cells filled equals the result on a fresh fit, all methods store the same value in a cell, and the fit is otherwise unchanged",
    technique="abstract interpretation of the MIR with memo cells as state; results compared for every set of filled cells by normal form and random interpretation",
    note="Sequences of calls of any length are covered, because what a cell can hold is closed under further calls. Nested refits are compared by their inputs.")


def lint(title, tasks, expl, rule, technique, note, exports=("stats",)):
    return dict(title=title, module="props.lint", tasks=tasks, level="other", explanation=expl, rule=rule, technique=technique, note=note, exports=list(exports))


PROPS["C37"] = lint("floating-point types", "float_tasks",
    "The crate's own functions on the supported floating-point types (constants, sign, total order) are found through the trait's implementations and abstractly interpreted for each type.",
    "one obligation per type and function: constants have their value, sign is 0 at both zeros, +-1 elsewhere and NaN at NaN, the comparison is the type's total order in argument order",
    "abstract interpretation of each implementation's MIR, compared with the specified value on all classes of floating-point numbers",
    "Covers every implementation in the crate. The standard library's own functions on floats are trusted.")
PROPS["C38"] = lint("conversions", "conv_tasks",
    "Every numeric conversion of the crate (casts, conversion traits, constants entering the caller's type) is enumerated from the MIR with its source and target type.",
    "one obligation per conversion site: refuted when a value passes through single precision whatever the caller's type is, or a constant is a rounded single-precision one; truncations are left to the value-graph checks",
    "type-directed enumeration of all conversion sites of the MIR (custom lint)",
    "Conversions inside external crates are outside; probabilities are computed in double precision, which is at least the caller's.")
PROPS["C51"] = lint("hidden state", "effect_tasks",
    "Effect analysis of the whole crate: every static, every library function mentioned in any body, every address-to-integer cast and every field type is enumerated.",
    "one obligation per static, function and type: refuted for mutable or interior-mutable or thread-local statics, clocks, environment, files, randomness, randomly ordered iteration and addresses used as numbers",
    "effect analysis over all MIR bodies and statics",
    "External crates' functions are judged by their path. Printing to the error stream is not counted; state within a fit is covered by C50.")
PROPS["C52"] = lint("optional features", "feature_tasks",
    "The crate is exported twice, with and without its optional statistics feature. Bodies present in both are compared; if any differs, both programs are abstractly interpreted from the builder to every public statistic and to one solver step and the values compared.",
    "one obligation per function present in both builds (identical MIR), or else per public statistic and configuration (same value)",
    "comparison of the type-checked programs of two feature sets, by MIR and by value graph",
    "The choice of the linear-algebra back end is outside.", ("stats", "base"))


PROPS["C25"] = dict(title="failures reported", module="props.errors", tasks="tasks", level="other",
    explanation="The solver step (from any state), the regression and every fallible public method of a fit are abstractly interpreted with the outcome of each linear solve and inversion, and of each step of the solver, as a symbol. The variant and payload of the returned result are examined where these outcomes are failures and where they are successes.",
    rule="one obligation per operation and configuration: a failing solve is the step's LinalgError with its source; an error of a step is the regression's result, and none arises without one; a failing inversion is the method's LinalgError, and none arises without one",
    technique="abstract interpretation with symbolic failure outcomes; error-propagation analysis of the gated results",
    note="The documented fallback of the starting point (zero when it cannot be solved for) is not a failure of the fit. Panicking on failure is C42.")
