"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": ["spreg/" + f for f in files], "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)


REGF = ["ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py", "error_sp_regimes.py", "error_sp_het_regimes.py", "error_sp_hom_regimes.py",
        "ml_lag_regimes.py", "ml_error_regimes.py"]

p("C01", "A parallel separate-regimes fit equals the serial fit",
  "Estimating regimes in separate worker processes (cores=True) returns exactly what the serial fit returns - coefficients, variances, residuals, "
  "diagnostics, names, printed summary, or the same error - whatever the order in which workers start and finish, however many CPUs there are and however "
  "worker memory relates to the parent's. Every regime's block of the result belongs to that regime: it is what the single-equation estimator gives on that "
  "regime's own observations.",
  ["schedules", "configurations", "inputs"],
  "for every worker schedule, CPU count, process start method, estimator with a cores option, option set and regime layout",
  "the tests hold a handful of cores=True fits, on one machine, with one scheduling, and compare them with constants to a few digits",
  REGF + ["regimes.py"],
  [("per-regime submission and collection loops", "_*_regimes_multi in every *_regimes module"), ("worker functions", "_work, _work_error, _work_endog_error"),
   ("w_regime / w_regimes_union", "spreg/regimes.py")],
  ["every public attribute of the fitted model and of model.multi[r]", "model.summary"],
  [("results_p", "regime -> pending worker result", "_*_regimes_multi")])

p("C02", "A failing worker is never silent, partial or a hang",
  "If any worker process of a parallel fit fails - its computation raises, it runs out of memory, it is killed, it cannot be started, or its arguments or "
  "result cannot be transferred - the fit raises promptly, carrying the worker's own error when there is one, and never returns a model with missing, stale or "
  "zero-filled regimes and never waits forever. Fitting again afterwards gives the fault-free result.",
  ["fault_sequences", "schedules"],
  "for every failure kind, failing task subset, failure point and worker schedule",
  "no test makes a worker fail; a killed worker cannot be produced by a unit test without process control",
  REGF, [("result collection", "results_p[r].get()/result() in _*_regimes_multi"), ("pool lifetime", "pool creation and close/join around the submission loop")],
  ["the exception raised by the constructor", "whether the call returns"])

p("C03", "Worker processes are bounded and released when the fit ends",
  "A parallel fit never has more worker processes alive than one pool's worth (the CPU count, or one per regime if that is larger), a serial fit starts none, and "
  "when the call returns or raises - also when a worker failed or the user interrupted the wait - every worker it started has been shut down without relying on "
  "garbage collection.",
  ["schedules", "fault_sequences", "configurations"],
  "for every number of regimes and CPUs, worker schedule, and failure or interruption point",
  "tests look at results only; process counts and leaked pools are invisible to them",
  REGF, [("pool lifetime", "pool creation and close/join in _*_regimes_multi")], ["number of live worker processes during and after the call"])

p("C04", "Concurrent fits that share inputs do not affect each other",
  "Threads of one program may fit models at the same time on the same data and weights objects: each gets exactly the result it would get alone, under every "
  "interleaving. Neither the shared inputs nor any process-wide state serves as scratch space during a fit.",
  ["schedules", "inputs"],
  "for every pair or triple of estimators, option sets and every interleaving of their steps",
  "the tests are single-threaded; a window in which a weights object is temporarily transformed is never observed",
  ["w_utils.py", "utils.py", "ml_lag.py", "ml_error.py", "user_output.py", "skater_reg.py", "sur_utils.py", "twosls_sp.py"],
  [("symmetrize", "spreg/w_utils.py"), ("input validation and copying", "spreg/user_output.py"), ("weights lags", "spreg/utils.py")],
  ["results of each thread", "shared weights during the run"])

p("C05", "Caller-owned inputs are never modified",
  "Fitting, diagnosing or searching never changes an object the caller passed in - arrays, data frames, dictionaries and lists of variables, names, regimes, "
  "weights (neighbours, values, transformation), parameter lists, fitted models - whether the call succeeds, raises, or is interrupted at any point inside it.",
  ["inputs", "crash_points", "histories"],
  "for every public entry point, option set, input container type and every point at which the call can be cut short",
  "tests discard their inputs after one call; a restore step skipped by an exception is reached by none of them",
  ["user_output.py", "w_utils.py", "skater_reg.py", "sur_utils.py", "sur.py", "sur_lag.py", "sur_error.py", "utils.py", "regimes.py", "spsearch.py", "panel_utils.py", "sputils.py"],
  [("input checking", "spreg/user_output.py"), ("symmetrize", "spreg/w_utils.py"), ("dictionary set-up", "spreg/sur_utils.py"), ("lag preparation", "Skater_reg._prep_lag, spreg/skater_reg.py")],
  ["deep comparison of every argument before and after the call"])

p("C06", "Interrupting a fit anywhere never yields a different answer",
  "If Ctrl-C or memory exhaustion strikes at any point inside a fit or a diagnostic, the call either raises that error or returns exactly the undisturbed result; "
  "a keyboard interrupt is never swallowed. Repeating the call afterwards on the same inputs, in the same process, gives the undisturbed result.",
  ["crash_points", "inputs"],
  "for every step of every estimator and option set at which an asynchronous exception can arrive",
  "catch-all handlers only misbehave when an unexpected exception passes through them; tests only exercise the expected ones",
  ["output.py", "summary_output.py", "spsearch.py", "utils.py", "user_output.py", "ols_regimes.py", "twosls_regimes.py", "panel.py", "sputils.py", "diagnostics_sur.py", "skater_reg.py"],
  [("exception handlers", "except clauses across spreg"), ("optional attributes of a report", "spreg/output.py")],
  ["exception raised or model returned", "result of the next identical call"])

p("C07", "Results do not depend on what ran before, and no global state changes",
  "The result of a call depends only on its arguments: whatever fits, failures and interruptions came before it in the process, it equals the result in a fresh "
  "process. No call changes process-wide state: random generators, numpy error settings, warning filters, environment, working directory, display options, default "
  "argument values, module- or class-level data, open files, threads or child processes.",
  ["histories", "fault_sequences"],
  "for every sequence of calls (with faults) preceding a call",
  "each test runs once in one fixed order; dependence on an arbitrary history is not sampled",
  ["diagnostics_sp.py", "utils.py", "output.py", "regimes.py", "spsearch.py", "sur_utils.py", "panel.py", "skater_reg.py", "dgp.py"],
  [("default arguments", "function signatures across spreg"), ("module-level data", "spreg/*.py")],
  ["results after a history against a fresh process", "process-wide state before and after each call"])

p("C08", "Results do not depend on hash seed, global RNG, clock or object identity",
  "The same call on the same data returns the same numbers, the same variable order, the same names and the same text in every process: not depending on string "
  "hash randomisation, the state of the global random generators, the time or its jumps, memory addresses, the locale or the working directory.",
  ["configurations", "histories"],
  "for every environment (hash seed, RNG state, clock, address layout, locale, working directory) and every call",
  "a test process has one hash seed and one clock; set-ordering bugs show only across processes",
  ["regimes.py", "user_output.py", "ols_regimes.py", "output.py", "summary_output.py", "skater_reg.py", "twosls_regimes.py", "spsearch.py", "sur_utils.py"],
  [("regime ordering", "_get_regimes_set in spreg/regimes.py"), ("constant checks", "check_const_regi, check_constant"), ("report assembly", "spreg/output.py")],
  ["model attributes and summary in differently seeded processes"])

p("C09", "Lazy results are the same in any reading order, any number of times",
  "Every attribute of a fitted model that is computed on demand has one value: it does not depend on which other attributes or diagnostics were read before, how "
  "often, by how many threads at once, or on an earlier read having been interrupted. Reading never makes another attribute unavailable or changes it.",
  ["histories", "schedules", "crash_points"],
  "for every sequence and interleaving of attribute reads and diagnostics on one model, with interruptions",
  "tests read attributes once, in one order, from one thread",
  ["utils.py", "twosls.py", "ols.py", "ols_regimes.py", "twosls_regimes.py", "twosls_sp.py", "diagnostics.py", "diagnostics_sp.py", "diagnostics_tsls.py"],
  [("attribute caches", "RegressionPropsY, RegressionPropsVM in spreg/utils.py; BaseTSLS in spreg/twosls.py"), ("cache resets", "_get_spat_diag_props in *_regimes.py")],
  ["every property of every model class"], [("_cache", "name -> computed attribute", "spreg/utils.py")])

p("C10", "Simulated data depend only on the generator passed in",
  "The data-generating functions draw only from the random generator the caller passes: the same generator state gives the same data whatever else uses the global "
  "generators or other generators at the same time, in any interleaving, and the global generators are never consumed. Two generators never influence each other.",
  ["schedules", "histories"],
  "for every interleaving of generating threads and every state of the global generators",
  "tests run each function once from one seed in one thread",
  ["dgp.py"], [("explicit generator parameter", "make_error, make_x and the dgp_* functions in spreg/dgp.py")], ["arrays returned", "global generator state"])

p("C11", "A saved and restored model gives the same answers",
  "A fitted model that is pickled and restored in another process, or copied, at any point of its use - before or after any of its on-demand attributes were "
  "computed - answers every later question exactly as the uninterrupted original would. Saving never changes the original.",
  ["crash_points", "histories"],
  "for every model class and option set, and every point in the reading history at which the process stops and restarts from the saved state",
  "no test saves and restores a model",
  ["utils.py", "ols.py", "twosls.py", "twosls_sp.py", "error_sp.py", "error_sp_het.py", "error_sp_hom.py", "ml_lag.py", "ml_error.py", "probit.py", "sur.py", "sur_lag.py", "sur_error.py", "panel.py", "regimes.py", "nslx.py", "skater_reg.py"],
  [("models hold plain data", "constructors across spreg"), ("attribute caches", "spreg/utils.py")], ["attributes, summary and diagnostics after restore"])

p("C12", "A missing or failing output stream does not affect results",
  "Fitting with default options writes nothing to standard output, and works identically when standard output is closed, absent, full or unable to encode: the "
  "model and its summary are the same. Functions asked to print may report the stream's error but never return a different result.",
  ["fault_sequences", "configurations"],
  "for every kind of stream failure at every write, and every estimator and option set",
  "tests run with a working captured stdout and ignore what is printed",
  ["output.py", "summary_output.py", "spsearch.py", "skater_reg.py", "sur_utils.py", "user_output.py", "panel.py"],
  [("report assembly in strings", "spreg/output.py"), ("guarded printing", "verbose / mprint options")], ["bytes written to stdout", "model returned"])

p("C13", "Iterations are bounded and report truthfully how they ended",
  "Every iterative estimation stops within its iteration limit (the one the user sets, or its own) whatever the numerical solver underneath returns - stalling, "
  "oscillating, never converging or undefined values - and never loops forever. It stops exactly when its tolerance is met or the limit is reached, each iteration "
  "starts from the estimates of the one before, and the estimates reported are those of the last one. Where a model reports how it ended (iteration and niter "
  "counts, iter_stop, Probit.warning, NSLX success/status/message/nit, hard_bound) the report is what happened, limits and tolerances reach the solver, and an "
  "error raised inside the solver reaches the caller unchanged instead of being turned into estimates.",
  ["fault_sequences", "inputs"],
  "for every sequence of solver answers and failures, tolerance and iteration limit",
  "the real solver converges on the test data sets, so limits and failure paths are rarely reached",
  ["error_sp_het.py", "error_sp_hom.py", "error_sp_het_regimes.py", "error_sp_hom_regimes.py", "sur.py", "sur_error.py", "panel.py", "panel_re.py", "probit.py", "nslx.py", "utils.py", "ml_lag.py", "ml_error.py"],
  [("iteration loops", "while self.iteration < max_iter ..."), ("iter_msg", "spreg/utils.py"), ("newton", "spreg/probit.py"), ("power_expansion", "spreg/utils.py")],
  ["iteration, iter_stop, niter, warning, success, message attributes", "number of solver calls", "exceptions"])

p("C14", "Reading model data from a data source fails loudly, never partially",
  "Building estimation inputs from a data source (a table or an open database) returns exactly the columns asked for, in order, or raises the source's error: a "
  "read that fails, comes back short, or is interrupted at any point never yields silently truncated, misaligned or reused data, and a retry after the fault "
  "gives the complete result.",
  ["fault_sequences", "crash_points"],
  "for every position and kind of read failure in the source",
  "tests read from healthy files",
  ["sur_utils.py", "panel_utils.py", "user_output.py"],
  [("sur_dictxy, sur_dictZ", "spreg/sur_utils.py"), ("check_panel, prepare_panel", "spreg/panel_utils.py")], ["returned dictionaries and names", "exceptions"])

p("C15", "Absent optional accelerators change no result",
  "A library spreg treats as optional may be missing, or present but fail when used, without changing a result: the call gives the same answer as with the library, or "
  "raises an error; it never returns different numbers.",
  ["configurations", "fault_sequences"],
  "for every subset of optional dependencies that is missing and every call that would use one",
  "the test environment has one fixed set of packages",
  ["skater_reg.py", "ml_lag.py", "ml_error.py", "panel_fe.py", "panel_re.py", "sputils.py", "utils.py"],
  [("guarded imports", "try/except around optional imports")], ["results with and without each library"])

N = [
 ("N01", "Least-squares estimates solve the normal equations", "OLS, two-stage least squares and their regime, SLX and panel variants return coefficients that satisfy their estimating equations on the data given, with residuals and fitted values that add up to the dependent variable.", ["ols.py", "twosls.py", "twosls_sp.py", "panel.py"], "BaseOLS, BaseTSLS"),
 ("N02", "Maximum-likelihood estimates maximise the stated likelihood", "The ML estimators return the parameter values that maximise the documented (concentrated) log-likelihood over the admissible range, report that maximum, and agree across the full, ordinal and sparse-LU ways of computing it.", ["ml_lag.py", "ml_error.py", "panel.py", "sur_error.py"], "lag_c_loglik*, err_c_loglik*"),
 ("N03", "Estimates do not depend on the order of observations", "Permuting the observations together with the weights and regimes permutes residuals and predictions and leaves coefficients, variances and diagnostics unchanged.", ["ols.py", "twosls_sp.py", "error_sp.py", "regimes.py"], "all estimators"),
 ("N04", "Diagnostics equal their published formulas", "Each test statistic and p-value reported equals its published definition evaluated on the model's residuals, regressors and weights, with the correct reference distribution and degrees of freedom.", ["diagnostics.py", "diagnostics_sp.py", "diagnostics_tsls.py", "diagnostics_sur.py", "diagnostics_probit.py", "diagnostics_panel.py"], "diagnostics*.py"),
 ("N05", "Variance matrices are the documented estimators", "The reported variance matrix is symmetric and equals the documented homoskedastic, White, HAC or GMM formula; standard errors, z-values and p-values follow from it.", ["robust.py", "twosls.py", "error_sp_het.py", "error_sp_hom.py"], "robust_vm, hac_multi"),
 ("N06", "Direct, indirect and total impacts are consistent", "Reported impacts satisfy total = direct + indirect and equal the definition from the spatial multiplier for every method of computing it.", ["sputils.py", "output.py"], "spmultiplier, _summary_impacts"),
 ("N07", "Invalid inputs are rejected with an error", "Inputs of wrong shape, length, type, missing values or mismatched weights are rejected before estimation rather than producing a model.", ["user_output.py"], "check_* functions"),
 ("N08", "The specification search follows its documented decision tree", "The forward and backward searches return the model their documented sequence of tests and significance levels selects, and report each step taken.", ["spsearch.py"], "stge_*, gets_*"),
 ("N09", "Weights transformations and lags are correct", "Spatial lags, filters and powers computed on sparse structures equal their dense definitions for every weights structure, including islands.", ["utils.py", "w_utils.py", "regimes.py"], "get_lags, get_spFilter, power_expansion, w_regime"),
 ("N10", "Chow tests compare the regime coefficients they name", "The Chow and Wald tests reported for regimes test equality of exactly the named coefficients across regimes with the right degrees of freedom.", ["regimes.py", "diagnostics_sur.py"], "Chow, wald_test, buildR"),
]
for i, t, s, f, m in N:
    p(i, t, s, ["inputs"], "for every admissible data set, weights structure and option set",
      "tests compare a few data sets with stored constants", f, [(m, "see files")], ["model attributes and summary"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for d in P:
        fh.write(json.dumps(d) + "\n")
print(len(P))
