#!/usr/bin/env python3
"""Generates properties.jsonl (and is the single place the property texts live)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": ["spreg/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["attributes of the result object returned by the estimator"],
                          "hook_needed": None}})


GOLD = """The existing tests compare a handful of runs on two example data sets (49 and 3085 areas, one or two
regressors, mostly default options) with stored numbers; """

p("P01", "OLS returns the least-squares solution with correct classical inference",
  """For every full-rank design, response and option combination (numpy, sparse or pandas input, spatially lagged
  regressors on any subset of columns, n or n-k variance), ordinary least squares reports the unique coefficients
  solving the normal equations, and residuals, predictions, variance matrix, standard errors, t/F statistics,
  R-squared and adjusted R-squared, log-likelihood, AIC and Schwarz values that follow from them.""",
  ["inputs", "configurations"],
  "all designs of the enumerated families x all option combinations that select a numeric path",
  GOLD + "the option product (slx_vars masks x lag order x variance choice x input form) and degenerate-but-legal shapes are never covered.",
  ["ols.py", "utils.py", "diagnostics.py", "sputils.py", "user_output.py"],
  [("least squares and variance", "ols.py BaseOLS"), ("spatial lag assembly", "user_output.py flex_wx"), ("fit statistics", "diagnostics.py")])

p("P02", "Robust variance matrices are the exact White and HAC sandwiches",
  """When heteroskedasticity-robust or spatial-HAC inference is requested for OLS, 2SLS or spatial 2SLS, the reported
  variance matrix is the sandwich formula evaluated with that model's own residuals, instruments and kernel weights,
  and every standard error and t statistic follows from it, while coefficients do not depend on the robust option.""",
  ["inputs", "configurations"],
  "estimator x robust option x degrees-of-freedom option x kernel weights x design",
  GOLD + "the sandwich is only checked at one kernel and default degrees of freedom.",
  ["robust.py", "ols.py", "twosls.py", "twosls_sp.py"],
  [("sandwich", "robust.py robust_vm")])

p("P03", "2SLS returns the instrumental-variable solution with correct inference",
  """Two-stage least squares reports, for any number of endogenous regressors and any sufficient set of instruments,
  the coefficients, residuals, variance matrix and z statistics of the textbook estimator using all exogenous regressors
  plus the extra instruments as the instrument set, with lagged regressors, variance convention and the
  instrument-matrix form as requested; its endogeneity and Anselin-Kelejian diagnostics equal their definitions.""",
  ["inputs", "configurations"],
  "numbers of regressors/endogenous/instruments x options x designs",
  GOLD + "only one endogenous variable with one instrument set is covered.",
  ["twosls.py", "diagnostics_tsls.py", "diagnostics_sp.py"],
  [("2SLS", "twosls.py BaseTSLS"), ("Durbin-Wu-Hausman", "diagnostics_tsls.py dwh"), ("AK test", "diagnostics_sp.py akTest")])

p("P04", "Spatial 2SLS uses exactly the documented instruments",
  """Spatial two-stage least squares equals plain 2SLS with the spatially lagged response as (last) endogenous variable and,
  as instruments, all spatial lags of the exogenous regressors (and of the additional instruments when asked) up to the
  requested order, beginning above the order already included as regressors; the reported spatial coefficient,
  predictions and residuals (both ordinary and reduced-form) follow from it and every instrument name denotes its column.""",
  ["inputs", "configurations"],
  "lag order x regressor-lag order x regressor-lag mask x lag-the-instruments flag x endogenous variables x weights",
  GOLD + "higher-order combinations of lag order, regressor lags, masks and extra endogenous variables are not run.",
  ["twosls_sp.py", "utils.py", "user_output.py"],
  [("instrument construction", "utils.py set_endog, get_lags_split"), ("reduced form predictions", "utils.py sp_att"), ("naming", "user_output.py set_name_q_sp, set_name_spatial_lags")])

p("P05", "GMM spatial-error estimators solve their moment equations",
  """Every GMM spatial-error estimator (homoskedastic, heteroskedastic and the original moments approach; with or without endogenous
  variables, spatial lag, lagged regressors) reports a spatial error parameter that is a minimiser (local where the criterion has several) of that method's moment criterion
  within its admissible range, coefficients that are the spatially filtered (2S)LS solution at the parameter the method
  prescribes, and the variance matrix given by the method's formula at the reported estimates.""",
  ["inputs", "configurations"],
  "method x model (exogenous, endogenous, lag+error) x iteration count x two-step option x moment weighting x inverse method x weights",
  GOLD + "stored numbers say nothing about optimality nor about other iteration/weighting choices.",
  ["error_sp.py", "error_sp_het.py", "error_sp_hom.py", "utils.py"],
  [("moments", "utils.py _moments2eqs, optim_moments; error_sp.py _momentsGM_Error; error_sp_hom.py moments_hom"),
   ("variance", "error_sp_het.py get_vc_het, get_vm_het, get_Omega_GS2SLS; error_sp_hom.py get_vc_hom, get_omega_hom")])

p("P06", "Maximum likelihood lag/error models attain the likelihood optimum",
  """Maximum-likelihood spatial lag and error models report a spatial parameter at which the exact concentrated likelihood has
  (to the stated tolerance) its maximum over the admissible interval - a local maximum where the likelihood has several -, coefficients and error variance that are the
  corresponding closed-form solutions, the exact log-likelihood value and information criteria, and the asymptotic variance matrix
  at those estimates; the full and sparse-LU Jacobian methods agree for any weights and the eigenvalue method
  agrees for symmetric or row-standardised symmetric weights.""",
  ["inputs", "configurations"],
  "model x Jacobian method x weights matrix x lagged regressors x data",
  GOLD + "a global optimum over the whole parameter interval cannot be seen from stored numbers.",
  ["ml_lag.py", "ml_error.py", "w_utils.py"],
  [("concentrated likelihood", "ml_lag.py lag_c_loglik*; ml_error.py err_c_loglik*"), ("optimum", "BaseML_Lag, BaseML_Error"), ("similar symmetric weights", "w_utils.py symmetrize")])

p("P07", "Fully separated regimes equal separate regressions on each subset",
  """With everything varying by regime and regime-specific error variance, each regimes estimator that supports it (OLS, 2SLS, spatial 2SLS,
  GMM error in all three flavours, combined lag-error, ML lag and error) returns for each regime exactly what the corresponding
  plain estimator returns on that regime's observations with the weights restricted to that regime, the stacked results and block-diagonal
  variance matrix in regime order, and predictions/residuals put back in the observations' original order.""",
  ["inputs", "configurations"],
  "estimator x regime partition (all label layouts up to the bound) x weights",
  GOLD + "only contiguous or one given regime layout is tested, so ordering and stacking errors are invisible.",
  ["ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py", "error_sp_regimes.py", "error_sp_het_regimes.py", "error_sp_hom_regimes.py", "ml_lag_regimes.py", "ml_error_regimes.py", "regimes.py"],
  [("per-regime workers", "*_regimes.py _work*"), ("weights restriction", "regimes.py w_regime")])

p("P08", "Joint regimes models equal the explicit interaction-dummy model",
  """For every choice of which coefficients (including the constant and endogenous ones) vary by regime, a jointly estimated regimes model
  gives the same coefficients, variance matrix, predictions and residuals as the plain estimator applied to a design
  in which each varying column is multiplied by every regime indicator and the others are left whole (instruments always vary by regime), with
  coefficient names stating for each value the variable and its regime or that it is global.""",
  ["inputs", "configurations"],
  "all true/false masks of varying coefficients x constant option x estimators x regime layouts x groupwise variance",
  GOLD + "a few masks are used; the 2^k space of masks, options and estimators is not.",
  ["regimes.py", "ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py", "error_sp_regimes.py", "error_sp_het_regimes.py", "error_sp_hom_regimes.py", "ml_lag_regimes.py", "ml_error_regimes.py"],
  [("design expansion", "regimes.py Regimes_Frame, regimeX_setup, x2xsp"), ("naming", "regimes.py set_name_x_regimes")])

p("P09", "Chow and Wald tests are the stated quadratic forms",
  """After any regimes model, each reported coefficient-stability test is the Wald statistic for equality of that coefficient across all
  regimes with (number of regimes - 1) degrees of freedom, the joint test is the Wald statistic for all varying coefficients together,
  p-values come from the chi-square distribution, and values do not depend on which regime is the reference.""",
  ["inputs", "configurations"],
  "all masks x number of regimes x estimators",
  GOLD + "two regimes only and few masks.",
  ["regimes.py"],
  [("restrictions", "regimes.py Chow, buildR, buildR1var"), ("Wald", "regimes.py Wald, wald_test")])

p("P10", "Regime results do not depend on how regimes are labelled or laid out",
  """Regimes estimation depends on the regime variable only through the partition it induces: renaming labels (integers, floats, strings; any order)
  permutes blocks of results by the sorted label order and changes nothing else, and permuting observations together with their
  labels and weights leaves coefficients, variance matrix and tests unchanged.""",
  ["inputs"],
  "all partitions of the enumerated observations into 2-3 regimes with each label alphabet",
  GOLD + "one label type (integers 0/1) is used nearly everywhere.",
  ["regimes.py", "ols_regimes.py"],
  [("label sorting", "regimes.py _get_regimes_set"), ("restriction of data", "regimes.py w_regimes, x2xsp")])

p("P11", "One-stop entry points deliver exactly the specific estimator asked for",
  """Calling a plain estimator with a regime variable, or the unified GMM error entry points with an estimator choice, returns the same model
  (coefficients, variance, names, tests) as calling the corresponding specific estimator with the same options; no option given to the
  entry point that the specific estimator has is silently dropped.""",
  ["configurations"],
  "all combinations of entry point x estimator choice x lag/endogenous/regimes switches x option values",
  GOLD + "the dispatch product has dozens of branches, a few of which are tested.",
  ["ols.py", "twosls.py", "twosls_sp.py", "ml_lag.py", "ml_error.py", "error_sp.py", "error_sp_regimes.py"],
  [("dispatch", "__new__/__init__ of OLS, TSLS, GM_Lag, ML_Lag, ML_Error, GMM_Error, GMM_Error_Regimes")])

p("P12", "Parallel regime estimation equals sequential for every schedule",
  """Estimating regimes on several cores gives the same results, in the same order, as estimating them sequentially, whatever the order in which
  the worker tasks start, finish and are collected.""",
  ["schedules"],
  "all start/completion orders of the regime tasks for up to 4 regimes x every estimator offering parallel estimation",
  "Tests never use the parallel option, and could sample only the completion orders the scheduler happens to produce.",
  ["ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py", "error_sp_regimes.py", "error_sp_het_regimes.py", "error_sp_hom_regimes.py", "ml_lag_regimes.py", "ml_error_regimes.py"],
  [("worker pool", "*_regimes.py use of multiprocessing Pool.apply_async and result collection")])

p("P13", "Estimation never alters its inputs and is independent of call history",
  """No estimator, diagnostic or data generator changes the arrays, lists, data frames, dictionaries or weights the caller passes (values, shape and
  weights transformation), and running any sequence of estimators on shared inputs, or reading result attributes in any
  order, gives each the results it would give alone.""",
  ["histories"],
  "all operation sequences up to the depth bound over the estimator registry on shared inputs; all read orders of lazily computed attributes",
  "Tests build fresh inputs for one call and never compare inputs afterwards or chain calls on shared state.",
  ["utils.py", "user_output.py", "w_utils.py", "ml_lag.py", "ml_error.py", "sur.py", "sur_lag.py", "sur_error.py", "regimes.py", "skater_reg.py", "panel_re.py", "panel_utils.py"],
  [("lazy attribute caches", "utils.py RegressionPropsY, RegressionPropsVM"), ("input normalisation", "user_output.py check_*"), ("weights transformation", "w_utils.py")])

p("P14", "Equivalent input forms give identical results",
  """The same data given as two-dimensional arrays, one-dimensional arrays, lists of regimes, pandas series or frames, integer or float arrays, or sparse
  matrices where allowed, and the same weights given as a weights object, a graph, a dense array or a sparse matrix where accepted, yield the same
  numerical results; variable names come from explicit arguments first, then from the pandas labels, then defaults.""",
  ["inputs", "configurations"],
  "estimators x all combinations of input forms of y, x, endogenous, instruments, regimes, weights",
  GOLD + "each test uses one form; mixed forms are not covered.",
  ["user_output.py", "sputils.py"],
  [("normalisation", "user_output.py check_y, check_constant, check_endog, check_reg_list, check_weights")])

p("P15", "Invalid input is refused, never silently estimated",
  """Inputs that make a model meaningless - missing or infinite values, boolean or text data, mismatched lengths, wrong-size weights, weights with
  non-zero diagonal, missing required weights, unknown option names, non-kernel weights for HAC, kernel weights where a
  contiguity matrix is needed, a single regime, too few observations per regime - raise an error from every estimator that takes them; only an
  unknown name of a method, estimator, impact type or regime specification may instead be replaced with a supported one, and then the result says so.""",
  ["inputs", "configurations"],
  "estimators x single corruptions of a valid input at every position class",
  GOLD + "few estimators are tried with few bad inputs.",
  ["user_output.py", "regimes.py", "robust.py"],
  [("validation", "user_output.py check_arrays, check_y, check_weights, check_robust, check_regimes")])

p("P16", "Every coefficient is reported under its own variable's name",
  """Each reported coefficient, standard error and output-table row carries the name of the regressor it belongs to, for every order of the columns
  and with constant columns present anywhere: permuting input columns permutes the results, constant columns are dropped
  with a warning and do not shift names, and the numbers of names, coefficients, standard errors and test rows agree.""",
  ["inputs", "configurations"],
  "estimators x all permutations of the columns x all positions of constant columns",
  GOLD + "a single column order is used.",
  ["user_output.py", "output.py", "ols.py", "regimes.py"],
  [("constant removal", "user_output.py check_constant"), ("naming", "user_output.py set_name_*"), ("output table", "output.py")])

p("P17", "Results are equivariant to relabelling the observations",
  """Reordering observations (rows of all data together with the weights, whatever their identifiers) leaves all coefficients, variances, tests and
  spatial parameters unchanged and reorders residuals and predictions in the same way, for every cross-sectional estimator and spatial diagnostic.""",
  ["inputs"],
  "estimators x enumerated permutations of the observations x identifier types",
  GOLD + "row order is fixed to file order in all tests.",
  ["utils.py", "regimes.py", "diagnostics_sp.py", "twosls_sp.py", "ml_lag.py", "error_sp.py"],
  [("row alignment with weights order", "all estimators through weights id order")])

p("P18", "Results transform correctly under change of units",
  """Rescaling the response, or rescaling and shifting regressors, changes coefficients, residuals, variances and log-likelihoods exactly by the implied factors and leaves
  t/z statistics, R-squared, spatial parameters and test statistics unchanged, for every estimator.""",
  ["inputs"],
  "estimators x enumerated unit changes",
  GOLD + "one set of units is used.",
  ["ols.py", "twosls.py", "twosls_sp.py", "error_sp.py", "error_sp_het.py", "error_sp_hom.py", "ml_lag.py", "ml_error.py", "utils.py"],
  [("optimiser scaling", "utils.py optim_moments"), ("power expansion threshold", "utils.py power_expansion")])

p("P19", "Non-spatial regression diagnostics equal their definitions",
  """Jarque-Bera, Breusch-Pagan, Koenker-Bassett, White, condition index, variance inflation factors, F, t, R-squared, AIC, Schwarz and
  log-likelihood diagnostics equal their textbook definitions with the right degrees of freedom and reference distribution for any
  design, including single-regressor designs and those where squares or cross products duplicate a column exactly (0/1 dummies).""",
  ["inputs", "configurations"],
  "designs (continuous, dummy, constant positions, 1..4 regressors) x all switches",
  GOLD + "only one non-degenerate design.",
  ["diagnostics.py", "output.py", "ols.py"],
  [("tests", "diagnostics.py jarque_bera, breusch_pagan, koenker_bassett, white, condition_index, vif, f_stat")])

p("P20", "Spatial diagnostics equal their definitions for every selection",
  """Lagrange multiplier tests for error, lag, lagged regressors and their robust and joint forms, Moran's I of residuals with its moments, the Anselin-Kelejian
  test and the common-factor test equal their definitions, obey their decomposition identities, and come out the same whichever subset of tests is requested and in
  whichever order, for any weights including asymmetric ones and islands.""",
  ["inputs", "configurations"],
  "all subsets of the test list x weights x designs",
  GOLD + "all-tests only, on one symmetric weights matrix.",
  ["diagnostics_sp.py", "diagnostics_tsls.py"],
  [("LM tests", "diagnostics_sp.py LMtests, lmErr, lmLag, rlmErr, rlmLag, lmSarma, lm_wx, lm_spdurbin, rlm_wx, rlm_durlag"), ("Moran", "diagnostics_sp.py MoranRes"), ("common factor", "diagnostics_tsls.py comfac_test")])

p("P21", "Spatial multipliers and impacts equal the exact inverse",
  """Reported average total, direct and indirect impacts of every lag model equal coefficient times the mean row sum, mean diagonal and their difference of the inverse
  of (I - rho W) for the full method with row-standardised weights, and the documented approximations for the simple and power methods; with lagged
  regressors the total impact includes own and lagged coefficients, the direct impact the own coefficient, the indirect impact their difference.""",
  ["inputs", "configurations"],
  "weights x spatial parameter grid x method x models x lagged-regressor masks",
  GOLD + "one weights matrix and one parameter.",
  ["sputils.py", "output.py", "ml_lag.py", "twosls_sp.py"],
  [("multipliers", "sputils.py spmultiplier"), ("impacts", "output.py _summary_impacts")])

p("P22", "Dense and sparse matrix helpers agree; series inverse equals true inverse",
  """All matrix helper operations (products, stacking, broadcasting, inversion, minima/maxima, finiteness) give the same answer for every combination of dense and sparse
  operands, and the power-expansion product equals the product with the true inverse for every spatial parameter inside (-1,1), either multiplication side.""",
  ["inputs"],
  "all dense/sparse operand combinations over small matrices; grid of parameters x weights",
  GOLD + "helpers are tested on one matrix each.",
  ["sputils.py", "utils.py"],
  [("helpers", "sputils.py spdot, spmultiply, sphstack, spbroadcast, spinv, spmin, spmax, spisfinite"), ("series", "utils.py power_expansion, inverse_prod")])

p("P23", "Simulated data satisfy the structural equations they name",
  """Every data generator (linear, SLX, lag, error with AR/MA, Durbin, GNS, SARAR, matrix exponential, heteroskedastic; binary and probit variants) returns values which, put back in the named structural equation
  with the given parameters, reproduce the given regressors part and disturbances exactly, for any weights and admissible parameters, and refuses incompatible dimensions.""",
  ["inputs", "configurations"],
  "generators x weights x parameter grid x regressor sets x disturbance forms",
  "There are no tests of the generators.",
  ["dgp.py"],
  [("generators", "dgp.py dgp_*, make_*")])

p("P24", "SUR, 3SLS and SUR-lag give the system estimator",
  """Seemingly unrelated regressions, three-stage least squares and the SUR spatial lag model report the feasible GLS system solution with the residual cross-equation covariance of the first
  step (iterated to convergence if asked), its variance matrix, error correlation, log-likelihood, per-equation tests and regime variants, for any number of equations and regressors
  per equation.""",
  ["inputs", "configurations"],
  "numbers of equations x regressors per equation x iteration x regimes x weights",
  "Stable tests for the system estimators do not exist (they need a download).",
  ["sur.py", "sur_lag.py", "sur_utils.py"],
  [("system FGLS", "sur.py BaseSUR, BaseThreeSLS"), ("stacking", "sur_utils.py"), ("lag", "sur_lag.py SURlagIV")])

p("P25", "Spatial-error SUR and SUR diagnostics equal their definitions",
  """Spatial-error SUR by GMM and by maximum likelihood report per-equation spatial parameters that solve their moment conditions or likelihood, coefficients that are
  the filtered system solution, and the likelihood at it; SUR independence, lag/error multiplier, Chow and common-parameter tests equal their definitions.""",
  ["inputs", "configurations"],
  "equations x weights x regimes x data",
  "Stable tests for the system estimators do not exist (they need a download).",
  ["sur_error.py", "diagnostics_sur.py", "sur_utils.py"],
  [("estimators", "sur_error.py"), ("tests", "diagnostics_sur.py surLMe, surLMlag, sur_setp, lrtest")])

p("P26", "Non-spatial panel estimators equal their defining regressions",
  """Pooled, fixed-effects and random-effects panel estimators give the same results whether the data come in long or wide form, equal respectively the stacked, the within-transformed
  and the quasi-demeaned regressions (with the matching variance and fit measures), and their panel diagnostics equal their definitions.""",
  ["inputs", "configurations"],
  "wide/long x number of periods and regressors x lagged regressor masks x robust x estimators",
  "Stable panel tests do not exist (they need a download).",
  ["panel.py", "panel_utils.py", "diagnostics_panel.py"],
  [("transformations", "panel.py PooledOLS, PanelFE, PanelRE; panel_utils.py check_panel"), ("tests", "diagnostics_panel.py, panel.py")])

p("P27", "Spatial panel estimators attain their optimum and solve their moments",
  """Spatial lag and error panel estimators (pooled, fixed and random effects; maximum likelihood and GMM) report spatial and variance parameters maximising the
  panel likelihood or minimising the panel moment criterion, closed-form coefficients given those, and the exact likelihood there, for long and wide data.""",
  ["inputs", "configurations"],
  "estimators x periods x symmetric and row-standardised weights x data",
  "Stable panel tests do not exist (they need a download).",
  ["panel_fe.py", "panel_re.py", "panel.py", "sp_panels.py"],
  [("likelihoods", "panel_fe.py, panel_re.py, panel.py"), ("moments", "sp_panels.py")])

p("P28", "Probit attains its likelihood optimum with exact marginal effects and tests",
  """For every non-separable binary response, probit reports coefficients with zero score, the inverse information matrix as variance, the exact log-likelihood and LR test, classification
  table, slopes at the mean and average effects with their variances, and the three spatial error tests by definition, whichever optimiser is used.""",
  ["inputs", "configurations"],
  "all binary responses over small samples (non-separable) x optimiser x marginal effect choice x weights",
  GOLD + "one response vector only.",
  ["probit.py", "diagnostics_probit.py"],
  [("likelihood", "probit.py BaseProbit"), ("tests", "probit.py, diagnostics_probit.py")])

p("P29", "Nonlinear SLX weights and estimates follow their definition",
  """The distance-decay weights of the nonlinear SLX model hold exactly each point's eligible nearest neighbours with the documented normalised-distance value,
  and its estimates are a local optimum of the nonlinear least-squares criterion with the variance given by its gradient.""",
  ["inputs", "configurations"],
  "point layouts x neighbour counts x distance bounds x transform x regressor masks",
  "There are no stable tests of the nonlinear SLX model.",
  ["nslx.py", "utils.py"],
  [("weights", "utils.py make_wnslx"), ("estimation", "nslx.py NSLX")])

p("P30", "Endogenous spatial clustering only makes valid, greedy-optimal cuts",
  """Regression-tree spatial clustering always returns contiguous clusters that cover every observation, respect the minimum cluster size, are no more than requested, and
  at each step removes the admissible spanning-tree edge with the best score; results do not change the weights given.""",
  ["inputs", "configurations"],
  "all connected graphs on few nodes x data orders x cluster counts x quorums",
  "There is no test of the clustering at all.",
  ["skater_reg.py"],
  [("tree and cuts", "skater_reg.py Skater_reg.fit, score_spreg")])

p("P31", "Endogenous-regime estimators equal regimes estimation on the found clusters",
  """Each estimator with endogenous regimes reports the clusters found by the spatial clustering for the chosen number of clusters and exactly the regimes-model results for those
  clusters, and when the number is not given chooses it by the documented rule on the recorded trace.""",
  ["inputs", "configurations"],
  "estimators x cluster counts x quorums x worlds",
  "The single tests use one configuration.",
  ["ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py", "utils.py"],
  [("cluster then estimate", "*_Endog_Regimes"), ("choice of number", "utils.py optim_k")])

p("P32", "Specification searches select the model their decision rule prescribes",
  """Each specification search strategy returns exactly the model prescribed by its documented decision rule, for every combination of significant and insignificant
  outcomes of the diagnostics it consults, and reports that model's name and its estimated result.""",
  ["configurations"],
  "all outcome combinations of the consulted diagnostics",
  "The test data reach one leaf of each decision tree.",
  ["spsearch.py"],
  [("decision rules", "spsearch.py stge_classic, stge_kb, stge_pre, gets_gns, gets_sdm")])

p("P33", "Printed output states the estimated results and nothing else",
  """For every estimator and option the printable summary and result table can be produced, contain each coefficient with its standard error, statistic and probability as estimated, one row per name, and
  estimation writes nothing to standard output unless progress output is requested.""",
  ["configurations"],
  "all estimators x options that add output sections, in text and latex form",
  GOLD + "summaries are not inspected.",
  ["output.py", "summary_output.py"],
  [("output table and summary", "output.py out_part_*, output, _summary_*")])

p("P34", "Diagnostics of regimes models are those of the estimated design",
  """Every diagnostic a regimes model reports (fit, normality, heteroskedasticity, White, collinearity, LM and Moran tests, Anselin-Kelejian and common factor tests), for the system or for a single
  regime, equals its textbook value for the design that was estimated: the interaction design with all its coefficients and the reported residuals, or the observations of the regime.""",
  ["inputs", "configurations"],
  "estimators x regime layouts (2-5 regimes) x masks x constant and variance options x robust options x lagged regressors",
  GOLD + "Two regimes and the diagnostics of one or two configurations only.",
  ["ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py", "ml_lag_regimes.py", "output.py", "diagnostics.py", "diagnostics_sp.py"],
  [("diagnostics of regimes models", "ols_regimes.py _get_spat_diag_props, twosls_regimes.py _get_spat_diag_props, output.py _spat_diag_out, _nonspat_mid")])

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
