"""writes /verif/properties.jsonl"""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["spreg/" + f for f in files],
                               mechanism=[dict(name=n, where="spreg/" + w) for n, w in mech],
                               observe_at=observe or [], state=state or [], hook_needed=None)))


SAMPLE = "The tests compare printed digits for one or two fixed data sets (Columbus, NCOVR, Baltimore) and option settings; "

p("C01", "OLS solves the least squares problem and reports its variance",
  "For every response and every full-rank design, OLS returns the coefficients whose residuals are orthogonal to every regressor, fitted values and residuals that add up to the response, and the classical, White or HAC covariance matrix built from those residuals with the requested degrees-of-freedom divisor. Fit measures (R2, adjusted R2, F, log-likelihood, AIC, Schwarz) follow from the same residuals. This holds for any number of observations and regressors, for arrays and pandas input, and with any number of spatial lags of X.",
  ["inputs", "configurations"], "all y, all X of full rank, any n and k, every robust / sig2n_k / slx setting",
  SAMPLE + "orthogonality and the sandwich identities are claims about every y, X, n, k.",
  ["ols.py", "robust.py", "utils.py", "sputils.py", "diagnostics.py"],
  [("BaseOLS", "ols.py"), ("robust_vm", "robust.py"), ("RegressionPropsVM", "utils.py")], ["betas", "u", "predy", "vm", "sig2"])

p("C02", "2SLS satisfies its instrument moment conditions and variance formulas",
  "For every response, exogenous, endogenous and instrument data with full-rank projections, 2SLS returns coefficients whose residuals, built from the original endogenous variables, are orthogonal to the projection of the regressors on the instruments. The covariance is sig2 (Z'H(H'H)^-1H'Z)^-1 or its White / HAC sandwich with the requested divisor. Supplying external instruments or the full instrument matrix gives the same answer, supplying both or neither is refused.",
  ["inputs", "configurations"], "all y, X, Yend, Q (or H), any dimensions, robust and sig2n_k settings",
  SAMPLE + "moment conditions and variance algebra are claims over all data and dimensions.",
  ["twosls.py", "robust.py", "sputils.py"], [("BaseTSLS", "twosls.py"), ("robust_vm", "robust.py")], ["betas", "vm", "u", "h", "z"])

p("C03", "Spatially lagged regressors and instruments are the exact powers of W",
  "Wherever a model is asked for lags of X, lags of y, or lagged instruments, column block j of the result is W^j applied to the original (constant-free) variables, in order, with names in the same order as the columns; the spatial lag model uses WY as its endogenous variable. Restricting the lagged variables to a subset lags exactly that subset. Spatial 2SLS with these instruments equals plain 2SLS on the augmented matrices.",
  ["inputs", "configurations"], "any W, X, q, number of lags, lag_q switch and subset of lagged variables",
  SAMPLE + "tests use one or two lags and never check the construction for every order, subset and W.",
  ["utils.py", "user_output.py", "twosls_sp.py", "sputils.py"],
  [("get_lags / get_lags_split", "utils.py"), ("set_endog / set_endog_sparse", "utils.py"), ("flex_wx", "user_output.py"), ("BaseGM_Lag", "twosls_sp.py")],
  ["z", "h", "q", "yend", "name_x", "name_q", "name_z"])

p("C04", "KP98/99 GM spatial error models use the correct moments and filter",
  "The moment matrices used to estimate the error parameter equal the Kelejian-Prucha moment expressions in the first-stage residuals for every W and residual vector, and the reported coefficients solve the least squares (or 2SLS) problem in the variables filtered by I - lambda W at the reported lambda. The reported residuals are y - Zb, the filtered residuals are (I - lambda W)u, and sig2 and the covariance follow from the filtered ones.",
  ["inputs", "configurations"], "all data and row-standardised or general W; exogenous, endogenous and lag combinations",
  SAMPLE + "the moment and filter identities quantify over all data.",
  ["error_sp.py", "utils.py"], [("BaseGM_Error, BaseGM_Endog_Error, BaseGM_Combo", "error_sp.py"), ("_moments2eqs, get_spFilter, optim_moments", "utils.py")],
  ["betas", "u", "e_filtered", "vm", "sig2"])

p("C05", "Heteroskedastic GM error models use the correct moments and variance",
  "For every data set and W, the heteroskedasticity-robust GM error estimators build A1 and A2 with zero diagonal as defined, the moment equations g and G of Arraiz et al., the Psi matrix from squared residuals, and a covariance matrix whose coefficient and lambda blocks are assembled from those pieces. Reported coefficients solve the filtered estimation problem at the lambda of the preceding estimation step (the last iterate before the reported lambda is re-estimated) and residuals are y - Zb.",
  ["inputs", "configurations"], "all data, W, step1c on or off, exogenous / endogenous / lag combinations",
  SAMPLE + "formula-level claims over all data.",
  ["error_sp_het.py", "utils.py"], [("BaseGM_Error_Het, BaseGM_Endog_Error_Het, BaseGM_Combo_Het", "error_sp_het.py"), ("get_A1_het, _moments2eqs, get_psi_sigma, get_vc_het, get_vm_het", "error_sp_het.py"), ("get_A1_het", "utils.py")],
  ["betas", "vm", "u", "e_filtered"])

p("C06", "Homoskedastic GM error models use the correct moments and variance",
  "For every data set and W, the homoskedastic GM error estimators build A1 (any of the three definitions) and A2, the moment equations, third and fourth residual moments, Psi and the covariance matrix as defined by Drukker et al., and the reported coefficients solve the filtered problem at the lambda of the preceding estimation step with residuals y - Zb.",
  ["inputs", "configurations"], "all data, W, A1 variants, exogenous / endogenous / lag combinations",
  SAMPLE + "formula-level claims over all data.",
  ["error_sp_hom.py", "utils.py"], [("BaseGM_Error_Hom, BaseGM_Endog_Error_Hom, BaseGM_Combo_Hom", "error_sp_hom.py"), ("moments_hom, get_vc_hom, get_omega_hom", "error_sp_hom.py"), ("get_A1_hom, get_A2_hom", "utils.py")],
  ["betas", "vm", "u", "e_filtered"])

p("C07", "ML lag: every computing method maximises the same likelihood",
  "The objective minimised by the full, LU and Ord methods of the ML spatial lag model is the same concentrated negative log-likelihood for every W, y and X, and the reported betas, residuals, sigma2 and log-likelihood are the values of the model at the reported rho. The covariance matrix is the inverse of the information matrix evaluated at the estimates, for the plain and the spatial Durbin variants.",
  ["inputs", "configurations"], "all y, X, W; methods full, LU, ord; with and without lagged X",
  SAMPLE + "agreement of the methods and the identities at the optimum are claims for all data.",
  ["ml_lag.py", "utils.py"], [("BaseML_Lag, lag_c_loglik, lag_c_loglik_sp, lag_c_loglik_ord", "ml_lag.py")], ["betas", "rho", "logll", "vm", "u", "sig2"])

p("C08", "ML error: every computing method maximises the same likelihood",
  "The objective minimised by the full, LU and Ord methods of the ML spatial error model is the same concentrated negative log-likelihood for every W, y and X, the betas solve the filtered least squares problem at the reported lambda, and residuals, filtered residuals, sigma2, log-likelihood and covariance are the model's values at those estimates.",
  ["inputs", "configurations"], "all y, X, W; methods full, LU, ord",
  SAMPLE + "agreement of the methods and the identities at the optimum are claims for all data.",
  ["ml_error.py"], [("BaseML_Error, err_c_loglik, err_c_loglik_sp, err_c_loglik_ord", "ml_error.py")], ["betas", "lam", "logll", "vm", "u", "e_filtered", "sig2"])

p("C09", "Reported inference follows from the coefficients and their covariance",
  "For every estimated model the standard errors are the square roots of the covariance diagonal, each z or t statistic is coefficient over standard error, and each p-value is the two-sided tail probability of that statistic under the stated distribution. The published coefficient table lists each variable once, aligned with its own coefficient, standard error, statistic and p-value.",
  ["inputs", "configurations"], "all estimators, data, numbers of variables and option settings",
  SAMPLE + "alignment and inference identities must hold for every model and option combination.",
  ["diagnostics.py", "output.py", "user_output.py"], [("se_betas, t_stat", "diagnostics.py"), ("output table builders", "output.py")], ["std_err", "z_stat", "t_stat", "output"])

p("C10", "Spatial diagnostics equal their published statistics",
  "For every OLS or 2SLS result and W, the LM error, LM lag, robust LM, SARMA, Spatial Durbin LM tests, Moran's I of residuals (with its expectation and variance) and the Anselin-Kelejian test equal their defining formulas, with p-values from the stated reference distributions.",
  ["inputs", "configurations"], "all residuals, designs and weights",
  SAMPLE + "the statistics are formulas over all residual vectors, X and W.",
  ["diagnostics_sp.py"], [("LMtests, lmErr, lmLag, rlmErr, rlmLag, lmSarma, MoranRes, AKtest, spDcache", "diagnostics_sp.py")], ["lme", "lml", "rlme", "rlml", "sarma", "moran_res"])

p("C11", "Non-spatial diagnostics equal their published statistics",
  "For every regression result the residual and specification tests (Jarque-Bera, Breusch-Pagan, Koenker-Bassett, White, condition index, VIF, likelihood ratio, Durbin-Wu-Hausman, Wald and constant checks, pseudo R2) equal their defining formulas with p-values from the stated distribution and degrees of freedom, and they do not depend on the scale or order in which irrelevant data are given.",
  ["inputs"], "all residual vectors and designs",
  SAMPLE + "the statistics are formulas over all residual vectors and designs.",
  ["diagnostics.py", "diagnostics_tsls.py"], [("jarque_bera, breusch_pagan, koenker_bassett, white, condition_index, vif, likratiotest, dwh, constant_check", "diagnostics.py"), ("t_stat, pr2_aspatial, pr2_spatial", "diagnostics_tsls.py")])

p("C12", "Regimes: block design equals separate estimation, Chow tests are Wald tests",
  "With all coefficients and the error variance varying by regime, a regimes model gives for each regime the coefficients of the model estimated on that regime's observations alone, regardless of how observations are ordered. The expanded design places each regime's rows in that regime's columns, fixed coefficients appear once, and the joint and per-variable Chow statistics equal the Wald statistic of coefficient equality across regimes.",
  ["inputs", "configurations"], "all data, regime labellings, orderings and varying/fixed coefficient choices",
  SAMPLE + "tests use one labelling of one data set.",
  ["regimes.py", "ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py", "error_sp_regimes.py", "ml_lag_regimes.py", "ml_error_regimes.py"],
  [("Regimes_Frame, x2xsp, Chow, Wald, buildR, regimeX_setup, wald_test", "regimes.py")], ["betas", "vm", "chow", "name_x_r"])

p("C13", "Impacts and multipliers are the stated functions of the spatial parameter",
  "Average direct, total and indirect impacts satisfy total = direct + indirect and equal the stated function of (I - rho W)^-1 for every requested method: simple gives 1/(1-rho), full and power use the diagonal of the inverse, and for models with lagged X the lagged coefficients are included in the right effect. Individual multipliers are the diagonal and the off-diagonal row and column sums of the same inverse (or of the stated decay weights).",
  ["inputs", "configurations"], "all admissible rho, W, coefficient vectors, lag orders, and impact methods",
  "Tests do not check impacts beyond a single summary print; the identities quantify over rho, W and coefficients.",
  ["sputils.py", "output.py"], [("spmultiplier, _sp_effects, _spatial_filter", "sputils.py"), ("_summary_impacts", "output.py")], ["sp_multipliers"])

p("C14", "Reduced-form prediction and inverse products invert (I - rho W)",
  "Applying the code's inverse product, power expansion or spatial attribute helper to any vector and any admissible parameter yields a vector v with (I - rho W) v equal to the input (or transposed form) up to the documented threshold, for both methods. Reduced-form predicted values satisfy (I - rho W) yhat_e = X b, and residuals and prediction errors are their differences from y, with a warning and no infinite values when rho is out of bounds.",
  ["inputs", "configurations"], "all W whose rows times rho sum to less than one in absolute value, vectors and both methods",
  "Tests check one rho on one W.",
  ["utils.py"], [("inverse_prod, power_expansion, sp_att, inverse_cholesky, set_warn", "utils.py")], ["predy_e", "e_pred"])

p("C15", "Simulated data satisfy the model equations they are generated from",
  "Every data generating function returns exactly the variable implied by its model equation: for spatial lag, error, Durbin, SLX, SLX-error, SARAR, SARMA and GNS processes the output times the inverse filter reproduces X b plus the error process. Incompatible sizes and unknown model or distribution names are refused instead of producing data.",
  ["inputs", "configurations"], "all X, beta, gamma, W, rho, lambda, errors and both inversion methods",
  "There are no tests of the generators in the reliable suite.",
  ["dgp.py"], [("dgp_lag, dgp_spdurbin, dgp_lagerr, dgp_gns, dgp_errproc, make_x, make_xb, make_wx, make_wxg, make_heterror, make_error, make_bin", "dgp.py")])

p("C16", "Probit reports the likelihood, score, variance and predictions at its estimates",
  "For every binary response and design the reported log-likelihood, score and Hessian are those of the probit likelihood, the score vanishes at the estimates when the optimiser reports convergence, the covariance is minus the inverse Hessian at the estimates, and predictions, fit measures and spatial LM tests are the stated functions of the estimates.",
  ["inputs"], "all binary y, designs X, W",
  SAMPLE + "identities between likelihood, score and Hessian hold for all data.",
  ["probit.py", "diagnostics_probit.py"], [("BaseProbit", "probit.py")], ["betas", "logl", "vm", "predpc", "slopes"])

p("C17", "SUR and 3SLS solve their generalised least squares systems",
  "For every set of equations the SUR (two-step and iterated) coefficients solve the system GLS normal equations with the reported error covariance, that covariance is the cross-product over n of the residuals of the preceding step (OLS or 2SLS first), and the coefficient covariance is the inverse of the GLS normal matrix; 3SLS does the same with projected regressors. With identical regressors or a diagonal covariance the coefficients equal equation-by-equation OLS.",
  ["inputs", "configurations"], "all equation systems, data, numbers of equations and of observations",
  "No SUR tests exist in the reliable suite.",
  ["sur.py", "sur_utils.py"], [("BaseSUR, BaseThreeSLS, _sur_ols", "sur.py"), ("sur_crossprod, sur_corr, sur_est, sur_resids, sur_predict, filter_dict", "sur_utils.py")], ["bSUR", "varb", "sig"])

p("C18", "Spatial SUR models solve their filtered systems",
  "For every system and W, SUR error models report coefficients that solve the SUR GLS problem in the variables filtered by I - lambda_g W (for ML: at the lambdas of the preceding step, equal at convergence), lambdas that minimise the stated objective, and log-likelihoods equal to the model value at the estimates; the information matrix and LM tests are those of the multivariate normal model; SUR lag models are 3SLS with WY_g added as endogenous and lagged X as instruments.",
  ["inputs", "configurations"], "all systems, W, numbers of equations",
  "No spatial SUR tests exist in the reliable suite.",
  ["sur_error.py", "sur_lag.py", "sur_utils.py", "diagnostics_sur.py"], [("BaseSURerrorGM, BaseSURerrorML", "sur_error.py"), ("SURlagIV", "sur_lag.py"), ("sur_dict helpers", "sur_utils.py")])

p("C19", "Panel ML fixed and random effects models report their model values",
  "For every balanced panel, the fixed effects models operate on data demeaned within each cross-sectional unit, the random effects models on quasi-demeaned data at the reported weight, the lag and error coefficients solve the corresponding concentrated problem at the reported parameter, and residuals, sigma2, and log-likelihood are the model's values there. The reported covariance is the inverse of the model's information matrix at the estimates. Wide and long input layouts of the same data give the same result.",
  ["inputs", "configurations"], "all balanced panels, W, N, T",
  "No panel tests exist in the reliable suite.",
  ["panel_fe.py", "panel_re.py", "panel_utils.py"], [("BasePanel_FE_Lag, BasePanel_FE_Error", "panel_fe.py"), ("BasePanel_RE_Lag, BasePanel_RE_Error", "panel_re.py"), ("check_panel, demean_panel", "panel_utils.py")])

p("C20", "KKP panel GM and panel diagnostics equal their defining formulas",
  "For every balanced panel the KKP spatial error components estimator uses the six Kapoor-Kelejian-Prucha moment equations in the within and between transformed residuals, GLS coefficients solve the transformed problem, and the panel LM, robust LM and Hausman statistics equal their published formulas. The pooled spatial error panels are the cross-sectional estimators on the stacked data with weights I_T (x) W, with or without their diagnostics.",
  ["inputs", "configurations"], "all balanced panels, W, N, T, full and partial weighting",
  "No panel tests exist in the reliable suite.",
  ["sp_panels.py", "diagnostics_panel.py", "panel_utils.py"], [("BaseGM_KKP, _moments_kkp, _get_Tau", "sp_panels.py"), ("panel_LMlag, panel_LMerror, panel_rLMlag, panel_rLMerror, panel_Hausman", "diagnostics_panel.py")])

p("C21", "Invalid input is refused, valid input is accepted unchanged in meaning",
  "Arrays with mismatched numbers of rows, missing or non-numeric values, wrong dimensionality, weights of the wrong size, missing required weights, and an invalid robust or instrument specification are refused with an exception before any estimation. Valid arrays, lists of pandas columns or series yield the same numbers and the right variable names, and a constant is added exactly when none is present.",
  ["inputs", "configurations"], "all argument combinations of the public estimators",
  "Tests never feed invalid arguments through most estimators.",
  ["user_output.py"], [("check_arrays, check_y, check_endog, check_weights, check_robust, check_constant, check_spat_diag, check_reg_list", "user_output.py")])

p("C22", "Estimation never modifies its inputs and is repeatable",
  "No estimator, diagnostic or generator changes the arrays, lists of names, dictionaries or weights passed to it, neither their values nor their shapes or transformation. Calling it twice with the same arguments gives the same result, and reading lazily computed attributes in any order gives the same values.",
  ["inputs", "histories"], "all estimators and arguments, all orders of attribute access",
  "Tests rebuild inputs per test and never compare them before and after.",
  ["utils.py", "user_output.py", "sur_utils.py", "ols.py", "twosls.py", "error_sp.py"], [("argument handling in the public classes", "user_output.py"), ("RegressionPropsY / RegressionPropsVM caches", "utils.py")])

p("C23", "Regime helper matrices and block algebra are exact",
  "Restriction matrices, block-diagonal expansions, regime-wise weights and the reordering of regime results are exact rearrangements: restricting weights to regimes keeps exactly the links within regimes, the restriction matrix tests equality of the right pair of coefficients, and building then splitting a regime design loses nothing.",
  ["inputs", "configurations"], "all regime vectors, numbers of regimes, constant and column options",
  "Only indirectly reached by tests with two regimes.",
  ["regimes.py"], [("buildR, buildR1var, set_regimes_vars, w_regimes, w_regimes_union, get_regimes, set_name_x_regimes, check_cols2regi", "regimes.py")])

p("C24", "Specification search follows its decision rules",
  "The forward (stge_*) and general-to-specific (gets_*) searches return exactly the label and the model that the published decision rule selects from the test p-values, the refusals of out-of-bounds models and the significance level, for every combination of them; the model returned is estimated with the data, weights, number of instruments and names given, a refused model is reported as such with no model, and the printed report shows the label and the summary of the model returned.",
  ["inputs", "configurations"], "all data sets and significance levels",
  "Tests cover a few of the decision-tree branches on two data sets and never look at the label.",
  ["spsearch.py"], [("stge_classic, stge_kb, stge_pre, gets_gns, gets_sdm", "spsearch.py")])

p("C25", "Dense and sparse linear-algebra helpers agree with dense algebra",
  "The matrix product, elementwise product, stacking, broadcasting, inverse, minimum and maximum helpers return the same values as dense linear algebra for every combination of dense and sparse operands and every shape, including the documented output type, and never modify their operands.",
  ["inputs"], "all operand types and shapes",
  "Tests sample a few fixed 3x3 operands.",
  ["sputils.py"], [("spdot, spmultiply, sphstack, spbroadcast, spinv, spisfinite, spmin, spmax, sp_inv", "sputils.py")])

p("C26", "SLX nonlinear model and gravity/exponential lags are consistent",
  "The nonlinear SLX model builds distance-decay weights that are the stated function of distance and the decay parameter with zero diagonal, lags X with exactly those weights, its reported residuals, fit and log-likelihood are the model values at the reported parameters, and the covariance comes from the gradient of the model at those parameters.",
  ["inputs", "configurations"], "all coordinates, X, transforms and parameters",
  "No tests of this model exist in the reliable suite.",
  ["nslx.py", "utils.py"], [("NSLX, BaseNSLX, nslxobj, nlmod, _nltransform", "nslx.py"), ("make_wnslx", "utils.py")])

p("C27", "Optimised GM parameters minimise the stated criterion in bounds",
  "The parameters returned by the moment optimiser are within the admissible bounds (spatial parameter within +-0.99, variances non-negative) and give a criterion value not larger than at the start or at nearby admissible values, where the criterion is the (weighted) squared norm of moment residuals at (lambda, lambda^2 [, sigma2]), up to one positive factor; scaling the moments does not change the minimiser beyond the tolerance of the optimiser. Estimators refuse out-of-range spatial parameters when hard_bound=True; without it, out-of-range lag coefficients (and error parameters of the non-regime heteroskedastic estimators) are estimated and reported with a warning.",
  ["inputs", "configurations"], "all moment systems, weighting matrices and bounds",
  "Tests check a single fixed moment system.",
  ["utils.py"], [("optim_moments, foptim_par, optim_k, kp_bounds checks", "utils.py")])

p("C28", "Spatially constrained regression clusters are a valid partition",
  "The endogenous-regime clustering assigns each observation to exactly one cluster, every cluster is connected in the given contiguity structure and has at least the required number of members, and the reported score equals the sum of the per-cluster regression scores. The models with endogenous regimes (OLS, 2SLS, spatial lag) equal the regimes model of such a partition, and their scores are those of the search path.",
  ["inputs", "configurations"], "all data, contiguity structures, numbers of clusters and quorum values",
  "No tests in the reliable suite.",
  ["skater_reg.py", "ols_regimes.py", "twosls_regimes.py", "twosls_sp_regimes.py"],
  [("Skater_reg.fit, score_spreg", "skater_reg.py"), ("OLS_Endog_Regimes", "ols_regimes.py"), ("TSLS_Endog_Regimes", "twosls_regimes.py"), ("GM_Lag_Endog_Regimes", "twosls_sp_regimes.py")])

if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
