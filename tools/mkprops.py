"""Writes /verif/properties.jsonl from the table below (kept in one place so that titles, statements and anchors stay in step)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
P = "src/mssm/src/python/"
C = "src/mssm/src/cpp/"
T = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    T.append(d)

prop("P01", "Link functions, their inverses and their derivatives agree",
     "For every link the package offers and every mean in its domain, the inverse link undoes the link, and the reported first and second derivative are the derivatives of the link with respect to the mean. This holds for every choice of the constants a link can be constructed with.",
     ["inputs", "configurations"], "all means in the domain of the link and all constructor arguments",
     "A test evaluates a handful of means; a derivative that is wrong by a factor, or only away from the sampled points, biases every working weight without failing.",
     [P + "exp_fam.py"], [("Link.f / Link.fi / Link.dy1 / Link.dy2 and the overrides in Logit, Identity, LOG, LOGb", P + "exp_fam.py")], ["value of the four methods of a link"])
prop("P02", "Log-density, deviance and variance of exponential families agree",
     "For every exponential family, link-independent and for all admissible observations, means, weights and scales, the log-likelihood is the sum of the pointwise log-densities of the named distribution, the deviance is the sum of the pointwise deviance contributions and equals twice the scaled log-likelihood gap to the saturated model, and the variance function and its derivative are those of the distribution. The derivatives of the log-likelihood with respect to coefficients and log-scale, the scale estimate and the starting means follow from the same definitions.",
     ["inputs", "configurations"], "all observations, means, prior weights and scale values each family accepts",
     "The identities hold over a continuum of values; the repository's tests compare a few fitted summaries to stored numbers, so compensating or constant-offset errors pass.",
     [P + "exp_fam.py"], [("Family, Binomial, Gaussian, Gamma, InvGauss, Poisson: V, dVy1, lp, llk, D, deviance, dllkdcoef, dllkdlscale, d2llkd2lscale, init_mu", P + "exp_fam.py"), ("est_scale", P + "exp_fam.py")])
prop("P03", "Location-scale families: derivatives, densities and samplers agree",
     "For every family with several modelled parameters, the first, pure second and mixed partial derivatives it reports are the partial derivatives of its own log-density with respect to the parameters (in the documented order), its log-likelihood is the sum of its log-densities, and its cumulative probabilities, residuals and random draws refer to the same distribution and parameterisation. Starting values put the linear predictors on the scale of the links.",
     ["inputs", "configurations"], "all observations, all parameter values on the mean scale, all numbers of parameters",
     "Newton steps still converge with slightly wrong curvature, so fits look plausible; a derivative identity has to hold at every point, not at sampled ones.",
     [P + "exp_fam.py"], [("GAUMLSS, MULNOMLSS, GAMMALS: lp, lcp, llk, dpars, rvs, get_resid, init_coef, get_probs", P + "exp_fam.py"), ("GAMLSSFamily", P + "exp_fam.py")])
prop("P04", "Scaled-t family: derivatives of the deviance and of the extra parameters",
     "For every observation, mean and value of the two extra parameters, the scaled-t family's first and second derivative of the deviance with respect to the mean, the expected second derivative, and the gradient and Hessian of the log-likelihood with respect to the extra parameters are the derivatives of its own deviance and log-density. The extra parameters are kept on the documented unconstrained scale, and every routine transforms them in the same way.",
     ["inputs", "configurations"], "all observations, means and extra parameter values, and all minimum degrees of freedom",
     "The extra parameters are estimated by Newton steps inside the fit; wrong curvature or a missing transformation only slows or biases the result.",
     [P + "exp_fam.py"], [("ScaledT: lp, llk, D, deviance, dDdmu, d2Ddmu, Ed2Ddmu, gradientLTheta, hessianLTheta, init_theta", P + "exp_fam.py"), ("updateTheta", P + "gamm_solvers.py")])
prop("P05", "General smooth families: gradient and Hessian match the log-likelihood",
     "For the proportional-hazards, multivariate Gaussian and wrapped families that a general smooth model can be estimated with, the gradient and Hessian (or Hessian columns) are the first and second derivatives of the log-likelihood with respect to the whole coefficient vector, for any split of that vector over the formulas, any link and any set of shared model matrices. Residuals, survival, hazard, prediction and simulation use the same parameterisation and the coefficients they are given.",
     ["inputs", "configurations"], "all coefficient vectors, splits, links, numbers of outcomes and event-time patterns",
     "Analytic derivatives are only exercised at the few points a fit visits, and quasi-Newton fits tolerate wrong ones.",
     [P + "exp_fam.py", P + "utils.py", C + "hazard.cpp"], [("PropHaz, MultiGauss, GSMMFamily", P + "exp_fam.py"), ("GAMLSSGSMMFamily", P + "utils.py")])
prop("P06", "Coefficient updates solve the penalised likelihood equations",
     "In every iteration of every estimation routine the pseudo-data, working weights, score and curvature are those of the penalised log-likelihood at the current linear predictor: derivatives are moved from the mean scale to the linear-predictor scale and from there to the coefficients by the chain rule, offsets enter the predictor exactly once, invalid rows get no weight, and the step solves the penalised system. A proposed step is only kept when it does not worsen the penalised criterion, and otherwise shortened towards the previous coefficients.",
     ["inputs", "configurations", "histories"], "all families, links, weights, offsets, penalties and sequences of iterations",
     "Fits of a few stored data sets converge to nearly the same values for many wrong update rules; the correction branches run only for difficult data.",
     [P + "gamm_solvers.py"], [("PIRLS_pdat_weights, PIRLS_newton_weights, update_PIRLS, update_coef, update_coef_and_scale, correct_coef_step", P + "gamm_solvers.py"), ("deriv_transform_mu_eta, deriv_transform_eta_beta, newton_coef_smooth, gd_coef_smooth, update_coef_gammlss, update_coef_gen_smooth", P + "gamm_solvers.py"), ("solve_gamm_sparse, solve_gammlss_sparse, solve_generalSmooth_sparse", P + "gamm_solvers.py")])
prop("P07", "Smoothing parameters follow the generalised Fellner-Schall update",
     "Each smoothing parameter is updated by the generalised Fellner-Schall rule from the log-determinant derivative, the trace of the penalty with the posterior covariance and the penalty quadratic form of that same parameter, and is kept inside its bounds. Extrapolated steps are checked against the gradient of the restricted likelihood and are undone or shortened when they overshoot, restoring exactly the previous values, for every acceleration strategy.",
     ["inputs", "configurations", "histories"], "all penalties, ranks, covariance factors, step histories and acceleration settings",
     "Wrong updates or acceleration bookkeeping still end at plausible smoothness on easy data; bounds and undo branches are rarely reached by examples.",
     [P + "gamm_solvers.py"], [("step_fellner_schall_sparse, compute_lgdetD_bsb, grad_lambda", P + "gamm_solvers.py"), ("initialize_extension, extend_lambda_step, undo_extension_lambda_step, correct_lambda_step, correct_lambda_step_gamlss, correct_lambda_step_gen_smooth", P + "gamm_solvers.py")])
prop("P08", "Effective degrees of freedom and scale estimates are consistent",
     "The reported total effective degrees of freedom equal the number of identifiable coefficients minus the parameters penalised away, the term-wise values partition the penalised part over terms in coefficient order, and the scale estimate divides the residual variation by observations minus those degrees of freedom. This holds whether the covariance factor is available explicitly or only as an operator, for dropped coefficients, and for shared smoothing parameters.",
     ["inputs", "configurations"], "all penalties, covariance factors, core counts, dropped coefficients and sharing patterns",
     "Term-wise bookkeeping errors leave totals intact and vice versa; stored summaries cover few penalty layouts.",
     [P + "gamm_solvers.py", P + "utils.py", P + "matrix_solvers.py"], [("calculate_edf, calculate_term_edf, update_scale_edf, computetrVS3, getImplicitV", P + "gamm_solvers.py"), ("compute_bias_corrected_edf", P + "utils.py"), ("compute_B, compute_block_B_shared", P + "matrix_solvers.py")])
prop("P09", "Log-likelihood, penalised likelihood and REML reported by models agree",
     "The log-likelihood a fitted model reports is its family's log-likelihood at the fitted values for the rows actually used (including offset, weights and auto-correlation adjustment), the penalised version subtracts exactly half the penalty, and the restricted likelihood combines that value with the log-determinants of the penalty and of the penalised Hessian, on the same scale, and the null-space dimension. Candidate evaluations used elsewhere compute the same criterion for other smoothing parameters.",
     ["inputs", "configurations"], "all families, penalties, scale values, auto-correlation settings and candidates",
     "Additive constants and scale factors in these criteria do not change fits but flip model comparisons; no test pins the terms separately.",
     ["src/mssm/models.py", P + "utils.py"], [("GSMM.get_llk, GSMM.get_reml, GAMMLSS.get_llk, GAMMLSS.get_reml, GAMM.get_llk, GAMM.get_reml", "src/mssm/models.py"), ("REML, compute_reml_candidate_GAMM, compute_REML_candidate_GSMM, computeAr1Chol", P + "utils.py")])
prop("P10", "Predictions, differences and intervals use the fitted coefficients correctly",
     "For any new data and any selection of terms, the prediction is the model matrix of the new data (with columns of excluded terms removed) times the coefficients of the requested parameter, its interval is built from the covariance of exactly those coefficients at the requested level, and a predicted difference and its interval equal those computed from the difference of the two model matrices. Posterior samples have the fitted mean (or zero for deviations) and the fitted covariance and select the requested coefficients; simultaneous intervals are widened by the requested quantile.",
     ["inputs", "configurations"], "all new data, term selections, parameters, levels, sample sizes and seeds",
     "A shifted column block or an interval from the wrong parameter gives plausible curves; tests look at few term selections.",
     ["src/mssm/models.py", P + "utils.py"], [("predict, predict_diff, sample_post, get_pars, get_mmat of GSMM, GAMMLSS and GAMM", "src/mssm/models.py"), ("adjust_CI, sample_MVN", P + "utils.py")])
prop("P11", "Model matrix columns, coefficient names and term indices share one layout",
     "For every formula, the columns of the model matrix, the coefficient names and counts per term, the per-term coefficient indices and the terms' reported types follow one order, so that column j always belongs to coefficient j of the same term, level and interaction. The columns hold the documented values: indicator or interaction columns for linear and random terms, basis columns multiplied by the by-variable, placed in the block of the factor level, for smooth terms.",
     ["inputs", "configurations"], "all formulas (terms, factors, by-variables, interactions, nesting) and all data",
     "Layout is produced by several routines independently; tests cover few combinations of terms and factor codings.",
     [P + "formula.py", P + "terms.py"], [("build_sparse_matrix_from_formula, build_model_matrix, Formula.__get_coef_info, get_term_names", P + "formula.py"), ("build_matrix and get_coef_info of i, f, fs, irf, ri, l, rs; build_linear_term, get_linear_coef_info", P + "terms.py")])
prop("P12", "Penalties penalise exactly the coefficients of their term",
     "Every penalty is embedded at the coefficients of the term, level and parameter it belongs to, has the documented rank and root (root times transposed root gives the penalty), and repeats once per factor level. The total penalty is the sum of the smoothing-parameter-weighted embedded penalties; splitting and merging penalties that share a smoothing parameter and dropping coefficients loses, duplicates or moves none.",
     ["inputs", "configurations"], "all formulas, penalty orders, null-space penalties, sharing patterns and dropped coefficients",
     "An embedding off by one block or a duplicated penalty gives a smooth but wrong fit; tests use few layouts.",
     [P + "penalties.py", P + "terms.py", P + "formula.py", P + "gamm_solvers.py"], [("DifferencePenalty, IdentityPenalty, TP_pen, embed_*, combine_shared_penalties, split_shared_penalties, adjust_pen_drop", P + "penalties.py"), ("build_penalty of f, fs, irf, ri, rs", P + "terms.py"), ("build_penalties", P + "formula.py"), ("compute_S_emb_pinv_det", P + "gamm_solvers.py")])
prop("P13", "Spline bases, tensor products and convolved bases evaluate as defined",
     "For all covariate values and knot settings, basis matrices hold the B-spline values defined by equally spaced knots over the recorded covariate range (identical for fitting and prediction data), tensor-product bases are the row-wise products of their marginals, and bases for impulse responses are the convolution of events with the basis, cut to the series. Centering and other constraints are absorbed into the basis the same way whenever the basis is rebuilt.",
     ["inputs", "configurations"], "all covariate vectors, numbers of knots, degrees, constraints and event times",
     "Basis errors at the edges of the range, or for prediction grids, do not show in fitted values on training data.",
     [P + "smooths.py", P + "terms.py", P + "formula.py"], [("tpower, bbase, B_spline_basis, TP_basis_calc, convolve_event", P + "smooths.py"), ("f.build_matrix, f.absorb_repara, build_ir_smooth_series", P + "terms.py"), ("Formula.__absorb_constraints, __absorb_constraints2, _compute_constraint_single_MP", P + "formula.py")])
prop("P14", "Unidentifiable coefficients are dropped and restored consistently",
     "When coefficients are dropped as unidentifiable, the same set is removed from the model matrices, penalties, gradient, Hessian and coefficient split of every parameter, indices that follow are shifted accordingly, and after the step the coefficients are put back at their original positions with zeros for the dropped ones. A drop is only accepted when the reduced system is better than the full one, and later restarts clear it everywhere.",
     ["inputs", "histories"], "all rank-deficient designs, splits over parameters and sequences of drops and restarts",
     "Rank-deficient designs are hardly covered by tests, and misplaced zeros shift every later coefficient.",
     [P + "gamm_solvers.py"], [("identify_drop, drop_terms_X, check_drop_valid_gammlss, check_drop_valid_gensmooth, handle_drop_gammlss, handle_drop_gsmm, restart_coef_gammlss, restart_coef", P + "gamm_solvers.py")])
prop("P15", "A seed makes every stochastic result reproducible",
     "Every routine that draws random numbers and accepts a seed obtains all of its draws from generators initialised by that seed (directly or by a value computed from it), passes the seed on to the sampling routines it calls, and never reads the global random state. Two calls with the same seed and arguments therefore give the same result, in whatever order other code draws random numbers.",
     ["inputs", "histories"], "all seeds and all sequences of calls before",
     "A test that calls a function twice in one order cannot tell a seeded draw from one on global state, and parts are drawn only under rare settings.",
     ["src/mssm/models.py", P + "utils.py", P + "gamm_solvers.py", P + "hsmm.py", P + "mcmc.py", P + "exp_fam.py"], [("np.random.default_rng(seed) and random_state= call sites", "src/mssm/"), ("sample_MVN, adjust_CI, sample_post, approx_smooth_p_values, correct_VB, rvs, predict, sample_posterior_states, sample_mssm", P + "utils.py")])
prop("P16", "Queries do not change a fitted model or the caller's data",
     "Evaluating, predicting, sampling, comparing, summarising or correcting for uncertainty leaves the fitted model, its formulas, the data frame and all arrays and lists passed in by the caller unchanged, except for state that is documented to be stored or that is restored before returning. Later results therefore do not depend on which queries were made before.",
     ["histories", "inputs"], "all sequences of calls of query routines on one model",
     "A test that checks the value a query returns does not notice that the model was modified for the next query.",
     ["src/mssm/models.py", P + "utils.py", P + "compare.py", P + "formula.py"], [("get_*, predict, predict_diff, sample_post, print_*", "src/mssm/models.py"), ("REML, correct_VB, estimateVp, adjust_CI, approx_smooth_p_values", P + "utils.py"), ("compare_CDL", P + "compare.py")])
prop("P17", "Fitting stores one complete, current state",
     "After a fit returns, all stored results (coefficients, covariance factor, predictors, means, Hessian, scale, residuals, degrees of freedom, penalties, weights, auto-correlation and offset state) come from that fit, for any history of earlier fits of the same model with other settings; nothing of an earlier call survives. Results are stored for the parameters and in the order the query routines read them.",
     ["histories", "configurations"], "all sequences of fits with differing settings",
     "Tests fit each model once; stale state shows up only for particular sequences of settings.",
     ["src/mssm/models.py"], [("GSMM.fit, GAMMLSS.fit, GAMM.fit", "src/mssm/models.py")])
prop("P18", "Rows with missing values and file-based data are aligned everywhere",
     "For any pattern of missing values, observations, covariates, series identifiers and model-matrix rows refer to the same set of rows in the same order, whichever of data frame or files the data come from; files are concatenated in the given order and missing responses are excluded once. Factor levels and covariate ranges are derived from the data in the same way for both sources.",
     ["inputs", "configurations"], "all missingness patterns, numbers of files and factor codings",
     "Tests have complete data or one pattern; a mis-shifted row set changes results only slightly.",
     [P + "formula.py", P + "file_loading.py", "src/mssm/models.py"], [("Formula.encode_data, __encode_var, get_depvar, get_notNA, __discretize", P + "formula.py"), ("read_cov, read_cor_cov_single, read_unique, read_cov_no_cor", P + "file_loading.py"), ("get_ys", "src/mssm/models.py"), ("read_mmat, read_XTX, read_eta, keep_XTX, keep_eta, form_cross_prod_mp, form_eta_mp, solve_gamm_sparse2", P + "gamm_solvers.py")])
prop("P19", "Results do not depend on the number of worker processes",
     "For any number of cores and any split of rows, columns, penalties or series over workers, parallel code paths hand every worker the same arguments the sequential path uses, cover each index exactly once, and reassemble results in order, so that both paths compute the same value.",
     ["configurations", "schedules"], "all core counts and chunk sizes",
     "Test runs use one core setting; an index lost at a chunk boundary needs a particular size.",
     [P + "matrix_solvers.py", P + "gamm_solvers.py", P + "formula.py", P + "utils.py", P + "hsmm.py", P + "exp_fam.py", "src/mssm/models.py"], [("pool.starmap / pool.map call sites", P), ("compute_B, compute_Linv, form_cross_prod_mp, form_eta_mp, build_model_matrix, GSMMFamily.jhessian", P)])
prop("P20", "Sparse solver wrappers and their native bindings agree",
     "Every call into a native extension passes the arguments the native function declares, in its order and with the storage layout it expects, refers to a registered name, and unpacks as many results as it returns. Pivoted factors are un-permuted with the matching permutation, so that each wrapper returns factors, solutions and inverses for the original ordering.",
     ["inputs", "configurations"], "all sparse matrices and all wrappers",
     "Some wrappers are used only for rarely chosen methods, and a swapped pair of same-typed arguments fails silently.",
     [P + "matrix_solvers.py", C + "eigen_solvers.cpp", C + "dchol.cpp", C + "davies.cpp", C + "hazard.cpp", C + "mcmc.cpp", C + "hsmm/llk.cpp", C + "hsmm/decode.cpp", C + "hsmm/resid.cpp"], [("cpp_* wrappers, compute_eigen_perm, apply_eigen_perm, map_csc_to_eigen, translate_sparse, est_condition", P + "matrix_solvers.py"), ("m.def registrations", C)])
prop("P21", "Hidden semi-Markov models: all analyses use one model of the series",
     "Likelihood, gradient, decoding, state sampling, residuals and prediction of a hidden (semi-)Markov model split the data into the same series, pair each observation, duration, transition and initial-state sub-model with the same coefficients and model matrix, and pass identical probabilities, in the same order, to the recursions. Transition rows and initial distributions are probabilities (with the self-transition excluded and first/last-state conventions respected), and the gradient is the derivative of the likelihood for the same parameters.",
     ["inputs", "configurations", "histories"], "all numbers of states, signals, series, shared parameters, time-varying settings and fixed transitions",
     "The tests fit a few configurations to stored results; sibling analyses (sampling, residuals, prediction) have branches per configuration that none of them reach.",
     [P + "hsmm.py", C + "hsmm/llk.cpp"], [("_split_matrices, _compute_series_probs, _sample_series_emissions, _compute_dur_res_series", P + "hsmm.py"), ("HSMMFamily.llk, gradient, decode_viterbi, sample_posterior_states, get_resid, predict, compute_Tpi, compute_od_probs", P + "hsmm.py")])
prop("P22", "Smoothing-uncertainty correction uses coherent priors, weights and covariances",
     "The covariance correction for estimated smoothing parameters combines conditional covariances and coefficient deviations over the candidates with one set of normalised weights, derived from the criterion, the proposal density and the prior of those same candidates. Priors assign minus infinity outside their support and a density inside it, values made valid lie inside the support, finite differences of the criterion are evaluated at symmetric or stated offsets with restored state, and only coefficients and parameters of the model at hand enter.",
     ["inputs", "configurations"], "all candidate sets, priors, proposal settings and model classes",
     "The correction is a Monte-Carlo quantity, so tests can only use loose tolerances on a few models.",
     [P + "utils.py"], [("RhoPrior, MVUniformRhoPrior, CenteredUniformRhoPriors, estimateVp, updateVp, compute_Vp_WPS, compute_Vb_corr_WPS, _compute_VB_corr_terms_MP, correct_VB", P + "utils.py")])
prop("P23", "Model comparison computes the stated test and information criteria",
     "Comparing two models yields the likelihood-ratio statistic of the two unpenalised log-likelihoods with the difference of the chosen degrees of freedom, the matching tail probability and the AIC difference, in a sign convention that does not depend on argument order beyond what is documented. The result is refused or flagged when the models are not comparable or the first is not the larger one.",
     ["inputs", "configurations"], "all pairs of fitted models and correction settings",
     "Only particular orderings of likelihoods and degrees of freedom take the special branches.",
     [P + "compare.py"], [("compare_CDL", P + "compare.py")])
prop("P24", "Summaries and smooth p-values refer to the right terms",
     "Printed and returned term summaries list every parametric coefficient and smooth term once, next to its own name, degrees of freedom, test statistic and probability, for every parameter, by-factor and combination of terms. The smooth test uses the coefficients, covariance block and model-matrix columns of that term and the reference distribution for its rank; parametric tests use the matching standard error and degrees of freedom.",
     ["inputs", "configurations"], "all fitted models and formulas",
     "Output is hardly tested, and an index off by one term yields plausible statistics.",
     [P + "utils.py", "src/mssm/models.py"], [("print_parametric_terms, print_smooth_terms, approx_smooth_p_values, compute_bias_corrected_edf", P + "utils.py"), ("print_parametric_terms, print_smooth_terms", "src/mssm/models.py")])
prop("P25", "Posterior sampling chains target the model's own posterior",
     "Sampling from the posterior of coefficients (and smoothing parameters) evaluates the log-density and gradient of the fitted model's penalised likelihood plus priors at the proposed values, advances and stores each chain separately, discards warm-up draws, and reports convergence statistics of exactly the stored draws. Fixed quantities stay fixed, and transformations between the unconstrained and the model scale are applied with their Jacobian in both directions.",
     ["inputs", "configurations", "histories"], "all models, priors, numbers of chains and sampler settings",
     "Sampling error hides a wrong density term; tests can only compare means loosely.",
     [P + "mcmc.py", C + "mcmc.cpp"], [("sample_mssm, advance_chain_mssm, check_convergence", P + "mcmc.py")])
prop("P26", "Quasi-Newton curvature approximations satisfy their defining equations",
     "The limited-memory approximations of the Hessian and of its inverse used for general smooth models are built from the stored update pairs in their order, satisfy the compact-representation formulas (inverse and direct form belong to the same matrix), reject pairs that fail the curvature test, and add the structured or penalty part exactly once. Memory bounds drop the oldest pair, and sampling-based approximations evaluate gradients at the points they record.",
     ["inputs", "configurations", "histories"], "all sequences of update pairs, memory sizes and penalty matrices",
     "An approximation that is wrong still leads to descent, so fits converge and tests pass.",
     [P + "compact_rep.py", P + "gamm_solvers.py", C + "dchol.cpp"], [("compute_omega, computeVSR1, computeHSR1, computeSH, computeSVPS", P + "compact_rep.py"), ("test_SR1, update_ys_qefs, sample_ys_qefs, makepdd_fd2llk, init_qEFS_storage, getExplicitnH, getCholnH, sampleHcoef, back_track_alpha", P + "gamm_solvers.py")])
prop("P27", "Re-parameterisation preserves the model",
     "Transforming penalties, model matrices and coefficients to another parameterisation and back gives the original ones for every strategy: fitted values, quadratic penalty forms and log-determinants are unchanged, transformation matrices are applied on the matching side, and the reported ranks and index sets describe the transformed penalties.",
     ["inputs", "configurations"], "all penalties, model matrices, coefficients and re-parameterisation options",
     "Only some options are used by default; a transposed transformation is invisible for symmetric examples.",
     [P + "repara.py", P + "terms.py"], [("reparam, reparam_model", P + "repara.py"), ("f.absorb_repara", P + "terms.py")])
prop("P28", "Invalid requests are rejected and no path uses an undefined name",
     "On every path, each name, attribute, module member and keyword that the code uses is defined and accepted by what it is passed to, and every detected invalid request (wrong argument combinations, un-fitted models, unsupported options) raises an exception or issues a warning instead of continuing silently. Valid requests are not rejected.",
     ["programs", "inputs", "configurations"], "all paths through all functions",
     "Error and fallback branches are not executed by tests, so a missing raise or a misspelt name stays undetected.",
     ["src/mssm/models.py", P], [("raise and warnings.warn sites, call sites of repository functions", "src/mssm/")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in T:
            f.write(json.dumps(d) + "\n")
    print(len(T))
