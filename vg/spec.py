"""Which functions implement which property (patterns over module.Class.function names), and which obligations are discharged for it."""
FN = {
    "P01": [r"exp_fam\.(Link|Logit|Identity|LOG|LOGb)\."],
    "P02": [r"exp_fam\.(Family|Binomial|Gaussian|Gamma|InvGauss|Poisson)\.", r"exp_fam\.est_scale"],
    "P03": [r"exp_fam\.(GAMLSSFamily|GAUMLSS|MULNOMLSS|GAMMALS)\."],
    "P04": [r"exp_fam\.(ExtendedFamily|ScaledT)\.", r"gamm_solvers\.updateTheta"],
    "P05": [r"gamm_solvers\.deriv_transform_(mu_eta|eta_beta)$", r"cpp_hazard\.", r"exp_fam\.(GSMMFamily|PropHaz|MultiGauss)\.", r"utils\.GAMLSSGSMMFamily\."],
    "P06": [r"gamm_solvers\.(getCholnH|restart_coef|restart_coef_gammlss|makepdd_fd2llk)$", r"models\..*\.fit$", r"matrix_solvers\.cpp_solve_(am|coef|coefXX|coef_pqr)$", r"cpp_eigen_solvers\.solve_(am|coef|coefXX|coef_pqr)$", r"gamm_solvers\.(PIRLS_pdat_weights|PIRLS_newton_weights|update_PIRLS|update_coef|update_coef_and_scale|init_step_gam|correct_coef_step|solve_gamm_sparse|"
            r"deriv_transform_mu_eta|deriv_transform_eta_beta|newton_coef_smooth|gd_coef_smooth|correct_coef_step_gammlss|update_coef_gammlss|solve_gammlss_sparse|"
            r"correct_coef_step_gen_smooth|back_track_alpha|update_coef_gen_smooth|solve_generalSmooth_sparse|solve_gamm_sparse2|updateTheta|update_scale_edf)$"],
    "P07": [r"matrix_solvers\.compute_", r"gamm_solvers\.(step_fellner_schall_sparse|compute_lgdetD_bsb|grad_lambda|initialize_extension|extend_lambda_step|undo_extension_lambda_step|"
            r"correct_lambda_step|correct_lambda_step_gamlss|correct_lambda_step_gen_smooth|computetrVS3|solve_gamm_sparse|solve_gammlss_sparse|solve_generalSmooth_sparse|"
            r"init_step_gam|update_scale_edf|solve_gamm_sparse2|calculate_edf|compute_S_emb_pinv_det)$", r"custom_types\."],
    "P08": [r"gamm_solvers\.(solve_gammlss_sparse|solve_generalSmooth_sparse|correct_lambda_step.*)$", r"penalties\.(create_id_dict|split_shared_penalties|combine_shared_penalties|embed_shared_penalties)$", r"gamm_solvers\.(calculate_edf|calculate_term_edf|update_scale_edf|computetrVS3|getImplicitV|solve_gamm_sparse|solve_gamm_sparse2|init_step_gam|update_coef_and_scale)$",
            r"utils\.(compute_bias_corrected_edf|print_smooth_terms)", r"matrix_solvers\.compute_", r"exp_fam\.est_scale"],
    "P09": [r"gamm_solvers\.(solve_.*sparse2?|correct_lambda_step.*)$", r"gamm_solvers\.compute_S_emb_pinv_det$", r"repara\.reparam$", r"models\..*\.fit$", r"models\.(GSMM|GAMMLSS|GAMM)\.(get_llk|get_reml|get_mmat|get_ys|get_resid|__init__)$", r"utils\.(computeAr1Chol|REML|compute_reml_candidate_GAMM|compute_REML_candidate_GSMM)$"],
    "P10": [r"terms\.(build_linear_term|build_ir_smooth_series)$", r"smooths\.", r"terms\..*\.build_matrix$", r"formula\.Formula\.get_(notNA|subgroup_variables|.*_idx|factor_.*|var_.*)$", r"models\.(GSMM|GAMMLSS|GAMM)\.(predict|predict_diff|sample_post|get_pars|get_mmat)$", r"utils\.(adjust_CI|sample_MVN)$", r"formula\.(build_sparse_matrix_from_formula|build_model_matrix)$",
            r"formula\.Formula\.encode_data$"],
    "P11": [r"terms\.f\.absorb_repara$", r"formula\._compute_constraint_single_MP$", r"smooths\.TP_basis_calc$", r"formula\.(build_sparse_matrix_from_formula|build_model_matrix|lhs)", r"formula\.Formula\.", r"terms\..*(build_matrix|get_coef_info|__init__|build_linear_term|get_linear_coef_info|build_ir_smooth_series|li)$",
            r"models\.(GSMM|GAMMLSS|GAMM)\.get_pars$"],
    "P12": [r"formula\.Formula\.get_.*_idx$", r"penalties\.", r"terms\..*build_penalty", r"terms\.(f|fs|irf|ri|rs|GammTerm)\.__init__", r"formula\.build_penalties", r"gamm_solvers\.compute_S_emb_pinv_det", r"custom_types\.", r"formula\.Formula\.__get_coef_info",
            r"terms\.f\.absorb_repara"],
    "P13": [r"formula\.Formula\.(__init__|__encode_var|get_var_.*)$", r"file_loading\.read_cor_cov_single$", r"smooths\.", r"terms\.(f|fs|irf)\.(build_matrix|absorb_repara|__init__)", r"terms\.build_ir_smooth_series", r"formula\.Formula\.(__absorb_constraints2?|__fix_nested)$", r"formula\._compute_constraint_single_MP"],
    "P14": [r"formula\.Formula\.__fix_nested$", r"terms\.f\.(build_matrix|build_penalty|get_coef_info)$", r"gamm_solvers\.(correct_coef_step|correct_coef_step_gen_smooth|correct_lambda_step|deriv_transform_eta_beta|init_step_gam|update_coef_and_scale)$", r"cpp_eigen_solvers\.(id_dependencies|pqrr?|spqr|dpqrr|solve_coef_pqr|_solve_coef_pqr)$", r"gamm_solvers\.(identify_drop|drop_terms_X|check_drop_valid_gammlss|check_drop_valid_gensmooth|handle_drop_gammlss|handle_drop_gsmm|restart_coef_gammlss|restart_coef|"
            r"update_coef|update_coef_gammlss|update_coef_gen_smooth|solve_gamm_sparse|solve_gammlss_sparse|solve_generalSmooth_sparse|calculate_edf|newton_coef_smooth|correct_coef_step_gammlss|gd_coef_smooth|correct_lambda_step_gamlss|correct_lambda_step_gen_smooth)$",
            r"penalties\.(adjust_pen_drop|embed_.*)$", r"models\.(GSMM|GAMMLSS|GAMM)\.(fit|sample_post)$", r"utils\.(sample_MVN|compute_reml_candidate_GAMM|compute_REML_candidate_GSMM)$"],
    "P15": [r"cpp_mcmc\.", r"cpp_decode\.sample", r"utils\.(sample_MVN|adjust_CI|approx_smooth_p_values|correct_VB|estimateVp|updateVp|_compute_VB_corr_terms_MP|compute_Vb_corr_WPS|compute_Vp_WPS|print_smooth_terms)$", r"models\..*\.(sample_post|predict|predict_diff|fit|print_smooth_terms)$",
            r"exp_fam\..*\.rvs$", r"exp_fam\.MultiGauss\.predict$", r"hsmm\.(_sample_series_emissions|HSMMFamily\.(predict|sample_posterior_states|get_resid))", r"mcmc\.",
            r"gamm_solvers\.(sampleHcoef|sample_ys_qefs|solve_generalSmooth_sparse|restart_coef|restart_coef_gammlss|update_coef_gen_smooth|solve_gammlss_sparse|handle_drop_gsmm|handle_drop_gammlss)$", r"compare\.", r"exp_fam\..*\.(get_resid|init_coef)$",
            r"formula\.Formula\.(__cluster_discretize|__discretize|__split_discretize)$"],
    "P16": [r"exp_fam\.", r"terms\..*build_", r"formula\.build_", r"smooths\.", r"models\..*\.fit$", r"gamm_solvers\.(deriv_transform_.*|compute_S_emb_pinv_det|drop_terms_X)$", r"penalties\.", r"models\..*\.(get_.*|predict|predict_diff|sample_post|print_.*)$", r"utils\.", r"compare\.", r"formula\.Formula\.(get_.*|has_ir_terms|encode_data)$", r"mcmc\.", r"repara\.",
            r"hsmm\.HSMMFamily\.(decode_viterbi|sample_posterior_states|get_resid|predict|compute_Tpi|compute_od_probs|llk|gradient)$", r"exp_fam\.(PropHaz|MultiGauss)\.(get_.*|predict|rvs)$"],
    "P17": [r"formula\.build_penalties$", r"models\..*\.(get_pars|get_resid|get_llk|get_reml)$", r"models\..*\.(fit|__init__)$", r"gamm_solvers\.(solve_gamm_sparse|solve_gamm_sparse2|solve_gammlss_sparse|solve_generalSmooth_sparse|init_qEFS_storage|initialize_extension)$", r"custom_types\."],
    "P18": [r"terms\.build_ir_smooth_series$", r"terms\.irf\.build_matrix$", r"file_loading\.", r"formula\.Formula\.(__init__|encode_data|__encode_var|get_depvar|get_notNA|get_data|__discretize|__cluster_discretize|__split_discretize|__get_coef_info|get_factor_codings|get_factor_levels|get_var_.*|get_subgroup_variables)$",
            r"models\..*\.(get_ys|get_mmat|get_resid|get_llk|fit)$", r"gamm_solvers\.(read_mmat|form_cross_prod_mp|read_XTX|keep_XTX|form_eta_mp|read_eta|keep_eta|solve_gamm_sparse2)$", r"formula\.(build_sparse_matrix_from_formula|build_model_matrix)$",
            r"utils\.(computeAr1Chol|compute_reml_candidate_GAMM|compute_REML_candidate_GSMM|approx_smooth_p_values|estimateVp|correct_VB)$"],
    "P19": [r"hsmm\._", r"exp_fam\.MultiGauss\.jcolhessian$", r"mcmc\.advance_chain_mssm$", r"utils\.(compute_Vp_WPS|compute_reml_candidate_GAMM|compute_REML_candidate_GSMM)$", r"matrix_solvers\.compute_", r"gamm_solvers\.(form_cross_prod_mp|read_XTX|keep_XTX|form_eta_mp|read_eta|keep_eta|solve_gamm_sparse2|calculate_edf|computetrVS3|read_mmat)$", r"formula\.(build_model_matrix|_compute_constraint_single_MP)$",
            r"formula\.Formula\.(__absorb_constraints2?|__cluster_discretize|__discretize|__split_discretize)$", r"exp_fam\.GSMMFamily\.(jhessian|jcolhessian|hessian)$", r"hsmm\.HSMMFamily\.", r"utils\.(correct_VB|estimateVp|_compute_VB_corr_terms_MP|compute_Vb_corr_WPS|updateVp)$",
            r"file_loading\.", r"models\..*\.(fit|get_mmat)$", r"mcmc\.sample_mssm"],
    "P20": [r"cpp_eigen_solvers\.", r"cpp_dchol\.", r"matrix_solvers\.", r"gamm_solvers\.(update_coef|newton_coef_smooth|getCholnH|test_SR1)$", r"repara\.reparam$"],
    "P21": [r"cpp_(llk|decode|resid)\.", r"hsmm\."],
    "P22": [r"gamm_solvers\.(compute_S_emb_pinv_det|compute_lgdetD_bsb)$", r"utils\.(REML|sample_MVN)$", r"cpp_dchol\.", r"utils\.(RhoPrior|MVUniformRhoPrior|CenteredUniformRhoPriors)\.", r"utils\.(estimateVp|updateVp|compute_Vp_WPS|compute_Vb_corr_WPS|_compute_VB_corr_terms_MP|correct_VB|compute_reml_candidate_GAMM|compute_REML_candidate_GSMM)$"],
    "P23": [r"compare\.", r"utils\.(correct_VB|estimateVp|updateVp|compute_bias_corrected_edf)$", r"models\..*\.get_llk$"],
    "P24": [r"terms\..*get_coef_info$", r"models\..*\.get_mmat$", r"formula\.Formula\.(get_.*|__get_coef_info)$", r"cpp_davies\.", r"utils\.(print_parametric_terms|print_smooth_terms|approx_smooth_p_values|compute_bias_corrected_edf)$", r"models\..*\.print_", r"formula\.Formula\.(get_term_names|get_.*_idx|get_coding_factors|get_factor_.*)$",
            r"gamm_solvers\.calculate_term_edf$"],
    "P25": [r"utils\.sample_MVN$", r"cpp_mcmc\.", r"mcmc\.", r"utils\.(RhoPrior|MVUniformRhoPrior|CenteredUniformRhoPriors)\."],
    "P26": [r"gamm_solvers\.gd_coef_smooth$", r"cpp_eigen_solvers\.(chol|cholP)$", r"compact_rep\.", r"gamm_solvers\.(test_SR1|update_ys_qefs|sample_ys_qefs|makepdd_fd2llk|init_qEFS_storage|getExplicitnH|getCholnH|sampleHcoef|back_track_alpha|getImplicitV|computetrVS3|update_coef_gen_smooth|correct_lambda_step_gen_smooth|solve_generalSmooth_sparse|correct_coef_step_gen_smooth|handle_drop_gsmm|check_drop_valid_gensmooth)$"],
    "P27": [r"gamm_solvers\.(compute_S_emb_pinv_det|solve_.*sparse2?)$", r"formula\.Formula\.__absorb_constraints2?$", r"formula\._compute_constraint_single_MP$", r"terms\.f\.build_penalty$", r"models\..*\.fit$", r"repara\.", r"terms\.f\.absorb_repara", r"utils\.(REML|compute_Vp_WPS)$"],
    "P28": [r"."],
}
# of the scope of P16, the queries proper
QUERY = [r"models\..*\.(get_.*|predict|predict_diff|sample_post|print_.*)$", r"utils\.", r"compare\.", r"formula\.Formula\.(get_.*|has_ir_terms|encode_data)$", r"mcmc\.", r"repara\.",
         r"hsmm\.HSMMFamily\.(decode_viterbi|sample_posterior_states|get_resid|predict|compute_Tpi|compute_od_probs|llk|gradient)$", r"exp_fam\.(PropHaz|MultiGauss)\.(get_.*|predict|rvs)$"]
# modules whose constants, class attributes and base classes belong to a property
CTX = {"P01": ["exp_fam"], "P02": ["exp_fam"], "P03": ["exp_fam"], "P04": ["exp_fam"], "P05": ["exp_fam", "utils"], "P06": ["gamm_solvers", "custom_types"], "P07": ["gamm_solvers", "custom_types"],
       "P11": [r"terms\.f\.absorb_repara$", r"formula\._compute_constraint_single_MP$", r"smooths\.TP_basis_calc$", "formula", "terms", "custom_types"], "P12": ["penalties", "custom_types", "terms"], "P13": ["smooths", "terms"], "P17": ["models", "custom_types"], "P21": ["hsmm"], "P22": ["utils"], "P25": ["mcmc"], "P18": ["file_loading", "formula"]}
