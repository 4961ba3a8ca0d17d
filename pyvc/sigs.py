"""Parameter order of the functions under contract, used when a parameter was renamed."""
SIGS = {'bcdfo_augment_Y_': ('Ynew', 'Y', 'whichmodel', 'shift_Y', 'Delta', 'normgx', 'kappa_ill'),
        'bcdfo_build_QR_of_Y_': ('Y', 'whichmodel', 'shift_Y', 'Delta', 'normgx', 'kappa_ill'),
        'bcdfo_computeLj_': ('QZ', 'RZ', 'j', 'Y', 'whichmodel', 'scale', 'shift_Y'),
        'bcdfo_computeP_': ('QZ', 'RZ', 'Y', 'fY', 'whichmodel', 'P_old', 'ind_Y', 'i_xold', 'i_xplus', 'g', 'scale', 'shift_Y', 'Delta0'),
        'bcdfo_evalL_': ('QZ', 'RZ', 'Y', 'choice_set', 'x', 'xbase', 'whichmodel', 'scale', 'shift_Y'),
        'bcdfo_evalP_': ('P', 'x', 'xbase', 'scale', 'shift_Y'),
        'bcdfo_evalZ_': ('X', 'q'),
        'bcdfo_find_new_yj_': ('QZ', 'RZ', 'Y', 'j', 'Delta', 'eps_L', 'xbase', 'lSolver', 'whichmodel', 'scale', 'shift_Y'),
        'bcdfo_gradP_': ('P', 'x', 'xbase', 'scale', 'shift_Y'),
        'bcdfo_hessP_': ('P', 'x', 'xbase', 'scale', 'shift_Y'),
        'bcdfo_include_in_Y_': ('x', 'QZ', 'RZ', 'Y', 'choice_set', 'poisedness_threshold', 'criterion', 'xbase', 'whichmodel', 'succ', 'scale', 'shift_Y', 'Delta', 'normgx', 'kappa_ill'),
        'bcdfo_poisedness_Y_': ('QZ', 'RZ', 'Y', 'eps_L', 'xbase', 'lSolver', 'whichmodel', 'hardcons', 'xl', 'xu', 'indfree', 'stratLam', 'scale', 'shift_Y'),
        'bcdfo_projgrad_': ('n', 'x', 'g', 'bl', 'bu'),
        'bcdfo_repair_Y_': ('QZ', 'RZ', 'Y', 'Delta', 'farfact', 'farthr', 'closethr', 'eps_L', 'xbase', 'lSolver', 'whichmodel', 'hardcons', 'xl', 'xu', 'indfree', 'stratLam', 'scale', 'shift_Y', 'normgx', 'kappa_ill'),
        'bcdfo_replace_in_Y_': ('QZ', 'RZ', 'ynew', 'Y', 'j', 'xbase', 'whichmodel', 'scale', 'shift_Y', 'Delta', 'normgx', 'kappa_ill'),
        'bcdfo_solve_TR_MS_': ('g', 'H', 'Delta', 'eps_D'),
        'bcdfo_solve_TR_MS_bc_': ('g', 'H', 'lb', 'ub', 'Delta', 'eps_D', 'stratLam', 'options'),
        'blls_': ('A', 'b', 'lb', 'ub'),
        '__init__': ('self',),
        'sqpdfo_': ('options', 'func_f', 'x0', 'lb', 'ub', 'me', 'mi', 'func_c', 'li', 'ui'),
        'sqpdfo_augmX_evalf_': ('f', 'y', 'm', 'X', 'fX', 'ciX', 'ceX', 'nfix', 'xfix', 'indfix', 'indfree', 'fxmax', 'neval', 'xstatus', 'xstatus_val', 'sstatus', 'dstatus', 'scaleX', 'scalefacX', 'info', 'options', 'values'),
        'sqpdfo_bfgs_update_': ('H', 'y', 's', 'first', 'info', 'options', 'values'),
        'sqpdfo_check_cond_': ('A', 'cthreshold', 'options'),
        'sqpdfo_check_convex_': ('A', 'options'),
        'sqpdfo_computeHessian_': ('simul', 'x', 'null_step', 'constrained_pbl', 'lm', 'M', 'n', 'me', 'mi', 's', 'gx', 'gci', 'gce', 'info', 'options', 'values', 'fcmodel', 'Y', 'fY', 'ciY', 'ceY', 'sigma', 'scale', 'shift_Y', 'QZ', 'RZ', 'whichmodel', 'ind_Y', 'i_xbest', 'm'),
        'sqpdfo_compute_multiplier_': ('x', 'lb', 'ub', 'info', 'options', 'values'),
        'sqpdfo_evalfgh_': ('key', 'xy', 'lm'),
        'sqpdfo_find_smallf_': ('c', 'QZ', 'RZ', 'Y', 'fY', 'ciY', 'ceY', 'ind_Y', 'i_xbest', 'cur_degree', 'indfree', 'x', 'xl', 'xu', 'fx', 'dstatus', 'whichmodel', 'scale', 'shift_Y', 'Delta', 'normgx', 'kappa_ill', 'sigma', 'info'),
        'sqpdfo_finish_': ('nb', 'mi', 'me', 'info', 'options', 'values'),
        'sqpdfo_func_': ('x',),
        'sqpdfo_init_prob_': ('prob',),
        'sqpdfo_iter_printout_': ('info', 'old_delta', 'norms', 'pc', 'itype', 'values', 'nb', 'mi', 'options', 'constrained_pbl', 'merit'),
        'sqpdfo_main_': ('func', 'n', 'nb', 'mi', 'me', 'lm', 'nitold', 'nit', 'i_xbest', 'lb', 'ub', 'm', 'X', 'fX', 'ciX', 'ceX', 'ind_Y', 'QZ', 'RZ', 'delta', 'cur_degree', 'neval', 'maxeval', 'maxit', 'fcmodel', 'gx', 'normgx', 'show_errg', 'pquad', 'pdiag', 'plin', 'stallfact', 'eps_rho', 'Deltamax', 'rep_degree', 'epsilon', 'verbose', 'eta1', 'eta2', 'gamma1', 'gamma2', 'gamma3', 'interpol_TR', 'factor_CV', 'Lambda_XN', 'Lambda_CP', 'factor_FPU', 'factor_FPR', 'Lambda_FP', 'criterion_S', 'criterion_FP', 'criterion_CP', 'mu', 'theta', 'eps_TR', 'eps_L', 'lSolver', 'stratLam', 'eps_current', 'vstatus', 'xstatus', 'sstatus', 'dstatus', 'ndummyY', 'sspace_save', 'xspace_save', 'xfix', 'fxmax', 'poised_model', 'M', 'kappa_ill', 'kappa_th', 'eps_bnd', 'poised', 'Y_radius', 'c', 'level', 'whichmodel', 'hardcons', 'noisy', 'scaleX', 'scalefacX', 'CNTsin', 'shrink_Delta', 'scale', 'shift_Y', 'info', 'options', 'values'),
        'sqpdfo_optimality_': ('x', 'lm', 'lb', 'ub', 'info', 'options'),
        'sqpdfo_options_': ('info', 'options'),
        'sqpdfo_prelim_': ('func', 'x0', 'lm0', 'Delta0', 'lb', 'ub', 'scaleX', 'scalefacX', 'cur_degree', 'rep_degree', 'plin', 'pdiag', 'pquad', 'c', 'initial_Y', 'kappa_ill', 'factor_FPR', 'Lambda_FP', 'Lambda_CP', 'eps_L', 'lSolver', 'hardcons', 'stratLam', 'xstatus', 'sstatus', 'dstatus', 'options'),
        'sqpdfo_solve_TR_bc_': ('simul', 'x', 'lb', 'ub', 'delta', 'mi', 'me', 'M', 'prec_r', 'prec_t', 'info', 'options', 'values', 'radius_has_been_rejected', 'lm', 'ceY', 'ciY', 'gx', 'indfree'),
        'sqpdfo_swap_in_Y_': ('i', 'j', 'QZ', 'RZ', 'Y', 'ind_Y', 'fY', 'ciY', 'ceY', 'xbase', 'whichmodel', 'scale', 'shift_Y', 'Delta', 'normgx', 'kappa_ill'),
        'sqpdfo_truncated_cg_': ('A', 'b', 'delta', 'max_iter', 'tol')}
