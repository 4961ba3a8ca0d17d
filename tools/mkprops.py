import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['sqpdfo/'+f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech],**kw)))
p('P01','The returned values belong to the returned point',
 "When a run of the optimizer ends after its starting points were evaluated successfully, the returned x is one of the points at which the user's objective was actually called, and the objective value and the constraint values reported with it are the ones the user's functions returned for exactly that point (values at or above the 1e25 overflow cap excepted). This holds however the run ends: convergence, iteration or evaluation limit, small trust region, or failed evaluation.",
 ['inputs','histories','configurations'],'every objective/constraint pair, start, bounds, options and every way of ending the run',
 'Tests compare the final x and f of six fixed problems to a tolerance; they never compare the reported values with the recorded calls, nor exercise most of the exits.',
 ['sqpdfo.py','sqpdfo_main.py','sqpdfo_augmX_evalf.py','sqpdfo_find_smallf.py','sqpdfo_swap_in_Y.py'],
 [('archive of evaluated points','sqpdfo_augmX_evalf.py: X[:,m], fX[m], ceX[:,m]'),('index of the best point','sqpdfo_main.py: i_xbest, fx'),('final report','sqpdfo.py: x=X[:,i_xbest], info.f, info.ce')])
p('P02','The model is always fitted to true evaluations',
 "Whenever the optimizer builds its interpolation models, every interpolation point is a point at which the user's functions were called, and the objective and constraint values interpolated there are the values returned for that very point (1e25 cap excepted); the point the model is centred on is the current best point. Replacing, swapping, adding or repairing points never detaches a value from its point.",
 ['inputs','histories'],'every sequence of accepted, rejected, augmenting, replacing and repairing iterations',
 'The tests check one iteration sequence per problem and never look at the set; a value attached to a wrong column only slows convergence.',
 ['sqpdfo_main.py','sqpdfo_prelim.py','sqpdfo_find_smallf.py','sqpdfo_swap_in_Y.py','sqpdfo_augmX_evalf.py'],
 [('set update after each iteration','sqpdfo_main.py: Y, ind_Y, fY, ceY'),('initial set','sqpdfo_prelim.py'),('best-point swap','sqpdfo_find_smallf.py, sqpdfo_swap_in_Y.py')])
p('P03','Evaluations are counted exactly and limits are respected',
 "The reported number of simulations equals the number of times the user's objective was called. No new iteration starts once the iteration limit or the evaluation limit is reached: the reported iteration count exceeds the limit by at most one, and the number of evaluations exceeds its limit by at most the evaluations belonging to one iteration (after the starting set).",
 ['inputs','histories','configurations'],'every problem and every pair of limits',
 'One test checks a converged run with limits far away; the limit exits and the count are not compared with actual calls.',
 ['sqpdfo_main.py','sqpdfo_evalfgh.py','sqpdfo_augmX_evalf.py'],
 [('counter','sqpdfo_evalfgh.py: info.nsimul'),('limit tests','sqpdfo_main.py: head of the iteration')])
p('P04','Success is reported only when the optimality tests hold',
 "If a run reports success, then the Lagrangian gradient norm and the constraint violation it reports are at most 100 times the requested gradient and feasibility tolerances, and the violation it reports is the one of the returned constraint values (slack-adjusted for inequalities). Ending for any other reason carries a nonzero flag that identifies the reason (iteration limit 5, evaluation limit 6, small trust region 15, evaluation failure 3, ...).",
 ['inputs','configurations','histories'],'every problem, tolerance setting and exit',
 'Tests look at converged runs on well-behaved problems only; a success flag on a non-optimal exit passes them.',
 ['sqpdfo_main.py','sqpdfo_optimality.py','sqpdfo.py'],
 [('convergence tests','sqpdfo_main.py'),('optimality measures','sqpdfo_optimality.py')])
p('P05','A failing evaluation ends the run cleanly',
 "If a user function raises an exception, or returns a NaN or infinite objective value or a NaN constraint value, at any call, the optimizer neither raises nor loops: it stops with the evaluation-failure flag 3, makes no further objective call, and never reports the failed point as its solution once a good point is known.",
 ['fault_sequences','inputs'],'every index of the failing call, every kind of failure (exception, NaN, +inf or -inf objective, NaN constraint), every phase of the run',
 'No test injects a failing evaluation after the first one; which phase the failure hits decides the code path.',
 ['sqpdfo_evalfgh.py','sqpdfo_func.py','sqpdfo_augmX_evalf.py','sqpdfo_main.py','sqpdfo_prelim.py'],
 [('failure detection','sqpdfo_evalfgh.py'),('propagation','sqpdfo_augmX_evalf.py, sqpdfo_main.py, sqpdfo_prelim.py')])
p('P06','Runs are independent and leave the caller\'s data alone',
 "The result of a run depends only on its own arguments: the same call made after any sequence of other runs returns the same x, multipliers and information, bit for bit. The arrays and the options object passed in are not modified.",
 ['histories','inputs'],'every pair of runs in one process, in either order, with and without inequality constraints',
 'Each test runs one problem per process state and never compares two runs or re-reads its inputs.',
 ['sqpdfo.py','sqpdfo_global_variables.py','sqpdfo_prelim.py','sqpdfo_main.py','sqpdfo_options.py'],
 [('module-level state','sqpdfo_global_variables.py'),('argument copies','sqpdfo_prelim.py, sqpdfo_main.py, sqpdfo.py')])
p('P07','Invalid input is refused before any evaluation',
 "A missing objective, missing start, missing constraint function for declared constraints, non-positive tolerance, minimal step, iteration or evaluation limit, an unknown option keyword or model name, or a lower bound above its upper bound makes the call return a nonzero flag (1, or 2 for inconsistent bounds) without calling the objective. Options that are absent get their documented defaults, and every documented keyword selects the setting of that name.",
 ['configurations','inputs'],'every option, every invalid value of it, every combination of missing arguments',
 'The tests check two option sets; nothing checks the refused values or that no evaluation happened.',
 ['sqpdfo_options.py','sqpdfo.py','sqpdfo_prelim.py'],
 [('option validation','sqpdfo_options.py'),('argument validation','sqpdfo.py, sqpdfo_prelim.py')])
p('P08','Bounds: starting points and steps stay inside',
 "For every box with lower < upper in each component, all points of the starting set lie inside the bounds, every trial point computed from the trust-region subproblem lies inside the bounds up to 1e-8, and so does the returned x.",
 ['inputs','histories'],'every box (narrow, one-sided, start outside or on the boundary), every problem',
 'Tests use wide boxes with interior starts; violations need narrow boxes or active bounds.',
 ['sqpdfo_prelim.py','sqpdfo_solve_TR_bc.py','sqpdfo_find_smallf.py','bcdfo_solve_TR_MS_bc.py'],
 [('start shifted into the box','sqpdfo_prelim.py'),('active-set step','sqpdfo_solve_TR_bc.py'),('inside test','sqpdfo_find_smallf.py')])
p('P09','Accepted steps decrease the merit function',
 "Each time a trial point becomes the current best point because its step was accepted, its merit value (objective plus penalty times the norm of the slack-adjusted constraints, with the penalty in force) is strictly below that of the previous best point; a step whose actual-to-predicted reduction ratio is below the acceptance threshold never replaces the best point. The penalty parameter never decreases during a run.",
 ['histories','inputs'],'every sequence of iterations',
 'The tests see only final values; a wrongly accepted step is repaired by later iterations on the easy test problems.',
 ['sqpdfo_main.py'],[('acceptance test','sqpdfo_main.py: rho, merit, merit0'),('penalty update','sqpdfo_main.py: sigma')])
p('P10','Model value, gradient and Hessian are exact',
 "For every dimension, every number of basis functions from one to the full quadratic count, every coefficient vector and every point, the basis evaluation returns 1, the variables, their halved squares and the mixed products in the documented order, the model value is the coefficient-weighted sum of these, and the model gradient and Hessian are the exact first and second derivatives of that value (also under shifting and scaling).",
 ['inputs'],'all dimensions, all partial degrees, all points and coefficients, shifted or not',
 'Tests evaluate a handful of 1-3 dimensional examples; partial quadratics and larger dimensions take different index ranges.',
 ['bcdfo_evalZ.py','bcdfo_evalP.py','bcdfo_gradP.py','bcdfo_hessP.py'],
 [('basis','bcdfo_evalZ.py'),('value','bcdfo_evalP.py'),('gradient','bcdfo_gradP.py'),('Hessian','bcdfo_hessP.py')])
p('P11','Models interpolate the data and Lagrange functions are nodal',
 "For a poised set (well-conditioned basis matrix) the computed model takes the given value at every interpolation point, for linear through full-quadratic sets, for several right-hand sides at once, shifted or not; the j-th Lagrange polynomial is 1 at the j-th point and 0 at the others, and evaluating all Lagrange polynomials at a point agrees with evaluating each of them. The stored factorization is the one of the current set, centred at its first point and scaled by its radius.",
 ['inputs','configurations'],'every poised set, model type subbasis / minimum-l2 / regression, every right-hand side',
 'Tests cover two-dimensional sets with fixed numbers.',
 ['bcdfo_build_QR_of_Y.py','bcdfo_computeP.py','bcdfo_computeLj.py','bcdfo_evalL.py'],
 [('factorization','bcdfo_build_QR_of_Y.py'),('coefficients','bcdfo_computeP.py, bcdfo_computeLj.py'),('values','bcdfo_evalL.py')])
p('P12','Set updates touch only the named points',
 "Swapping two points exchanges exactly their two columns together with their indices, objective values and constraint values; replacing a point changes only that column; augmenting appends the new points and changes nothing else (and is ignored for an already full quadratic set); including a point replaces a candidate that maximises the requested criterion among those above the threshold, or nothing when there is none. None of them modifies the arrays it was given.",
 ['inputs'],'all set sizes, positions, criteria and thresholds',
 'One fixed example per routine.',
 ['sqpdfo_swap_in_Y.py','bcdfo_replace_in_Y.py','bcdfo_augment_Y.py','bcdfo_include_in_Y.py'],
 [('swap','sqpdfo_swap_in_Y.py'),('replace','bcdfo_replace_in_Y.py'),('augment','bcdfo_augment_Y.py'),('include','bcdfo_include_in_Y.py')])
p('P13','Set repair keeps the base point and reports what it changed',
 "Repairing the interpolation set never moves the first (base) point, every point it inserts lies within the given radius of the base point (up to the solver tolerance), and the list of replaced positions names exactly the columns that differ from the input, each of them once and never position zero. The geometry measure is the largest Lagrange-polynomial magnitude found over the non-base points, and both report the true set radius.",
 ['inputs'],'all sets, radii and thresholds',
 'One fixed two-dimensional example; the caller re-evaluates only the reported positions, so an unreported change silently corrupts the model.',
 ['bcdfo_repair_Y.py','bcdfo_find_new_yj.py','bcdfo_poisedness_Y.py'],
 [('far points then worst points','bcdfo_repair_Y.py'),('new point','bcdfo_find_new_yj.py')])
p('P14','Trust-region step (no bounds) is feasible, decreasing, consistent',
 "For every symmetric Hessian, gradient and radius the step returned without an error message has norm at most (1+tolerance) times the radius, its reported norm, model value and updated gradient are those of the returned step, and the model value is never positive; a step reported as interior satisfies the first-order condition, one reported as a boundary step has norm equal to the radius within the tolerance.",
 ['inputs'],'all gradients (also zero), all symmetric Hessians (definite, indefinite, singular, hard case), all radii',
 'Tests only reach it through larger routines with convex data.',
 ['bcdfo_solve_TR_MS.py'],[('secular equation iteration','bcdfo_solve_TR_MS.py')])
p('P15','Trust-region step (with bounds) is feasible, decreasing, consistent',
 "For a box containing the origin, a symmetric Hessian, a gradient and a radius, the step returned without an error message satisfies the bounds and has norm at most the radius (both up to the solver tolerance), its reported norm and value are those of the step, and the model value is not positive.",
 ['inputs'],'all boxes containing the origin, gradients, symmetric Hessians, radii',
 'Two fixed examples.',
 ['bcdfo_solve_TR_MS_bc.py'],[('projected More-Sorensen iterations','bcdfo_solve_TR_MS_bc.py')])
p('P16','Truncated conjugate gradients stay in the region and decrease',
 "For every symmetric matrix, right-hand side and radius the returned vector has norm at most the radius (up to rounding), its quadratic model value is not above zero, and the reported reason is true: converged means the residual meets the tolerance, boundary and negative-curvature exits end on the boundary of the region.",
 ['inputs'],'all symmetric matrices (definite or not), right-hand sides, radii, iteration limits',
 'One fixed positive definite example.',
 ['sqpdfo_truncated_cg.py'],[('CG loop','sqpdfo_truncated_cg.py')])
p('P17','Projected gradient is the box-projected steepest descent',
 "Component by component, the projected gradient equals x minus the projection of x-g on the bounds for every x inside them, and the reported norm is the largest magnitude of its components, zero exactly at first-order critical points of the box.",
 ['inputs'],'all dimensions, points inside the box, gradients and bounds including infinite ones',
 'One fixed example.',
 ['bcdfo_projgrad.py'],[('projection','bcdfo_projgrad.py')])
p('P18','Quasi-Newton update keeps a symmetric positive definite matrix',
 "Given a symmetric positive definite matrix and a nonzero step, the update returns without failure a symmetric positive definite matrix that maps the step to the (Powell-damped) gradient difference, where the damping makes the curvature at least one fifth of the old one and is inactive when the curvature is already sufficient; on a null step or a non-positive old curvature it reports failure and returns the matrix unchanged.",
 ['inputs'],'all dimensions, matrices, steps and gradient differences, first update or later',
 'Three fixed examples.',
 ['sqpdfo_bfgs_update.py','sqpdfo_computeHessian.py'],[('update','sqpdfo_bfgs_update.py')])
p('P19','Matrix convexification and conditioning safeguards',
 "Convexification returns a positive definite matrix obtained by raising only the negative or vanishing eigenvalues and returns the input unchanged when it is positive semidefinite already; the conditioning safeguard leaves matrices below the threshold unchanged and otherwise returns a symmetric matrix whose singular values are at least the floor, for finite symmetric input. Neither modifies its argument.",
 ['inputs'],'all finite symmetric matrices',
 'Five fixed examples.',
 ['sqpdfo_check_convex.py','sqpdfo_check_cond.py'],[('eigenvalue lift','sqpdfo_check_convex.py'),('singular value floor','sqpdfo_check_cond.py')])
p('P20','Multiplier estimates solve the sign-constrained least squares problem',
 "The bounded least-squares solver always returns a point inside its bounds, and when it reports success the projected gradient there meets its tolerance. The multiplier estimate has one entry per variable and per constraint, bound multipliers are zero for bounds that are not active, non-positive at active lower and non-negative at active upper bounds, and the estimate is stationary for the least-squares residual of the Lagrangian gradient whenever the solver it uses reports success (rather than its iteration limit).",
 ['inputs'],'all matrices, right-hand sides and bounds; all active-set patterns',
 'Two fixed examples.',
 ['blls.py','sqpdfo_compute_multiplier.py','sqpdfo_optimality.py'],
 [('bounded least squares','blls.py'),('multiplier','sqpdfo_compute_multiplier.py')])
p('P21','The best feasible-to-bounds point is selected by merit',
 "After the interpolation set was improved, the selected point is a point of the set inside the bounds whose merit value is smallest among the points inside the bounds, the current best point is kept unless another one is strictly better, the selected point becomes the first of the set together with its values and index, and all other points stay in the set with their own values.",
 ['inputs','histories'],'all sets, bounds, constraint values and penalties',
 'One fixed example where the current point stays best.',
 ['sqpdfo_find_smallf.py'],[('selection','sqpdfo_find_smallf.py')])
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
print(len(P))
