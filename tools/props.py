import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
M='fides/minimize.py';S='fides/steps.py';T='fides/trust_region.py';B='fides/stepback.py';Q='fides/subproblem.py';H='fides/hessian_approximation.py';K='fides/constants.py';L='fides/logging.py'
p('C01','The objective is only ever evaluated at feasible, finite points',
 'Every point at which the optimizer calls the objective, every iterate and the returned point are finite and satisfy the lower and upper bounds exactly, whatever values, gradients and Hessians the objective returns (of magnitudes whose products neither over- nor underflow) and whatever solver and step-back strategy are configured. A start on a bound is admissible and is moved inside by at most 1e2 machine epsilons; a start that violates a bound or is undefined raises an error with the exceeded-boundary flag before any evaluation.',
 ['inputs','histories','configurations'],'all bounds (unbounded, one-sided, narrow, large magnitude), starts, objective answers, step histories, solvers and step-back strategies',
 'The tests run a handful of smooth objectives in fixed boxes and only look at the end point; rounding when stepping to 95-100 % of the way to a bound, reflected and truncated steps over many variables are never enumerated.',
 [M,S,T,B],[('step back to a fraction of the first break point','fides/steps.py Step.step_back'),('clip of trial point, nudge of initial point, bound check','fides/minimize.py minimize / make_non_degenerate / check_in_bounds')],
 ['argument of every objective call','Optimizer.x','value returned by minimize'])
p('C02','A trial point is adopted exactly if it really decreases the objective',
 'A trial point becomes the new iterate, together with its own value, gradient and Hessian, exactly if the actual decrease (corrected by the curvature term of the bound scaling) and the decrease predicted by the quadratic model are both positive. Otherwise the iterate, its value, gradient and Hessian remain untouched, so the values of successive iterates never increase.',
 ['histories','inputs','configurations'],'every sequence of objective answers, including answers that are inconsistent with any smooth function, for every solver and step-back strategy',
 'Tests use well behaved functions for which most steps are accepted; which of the answer classes (barely better, equal, better but less than the correction term, worse, undefined) arrives in which state is never enumerated.',
 [M],[('ratio of actual and predicted decrease decides acceptance','fides/minimize.py update_tr_radius'),('adopting the trial point','fides/minimize.py update')],
 ['Optimizer.x/fval/grad/hess at the next objective call and after minimize'])
p('C03','The best point ever evaluated is reported, whether accepted or not',
 'At any time during and after a run, the reported best variables, best value and best gradient are those of the first evaluated point with the smallest finite objective value seen in this run, including points that were rejected as step. Non-finite answers never become the best point and the best value is never worse than the returned value.',
 ['histories'],'every sequence of accepted, rejected, equal, lower-but-rejected and non-finite answers',
 'Points that are better than the iterate but rejected need an objective answer that is lower by less than the scaling correction; no test produces one, and no test checks the best point after every evaluation.',
 [M],[('track_minimum is called for every evaluation, independent of acceptance','fides/minimize.py track_minimum')],
 ['Optimizer.x_min/fval_min/grad_min at every objective call and after minimize'])
p('C04','The returned value, variables, gradient and Hessian belong together',
 'minimize returns the value, variables, gradient and Hessian of one and the same evaluated point, the last accepted one, and these equal the public attributes of the optimizer. This holds regardless of what the caller does to arrays it exchanged with the optimizer: reusing or overwriting previously returned gradients, Hessians or residuals, or the variables that were passed to the objective, has no effect on the run.',
 ['histories','inputs','configurations'],'every history of answers and of accepted/rejected last steps; every pattern of array reuse by the objective',
 'Tests objectives allocate fresh arrays and the tests compare the end point to a known optimum within loose tolerances; mixing up quantities of the trial point and the iterate after a rejected last step is not visible to them.',
 [M],[('objective outputs are copied and bundled per evaluated point','fides/minimize.py FunEvaluator / Funout'),('update copies all quantities of an accepted point at once','fides/minimize.py update')],
 ['return value of minimize','Optimizer.x/fval/grad/hess','bitwise comparison to the log of objective calls'])
p('C05','The trust region bounds every step and follows the configured radius rule',
 'The length of every step in scaled coordinates does not exceed the current trust-region radius, which starts at the configured initial radius in every run. After each evaluation the radius is multiplied by gamma2 if the ratio of actual to predicted decrease reaches eta and the step used at least 90 % of the radius, becomes the smaller of gamma1 times the radius and a quarter of the step length if the ratio is at most mu or the value is not finite, and stays the same otherwise.',
 ['histories','configurations','inputs'],'all sequences of ratio classes (around both thresholds, non-finite) x interior/boundary steps x configured mu, eta, gamma1, gamma2 and initial radius',
 'No test observes the radius; wrong branches only cost iterations, which the tests do not measure.',
 [M,S,Q],[('radius update','fides/minimize.py update_tr_radius'),('norm constraint in subproblem, reflections, truncations and refinement','fides/subproblem.py, fides/steps.py')],
 ['Optimizer.delta at every objective call','trial points in scaled coordinates'])
p('C06','Every step achieves at least the model decrease of the documented candidates',
 'Whenever the scaled gradient is not zero, the proposed step predicts a positive decrease of the quadratic model, and at least as much as (up to rounding) the exact (full), two-dimensional-subspace (2D) or truncated conjugate gradient (scg) trust-region step after step-back. If that step has to be stepped back at a bound and there is more than one variable, the decrease is also at least that of the stepped-back steepest-descent step and of the reflected or truncated steps of the configured strategy.',
 ['inputs','configurations'],'all gradients, symmetric Hessians (definite, indefinite, singular, badly scaled), positions relative to the bounds, radii, solvers and strategies of an enumerated lattice',
 'A worse step still converges for the test problems, merely slower; the tests never compare the model decrease to a reference.',
 [T,S,B],[('selection of the candidate with the lowest model value','fides/trust_region.py trust_region'),('2D subspace / CG construction','fides/steps.py TRStep2D / TRStepSteihaug'),('reflection, truncation','fides/stepback.py, fides/steps.py')],
 ['trial points (maxiter=1) evaluated in an independent model of the scaled quadratic'])
p('C07','The n-dimensional trust-region subproblem is solved to global optimality',
 'For every symmetric matrix, gradient and positive radius, the subproblem solver returns a step inside the trust region whose quadratic value equals the global minimum over the trust region up to rounding. This includes indefinite, singular and badly scaled matrices, repeated eigenvalues, zero gradients and hard cases in which the gradient is (nearly) orthogonal to the eigenspace of the smallest eigenvalue.',
 ['inputs'],'matrices with enumerated spectra and eigenvectors, gradients with enumerated eigencomponents including zeros and near-zeros, radii over many orders of magnitude, dimensions 1 to 4',
 'Tests check a few random instances per case and mostly the norm of the solution; hard cases with repeated or clustered eigenvalues and scales other than one are not covered.',
 [Q],[('eigendecomposition and root finding on the secular equation, hard-case fallback','fides/subproblem.py solve_nd_trust_region_subproblem')],
 ['return value of solve_nd_trust_region_subproblem','first step of a full-space run'])
p('C08','The one-dimensional trust-region subproblem is solved exactly',
 'For every direction, offset inside the trust region, symmetric matrix and gradient, the line subproblem returns the multiple of the direction that minimizes the quadratic model along the line within the trust region. The resulting point never leaves the trust region.',
 ['inputs'],'directions, offsets (inside, on the boundary), convex, linear and concave models along the line, radii over many orders of magnitude',
 'Tests cover the offset-free case with random values only.',
 [Q],[('interior minimizer or best boundary intersection','fides/subproblem.py solve_1d_trust_region_subproblem / get_1d_trust_region_boundary_solution')],
 ['return value of solve_1d_trust_region_subproblem'])
p('C09','Box-constrained problems are solved to their optimum from any start',
 'Minimizing a strictly convex quadratic over a box with exact Hessians ends within the default iteration budget at a feasible point whose value matches the global constrained minimum up to the requested tolerance (relative 1e-6), for every solver and compatible step-back strategy and every feasible start. With the provided positive definite secant approximations (BFGS, DFP) the same minimum is reached (up to 1e-3, as they converge slower).',
 ['inputs','configurations'],'enumerated Hessians, minimizers inside and outside of the box, all active sets, boxes with one-sided and missing bounds, starts on, near and away from bounds, all solver/strategy combinations',
 'Tests use two or three objectives with one optimum each and compare gradients or positions with loose tolerances; combinations of active sets, strategies and starts are not enumerated.',
 [M,S,T,B,Q,H],[('interior trust-region reflective iteration','fides/minimize.py minimize')],
 ['returned value vs exact constrained minimum by enumeration of active sets'])
p('C10','The exit flag states the true reason for stopping',
 'A run stops with a convergence flag exactly at the first iteration whose step satisfies that criterion with the configured tolerances: value change of a sufficiently good step (function), length of the scaled step (variables, from the second iteration), or gradient norm at the iterate that is returned (gradient). Only if no criterion is met may an exhausted budget be reported, and error flags are only reported together with an exception.',
 ['histories','configurations','inputs'],'all sequences of answer classes x lattices of all five tolerances on both sides of the observed quantities',
 'Tests check that the flag is consistent with the final gradient for a few smooth runs; rejected steps with small gradients and simultaneously satisfied criteria do not occur.',
 [M,K],[('convergence criteria','fides/minimize.py check_convergence'),('budgets','fides/minimize.py check_continue')],
 ['Optimizer.exitflag, converged after minimize','number of iterations'])
p('C11','Budgets are respected and every run terminates',
 'A run performs exactly one objective evaluation for the start and one per iteration, never exceeds the maximal number of iterations, and before each iteration stops if the remaining time is less than the average time per iteration so far. When every step is rejected the run ends by itself as soon as the radius falls below machine precision.',
 ['histories','configurations','schedules'],'all iteration budgets, all patterns of evaluation durations under a virtual clock, all eventually-always-rejecting objectives',
 'Wall-clock behaviour cannot be tested deterministically without owning the clock, and tests only try one time limit; non-termination cannot be shown by tests that pass.',
 [M],[('check_continue','fides/minimize.py check_continue')],
 ['number of objective calls','exitflag','virtual clock reads'])
p('C12','Non-finite objective answers never corrupt the run',
 'A trial point with an undefined or infinite value (of either sign) is rejected, leaves the iterate untouched, shrinks the radius and lets the run continue. A non-finite initial answer, or non-finite derivatives at a point with finite value, end the run with an exception and the not-finite flag, leaving the last valid iterate and best point in place.',
 ['fault_sequences','histories','configurations'],'every position of NaN, +inf and -inf faults in values, gradients, Hessians, residuals and residual derivatives within all histories up to a depth, for exact and approximate Hessians',
 'Tests contain one objective that returns NaN at a fixed evaluation; all positions, kinds and combinations with Hessian approximations are not enumerated.',
 [M],[('non-finite value check before and after update','fides/minimize.py check_finite / update_tr_radius')],
 ['Optimizer state at every objective call','exceptions, exitflag'])
p('C13','Secant approximations satisfy their defining equations along every history',
 'After every accepted step the BFGS, DFP, general Broyden-class, SR1, good and bad Broyden approximations equal the documented update of their previous matrix with this step and gradient change: the secant equation holds, symmetry is preserved and Broyden-class updates with phi in [0,1] stay positive definite for steps that satisfy the curvature condition. Updates are skipped (matrix unchanged) where documented - violated curvature condition, degenerate denominators - and rejected steps never change the matrix.',
 ['histories','inputs'],'all sequences of steps and gradient changes over an alphabet (positive, zero, negative, tiny and huge curvature, already satisfied secant equation) up to a depth, on the update classes and through the optimizer',
 'Tests only check that minimization with approximations succeeds; a wrong update still converges.',
 [H,M],[('rank one/two updates','fides/hessian_approximation.py'),('wiring of s and y','fides/minimize.py update')],
 ['get_mat/get_diff of the update classes','Optimizer.hess at every objective call'])
p('C14','Structured and hybrid approximations follow their published schemes',
 'Along every history of accepted steps, the SSM, TSSM, GNSBFGS, FX, HybridFixed and HybridFraction approximations equal the published combination of the Gauss-Newton (or user provided) Hessian and the iteratively updated part, including the documented switching conditions, with hybrid switches being irreversible within a run. A run starts from the identity, the matrix given as initial Hessian, or the Hessian at the start if requested.',
 ['histories','inputs','configurations'],'all sequences of residual/derivative answers over an alphabet up to a depth, switch thresholds on either side of the observed quantities',
 'Tests only check convergence, which also succeeds with wrong matrices.',
 [H,M],[('structured secant updates and switches','fides/hessian_approximation.py'),('yb, gamma and counters passed to the updates','fides/minimize.py update')],
 ['Optimizer.hess at every objective call'])
p('C15','Runs are deterministic, independent and leave their inputs unmodified',
 'Minimizing with an optimizer object that was used before - whatever happened in the previous runs, including failures - or with an approximation object that was used before in another optimizer, gives bitwise the same evaluations, results, exit flag and history as fresh objects. The start, bounds, options and initial Hessian provided by the caller are never modified, and integer-valued inputs give the same results as the equal floating point values.',
 ['histories','configurations','inputs'],'all sequences of up to three runs over an alphabet of run outcomes (converged, budget, non-finite, exception in the objective), for exact Hessians and every approximation scheme',
 'Tests construct a new optimizer for almost every run and never compare with a fresh one.',
 [M,H],[('reset of the state at the beginning of a run','fides/minimize.py _reset, fides/hessian_approximation.py _init_mat')],
 ['sequence of objective calls, return value, flag of each run','caller-owned arrays'])
p('C16','Concurrent and nested optimizations do not influence each other',
 'Optimizers that run at the same time in several threads, or nested inside the objective of another optimizer, each perform exactly the evaluations and return exactly the results of an undisturbed run. Each run logs to its own logger with its own verbosity, also if runs start at the same time.',
 ['schedules'],'all interleavings of objective calls of two (and three) optimizers, all single (and pairs of) preemptions between source lines of the library, all nesting positions',
 'Tests are sequential; races need a specific preemption point.',
 [M,H,L],[('all state is kept in the optimizer; logger names are unique','fides/minimize.py Optimizer, fides/logging.py create_logger')],
 ['per optimizer trace of objective calls and return value','logging records and logger names per run'])
p('C17','Invalid options are refused at construction, valid ones take effect',
 'Constructing an optimizer with an unknown option name, a value of the wrong type or an unknown solver or step-back name - no matter whether options are given by enum or by string - raises an error, as does the incompatible combination of the CG solver with refinement. Every valid option given by name or by enum has the same effect, and omitted options have their documented defaults.',
 ['configurations'],'every option x every class of value (each type, enum, string, invalid string) x enum/string keys, all solver/strategy pairs',
 'Tests try a few invalid options with enum keys only.',
 [K,M],[('validate_options, compatibility check','fides/constants.py, fides/minimize.py __init__')],
 ['exceptions of the constructor','trajectories and public state of runs'])
p('C18','Objectives that violate the documented contract are refused',
 'An objective that returns the wrong number of values, a non-scalar value, or gradients and Hessians of wrong dimension or shape at the start leads to a ValueError after exactly one evaluation, whatever configuration is used; a wrong number of values is refused at every evaluation. An ill-shaped start, an initial Hessian of the wrong size and a mismatch between residual mode and approximation scheme are refused as well, the start before any evaluation. Additional arguments are passed to every evaluation unchanged.',
 ['inputs','configurations'],'every combination of shapes of value, gradient and Hessian up to 2 dimensions, number of outputs, kinds of container, with every approximation scheme',
 'Tests list eight shapes with the default configuration.',
 [M],[('number of outputs','fides/minimize.py FunEvaluator.__call__'),('shape checks','fides/minimize.py Funout.checkdims')],
 ['exceptions of minimize and the constructor','number and arguments of objective calls'])
p('C19','The history file records every iteration of every run; observers are passive',
 'With a history file, each completed run appends one group named after its start identifier in which every series has one entry per iteration, matching what happened in it: evaluated value, acceptance, ratio, radius, step norm, gradient norm, Hessian eigenvalue range and condition after it, changes of approximations; groups of earlier runs stay unmodified. Neither writing history nor the verbosity level changes any evaluation, result or exit flag.',
 ['histories','configurations'],'all answer histories up to a depth, including rejected and non-finite steps, sequences of runs into the same file, all approximation schemes, all verbosity levels',
 'A single test reads back that groups exist; contents are not compared with what happened.',
 [M],[('track_history and writing of groups','fides/minimize.py track_history / minimize')],
 ['HDF5 file contents','trace with and without history/logging'])
p('C20','Residual mode equals the least-squares objective it stands for',
 'With an objective that returns residuals r and their derivative J, value, gradient and (Gauss-Newton) Hessian used and returned by the optimizer are r.r/2, J^T r and J^T J at the evaluated points, with residual vectors of any length. Without approximation scheme or with a scheme that always selects the Gauss-Newton matrix, the run is the same as with an objective that returns these three quantities directly.',
 ['inputs','histories','configurations'],'residual functions over a lattice, numbers of residuals smaller and larger than the number of variables, all solvers and strategies',
 'Tests compare only end points for one residual function with square derivative.',
 [M],[('FunEvaluator combines residuals and derivative','fides/minimize.py FunEvaluator.__call__')],
 ['Optimizer.fval/grad/hess at every objective call, return value, trial points'])
p('C21','Steps keep their distance to the bounds',
 'No trial point uses more than the configured fraction (theta_max, or 1 minus the largest scaled gradient component if that is larger) of the distance between a variable and one of its bounds, with the truncate and refine strategies and for one variable (reflections turn at the bounds). Whatever the strategy, all iterates are strictly inside of the bounds, as far as this can be resolved in floating point numbers.',
 ['inputs','configurations','histories'],'all positions relative to the bounds, gradients, Hessians, radii, fractions, solvers and strategies of an enumerated lattice, and histories of accepted and rejected steps',
 'The tests never look at the distance between iterates and bounds; leaving out the fraction still converges for most problems.',
 [S,B,M],[('step back by theta to the first break point','fides/steps.py Step.step_back'),('theta','fides/minimize.py minimize')],
 ['argument of every objective call compared to the iterate before it'])
p('C22','The log reports what happened, at the requested level only',
 'At level INFO, a run logs one line for the start and one per iteration that state iteration number, value, change of value, ratio, radius, gradient and step norm, and acceptance of that iteration (rounded), and exactly one line that states the reason for stopping, consistent with the exit flag. At higher levels only messages of at least that level appear, and exhausted budgets are warnings.',
 ['histories','configurations'],'all answer histories up to a depth including non-finite and rejected steps, all reasons for stopping, all verbosity levels',
 'No test reads the log.',
 [M,L],[('log_step, log_step_initial, log_header and stopping messages','fides/minimize.py'),('create_logger','fides/logging.py')],
 ['records emitted by the logger of the optimizer'])
p('C23','Non-convex problems are solved to a local minimum',
 'Minimizing a smooth, possibly non-convex function with bounded level sets using exact Hessians ends within the default iteration budget at a feasible point that is stationary: for every variable, the gradient component times the distance to the bound in direction of descent vanishes up to the tolerances (1e-4 relative). With the full and two-dimensional solvers the Hessian of the variables off their bounds has no negative curvature there (starts with vanishing gradient excepted). The final value never exceeds the one at the start.',
 ['inputs','configurations'],'indefinite, singular and linear quadratics and families of non-quadratic functions over a lattice of boxes and starts, all solvers, strategies and tolerances',
 'Tests minimize three functions from fixed starts; convergence to saddle points or stalling at bounds depends on the geometry of start, box and curvature.',
 [M,S,T,B,Q],[('interplay of step computation, acceptance, radius and stopping','fides/minimize.py minimize'),('negative curvature directions','fides/steps.py TRStep2D, fides/subproblem.py')],
 ['value returned by minimize, Optimizer.exitflag'])
p('C24','Exceptions of the objective end a run cleanly, runs have no side effects',
 'An exception of any kind that the objective raises at any evaluation reaches the caller as the same object without further evaluations; iterate, value, gradient, Hessian, radius, iteration count and best point are those before this evaluation, the run is not reported as converged (flag did-not-run) and the history file is unmodified. Neither completed nor aborted runs change global state of the interpreter (numpy error handling and random state, warning filters, other loggers, default options, environment), nor do they depend on the state of random generators.',
 ['histories','configurations'],'all kinds of exceptions at all positions of all bounded histories in all modes; all observed kinds of global state',
 'No test raises from the objective in the middle of a run.',
 [M,H,L,K],[('no handler around evaluations','fides/minimize.py FunEvaluator.__call__, minimize'),('history is written at the end','fides/minimize.py minimize')],
 ['exception that leaves minimize, public attributes, history file, global state of numpy/logging/random'])
p('C25','Order, orientation and origin of the variables do not matter',
 'Permuting the variables, reversing the orientation of some of them (with bounds, gradient and Hessian transformed accordingly) or moving the origin leads to the correspondingly transformed run: same trial points, radii, decisions, results and exit flag up to rounding, unless the documented algorithm leaves a choice (equally good steps, vanishing gradient components) or a decision is within the rounding errors.',
 ['inputs','histories','configurations'],'all permutations and orientations of up to three variables and two translations for an enumerated lattice of states and short histories',
 'Tests never compare two formulations of the same problem.',
 [M,S,T,B,Q,H],[('bounds dependent scaling, break points, subspaces','fides/minimize.py get_affine_scaling, fides/steps.py'),('secant updates','fides/hessian_approximation.py')],
 ['arguments of all objective calls, radius, return value of two runs'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
