import json
R='src/solver_n_dimensional/'
def at(f): return f if f.startswith('util/') else R+f
def P(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=[at(f) for f in files],mechanism=[dict(name=a,where=at(b)) for a,b in mech],
      observe_at=obs or ["calls received by a Model implementation","return value of solve()"],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=at(c)) for a,b,c in state]
    return d
rf='solver/rootfinder.rs'
L=[
P('C01','A successful resolution certifies a converged root',
 "If solving returns success, then at the iteratives the model was last evaluated at, every equation's stopping residual (computed with that equation's configured stopping criterion from the left and right members the model returned) is a number lower than or equal to the tolerance, and that last evaluation reported no error. In particular a NaN or infinite residual in any equation is never reported as solved.",
 ['inputs','configurations','histories'],'every model, tolerance, method, dimension, normalization and sequence of model answers',
 'the tests only solve problems that converge cleanly; they never feed NaN residuals, mixed criteria or inaccurate values at convergence for every method',
 [rf,'residuals/config.rs','residuals/mod.rs'],[('has_converged / solve',rf),('evaluate_stopping_residuals','residuals/config.rs')]),
P('C02','The model is left coherent at the point the result speaks about',
 "When solving ends with success, non-convergence or a final evaluation error, the last thing the solver did to the model is a complete evaluation at the iteratives the model then holds: no iterative is changed afterwards, so the iteratives, residuals and other outputs the user reads back belong together and to the last accepted iterate, never to a finite-difference perturbed point. The residuals held then are those that decided the result.",
 ['inputs','histories','configurations'],'every run of every method, jacobian source, damping and model answers',
 'tests compare final iteratives up to 1e-6, which cannot distinguish a perturbed or stale state',
 [rf,'solver/jacobian/jacobian_finite_diff.rs'],[('update_model, damping',rf),('column loop','solver/jacobian/jacobian_finite_diff.rs')]),
P('C03','Iterations stop exactly at convergence or at the budget',
 "A resolution stops at the first iterate (the initial guess included) whose stopping residuals are all lower than or equal to the tolerance, and performs no iteration after it. If no such iterate shows up it performs exactly the configured maximum number of iterations and returns the non-convergence error, which is returned in no other case.",
 ['inputs','configurations','histories'],'every tolerance, budget (0 included), number of iterations needed, method and damping',
 'the tests check a handful of converging problems and one non-converging one; the number of iterations is almost never asserted',
 [rf],[('while loop of solve',rf)],[('iter','iterations performed in this resolution',rf)]),
P('C04','Model evaluations are spent exactly where documented',
 "A resolution evaluates the model once at the initial guess, once per iteration at the proposed iteratives, once more for an iteration that is damped, and once per iterative for each jacobian evaluated by finite differences; a model that provides its jacobian is asked for it once instead and is never evaluated for finite differences. No jacobian is evaluated once convergence is reached or the budget is spent.",
 ['inputs','configurations','histories'],'every method, dimension, jacobian source, damping and convergence history',
 'no test counts model calls',
 [rf,'solver/jacobian/jacobian_finite_diff.rs','solver/jacobian/jacobian_analytic.rs'],[('compute_jac',rf),('compute_jacobian_from_finite_difference','solver/jacobian/jacobian_finite_diff.rs')],
 obs=["evaluate() and get_jacobian() calls received by the Model"]),
P('C05','Newton-Raphson iterates are the exact Newton steps',
 "Starting from the initial guess, each Newton-Raphson iteration evaluates the jacobian afresh at the current iterate and proposes, before limits and damping, the current iterate minus the inverse jacobian times the residuals, with residuals and jacobian both normalized by each equation's update method. The jacobian is the one provided by the model, or the forward finite-difference one when none is provided.",
 ['inputs','configurations','histories'],'every problem, dimension, initial guess, normalization, jacobian source and iteration number',
 'the tests check where the iterations end, not the iterates; wrong steps that still converge go unnoticed',
 [rf,'solver/jacobian/jacobian_analytic.rs'],[('compute_newton_raphson_step, compute_next_from_inv_jac',rf)]),
P('C06','Quasi-Newton methods evaluate the true jacobian only when due',
 "A quasi-Newton resolution evaluates the true jacobian (provided or by finite differences) at its first iteration, and again only at the iteration that follows a refused one (damping activated, the error grew and the jacobian in use was an approximation). The stationary Newton method evaluates it only once per resolution and reuses it unchanged for all its steps.",
 ['inputs','histories','configurations'],'every quasi-Newton method, history of error growth and number of iterations',
 'tests assert the root only; recomputing the jacobian too often or not often enough still converges',
 [rf,'solver/jacobian/jacobian_struct.rs'],[('evaluate_jacobian_quasi_newton_step',rf),('compute_jacobian_at_next_iteration','solver/jacobian/jacobian_struct.rs')],
 [('compute_jacobian_at_next_iteration','true jacobian due','solver/jacobian/jacobian_struct.rs'),('is_current_jacobian_approximated','jacobian in use is an approximation','solver/jacobian/jacobian_struct.rs')]),
P('C07','Quasi-Newton updates follow the documented formulas',
 "Between two true jacobians, each step uses the previous jacobian (or inverse jacobian) updated by the documented formula of the chosen method (Broyden first and second, Greenstadt first with the current residuals and second, each in its jacobian and inverse-jacobian form), where s is the iteratives change and y the change of the signed residuals normalized with the update methods over the last iteration. Hence every updated matrix satisfies the secant equation J s = y (or H y = s), and the jacobian and inverse-jacobian forms of a method describe the same update.",
 ['inputs','configurations','histories'],'every method, dimension, problem and iteration number; every matrix, s, y, c for the public update functions',
 'tests check a few hand-made 2x2 or 3x3 updates and roots of well-behaved problems; in particular residuals of changing sign are not observed',
 ['solver/resolution_method.rs','solver/jacobian/jacobian_approximation.rs','solver/jacobian/jacobian_inverse_approximation.rs',rf],
 [('*_update_jac / *_update_inv_jac','solver/resolution_method.rs'),('approximate_jacobian','solver/jacobian/jacobian_approximation.rs'),('approximate_inv_jacobian','solver/jacobian/jacobian_inverse_approximation.rs'),('update_model placeholders',rf)],
 obs=["iteratives proposed to the Model","public update functions, approximate_jacobian, approximate_inv_jacobian"]),
P('C08','Steps respect the limits and bounds of each iterative',
 "Each iterative moves from the current iterate by its raw step, clipped with the sign kept to the lowest of its maximal absolute step and its maximal relative step times the magnitude of its current value, and the result is clamped into its [minimum, maximum]; each iterative uses its own parameters and is limited independently of the others. Every iterate proposed after the initial guess thus lies in its bounds, and an unlimited iterative takes its full raw step.",
 ['inputs','configurations','histories'],'every value, raw step (zero, infinite, either sign), limits, bounds and dimension',
 'unit tests sample few values of the scalar function and no test looks at the iterates of a limited resolution',
 ['iteratives/iterative_var.rs','iteratives/iteratives_base.rs','iteratives/iterative_var_fd.rs',rf],[('step_limitation','iteratives/iterative_var.rs'),('step_limitations','iteratives/iteratives_base.rs'),('compute_next_from_inv_jac',rf)],
 obs=["Iterative::step_limitation, Iteratives::step_limitations","iteratives set on the Model"]),
P('C09','Damping reacts exactly when the error grows',
 "With damping activated, when the maximum stopping residual at the proposed iterate is greater than at the current one: if the method updates approximations and the jacobian in use is one, the iterate is kept and the true jacobian is evaluated at the next iteration; otherwise the model is evaluated once at the midpoint of current and proposed iteratives, which becomes the iterate whose residuals decide convergence and feed the next update. Without growth, or with damping deactivated, neither happens.",
 ['inputs','histories','configurations'],'every method, error history, jacobian source, dimension and limits',
 'tests with damping only check that the root is found',
 [rf],[('damping, update_model',rf)],[('is_current_jacobian_approximated','selects refusal or midpoint','solver/jacobian/jacobian_struct.rs')]),
P('C10','Inaccurate values are tolerated until the final evaluation',
 "Values the model flags as inaccurate at the initial, step, damped or finite-difference evaluations are used exactly like accurate ones and never end the resolution by themselves. A resolution that reaches convergence returns the final evaluation error if the evaluation at the converged iterate (initial guess and damped points included) was inaccurate, and success otherwise, whatever earlier evaluations reported.",
 ['fault_sequences','histories','configurations'],'every position and combination of inaccurate evaluations in a run',
 'one test has a model that is always inaccurate; sequences where only some evaluations are inaccurate are never run',
 [rf,'solver/jacobian/jacobian_finite_diff.rs'],[('evaluate_model, valid_last_model_evaluation',rf),('recovers from inaccurate values','solver/jacobian/jacobian_finite_diff.rs')],
 [('valid_last_model_evaluation','last evaluation was accurate',rf)]),
P('C11','Unusable values and jacobian failures surface as the right error',
 "If the model reports unusable values, solving ends at once with the error of the phase it happened in, carrying the model's error: initial evaluation error at the initial guess, jacobian error during finite differences or when the model fails to provide its jacobian (inaccurate or unusable), model evaluation error at a proposed or damped iterate. No further evaluation is made, and such an error is never swallowed, retried or turned into success or non-convergence.",
 ['fault_sequences','histories','configurations'],'every position of the failing call, error kind and payload, method, damping',
 'no test makes the model fail at a chosen call',
 [rf,'errors.rs','model/error.rs','solver/jacobian/jacobian_analytic.rs','solver/jacobian/jacobian_finite_diff.rs'],[('evaluate_model, compute_jac',rf),('SolverError','errors.rs')],
 obs=["returned SolverError variant and Display text","Model calls after the failure"]),
P('C12','Solving always returns and singular jacobians are reported',
 "For a model that itself neither panics nor blocks and a validly constructed solver, solving always returns a result after a bounded number of model calls and never panics, whatever residuals, jacobians (NaN, infinite, singular, zero) and errors the model produces and whatever the method, damping and logging. A singular jacobian, evaluated or approximated, yields the non-invertible jacobian error and no step is taken with it.",
 ['inputs','fault_sequences','configurations'],'every finite or non-finite model answer, error and dimension',
 'tests use well-posed problems and two singular matrices',
 [rf,'solver/jacobian/jacobian_struct.rs'],[('compute_inverse, update_jacobian','solver/jacobian/jacobian_struct.rs'),('solve',rf)]),
P('C13','Finite-difference jacobians perturb one iterative at a time, memory reset',
 "A finite-difference jacobian at an iterate evaluates the model once for each iterative, in order, at that iterate with only this iterative increased by its own perturbation: max(dx_abs, dx_rel*|x|) or dx_abs + dx_rel*|x| according to its method; column i is the difference of update-normalized residuals divided by that perturbation. Each of these evaluations and the evaluation that follows the jacobian start from the model memory as it was right after the iterate was evaluated, so no column depends on the others.",
 ['inputs','histories','configurations'],'every dimension, value, perturbation setting and memory-dependent model',
 'tests check two matrices with a tolerance of the order of the perturbation; no test uses the memory',
 ['solver/jacobian/jacobian_finite_diff.rs','iteratives/iterative_var_fd.rs','iteratives/iteratives_base.rs'],[('compute_jacobian_from_finite_difference','solver/jacobian/jacobian_finite_diff.rs'),('compute_perturbation','iteratives/iterative_var_fd.rs')],
 obs=["evaluate() calls and memory of the Model","compute_perturbation(s), compute_jacobian_from_finite_difference"]),
P('C14','Provided jacobians are normalized consistently with the residuals',
 "When the model provides the jacobians of the left and right members, the jacobian used by the solver is row by row the exact derivative of that equation's update-normalized residual at the current iterate, for absolute, relative and adaptative normalizations and any sign of the members. It therefore agrees, up to discretization, with what finite differences give for the same model.",
 ['inputs','configurations'],'every pair of members and of derivatives, every method per equation, every dimension',
 'a few positive samples are checked; negative sums, mixed methods per row and right-member derivatives are not',
 ['residuals/mod.rs','residuals/values.rs','solver/jacobian/jacobian_analytic.rs'],[('deriv_normalization','residuals/mod.rs'),('normalize','residuals/values.rs'),('evaluate_jacobian_from_analytical_function','solver/jacobian/jacobian_analytic.rs')],
 obs=["deriv_normalization, JacobianValues::normalize","iteratives proposed to the Model"]),
P('C15','Residual normalization follows the configuration of each equation',
 "The normalized residual of members l and r is l-r (absolute), (l-r)/(|l+r|/2) (relative, 0 when both are 0) or (l-r)/(1+|l+r|/2) (adaptative), signed for the updates and in absolute value for stopping. Each equation uses its own stopping criterion for convergence and damping decisions and its own update method for residuals and jacobians, at its own position.",
 ['inputs','configurations'],'every pair of doubles and every per-equation assignment of methods',
 'few positive samples; resolutions in the tests use the same method for all equations',
 ['residuals/mod.rs','residuals/config.rs'],[('normalization','residuals/mod.rs'),('evaluate_stopping_residuals, evaluate_update_residuals','residuals/config.rs')],
 obs=["normalization, evaluate_*_residuals","decisions of solve()"]),
P('C16','Resolutions are independent and repeatable',
 "Each call to solve behaves as the first one of a freshly built solver with the same configuration: the iteration budget, the jacobian schedule, the updates and the final status depend only on the configuration and on the model's answers during that call, not on previous calls and their outcome (success, errors) nor on other models solved before. Solving the same deterministic problem twice performs the same model calls with the same values and returns the same result.",
 ['histories','configurations','fault_sequences'],'every sequence of resolutions on one solver, with any outcome of the earlier ones',
 'no test calls solve twice on the same solver',
 [rf],[('reset at the start of solve',rf)],[('iter, jacobian, *_step_size, valid_last_model_evaluation','state left by a previous resolution',rf)]),
P('C17','The debug log never changes the resolution',
 "Activating the debug log leaves the sequence of model calls, their values and the returned result exactly the same as without it.",
 ['inputs','configurations','histories'],'every method, damping, jacobian source, fault sequence and dimension',
 'one log test exists, for one problem and one method',
 [rf,'solver/log.rs'],[('self.debug branches',rf)]),
P('C18','The debug log tells what happened',
 "The log contains the solver, iteratives and residuals configuration, then, for iteration 0 and for each iteration in order, the iteration number, the maximum error, and for each equation the iterative, left and right members and stopping residual of the point evaluated; every damping is logged with the damped point, every refused iteration is announced, and each iteration with an available jacobian shows the jacobian (or states it is superseded by its inverse) and the inverse used for its step. Nothing that did not happen is logged.",
 ['inputs','configurations','histories'],'every run of every method with the log activated',
 'one reference log, one method, no damping, no error',
 ['solver/log.rs',rf,'solver/jacobian/jacobian_struct.rs'],[('add_new_iteration, add_damping','solver/log.rs'),('*_to_log',rf)],
 obs=["the log file"]),
P('C19','The debug log is written as the resolution goes',
 "Whenever the model is called, the log file already contains everything about the work completed before (the configuration, the points evaluated, the jacobian used for the step), in particular if the model panics or the process stops there, what is on disk is the log of the completed work and nothing else. Activating the log starts from an emptied file and later writes only append.",
 ['crash_points','histories','configurations'],'every model call at which execution may stop',
 'the log is only compared once a resolution is finished',
 ['solver/log.rs',rf],[('add_content appends to the file at each call','solver/log.rs')],obs=["the log file while the model is being evaluated"]),
P('C20','A valid XML configuration yields exactly what it states',
 "Parsing a valid configuration file yields the problem size, iteration budget, tolerance, damping (deactivated when absent) and resolution method it states, and for each iterative and residual in order each attribute of its own node, or else, attribute by attribute, the default stated on the parent node. This holds for files with and without finite-difference parameters, the ten documented method names and infinite bounds.",
 ['inputs','configurations'],'every valid document: any subset of overridden attributes per node, any size',
 'some documents are checked; not each method name, nor each attribute being overridden alone in each flavour',
 ['xml_parser/node_solver.rs','xml_parser/node_iterative_jac.rs','xml_parser/node_iterative_fd.rs','xml_parser/node_residual.rs','xml_parser/xml_file_fd.rs','xml_parser/xml_file_jac.rs'],
 [('parse_*_with_default','xml_parser/'),('parse_resolution_method','xml_parser/node_solver.rs')],obs=["from_xml_finite_diff, from_xml_jacobian"]),
P('C21','An invalid XML configuration is refused',
 "Parsing refuses (panics) a document with a wrong or missing node, nodes in the wrong order, an attribute missing where no default exists, an unknown or wrongly cased method, normalization, perturbation or boolean value, a malformed number, ids not consecutive from 0, a number of iteratives or residuals different from the problem size, or parameters that the constructors refuse. It never returns a configuration for such a document.",
 ['inputs'],'every single or combined defect at any place of the document',
 'a few defects are checked on a few nodes',
 ['xml_parser/util.rs','xml_parser/node_solver.rs','xml_parser/node_iterative_jac.rs','xml_parser/node_iterative_fd.rs','xml_parser/node_residual.rs','xml_parser/xml_file_fd.rs','xml_parser/xml_file_jac.rs'],
 [('check_node_name_and_panic, parse_id','xml_parser/util.rs'),('dimension checks','xml_parser/xml_file_fd.rs')],obs=["from_xml_finite_diff, from_xml_jacobian"]),
P('C22','Inconsistent or nonsensical parameters are refused at construction',
 "Building iterative parameters refuses (panics on) a maximal step or perturbation that is not strictly positive, a minimum not strictly lower than the maximum, and NaN for any of them; building residual values, jacobian values, a residual configuration or a solver refuses mismatched dimensions. Every other combination, infinities included, is accepted and read back unchanged.",
 ['inputs','configurations'],'every combination of parameter values, special doubles included, and of dimensions',
 'some refusals are tested one at a time with ordinary values',
 ['iteratives/iterative_var.rs','iteratives/iterative_var_fd.rs','residuals/values.rs','residuals/config.rs',rf],[('new, extend','iteratives/iterative_var_fd.rs'),('new','iteratives/iterative_var.rs'),('new',rf)],obs=["constructors and getters"]),
P('C23','Adapters and dimension types give the same resolution',
 "Solving through the function and closure adapters, with or without jacobian, performs the same resolution (evaluation points, result and final state) as a hand-written model with the same members, and the adapter evaluates the user's function only at the iteratives set. Statically sized and dynamically sized formulations of a problem give the same iterations and result, up to rounding.",
 ['programs','inputs','configurations'],'every problem expressed through each adapter and dimension type',
 'tests run each adapter on some problems and check the root only',
 ['model/model_from_func.rs','model/model_from_closure.rs',rf],[('Model implementations of the adapters','model/'),('generic dimension D',rf)],
 obs=["calls of the user's functions","result and model state"]),
P('C24','The jacobian store keeps matrix and inverse consistent',
 "Under any sequence of operations, the jacobian store never exposes a matrix and an inverse that are not inverse of each other: setting a matrix (exact or approximated) exposes it with its inverse, or exposes neither and reports an error when it is singular; setting an inverse exposes only the inverse. It asks for a true jacobian from its creation or a forced request until the next successfully set matrix, and says approximated exactly when the last value set was an approximation.",
 ['histories','inputs'],'every sequence of operations and matrices',
 'no test drives the store through sequences',
 ['solver/jacobian/jacobian_struct.rs'],[('update_jacobian, update_inverse, invalidate_jacobian','solver/jacobian/jacobian_struct.rs')],
 [('matrix, inverse, flags','content of the store','solver/jacobian/jacobian_struct.rs')],obs=["public operations of JacobianMatrix"]),
P('C25','Every documented way to configure a solver gives the same solver',
 "A solver built by default_with_guess resolves exactly as one built with a tolerance of 1e-6 and 50 iterations; default iteratives are exactly iteratives without limits nor bounds (with finite differences: dx_abs = dx_rel = 5e-8, Max), default residuals are Abs and Abs; iteratives extended with perturbation parameters, residual configurations converted from single ones, and everything read from an XML configuration file, resolve exactly (same model calls, values and result, same configuration in the log) as the same parameters given to the constructors one by one.",
 ['configurations','inputs'],'every configuration that can be stated in several ways, every problem, method and damping',
 'tests check some parsed or default values, and solve small problems that converge whatever the tolerance and perturbations are',
 ['solver/default.rs','iteratives/default.rs','iteratives/iterative_var.rs','iteratives/iterative_var_fd.rs','residuals/config.rs','residuals/mod.rs','xml_parser/xml_file_fd.rs','xml_parser/xml_file_jac.rs'],
 [('default_with_guess','solver/default.rs'),('default_vec_iteratives, default_vec_iteratives_fd','iteratives/default.rs'),('extend','iteratives/iterative_var_fd.rs'),('convert_into_vecs','residuals/config.rs'),('from_xml_*','xml_parser/')]),
P('C26','The one-dimensional solver iterates and stops as documented',
 "solver1d and solver1d_fd evaluate the function at the initial guess; while the absolute value of the function is greater than the tolerance and less than max_iter steps were done, they move by minus that value divided by the derivative asked at this point (solver1d) or by the forward difference (f(x+dx)-f(x))/dx of this point (solver1d_fd), and evaluate the function there. They make no other call and return the last point the iteration reached: its absolute value is lower than or equal to the tolerance, or is not a number, or exactly max_iter steps were done.",
 ['inputs','histories','configurations'],'every function, derivative, guess, tolerance, budget and perturbation, whatever the function answers',
 'one documentation example and benches solve x**2-2; no test drives the one-dimensional solver',
 ['util/src/solver_one_dimensional.rs'],[('solver1d, solver1d_fd, finite_diff','util/src/solver_one_dimensional.rs')],obs=["calls of the function and of its derivative","value returned"]),
P('C27','The benchmark problems are the published ones',
 "The functions of Broyden's cases 5 to 10, square2 and root_with_high_derivative are the published polynomials at every point (cases 5 to 8 for every dimension from 2), their analytical jacobians are the derivatives of these functions at every point, their initial guesses are the documented ones, and their solutions are roots of the functions to rounding, on the documented branch.",
 ['inputs'],'every point, every dimension of cases 5 to 8',
 'the tests solve them from one guess: a jacobian that is wrong away from there, or slightly, still converges',
 ['util/src/test_cases/broyden1965.rs','util/src/test_cases/polynom.rs'],[('broyden1965_case*, *_jac, init_*, solution_*','util/src/test_cases/broyden1965.rs'),('square2, dsquare, root_with_high_derivative, root_with_high_derivative_jac','util/src/test_cases/polynom.rs')],obs=["values of the functions"]),
P('C28','The text of an error tells the phase and what the model said',
 "The text of the error solve returns, displayed or debugged (hence in the panic of an unwrap), is: Convergence not reached; Final model evaluation failed; Jacobian error: Non invertible jacobian; Initial model evaluation failed: followed by the model's own message; Model evaluation failed: or Jacobian error: Invalid jacobian: followed by InaccurateValues Error: or UnusableValuesError Error: (which of the two the model reported) and the model's own message, word for word. It is the text of the phase that failed, so different failures never read the same.",
 ['inputs','histories'],'every error a model can raise, at every phase, with any message',
 'the tests compare the texts of two errors without content; no test reads the message of a model through the result',
 ['errors.rs','model/error.rs','solver/rootfinder.rs'],[('Display and Debug of SolverError, SolverInternalError','errors.rs'),('Display and Debug of ModelError','model/error.rs')],
 obs=["to_string() and {:?} of the error returned by solve()"]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in L))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in L: jsonschema.validate(p,s); assert len(p['title'])<=80; 
print(len(L))
