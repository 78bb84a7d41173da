"""Writes /verif/properties.jsonl (kept here so that the wording has one editable source)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


S = 'sqpdfo/sqpdfo.py'
M = 'sqpdfo/sqpdfo_main.py'
L = 'sqpdfo/sqpdfo_prelim.py'
A = 'sqpdfo/sqpdfo_augmX_evalf.py'
E = 'sqpdfo/sqpdfo_evalfgh.py'
U = 'sqpdfo/sqpdfo_func.py'
O = 'sqpdfo/sqpdfo_options.py'
F = 'sqpdfo/sqpdfo_find_smallf.py'
T = 'sqpdfo/sqpdfo_solve_TR_bc.py'
W = 'sqpdfo/sqpdfo_swap_in_Y.py'
G = 'sqpdfo/sqpdfo_global_variables.py'
H = 'sqpdfo/sqpdfo_computeHessian.py'
V = 'sqpdfo/sqpdfo_values.py'
R = 'sqpdfo/runtime.py'
IT = 'sqpdfo/sqpdfo_iter_printout.py'
FI = 'sqpdfo/sqpdfo_finish.py'
CM = 'sqpdfo/sqpdfo_compute_multiplier.py'
OP = 'sqpdfo/sqpdfo_optimality.py'
BF = 'sqpdfo/sqpdfo_bfgs_update.py'

prop('P01', 'Every objective evaluation is counted exactly once',
     "The number of function evaluations a run reports equals the number of times it called the user's objective "
     "function: each call adds exactly one, whether or not its result is usable, in the initial design as well as in "
     "the iterations, and nothing else changes the count.",
     ['inputs', 'histories', 'fault_sequences'],
     'every sequence of evaluations a run can perform, including evaluations that fail at any position',
     'The tests look at the counter of a few successful runs; they never reach a failing evaluation at each of the '
     'evaluation sites.',
     [A, L, M, E, U],
     [('counter incremented next to each evaluation', 'sqpdfo_augmX_evalf_'),
      ('only caller of the user objective', 'sqpdfo_func_')],
     [('nsimul', 'counts of calls to the user functions', 'info record')])

prop('P02', 'Iteration and evaluation limits end the run',
     "No iteration of the main loop starts once the number of iterations or the number of objective evaluations has "
     "reached the limit set in the options: the run returns without evaluating the objective or changing the iterate "
     "again, with the status that names the exhausted limit.",
     ['inputs', 'configurations', 'histories'],
     'every problem and every pair of limits, whichever branches the iterations take',
     'A test fixes one limit and one trajectory; the guarantee is about every path round the loop.',
     [M, O],
     [('limit tests at the top of every iteration', 'sqpdfo_main_')],
     [('niter, nsimul', 'work done so far', 'info record'), ('miter, msimul', 'limits', 'options record')])

prop('P03', 'Success is reported only after the optimality tests passed',
     "A run returns the success status only if the gradient, feasibility and complementarity measures, recomputed "
     "for the current model at the current iterate, were within their tolerances (relaxed by at most the documented "
     "factor after the interpolation set was repaired) and the interpolation error estimate was within the accuracy "
     "threshold. No other path ends with the success status.",
     ['inputs', 'histories', 'configurations'],
     'every path by which a run can return, for every problem and option setting',
     'Tests see a handful of converging runs; a missing conjunct or a measure left over from an earlier model shows '
     'only on particular trajectories.',
     [M, CM, OP],
     [('convergence tests', 'sqpdfo_main_'), ('status reset to success', 'sqpdfo_compute_multiplier_'),
      ('Lagrangian gradient and feasibility', 'sqpdfo_optimality_')])

prop('P04', 'Every other status names its actual cause and is part of the vocabulary',
     "A status other than success is returned only on a path on which its cause was just established: iteration "
     "limit, evaluation limit, radius below its threshold, merit function not decreased, stop requested or failure "
     "reported by the evaluation, invalid argument. Every status a run can return is a declared code and has a message "
     "in the final printout.",
     ['inputs', 'histories', 'fault_sequences'],
     'every return of a run with a nonzero status',
     'Most abnormal statuses are never reached by the tests.',
     [M, L, O, A, FI, V, S],
     [('status stores', 'sqpdfo_main_, sqpdfo_prelim_, sqpdfo_options_, sqpdfo_augmX_evalf_'),
      ('status vocabulary', 'sqpdfoValues'), ('status messages', 'sqpdfo_finish_')])

prop('P05', 'A failed evaluation ends the run and its values are never used',
     "If the user's objective or constraint function raises an exception, or returns NaN, an infinite objective or a "
     "constraint vector of the wrong size, the exception does not leave the solver and the run ends with the "
     "evaluation-failure status. No value of that evaluation is stored as data of the interpolation set, compared "
     "with other points or returned as the result of the run.",
     ['fault_sequences', 'inputs', 'histories'],
     'a failure of any kind at any evaluation of any run',
     'The tests never make an evaluation fail at the different evaluation sites.',
     [A, U, E, L, M],
     [('exceptions are turned into a failure value', 'sqpdfo_func_'),
      ('classification of the result', 'sqpdfo_augmX_evalf_'),
      ('check of the status after each evaluation', 'sqpdfo_prelim_, sqpdfo_main_')])

prop('P06', 'The returned point, objective and constraint values belong together',
     "The point a run returns is one of the points it evaluated, and the objective and constraint values it returns "
     "are the values recorded for exactly that point. During the run the values stored for each interpolation point "
     "are likewise those of that point.",
     ['inputs', 'histories'],
     'every return of a run after the initial design was evaluated, whatever path the last iterations took',
     'Trial points that were evaluated but rejected must not leak into the result; this depends on the last steps '
     'of the trajectory.',
     [S, M, F, W, A, L],
     [('index of the best point', 'sqpdfo_main_'), ('re-indexing of set and values', 'sqpdfo_swap_in_Y_'),
      ('archive of evaluated points', 'sqpdfo_augmX_evalf_')],
     [('X, fX, ciX, ceX', 'archive of evaluated points', M), ('Y, ind_Y, fY, ciY, ceY', 'interpolation set', M)])

prop('P07', 'The iterate changes only on sufficient decrease of the merit function',
     "The current iterate is replaced only by a point whose merit value, computed with the current penalty parameter, "
     "is strictly smaller than that of the iterate it replaces, and for a trial step only if the achieved decrease is "
     "at least the prescribed fraction of the predicted one. The reference merit value used in that comparison is "
     "that of the current iterate and penalty parameter, and the penalty parameter never decreases.",
     ['inputs', 'histories'],
     'every change of iterate in every run',
     'A stale reference value or a skipped acceptance test shows only on particular sequences of rejected and accepted '
     'steps.',
     [M, F],
     [('acceptance test', 'sqpdfo_main_'), ('choice of the best point of the set', 'sqpdfo_find_smallf_')])

prop('P08', 'Subproblems are built from models of the current interpolation set',
     "Whenever a step or an optimality measure is computed, the model coefficients, the gradient, the "
     "constraint Jacobian, the multipliers and the Hessian it uses were rebuilt from the interpolation set, factorisation and values "
     "as they are at that moment, after any change of the set. The factorisation handed to the model code always belongs to the set handed with it.",
     ['inputs', 'histories'],
     'every sequence of insertions, replacements, swaps and repairs of the interpolation set',
     'Stale models still give plausible numbers; the tests compare end results of a few runs.',
     [M, F, W, H, 'sqpdfo/bcdfo_repair_Y.py', 'sqpdfo/bcdfo_include_in_Y.py', 'sqpdfo/bcdfo_augment_Y.py',
      'sqpdfo/bcdfo_replace_in_Y.py'],
     [('rebuild after every change of the set', 'sqpdfo_main_'), ('factorisation update', 'sqpdfo_swap_in_Y_')])

prop('P09', 'Slack variables move together with the iterate',
     "For problems with inequalities the stored slack variables change only when a trial point is accepted as the new "
     "iterate, and then take the values of that trial point in every place they are kept. Every constraint residual "
     "used in merit values, feasibility tests and subproblems subtracts the squared slacks of the point it belongs to, "
     "and the constraint gradients used for multipliers, optimality and subproblems carry the derivatives with respect "
     "to the slacks (minus twice the slack).",
     ['inputs', 'histories'],
     'every accepted and rejected step of every run with inequality constraints',
     'A slack copy that is committed on one acceptance path and forgotten on another changes only later iterations.',
     [M, T, OP, CM, G],
     [('slack commit on acceptance', 'sqpdfo_main_'), ('trial slacks', 'sqpdfo_solve_TR_bc_'),
      ('shared slack store', G)])

prop('P10', 'A run depends only on its arguments and the user functions',
     "Two runs with the same arguments and the same user functions do the same thing, whatever ran before in the "
     "process: every piece of shared module state a run reads was first written by that run, and no random numbers, "
     "clock, environment or process-wide settings influence it or are left changed by it.",
     ['histories', 'inputs'],
     'every sequence of runs in one process',
     'Tests run each problem from the state the previous test left, and never compare two histories.',
     [S, G, L, M, R],
     [('shared state is initialised at the start', 'sqpdfo_'), ('accessors of the shared state', G)])

prop('P11', "The caller's data is left alone and user functions are isolated",
     "No array or options object the caller passes in is modified, and the user functions get their own copies of "
     "every point, so that nothing they do to their argument reaches the solver. Objective and constraint function "
     "are called with the same point.",
     ['inputs', 'programs'],
     'every caller argument and every user function, including those that modify their argument',
     'Tests neither compare arguments before and after nor use callbacks that write to their argument.',
     [S, L, U, O, M],
     [('defensive copies', 'sqpdfo_prelim_'), ('fresh list per callback', 'sqpdfo_func_')])

prop('P12', 'The verbosity level never changes the result',
     "Runs that differ only in the verbosity level evaluate the same points and return the same point, multipliers, "
     "values, counts and status: code executed only for printing changes nothing that is used for anything but "
     "printing.",
     ['configurations', 'inputs'],
     'every pair of verbosity levels and every problem',
     'The tests run at one verbosity; diagnostics recompute quantities under the same names as the algorithm.',
     [M, L, T, 'sqpdfo/bcdfo_repair_Y.py', O, CM, OP],
     [('printing guarded by the verbosity level', 'all modules')])

prop('P13', 'Verbosity 0 is silent',
     "A run with verbosity 0 and otherwise valid arguments prints nothing to the console, on any path, including "
     "failures and early stops.",
     ['configurations', 'inputs', 'fault_sequences'],
     'every run with verbosity 0',
     'Tests do not capture the output of the failure and diagnostic paths.',
     [M, L, T, O, IT, FI, H],
     [('printing guarded by the verbosity level', 'all modules')])

prop('P14', 'Invalid arguments and options are rejected before any evaluation',
     "A missing objective, missing start point, missing constraint function or invalid option value ends the run with "
     "the invalid-argument status before the objective is evaluated for the first time. No iteration or evaluation "
     "happens after such an error was found.",
     ['inputs', 'configurations'],
     'every invalid argument or option, in combination with every valid rest',
     'The tests try a few invalid options on the option routine alone.',
     [S, L, O],
     [('argument checks', 'sqpdfo_'), ('option checks', 'sqpdfo_options_'), ('check of the status', 'sqpdfo_prelim_')])

prop('P15', 'Every option has a default, is validated and is honoured',
     "Every option the solver reads has a value after the options were processed, whatever subset the user gave; a "
     "value the user gave and that passed validation is never replaced; strings are recognised whatever their case and white space and every accepted "
     "string has the effect of a distinct declared choice.",
     ['configurations'],
     'every subset of options and every accepted value',
     'Tests set few subsets of the options; a default missing for one branch shows only when that branch is taken.',
     [O, V, M, L],
     [('defaults and validation', 'sqpdfo_options_'), ('declared choices', 'sqpdfoValues')])

prop('P16', 'The convergence history file is complete and well formed',
     "Every run that starts the convergence history file also closes it, whichever way the run ends, and between "
     "header and closing bracket only complete rows with a fixed number of columns are written. A row describes the "
     "same iteration, counts and measures as the line printed to the console.",
     ['histories', 'inputs', 'fault_sequences'],
     'every way a run can end after the file was started',
     'No test parses the file, and failure exits are not exercised.',
     [S, IT],
     [('header and footer', 'sqpdfo_'), ('rows', 'sqpdfo_iter_printout_')])

prop('P17', 'No run dies of an internal error in the code',
     "On no path does the solver use a variable or attribute that was never set on that path, a name that does not "
     "exist, or an internal call with the wrong number of arguments or results; every declared choice is handled "
     "where it is dispatched on.",
     ['inputs', 'configurations', 'histories'],
     'every path through the package',
     'The rarely taken branches (restart, repair of a failed set, fixed variables, diagnostics) are not executed by any '
     'test.',
     ['sqpdfo/'],
     [('all functions of the package', 'sqpdfo/')])

prop('P18', 'The trust-region radius grows only after successful steps and stays positive',
     "The trust-region radius used for the next step is larger than that of the last step only when the trial point "
     "was accepted as new iterate, or when it is the radius in which the interpolation set has just been improved; "
     "after a rejected step it stays, or is set to at most a fraction below one of the radius or of the length of the "
     "rejected step. It is never set to a value that is not derived from positive radii, step lengths and thresholds, "
     "and every step is computed with the current radius.",
     ['inputs', 'histories'],
     'every radius update of every run',
     'Which update branch runs depends on the trajectory; tests reach a few.',
     [M],
     [('radius updates', 'sqpdfo_main_')])

prop('P19', 'The inner searches give up after a bounded number of rounds',
     "No search inside a solver iteration can go on for ever: the search for the multiplier in the bound-constrained "
     "trust-region step, the conjugate gradient iteration and the search for finite values at the start each stop, on every "
     "path through a round, at a limit they count towards or reduce down to; the active-set loop of the step counts every "
     "round towards the limit it tests; no for loop extends what it runs over and no function of the solver calls itself.",
     ['inputs', 'histories'],
     'every search and every path round it',
     'A path that skips the counter or the limit hangs only for particular data.',
     [M, T, 'sqpdfo/bcdfo_solve_TR_MS.py', 'sqpdfo/bcdfo_solve_TR_MS_bc.py', 'sqpdfo/sqpdfo_truncated_cg.py',
      'sqpdfo/sqpdfo_prelim.py'],
     [('loop counters', 'bcdfo_solve_TR_MS_bc_, sqpdfo_truncated_cg_, sqpdfo_prelim_, sqpdfo_solve_TR_bc_')])

prop('P20', 'Quantities keep their meaning when passed between the stages',
     "At every call between the stages of the solver each argument and each result arrives in the position of the "
     "quantity it is: the value the callee uses as a given quantity is the value the caller holds as that quantity, "
     "and a stage's outputs are stored as what they are.",
     ['programs', 'configurations'],
     'every internal call, with up to ninety positional arguments',
     'Two exchanged scalars of similar size leave the few tested end results within tolerance.',
     [S, M, L, F, W],
     [('positional interfaces', 'calls between sqpdfo_*, bcdfo_* functions')])

prop('P21', 'The record of evaluated points is append-only',
     "Each evaluation is recorded under a new index, and the point, objective and constraint values recorded for "
     "earlier evaluations are never overwritten, apart from the documented clipping of huge constraint values.",
     ['histories', 'inputs'],
     'every evaluation of every run',
     'Overwriting a column that is no longer in the interpolation set changes nothing a test looks at.',
     [A, M, L],
     [('append to the archive', 'sqpdfo_augmX_evalf_'), ('index advance before each evaluation', 'sqpdfo_main_')])

prop('P22', 'Numerical routines do not modify the arrays they are given',
     "The linear-algebra, interpolation-set and subproblem routines return their results and leave the arrays, lists "
     "and records passed to them as they were, so the caller's matrices, sets and bounds keep their values across calls.",
     ['inputs', 'programs'],
     'every routine, every argument and every path through it',
     'Aliasing damage shows only when the caller uses the damaged array afterwards.',
     ['sqpdfo/'],
     [('copies at entry, results by return', 'all modules')])

# not claimed: numerical content
prop('P30', 'Converged points satisfy the KKT conditions of the original problem',
     "At a point returned with success status the true gradient of the Lagrangian is small, for smooth problems.",
     ['inputs'], 'every smooth problem', 'Needs analysis of the interpolation error.', [M, OP], [('tests', M)])
prop('P31', 'All evaluated points respect the bounds',
     "Every point at which the user functions are called lies between the lower and upper bounds.",
     ['inputs'], 'every problem with bounds', 'Depends on rounding and on the subproblem solver.', [T, L], [('bounds', T)])
prop('P32', 'Models interpolate the data',
     "Each model reproduces the recorded values at the interpolation points up to rounding.",
     ['inputs'], 'every poised set', 'Floating-point property.', ['sqpdfo/bcdfo_computeP.py'], [('P', 'bcdfo_computeP_')])
prop('P33', 'Geometry repair improves poisedness',
     "After a repair the poisedness measure of the interpolation set is at most the threshold.",
     ['inputs'], 'every set', 'Floating-point property.', ['sqpdfo/bcdfo_repair_Y.py'], [('repair', 'bcdfo_repair_Y_')])
prop('P34', 'Trust-region subproblems are solved to the requested accuracy',
     "The step returned by the subproblem solver lies in the trust region and achieves at least the Cauchy decrease.",
     ['inputs'], 'every model and radius', 'Floating-point property.',
     ['sqpdfo/bcdfo_solve_TR_MS.py', T], [('solver', 'bcdfo_solve_TR_MS_')])
prop('P35', 'Regularised Hessians are positive definite',
     "After the convexity and conditioning corrections the Hessian approximation is positive definite and well conditioned.",
     ['inputs'], 'every symmetric matrix', 'Floating-point property of an eigenvalue routine.',
     ['sqpdfo/sqpdfo_check_convex.py', 'sqpdfo/sqpdfo_check_cond.py'], [('correction', 'sqpdfo_check_convex_')])
prop('P36', 'Multipliers solve the least-squares problem',
     "The multipliers minimise the norm of the Lagrangian gradient subject to their sign conditions.",
     ['inputs'], 'every Jacobian and gradient', 'Floating-point property of an iterative solver.', [CM, 'sqpdfo/blls.py'],
     [('solver', 'blls_')])

if __name__ == '__main__':
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(p, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
