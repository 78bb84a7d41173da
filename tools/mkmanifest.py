#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claims below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = (' Decided on the current source; trusted: the analysis engine in sv/, its models of numpy and the runtime '
        'library, and the assumptions listed in the evidence.')
CLAIMS = {
    'P01': ('protocol of evaluations, failure status and counter on the interprocedural value-numbering analysis with ghost '
            'values',
            'All paths of a run with arbitrary user functions and options for the counter, its start and its agreement with '
            'the calls; the numerical kernels are opaque pure functions.'),
    'P02': ('per-iteration dominance of limit tests over evaluations and steps, on the interprocedural value-numbering '
            'analysis',
            'All paths of the main loop with arbitrary limits; evaluations made while the initial set is built are not '
            'limited by the solver and are outside.'),
    'P03': ('path conditions established at every successful return, with ghost values for the latest multiplier, '
            'optimality and poisedness computations, on the interprocedural value-numbering analysis',
            'All paths of the main loop with arbitrary user functions and options; the measures themselves are opaque '
            'results of the kernels.'),
    'P04': ('path conditions established at every store and return of a status, with ghost values for the latest evaluation; '
            'reachability of a message per code',
            'All paths of a run with arbitrary user functions and options; for fail_unexpected no cause is demanded.'),
    'P05': ('typestate of the current evaluation (raised, tested, failed) and path conditions at every store into the '
            'archive, on the interprocedural value-numbering analysis with exception edges',
            'Every evaluation site of every run; user functions return numbers or arrays of numbers.'),
    'P13': ('constant propagation with branch pruning: reachability of print calls at verbosity 0',
            'Sound over all inputs for reachability of console output from sqpdfo_ at verbosity 0, except rejections of '
            'invalid arguments and one frozen exemption.'),
    'P14': ('interprocedural value-numbering analysis of the argument and option checks, reachability of user calls',
            'All paths of the option routine per class of option values; all paths of sqpdfo_ with a missing argument; '
            'value set of the status at every user call of a general run.'),
    'P15': ('interprocedural value-numbering analysis of the option routine per class of option values',
            'All paths of the option routine for no options and for each single option, per sign class and per string '
            'variant; combinations of two user options are covered only through independence of the branches.'),
    'P17': ('name resolution, call-signature and result-count matching on constant-propagation-reachable statements, '
            'path-sensitive possibly-unset analysis',
            'All reachable statements for names, calls and results; all paths of the driver and, per declared model '
            'kind, of the numerical kernels for unset variables, except %d reviewed functions where a frozen number of '
            'names is exempt.' % 17),
    'P16': ('protocol automaton over the file operations, run on the interprocedural value-numbering analysis',
            'All paths of a run for the order header, rows, bracket; all paths of the iteration printout for the '
            'content of a row.'),
    'P10': ('interprocedural written-before-read dataflow over module variables; effect query for shared objects and '
            'impure calls on the reachable statements',
            'All reachable statements and call paths from sqpdfo_; objects shared through channels other than module '
            'variables, class bodies, default arguments and function attributes are outside.'),
    'P07': ('path-sensitive value numbering of the merit terms with a typestate for the reference value and the acceptance test',
            'All paths of the main loop and of the look-up of the best point, loops to a fixpoint. The residual inside the '
            'norm is required to come from the constraint values of that point, its exact form (slacks) is P09.'),
    'P08': ('typestate of models, gradients, Jacobian, multipliers and Hessian over value-numbered paths of the main loop',
            'All paths of the main loop and what it calls, loops to a fixpoint. Inequalities are handled by the solver '
            'as equalities with slacks; the separate inequality path of the code is only followed for its rows.'),
    'P21': ('value numbering of evaluation indices and of stores into the records, path-sensitive over the initial design and the main loop',
            'All paths of the initial design, the main loop and the evaluation routine. In the initial design the new-index argument rests on the shape of its loop (index = round, one evaluation per round, records emptied before).'),
    'P18': ('abstract interpretation of the main loop with value numbering: every binding of the radius is compared symbolically with the radius before it; typestate for acceptance and for the improvement of the interpolation set',
            'Step lengths (norm calls) and thresholds are taken to be positive. A radius of an improvement in an earlier iteration counts as a radius in which the set was improved.'),
    'P06': ('abstract interpretation of the whole run with value numbering: indices, objective values and constraint values are symbolic terms; typestate for the entries of a point stored one after another; write maps of the re-indexing routines compared with each other',
            'Constraint values count as those of the point when they contain a part of the record of evaluated points at the index of the latest point; the values of an earlier iteration have the same symbolic name and are told apart only by the index.'),
    'P09': ('abstract interpretation with value numbering of the whole run restricted to problems with slack variables: typestate for trial, acceptance and slack store; linear decomposition of the symbolic operands of norms and products into constraint values, squared slacks and gradients',
            'Constraint values are followed through slices, copies and block matrices, not through other functions. How the step of the slacks is computed inside the subproblem is not checked (see the defects left alone).'),
    'P19': ('abstract interpretation (value numbering with path facts) of each function that contains a while loop: at every back edge the new value of a loop-carried variable must be the old one plus a constant and the path must contain the failed comparison of it with a loop-invariant limit (or a factor below one and a lower limit), or a flag must be set whose other value leaves the loop on every path; call-graph cycle check',
            'bounds the multiplier search, the conjugate gradient iteration and the start; the active-set loop is only required to count towards the limit it tests; the loops that fix variables one by one end for numerical reasons and are listed as not decided; minq.py is not analysed'),
    'P11': ('interprocedural may-alias and escape analysis of the caller\'s objects, plus value-numbering of the start point',
            'All reachable statements and call paths from sqpdfo_; options given as a class (not an instance) are '
            'outside.'),
    'P12': ('interprocedural information-flow (non-interference) analysis with the verbosity level as source, explicit and '
            'implicit flows',
            'All values and control decisions of the code reachable from sqpdfo_; termination, and failures of the print '
            'calls themselves, are outside.'),
    'P22': ('interprocedural may-modify analysis of every numerical routine against the frozen set of routines',
            'All statements of the listed routines, for every call; objects modified through attributes of foreign '
            'library objects are outside.'),
}
NA = {
    'P20': 'Which quantity a value is is known only by the names and comments of the code; the analysis has no independent '
           'source for the intended meaning of each position, and telling the quantities apart by shape or use needs run-time '
           'values. The positions that matter most are decided inside P06-P09 and P21.',
    'P30': 'Statement about real-valued convergence of a numerical method: no static argument in reach bounds the true '
           'gradient from the shape of the code; the structural part (tests are made before success) is P03.',
    'P31': 'Whether a computed trial point lies between the bounds depends on floating-point results of the subproblem '
           'solvers (projections with tolerances); the shape of the code does not settle it.',
    'P32': 'Interpolation conditions are numerical identities of solved linear systems (conditioning, rounding).',
    'P33': 'The poisedness after a repair is a runtime quantity of the Lagrange polynomials.',
    'P34': 'Step quality (Cauchy decrease, trust-region norm) is a runtime quantity of iterative solvers.',
    'P35': 'Eigenvalues of the corrected Hessian are runtime quantities of a decomposition.',
    'P36': 'Optimality of the least-squares multipliers is a runtime quantity of the BLLS solver.',
}


def main():
    props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    checks = []
    na = []
    for p in props:
        if p in CLAIMS:
            t, note = CLAIMS[p]
            checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p,
                           'thorough_cmd': 'python3 check.py %s thorough' % p,
                           'evidence_file': 'evidence/%s.json' % p, 'technique': 'static analysis: ' + t,
                           'level': 'other', 'level_note': note + NOTE})
        else:
            na.append({'property': p, 'reason': NA.get(p, 'Not claimed yet: its check is still being built.')})
    doc = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
    json.dump(doc, open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
