"""P12: the verbosity level never changes the result."""
from sv import flow
from . import drive

# the fields of the record a run returns
FIELDS = {'flag', 'f', 'ci', 'ce', 'g', 'ai', 'ae', 'hl', 'niter', 'nsimul', 'glag', 'glagn', 'feasn', 'compl'}


def run(ctx, prog):
    ctx.rule('result', 'nothing sqpdfo_ returns depends on the verbosity level, through values or through the tests that '
                       'decide whether they are set')
    ctx.rule('state', 'no field of the record a run returns gets a value that depends on the verbosity level; tests of the '
                      'level are the places where it could')
    ctx.rule('evaluations', 'whether, and with what, a user function is called does not depend on the verbosity level')
    F = flow.Flow(prog, 'sqpdfo_')
    e = prog.func('sqpdfo_')
    els = F.result.el if F.result.el is not None else (F.result,)
    n = len(els)
    for i, v in enumerate(els):
        o = v.taint() if F.result.o is None else F.result.o
        c = 'result %d of %d of sqpdfo_' % (i, n)
        if o is None:
            ctx.ok('result', c, drive.where(e, e.node))
        else:
            ctx.fail('result', c + ' through %s in %s' % (o[1], o[0]), drive.where(prog.funcs[o[0]], o[2]),
                     'the returned value depends on the verbosity level: %s in %s is set under a test of it' % (o[1], o[0]))
    for k, (f, nd, o) in sorted(F.stores.items(), key=lambda x: str(x[0])):
        if k[0] != 'a' or k[1] not in FIELDS:
            continue            # what it reaches is tracked
        ctx.fail('state', '%s in %s' % ('.'.join(k[1:-1]), k[-1]), drive.where(f, nd),
                 '%s gets a value that depends on the verbosity level (%s in %s)' % (k[-2], o[1], o[0]))
    for k, (f, nd, o) in sorted(F.users.items(), key=lambda x: str(x[0])):
        c = 'user call in %s@%s' % k
        if o is None:
            ctx.ok('evaluations', c, drive.where(f, nd))
        else:
            ctx.fail('evaluations', c, drive.where(f, nd), 'this call depends on the verbosity level (%s in %s)' % (o[1], o[0]))
    for k, (f, nd) in sorted(F.tests.items(), key=lambda x: str(x[0])):
        ctx.ok('state', 'test of the level in %s@%s' % k, drive.where(f, nd))
    ctx.require('result', 3)
    ctx.require('evaluations', 2)
    ctx.require('state', 40)
    ctx.note('reads_of_the_level', len(F.reads))
    ctx.note('contexts', len(F.memo))
    ctx.note('passes', F.passes)
    ctx.assumptions += ['printing does not fail and output has no effect on the computation',
                        'objects reach each other only through variables, views, fields and module variables']
