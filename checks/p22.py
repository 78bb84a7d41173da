"""P22: numerical routines do not modify the arrays they are given."""
import json
import os
from sv import alias
from . import drive

# the routines of the package; private helpers count through the routines that call them
ROUTINES = set(json.load(open(os.path.join(os.path.dirname(alias.__file__), 'routines.json'))))


def params(f):
    return f.params + f.kwonly + ([f.vararg] if f.vararg else []) + ([f.kwarg] if f.kwarg else [])


def run(ctx, prog):
    ctx.rule('modify', 'no path of a routine stores into, updates in place or deletes from an object its parameter may share')
    ctx.rule('keep', 'no parameter of a routine is kept in a field or module variable whose object is modified later')
    A = alias.Alias(prog)
    dest = A.destinations()
    n = 0
    for q, f in sorted(prog.funcs.items()):
        if q not in ROUTINES:
            continue
        n += 1
        s = A.sums[q]
        names = params(f)
        for k, p in enumerate(names):
            where = drive.where(f, f.node)
            c = '%s parameter %d' % (q, k)
            d = s.mut.get(('p', k))
            if d:
                for (g, what), nd in sorted(d.items(), key=lambda x: x[0]):
                    if what.startswith('hands to a user function'):
                        continue            # P11
                    gf = prog.funcs[g]
                    ctx.fail('modify', '%s by %s %s' % (c, g, what), drive.where(gf, nd), '%s (%s) is modified: %s %s'
                             % (p, q, g, what))
            else:
                ctx.ok('modify', c, where)
            for x in sorted(s.esc.get(('p', k), ())):
                if x in dest:
                    (g, what), nd = sorted(dest[x].items(), key=lambda y: y[0])[0]
                    ctx.fail('keep', '%s kept as %s' % (c, x[-1]), drive.where(prog.funcs[g], nd),
                             '%s is kept as %s, and that object is modified: %s %s' % (p, x[-1], g, what))
                else:
                    ctx.ok('keep', '%s kept as %s' % (c, x[-1]), where)
    ctx.require('modify', 300)
    ctx.require('keep', 5)
    ctx.note('functions_analysed', n)
    ctx.note('passes', A.passes)
    ctx.assumptions += ['indexing with a list, comparison or array makes a copy; any other index is taken to share storage',
                        'numpy and scipy functions other than the listed in-place and view functions neither modify nor return '
                        'their arguments', 'the unused module minq, classes and plain setters are not numerical routines of a run']
