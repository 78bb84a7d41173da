"""P11: the caller's data is left alone and user functions are isolated."""
from sv import alias, std, terms as T
from sv.interp import Val
from . import drive
from .p22 import params

NO = T.const('none')
CONV = {'list', 'copy', 'deepcopy', 'array', 'asarray', 'tolist', 'T', 'reshape', 'ravel', 'flatten', 'squeeze', 'transpose',
        'float', 'tuple', 'real_', 'asfortranarray', 'ascontiguousarray', 'atleast_1d', 'atleast_2d', 'astype', 'item'}


def point(t):
    """the point a converted argument was made from"""
    while True:
        n = t.op.replace(':', '.').split('.')[-1]
        if n in ('attr', 'call') and isinstance(t.pay, str):
            n = t.pay
        if n in CONV and t.args:
            t = t.args[0]
        elif n in ('index', 'idx', 'getitem') and len(t.args) == 2 and not moving(t.args[1]):
            t = t.args[0]
        elif n in ('list', 'tuple') and len(t.args) == 1:
            t = t.args[0]
        else:
            return t


def moving(i):
    return not all(x.op in ('const', 'tuple', 'slice', 'list') for x in T.subterms(i))


class Same(drive.InMain):
    name = 'same'

    def start(self, I, st):
        st.env[('$', 'xf')] = Val(NO)
        st.mon[self.name] = None

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        u = std.user_call(name, args)
        if u in ('f', 'c', '?') and len(args) > 1:
            p = point(args[1].t)
            if u == 'f':
                st.env[('$', 'xf')] = Val(p)
                self.event(I, node, 'same')
            elif u == 'c':
                self.event(I, node, 'same')
                x = st.env.get(('$', 'xf'))
                if x is None or x.t is not p:
                    self.fail(I, node, 'the constraints are not evaluated at the point of the objective', 'same')
        return None


def run(ctx, prog):
    ctx.rule('caller', 'no path of a run modifies an object that an argument of sqpdfo_ may share, or keeps one in a field or '
                       'module variable whose object is modified')
    ctx.rule('copies', 'a user function is handed only objects created for the call: nothing handed to it belongs to a '
                       'parameter of the run, a field or a module variable, or is read after the call')
    ctx.rule('same', 'the constraint function is called with a conversion of the point the objective was last called with')
    A = alias.Alias(prog)
    dest = A.destinations()
    e = prog.func('sqpdfo_')
    s = A.sums[e.qual]
    for k, p in enumerate(params(e)):
        c = 'argument %d of sqpdfo_' % k
        for (g, what), nd in sorted(s.mut.get(('p', k), {}).items(), key=lambda x: x[0]):
            ctx.fail('caller', '%s by %s %s' % (c, g, what), drive.where(prog.funcs[g], nd), 'the argument %s is modified: %s %s'
                     % (p, g, what))
        bad = [x for x in sorted(s.esc.get(('p', k), ())) if x in dest]
        for x in bad:
            (g, what), nd = sorted(dest[x].items(), key=lambda y: y[0])[0]
            ctx.fail('caller', '%s kept as %s' % (c, x[-1]), drive.where(prog.funcs[g], nd),
                     'the argument %s is kept as %s, and that object is modified: %s %s' % (p, x[-1], g, what))
        if not bad and not s.mut.get(('p', k)):
            ctx.ok('caller', c, drive.where(e, e.node))
    for (q, site), (f, nd, vs) in sorted(A.sites.items()):
        ctx.ok('copies', 'call of a user function in %s@%s' % (q, site), drive.where(f, nd))
    for q, s in sorted(A.sums.items()):
        f = prog.funcs[q]
        if f.mod.short in ('minq', 'minq_util'):
            continue
        for r, nd in sorted(s.user.items(), key=str):
            if r[0] in 'ag':
                ctx.fail('copies', '%s hands over %s' % (q, r[-1]), drive.where(f, nd),
                         'an object kept in %s is handed to a user function' % r[-1])
    for (q, a, b), (f, nd, rd) in sorted(A.shared.items(), key=str):
        if a == '<user>':
            ctx.fail('copies', '%s: %s' % (q, b), drive.where(f, rd),
                     '%s is read after a user function was handed (a view of) it' % b)
    ctx.require('caller', 8)
    ctx.require('copies', 2)
    m = Same()
    m.setup(prog)
    drive.run([m])
    m.report(ctx)
    ctx.require('same', 2)
    ctx.note('functions_analysed', len(A.sums))
    ctx.assumptions += ['options is an instance of a record class (copying it makes a new record)',
                        'indexing with a list, comparison or array makes a copy; any other index is taken to share storage',
                        'numpy and scipy functions other than the listed in-place and view functions neither modify nor return '
                        'their arguments']
