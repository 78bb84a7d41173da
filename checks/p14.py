"""P14: invalid arguments and options end the run before any evaluation."""
from sv import driver as D, std, terms as T
from sv.terms import leaf, const
from sv.interp import Monitor, Val
from . import optlib as O

BADSTR = 'no such choice'


class UserCalls(Monitor):
    """collects the calls of user functions with the status held at that moment"""
    name = 'uc'

    def __init__(self, ok):
        self.calls = []
        self.ok = ok

    def on_store_attr(self, I, st, node, rec, attr, old, new, fid):
        if attr == 'nsimul':
            st.mon[self.name] = rec

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        k = std.user_call(name, args)
        if k not in ('f', 'c'):
            return None
        bad = []
        n = 0
        rec = st.mon.get(self.name)
        for r, d in st.heap.items():
            v = d.get('flag')
            if v is None or 'nsimul' not in d or (rec in st.heap and r != rec):
                continue
            n += 1
            for x in I.values(st, v.t):
                if x is not const(self.ok) and I.implied(st, T.compare('eq', v.t, const(self.ok))) is not True:
                    bad.append(x)
        self.calls.append((k, I.funcstack[-1], node, n, bad))
        return None


def trailing(v):
    """the status record: last element of the returned tuple"""
    return v.elts[-1] if v.elts else None


def entry_run(none=(), consts=None, opts=None):
    mon = UserCalls(std.codes(D.program())['success'])
    R = D.analyse('sqpdfo_', lambda: [mon], std.entry(none=none, consts=consts, opts=opts, closed=opts is not None),
                  maxpasses=1, track=False, summarise=std.SUMMARISE)
    return R, mon


def run(ctx, prog):
    code = std.codes(prog)
    ctx.rule('option', 'an invalid option value makes every exit of the option routine carry the invalid-argument status')
    ctx.rule('entry', 'with the argument missing or the option invalid every return of sqpdfo_ carries the '
                      'invalid-argument status')
    ctx.rule('before', 'on these runs no call of a user function is reachable')
    ctx.rule('clean', 'on any run the status is success at every call of a user function')
    f = prog.func('sqpdfo_options_')
    where = '%s:%d' % (f.mod.path, f.node.lineno)
    arg = const(code['fail_on_argument'])
    succ = const(code['success'])
    for a, kinds in O.NUMERIC.items():
        for cls, kind in zip(O.OPEN_CLASS, kinds):
            if kind != 'reject':
                continue
            R, outs = O.run_options({a: O.CLASSES[cls], 'verbose': ('cls', O.between(0, 6))})
            for fl, d, n, s in outs:
                ctx.expect(fl is arg, 'option', '%s %s' % (a, cls), where,
                           'option %s with a value %s ends with status %s' % (
                               a, {'neg': '< 0', 'zero': '= 0', 'pos': '> 0'}[cls], T.show(fl) if fl else None))
    for a in O.STRINGS:
        for bad in (BADSTR, '', 'x' + O.STRINGS[a][0], O.STRINGS[a][0] + 'x'):
            R, outs = O.run_options({a: bad, 'verbose': ('cls', O.between(0, 6))})
            for fl, d, n, s in outs:
                ctx.expect(fl is arg, 'option', '%s=%r' % (a, bad), where,
                           'option %s = %r ends with status %s' % (a, bad, T.show(fl) if fl else None))
    e = prog.func('sqpdfo_')
    cases = [('objective missing', dict(none=('userf',))),
             ('start point missing', dict(none=('x0',))),
             ('constraint function missing, me=1', dict(none=('userc',), consts={'me': 1, 'mi': 0})),
             ('constraint function missing, mi=1', dict(none=('userc',), consts={'me': 0, 'mi': 1})),
             ('invalid option tol_grad', dict(opts={'tol_grad': Val(leaf('optv'))})),
             ('invalid option hess_approx', dict(opts={'hess_approx': Val(const(BADSTR))})),
             ]
    for nm, kw in cases:
        if 'opts' in kw and 'tol_grad' in kw['opts']:
            base = std.entry(closed=True, opts=kw['opts'])

            def setup(I, st, fid, fn, base=base):
                base(I, st, fid, fn)
                st.facts[T.compare('lt', leaf('optv'), const(0))] = True
            mon = UserCalls(code['success'])
            R = D.analyse('sqpdfo_', lambda: [mon], setup, maxpasses=1, track=False, summarise=std.SUMMARISE)
        else:
            R, mon = entry_run(**kw)
        for k, fn, node, n, bad in mon.calls:
            ctx.fail('before', '%s: %s in %s' % (nm, k, fn.qual), '%s:%d' % (fn.mod.path, node.lineno),
                     'a user function is called although: %s' % nm)
        if not mon.calls:
            ctx.ok('before', nm, '%s:%d' % (e.mod.path, e.node.lineno))
        n = 0
        for s, v, node in R.out.ret:
            n += 1
            rec = trailing(v)
            fl = s.heap.get(rec.rec, {}).get('flag') if rec is not None and rec.rec is not None else None
            ok = fl is not None and R.I.implied(s, T.compare('eq', fl.t, arg)) is True
            ctx.expect(ok, 'entry', nm, '%s:%d' % (e.mod.path, node.lineno),
                       '%s, but this return carries status %s' % (nm, T.show(fl.t) if fl is not None else None))
        if R.out.normal:
            ctx.fail('entry', nm + ' end', '%s:%d' % (e.mod.path, e.node.lineno), 'the entry point ends without a result')
    # general run
    R, mon = entry_run()
    for k, fn, node, n, bad in mon.calls:
        c = '%s in %s' % (k, fn.qual)
        wh = '%s:%d' % (fn.mod.path, node.lineno)
        ctx.expect(not bad and n > 0, 'clean', c, wh, 'a user function can be called while the status is %s' % (
            [T.show(b) for b in bad] if bad else 'not kept'))
    ctx.require('option', 20)
    ctx.require('entry', 6)
    ctx.require('clean', 2)
    ctx.note('functions_entered', len(R.I.funcs_seen))
    ctx.note('calls', R.I.stats)
    ctx.assumptions += ['start point, bounds and user functions that are given are of the documented kind']
