"""P02: iteration and evaluation limits end the run."""
from sv import std, terms as T
from . import drive

ONE = T.const(1)
STEPS = ('sqpdfo_solve_TR_bc_', 'sqpdfo_find_smallf_', 'sqpdfo_swap_in_Y_', 'bcdfo_repair_Y_', 'bcdfo_include_in_Y_',
         'bcdfo_augment_Y_', 'bcdfo_replace_in_Y_')


class Limits(drive.InMain):
    """mon state: (limits found not reached in this iteration, limits found reached, iteration counted)"""
    name = 'limits'

    def start(self, I, st):
        st.mon[self.name] = (frozenset(), frozenset(), False)

    def on_stmt(self, I, st, node, fid):
        super().on_stmt(I, st, node, fid)
        if node is self.loop and I.funcstack[-1] is self.main:
            st.mon[self.name] = (frozenset(), frozenset(), False)

    def tests(self, I, st):
        d = self.info(st)
        if d is None or 'niter' not in d or 'nsimul' not in d:
            return
        n, e = d['niter'].t, I.index_term(d['nsimul'].t, ONE)
        seen = set()
        for r, o in drive.record_with(st, 'miter', 'msimul'):
            a, b = o['miter'].t, o['msimul'].t
            if (a, b) not in seen:
                seen.add((a, b))
                yield 'it', T.compare('ge', n, a)
                yield 'ev', T.compare('ge', e, b)

    def on_assumed(self, I, st, node, term, value, fid):
        if not self.inmain(I):
            return
        ok, hit, inc = st.mon[self.name]
        for k, t in self.tests(I, st):
            v = I.implied(st, t)
            if v is True and k not in hit:
                hit = hit | {k}
                self.event(I, node, 'test')
            elif v is False and k not in ok:
                ok = ok | {k}
        st.mon[self.name] = (ok, hit, inc)

    def need(self, I, st, node, what):
        ok, hit, inc = st.mon[self.name]
        self.event(I, node, 'guarded')
        if hit:
            self.fail(I, node, '%s although a limit was reached' % what, 'stop')
        for k, nm in (('it', 'number of iterations'), ('ev', 'number of evaluations')):
            if k not in ok:
                self.fail(I, node, '%s in an iteration that did not test the %s against its limit' % (what, nm),
                          'guarded')

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if not self.inmain(I):
            return None
        if std.user_call(name, args) in ('f', '?'):
            self.need(I, st, node, 'the objective is evaluated')
        elif name in STEPS:
            self.need(I, st, node, '%s is called' % name)
        return None

    def on_store_attr(self, I, st, node, rec, attr, old, new, fid):
        if attr in ('miter', 'msimul') and 'sqpdfo_options_' not in drive.stack(I):
            v = old.t if old is not None else None
            if v is not new.t:
                self.fail(I, node, 'the limit %s is changed during the run' % attr, 'kept')
        if attr == 'niter' and self.inmain(I):
            if old is not None and new.t in (T.arith('add', old.t, ONE), T.arith('add', ONE, old.t)):
                self.event(I, node, 'counted')
                ok, hit, inc = st.mon[self.name]
                st.mon[self.name] = (ok, hit, True)
            else:
                self.fail(I, node, 'the number of iterations is changed by something other than one', 'counted')

    def on_backedge(self, I, st, node, fid):
        if node is not self.loop:
            return
        ok, hit, inc = st.mon[self.name]
        if hit:
            self.fail(I, node, 'another iteration although a limit was reached', 'stop')
        if not inc:
            self.fail(I, node, 'a path round the main loop does not count an iteration', 'counted')
        st.mon[self.name] = (frozenset(), frozenset(), False)

    def on_return(self, I, st, node, func, val, fid):
        if func is not self.main:
            return
        ok, hit, inc = st.mon[self.name]
        if hit:
            self.event(I, node, 'stop')
            d = self.info(st)
            f = d.get('flag') if d else None
            want = set(std.codes(I.prog)[c] for c in [{'it': 'stop_on_max_iter', 'ev': 'stop_on_max_simul'}[h] for h in hit])
            if f is None or f.t.op != 'const' or T.const_value(f.t) not in want:
                self.fail(I, node, 'the status returned does not name the limit reached', 'stop')


def run(ctx, prog):
    ctx.rule('test', 'tests found that establish niter >= miter or nsimul[1] >= msimul')
    ctx.rule('guarded', 'in every iteration of the main loop, each evaluation of the objective and each change of the set or '
                        'iterate is preceded by tests establishing niter < miter and nsimul[1] < msimul')
    ctx.rule('stop', 'after a test found a limit reached the run returns from the main loop with the status of that limit, '
                     'without evaluating or starting another iteration')
    ctx.rule('counted', 'each path round the main loop adds one to niter at least once and changes it in no other way')
    ctx.rule('kept', 'the limits are not changed after the options were processed')
    m = Limits()
    m.setup(prog)
    R = drive.run([m], watch=('niter', 'miter', 'msimul'))
    m.report(ctx)
    if R is None:
        return
    ctx.ok('kept', 'stores of miter and msimul outside sqpdfo_options_')
    ctx.require('test', 2)
    ctx.require('guarded', 5)
    ctx.require('stop', 2)
    ctx.require('counted', 1)
    e = prog.func('sqpdfo_')
    codes = {std.codes(prog)['stop_on_max_iter']: 'it', std.codes(prog)['stop_on_max_simul']: 'ev'}
    for st, v, node in R.out.ret:
        ok, hit, inc = st.mon['limits']
        if hit:
            i = v.elts[2] if v.elts and len(v.elts) > 2 else None
            f = st.heap.get(i.rec, {}).get('flag') if i is not None and i.rec is not None else None
            good = f is not None and f.t.op == 'const' and codes.get(T.const_value(f.t)) in hit
            ctx.expect(good, 'stop', 'return of sqpdfo_@%s' % node._site, drive.where(e, node),
                       'the status of the limit does not reach the caller')
    ctx.note('functions_entered', sorted(R.I.funcs_seen))
