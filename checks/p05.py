"""P05: a failed evaluation ends the run and its values are never used."""
from sv import std, terms as T
from sv.interp import Val
from . import drive
from .p02 import STEPS

NO = T.const('none')
CATCH = {'*', 'Exception', 'BaseException'}


KEEP = {'copy', 'array', 'reshape', 'T', 'real_', 'real', 'ravel', 'flatten', 'asarray', 'float', 'abs', 'sum', 'float64',
        'squeeze', 'transpose', 'tolist', 'list', 'atleast_1d', 'max', 'min', 'amax', 'amin', 'absolute', 'norm', 'concatenate'}


def last(op):
    return op.replace(':', '.').split('.')[-1]


def same(t, r):
    """NaN or infinity anywhere in r shows in t"""
    while t is not r:
        if t.op == 'attr' and len(t.args) == 2 and 'T' in T.show(t.args[1]):
            t = t.args[0]
        elif last(t.op) in KEEP and t.args:
            t = t.args[0]
        else:
            return False
    return True


class Failed(drive.InMain):
    """mon state: (user functions that raised in the current evaluation, failure reported, size of the constraints compared)"""
    name = 'failed'

    def start(self, I, st):
        st.mon[self.name] = (frozenset(), False, False)
        self.code = T.const(std.codes(I.prog)['fail_on_simul'])
        for k in ('r0', 'r1', 'r3', 'm', 'bad'):
            st.env[('$', k)] = Val(NO)

    def g(self, st, k):
        v = st.env.get(('$', k))
        return v.t if v is not None else NO

    def mkey(self, I, v):
        return bool(v[0]), v[1], v[2]

    def join(self, I, vs):
        return frozenset().union(*(v[0] for v in vs)), any(v[1] for v in vs), all(v[2] for v in vs)

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        pend, failed, rows = st.mon[self.name]
        u = std.user_call(name, args)
        if u is not None:
            self.event(I, node, 'caught')
            if not any(h in CATCH for hs in I.handlers for h in hs):
                self.fail(I, node, 'an exception of the user function is not caught', 'caught')
            if u != 'c':
                if pend or failed:
                    self.fail(I, node, 'the objective is evaluated after a failed evaluation', 'ends')
                pend, failed, rows = frozenset(), False, False
            st.mon[self.name] = (pend | {u}, failed, rows)
            return None
        f = func.name if func is not None else name
        if f == 'sqpdfo_augmX_evalf_':
            m = drive.argval(func, f, 2, args, kwargs)
            st.env[('$', 'm')] = Val(m.t if m is not None else NO)
        if f in STEPS:
            self.event(I, node, 'ends')
            if pend or failed:
                self.fail(I, node, '%s is called after a failed evaluation' % f, 'ends')
                st.mon[self.name] = (frozenset(), False, False)
        return None

    def after_call(self, I, st, node, name, func, args, kwargs, v, fid):
        u = std.user_call(name, args)
        if u is not None:
            pend, failed, rows = st.mon[self.name]
            st.mon[self.name] = (pend - {u}, failed, rows)
            return v
        f = func.name if func is not None else name

        if f == 'sqpdfo_augmX_evalf_':
            pend, failed, rows = st.mon[self.name]
            st.mon[self.name] = (pend, failed, False)

        def el(k):
            if v.elts is not None and len(v.elts) > k:
                return v.elts[k].t
            return I.index_term(v.t, T.const(k))
        if f == 'sqpdfo_evalfgh_':
            for k in (0, 1, 3):
                st.env[('$', 'r%d' % k)] = Val(el(k))
        return v

    # --------------------------------------------------------- classification
    def on_assumed(self, I, st, node, t, value, fid):
        while t.op == 'not':
            t, value = t.args[0], not value
        pend, failed, rows = st.mon[self.name]
        if rows:
            return
        c, m = self.g(st, 'r3'), self.g(st, 'm')
        ok = False
        if c is not NO and value and self.same_size(t, c):
            ok = True
        if m is not NO and m in t.args and t.op in ('lt', 'le', 'eq'):
            o = t.args[0] if t.args[1] is m else t.args[1]
            if T._num(o) is not None and I.implied(st, T.compare('le', m, T.const(0))) is True:
                ok = True       # nothing to compare with yet
        if m is not NO and t is m and not value:
            ok = True
        if ok:
            st.mon[self.name] = (pend, failed, True)

    def same_size(self, t, c):
        return t.op == 'eq' and any(self.size_of(x, c) for x in t.args) and \
            any((x.op != 'const' or x is T.const(0)) and not T.contains(x, c) for x in t.args)

    def size_of(self, x, c):
        return T.contains(x, c) and any(s.op in ('call:size_', 'call:length_', 'call:len', 'call:numel_', 'attr') or
                                        'shape' in s.op or 'size' in s.op for s in T.subterms(x))

    def finite(self, st, r, kinds):
        """tests on r excluded the kinds of bad value"""
        return all(any(self.excludes(t, v, r, k) for t, v in st.facts.items()) for k in kinds)

    def excludes(self, t, v, r, kind):
        while t.op == 'not':
            t, v = t.args[0], not v
        n = last(t.op)
        if n == 'any' and not v or n == 'all' and v:
            return len(t.args) >= 1 and self.excludes(t.args[0], v, r, kind)
        if n == 'or' and not v or n == 'and' and v:
            return any(self.excludes(x, v, r, kind) for x in t.args)
        if n in ('eq', 'ne') and len(t.args) == 2 and t.args[0] is t.args[1]:
            return kind == 'isnan' and v == (n == 'eq') and same(t.args[0], r)
        if n == kind and not v or n == 'isfinite' and v:
            return len(t.args) >= 1 and same(t.args[0], r)
        if n in ('lt', 'le') and v and len(t.args) == 2 and kind == 'isinf':
            # abs(r) < number
            x, y = t.args
            return last(x.op) == 'abs' and same(x.args[0], r) and not T.contains(y, r) and T._num(y) != float('inf')
        return False

    def on_store_sub(self, I, st, node, base, idx, elem, new, fid):
        if 'sqpdfo_evalfgh_' in drive.stack(I):
            return new
        pend, failed, rows = st.mon[self.name]
        f, c = self.g(st, 'r1'), self.g(st, 'r3')
        if c is not NO and T.contains(base.t, c) and not failed:
            return new                      # the new values themselves are adjusted
        if (pend or failed) and 'sqpdfo_augmX_evalf_' in drive.stack(I):
            self.fail(I, node, 'data are stored after the evaluation failed', 'unused')
        if failed:
            return new
        isf, isc = f is not NO and f.op != 'const' and T.contains(elem.t, f), c is not NO and T.contains(elem.t, c)
        if not (isf or isc) or 'sqpdfo_augmX_evalf_' not in drive.stack(I):
            return new
        self.event(I, node, 'unused')
        if I.implied(st, self.g(st, 'r0')) is not False:
            self.fail(I, node, 'an evaluation is stored although its message was not tested', 'unused')
        if isf and not self.finite(st, f, ('isnan', 'isinf')):
            self.fail(I, node, 'an objective value is stored that was not tested for NaN and infinity', 'unused')
        if isc and not self.finite(st, c, ('isnan',)):
            self.fail(I, node, 'constraint values are stored that were not tested for NaN', 'unused')
        m = self.g(st, 'm')
        if isc and not rows and not (m is not NO and I.implied(st, T.compare('le', m, T.const(0))) is True) and \
                not any(self.same_size(t, c) for t, v in st.facts.items() if v):
            self.fail(I, node, 'constraint values are stored whose number was not compared with that of earlier points', 'unused')
        return new

    def on_store_attr(self, I, st, node, rec, attr, old, new, fid):
        pend, failed, rows = st.mon[self.name]
        if attr == 'flag' and 'nsimul' in st.heap.get(rec, {}):
            vs = I.const_values(new.t) or ()
            if self.code in vs:
                self.event(I, node, 'classified')
                f = st.heap[rec].get('f')
                if f is not None:
                    st.env[('$', 'bad')] = Val(f.t if 'sqpdfo_augmX_evalf_' in drive.stack(I) else NO)
                st.mon[self.name] = (frozenset(), True, False)
            elif failed:
                self.fail(I, node, 'the status of the failed evaluation is overwritten', 'ends')

    def on_backedge(self, I, st, node, fid):
        pend, failed, rows = st.mon[self.name]
        if node is self.loop and (pend or failed):
            self.fail(I, node, 'another iteration after a failed evaluation', 'ends')
            st.mon[self.name] = (frozenset(), False, False)


def run(ctx, prog):
    ctx.rule('caught', 'every call of a user function is made inside a try whose handlers catch every exception')
    ctx.rule('classified', 'stores of the evaluation-failure status followed')
    ctx.rule('ends', 'once a user function raised or the failure status was set: no evaluation, step, change of the set or '
                     'iteration, and sqpdfo_ returns with that status')
    ctx.rule('unused', 'an evaluation is stored in the archive only on a path that excluded an error message, NaN, an '
                       'infinite objective and a changed number of constraint values')
    ctx.rule('result', 'a run that ends with a failed evaluation returns an objective value other than that of the failed '
                       'evaluation')
    m = Failed()
    m.setup(prog)
    R = drive.run([m])
    m.report(ctx)
    if R is None:
        return
    I = R.I
    e = prog.func('sqpdfo_')
    n = 0
    for st, x in R.out.exc:
        if st.mon['failed'][0]:
            ctx.fail('caught', 'sqpdfo_ ends by an exception', drive.where(e, e.node),
                     'an exception of a user function can leave the solver (%s)' % x)
    for st, v, node in R.out.ret:
        pend, failed, rows = st.mon['failed']
        if not (pend or failed):
            continue
        c = 'return of sqpdfo_@%s' % node._site
        i = v.elts[2] if v.elts and len(v.elts) > 2 else None
        d = st.heap.get(i.rec, {}) if i is not None and i.rec is not None else {}
        f = d.get('flag')
        ctx.expect(f is not None and I.implied(st, T.compare('eq', f.t, m.code)) is True, 'ends', c, drive.where(e, node),
                   'a run with a failed evaluation can end with another status')
        fv = d.get('f')
        bad = fv is None or failed and fv.t is m.g(st, 'bad')
        ctx.expect(not bad, 'result', c, drive.where(e, node), 'the objective value returned is that of the failed evaluation')
    ctx.require('caught', 2)
    ctx.require('classified', 5)
    ctx.require('ends', 5)
    ctx.require('unused', 2)
    ctx.require('result', 1)
    ctx.note('functions_entered', sorted(I.funcs_seen))
    ctx.assumptions += ['user functions return numbers or arrays of numbers']
