"""P09: slack variables move together with the iterate."""
from sv import driver as D, terms as T
from sv.interp import Val, Monitor
from sv.prog import AnalysisBroken
from . import drive

TR, SMALL, OPT, HESS, MULT = ('sqpdfo_solve_TR_bc_', 'sqpdfo_find_smallf_', 'sqpdfo_optimality_', 'sqpdfo_computeHessian_',
                              'sqpdfo_compute_multiplier_')
NO = T.const('none')
# where a stage finds the constraint values: position of an argument, or of the record that has them in attribute 'ce'
VALUES = {SMALL: ('arg', 6), HESS: ('arg', 20), OPT: ('rec', 4), TR: ('rec', 10)}
JACOBIAN = {OPT: 4, TR: 10, MULT: 3}
NBR, SLACKS = 'nbr_slacks', 'slacks'


def terms_of(t, k):
    """[(term, coefficient)] the linear parts of t; None if t is not a combination"""
    if t.op == 'add':
        return [(a, k) for a in t.args]
    if t.op == 'sub':
        return [(t.args[0], k), (t.args[1], -k)]
    if t.op == 'neg':
        return [(t.args[0], -k)]
    if t.op in ('mul', 'div'):
        c = [T._num(a) for a in t.args]
        if t.op == 'div' and c[1]:
            return [(t.args[0], k / c[1])]
        if t.op == 'mul' and c[0] is not None:
            return [(t.args[1], k * c[0])]
        if t.op == 'mul' and c[1] is not None:
            return [(t.args[0], k * c[1])]
        return []
    if t.op in ('index', 'store', 'attr'):
        return [(t.args[0], k)]
    if t.op in ('tuple', 'list', 'concat') or t.op.startswith('call:') and \
            t.op.split('.')[-1].split(':')[-1].strip('_') in THROUGH:
        return [(a, k) for a in t.args]
    return []


def parts(I, t, leaf):
    """{(leaf kind, coefficient)} of the linear combination t; shapes, slices and blocks are looked through"""
    out, seen, w = set(), set(), [(t, 1.0)]
    while w:
        t, k = w.pop()
        if (t, k) in seen:
            continue
        seen.add((t, k))
        h = leaf(t)
        if h is not None:
            out.add((h, k))
        elif t.op == 'phi':
            w += [(a, k) for a in I.phi_parts.get(t, ())]
        else:
            w += terms_of(t, k)
    return out


def cases(I, t, leaf, k=1.0, on=frozenset(), memo=None):
    """set of parts() for each branch the value may come from"""
    memo = {} if memo is None else memo
    if (t, k) in memo:
        return memo[t, k]
    h = leaf(t)
    if h is not None:
        r = {frozenset([(h, k)])}
    elif t.op == 'phi':
        r = set()
        if t not in on:
            for a in I.phi_parts.get(t, ()):
                r |= cases(I, a, leaf, k, on | {t}, memo)
            if not on:
                memo[t, k] = r
        return r
    else:
        r = {frozenset()}
        for a, c in terms_of(t, k):
            q = cases(I, a, leaf, c, on, memo)
            r = set(x | y for x in r for y in q)
            if len(r) > 200:
                raise AnalysisBroken('too many cases')
    if not on:
        memo[t, k] = r
    return r


THROUGH = ('concatenate', 'diag', 'copy', 'array', 'reshape', 'ravel', 'flatten', 'vstack', 'hstack', 'asarray', 'transpose',
           'squeeze', 'append', 'r', 'c', 'diagflat', 'column_stack', 'block', 'atleast_2d')


def square(t):
    """x if t is x**2"""
    if t.op == 'pow' and T._num(t.args[1]) == 2:
        return t.args[0]
    if t.op == 'mul' and t.args[0] is t.args[1]:
        return t.args[0]
    if t.op.startswith('call:') and t.op.split('.')[-1].split(':')[-1] in ('square', 'power'):
        return t.args[0]
    return None


def is_sum(name):
    n = (name or '').split('.')[-1].split(':')[-1].strip('_')
    return n in ('norm', 'dot', 'sum', 'matmul', 'inner', 'vdot')


class World(object):
    """only runs with slack variables are followed"""

    def nbr(self, st):
        return next((v for k, v in st.env.items() if k[0] == 'G' and k[1].split('.')[-1] == NBR), None)

    def number(self, st):
        """number of constraints with slack variables: positive as well"""
        return None

    def slacks(self, st):
        return next((v for k, v in st.env.items() if k[0] == 'G' and k[1].split('.')[-1] == SLACKS), None)

    def on_assumed(self, I, st, node, term, value, fid):
        v, me = self.nbr(st), self.number(st)
        for n in (1, 3):
            t = T.subst(term, {x.t: T.const(n) for x in (v, me) if x is not None and x.t.op != 'const'})
            if t is term:
                return
            if t.op in ('lt', 'le', 'eq', 'is') and all(T._num(a) is not None for a in t.args):
                t = T.compare(t.op, *t.args)
            c = T.const_value(t)
            if c is None or bool(c) == value:
                break
        else:
            st.mon['$dead'] = True


class Alone(World, Monitor):
    name = 'alone'

    def __init__(self, g):
        self.g, self.bad, self.ev = g, {}, {}
        self.args = [T.leaf('arg:' + p) for p in g.params]
        self.how = VALUES.get(g.name)
        self.jac = JACOBIAN.get(g.name)

    fail, event, report = drive.InMain.fail, drive.InMain.event, drive.InMain.report

    def start(self, I, st):
        st.mon[self.name] = None

    def ce(self, t):
        if self.how is None:
            return False
        kind, k = self.how
        if kind == 'arg':
            return t is self.args[k]
        return t.op == 'attr' and t.pay == 'ce' and t.args[0] is self.args[k]

    def leaf(self, st):
        s = self.slacks(st)

        def leaf(t):
            if self.ce(t):
                return 'ce'
            if self.jac is not None and t.op == 'attr' and t.pay == 'ae' and t.args[0] is self.args[self.jac]:
                return 'ae'
            x = square(t)
            if x is not None and s is not None and ('sl', 1.0) in parts_of(x):
                return 'sq'
            if s is not None and t is s.t:
                return 'sl'
            return None

        def parts_of(x):
            return parts(self.I, x, lambda u: 'sl' if s is not None and u is s.t else None)
        return leaf

    def look(self, I, st, node, t, what):
        self.I = I
        for p in cases(I, t, self.leaf(st)):
            ce = set(k for h, k in p if h == 'ce')
            if ce:
                self.event(I, node, 'residual')
                if set(-k for h, k in p if h == 'sq') != ce:
                    self.fail(I, node, '%s constraint values without the squared slacks' % what, 'residual')
            if any(h == 'ae' for h, k in p):
                self.event(I, node, 'jacobian')
                if set(k for h, k in p if h == 'sl') != set(-2 * k for h, k in p if h == 'ae'):
                    self.fail(I, node, '%s constraint gradients without those of the slacks' % what, 'jacobian')

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if is_sum(name):
            for a in args:
                self.look(I, st, node, a.t, 'a norm or product of')
        return None

    def on_return(self, I, st, node, func, val, fid):
        if func is self.g and func.name == OPT:
            if not val.elts:
                raise AnalysisBroken('%s returns no tuple' % func.qual)
            self.look(I, st, node, val.elts[0].t, 'the feasibility returned has')


class Commit(World, drive.InMain):
    """mon state: (trial point became the iterate, slacks were stored) since the last trial step; ghost: trial slacks"""
    name = 'commit'

    def setup(self, prog):
        drive.InMain.setup(self, prog)
        self.local = None
        self.archive = set()

    def start(self, I, st):
        st.mon[self.name] = (False, False)
        st.env[('$', 'trial')] = Val(NO)
        st.env[('$', 'stored')] = Val(NO)

    def mkey(self, I, v):
        return v

    def number(self, st):
        return st.env.get((self.mainfid, self.main.params[4])) if self.mainfid is not None else None

    def origin(self, t):
        while t.op == 'store' or t.op.startswith('call:') and t.op.endswith('copy') and t.args:
            t = t.args[0]
        return t

    def on_store_global(self, I, st, node, name, new, fid):
        n = name.split('.')[-1]
        if n == NBR and T._num(new.t) == 0 and not self.inmain(I):
            st.mon['$dead'] = True
        if n != SLACKS or not self.inmain(I) or self.mainfid is None:
            return
        acc, com = st.mon[self.name]
        at, self_node = I.funcstack[-1], node
        self.event(I, node, 'stored')
        trial = st.env[('$', 'trial')]
        if trial.t is NO or self.origin(new.t) is not trial.t:
            self.fail(I, node, 'slack variables are stored that are not those of the trial point', 'stored')
        st.env[('$', 'stored')] = new
        st.mon[self.name] = (acc, True)

    def after_call(self, I, st, node, name, func, args, kwargs, v, fid):
        if name == TR and self.inmain(I):
            if not v.elts or len(v.elts) < 9:
                raise AnalysisBroken('%s returns no tuple' % TR)
            t = v.elts[8]
            st.env[('$', 'trial')] = Val(t.t, oid=t.oid) if t.oid is not None else Val(t.t)
            self.checkend(I, st, node)
            st.mon[self.name] = (False, False)
        return v

    def on_store_sub(self, I, st, node, base, idx, elem, new, fid):
        if self.inmain(I) and self.mainfid is not None and I.funcstack[-1].name not in STAGES:
            v = self.var(st, 'ceX')
            if v is not None and v.oid == base.oid:
                self.archive.add(new.t)
            s, tr = self.slacks(st), st.env[('$', 'trial')]
            if s is not None and base.oid is not None and base.oid == s.oid and self.origin(base.t) is not tr.t:
                self.fail(I, node, 'the stored slack variables are changed in place', 'stored')
        return new

    def on_bind(self, I, st, node, name, old, new, fid):
        if I.funcstack[-1] is self.main:
            m = self.var(st, 'm')
            if name == self.names['ceX']:
                self.archive.add(new.t)
            if name == self.names['i_xbest'] and m is not None and new.t is m.t and old is not None and new.t is not old.t:
                self.event(I, node, 'accepted')
                st.mon[self.name] = (True, st.mon[self.name][1])
            s = self.slacks(st)
            if s is not None and new.t is s.t and self.local is None and not st.env[('$', 'trial')].t is s.t \
                    and st.env[('$', 'trial')].t is NO:
                self.local = name
        return new

    def checkend(self, I, st, node):
        acc, com = st.mon[self.name]
        if acc and not com:
            self.fail(I, node, 'a trial point becomes the iterate and its slack variables are not stored', 'accepted')
        if com and not acc:
            self.fail(I, node, 'slack variables are stored although the trial point does not become the iterate', 'stored')
        s = self.slacks(st)
        if self.local is not None and s is not None:
            v = st.env.get((self.mainfid, self.local))
            self.event(I, node, 'same')
            if v is not None and v.t is not s.t and I.implied(st, T.compare('eq', v.t, s.t)) is not True:
                self.fail(I, node, 'the slack variables of the main routine differ from the stored ones', 'same')

    def on_backedge(self, I, st, node, fid):
        if node is self.loop:
            self.checkend(I, st, node)
            st.mon[self.name] = (False, False)
            st.env[('$', 'trial')] = Val(NO)

    def on_return(self, I, st, node, func, val, fid):
        if func is self.main:
            self.checkend(I, st, node)

    # -- residuals in the merit values -----------------------------------------------------
    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if not self.inmain(I) or self.mainfid is None or not is_sum(name) or any(f.name in STAGES for f in I.funcstack):
            return None
        s, tr = self.slacks(st), st.env[('$', 'trial')].t
        info = self.info(st)
        cur = info['ce'].t if info is not None and 'ce' in info else None
        m = self.var(st, 'm')

        def newest(t):
            if t.op != 'index' or t.args[0] not in self.archive:
                return False
            i = t.args[1]
            while i.op in ('tuple', 'list') and i.args:
                i = i.args[-1]
            return i is m.t

        def trial_value(t):
            seen, w = set(), [t]
            while w:
                t = w.pop()
                if t in seen:
                    continue
                seen.add(t)
                if newest(t):
                    return True
                if t.op == 'phi':
                    w += I.phi_parts.get(t, ())
                elif t.op in ('attr', 'index'):
                    w.append(t.args[0])
                elif t.op == 'store':
                    w += [t.args[0], t.args[2]]
            return False

        def leaf(t):
            if t.op in ('const', 'emptyarray'):
                return None
            if t is cur:
                return 'ce'
            if t.op in ('index', 'phi') and m is not None and trial_value(t):
                return 'ce+'
            x = square(t)
            if x is not None:
                if self.origin(x) is tr:
                    return 'sq+'
                if s is not None and x is s.t:
                    return 'sq'
            return None
        for a in args:
            p = parts(I, a.t, leaf)
            for c, q in (('ce', 'sq'), ('ce+', 'sq+')):
                k = set(y for h, y in p if h == c)
                if k:
                    self.event(I, node, 'merit')
                    if set(-y for h, y in p if h == q) != k:
                        self.fail(I, node, 'a merit value takes %s without its squared slacks' % (
                            'the constraint values of the trial point' if c == 'ce+' else
                            'the constraint values of the iterate'), 'merit')
        return None


STAGES = {SMALL, OPT, HESS, MULT, TR}


def run(ctx, prog):
    ctx.rule('stored', 'the stored slack variables change only when the trial point becomes the iterate, and then take the values '
                       'computed with that trial point')
    ctx.rule('accepted', 'whenever the trial point becomes the iterate its slack variables are stored')
    ctx.rule('same', 'the slack variables of the main routine are the stored ones at every round of the main loop and at its end')
    ctx.rule('merit', 'the constraint values in the merit of the iterate and of the trial point have the squared slacks of that '
                      'point subtracted')
    ctx.rule('residual', 'constraint values in norms, products and the feasibility vector of the stages have the squared slacks '
                         'subtracted')
    ctx.rule('jacobian', 'constraint gradients in products carry the columns -2*slack of the slack variables')
    for name in (SMALL, OPT, HESS, MULT, TR):
        g = prog.func(name)
        a = Alone(g)
        D.analyse(name, lambda: [a], lambda I, st, fid, f: None, maxpasses=1, track=False)
        a.report(ctx)
    c = Commit()
    c.setup(prog)
    drive.run([c], summarise=drive.summarisable(prog, ()) + (SMALL,))
    c.report(ctx)
    if c.local is None:
        ctx.note('the main routine keeps no slack variables of its own')
    ctx.require('residual', 3)
    ctx.require('jacobian', 3)
    ctx.require('merit', 1)
    ctx.require('accepted', 1)
    ctx.require('stored', 1)
    ctx.assumptions = ['Constraint values are followed through slices, copies and block matrices; other functions applied to them '
                       'are not looked into.']
