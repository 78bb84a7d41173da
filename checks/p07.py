"""P07: the iterate moves only on sufficient decrease of the merit function."""
import ast
from sv import driver as D, terms as T
from sv.interp import Val, Monitor
from sv.prog import AnalysisBroken
from . import drive

NO = T.const('none')
YES = T.const('yes')
ETA1 = 37                  # parameter of the main routine: prescribed fraction of the predicted decrease
SIGMA = ('sqpdfo_computeHessian_', 21)
SMALL = 9                  # result of sqpdfo_find_smallf_: index of the best point
EXTRA = ('sqpdfo_swap_in_Y_', 'sqpdfo_find_smallf_')


def merit_of(t, sigma):
    """(f, norm) if t is f + sigma * norm"""
    if t.op != 'add':
        return None
    for k in (0, 1):
        p = t.args[1 - k]
        if p.op == 'mul':
            for j in (0, 1):
                if p.args[j] is sigma:
                    return t.args[k], p.args[1 - j]
    return None


def has(I, t, x, quant=all):
    """x occurs in t, on every (some) branch t may come from"""
    memo = {}

    def go(t):
        if t is x:
            return True
        r = memo.get(t)
        if r is None:
            memo[t] = False
            if t.op == 'phi':
                ps = [p for p in I.phi_parts.get(t, ()) if p is not t]
                r = bool(ps) and quant([go(p) for p in ps])
            else:
                r = any(go(a) for a in t.args)
            memo[t] = r
        return r
    return x is not None and go(t)


class Accept(drive.InMain):
    """mon state: (reference outdated, what it was before a move that may not have happened or None, smaller merit
    established, fraction of the predicted decrease established)"""
    name = 'accept'

    def setup(self, prog):
        super().setup(prog)
        g = prog.func(SIGMA[0])
        self.sig = None
        for x in drive.own(self.main.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == SIGMA[0]:
                e = x.args[SIGMA[1]] if SIGMA[1] < len(x.args) else None
                for kw in x.keywords:
                    if kw.arg == g.params[SIGMA[1]]:
                        e = kw.value
                if isinstance(e, ast.Name):
                    self.sig = e.id
        if self.sig is None:
            raise AnalysisBroken('no penalty parameter is passed to %s' % SIGMA[0])
        self.cand = set()
        for x in drive.own(self.main.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
                    any(isinstance(y, ast.Name) and y.id == self.sig for y in ast.walk(x.value)):
                self.cand.add(x.targets[0].id)
        self.cand.discard(self.sig)
        self.inner = set(id(x) for x in ast.walk(self.loop))

    def start(self, I, st):
        st.mon[self.name] = (True, None, False, False)
        for n in ['f', 'n', 'was', 'small'] + [k + c for c in self.cand for k in ('s:', 't:')]:
            st.env[('$', n)] = Val(NO)

    def mkey(self, I, v):
        return v

    def local(self, st, name):
        v = st.env.get((self.mainfid, name))
        return v.t if v is not None else None

    def ghost(self, st, n):
        v = st.env.get(('$', n))
        return v.t if v is not None else NO

    def after_call(self, I, st, node, name, func, args, kwargs, v, fid):
        if name == 'sqpdfo_find_smallf_' and v.elts and len(v.elts) > SMALL:
            st.env[('$', 'small')] = Val(v.elts[SMALL].t)
        return v

    def on_bind(self, I, st, node, name, old, new, fid):
        if I.funcstack[-1] is not self.main:
            return new
        stale, was, lt, rho = st.mon[self.name]
        if name == self.names['i_xbest'] and id(node) in self.inner and (old is None or old.t is not new.t):
            m = self.local(st, self.names['m'])
            if new.t is self.ghost(st, 'small') and new.t is not m:
                self.event(I, node, 'accept')
                st.env[('$', 'was')] = old
                st.mon[self.name] = (True, stale, False, False)
            else:
                self.event(I, node, 'accept')
                if new.t is not m:
                    self.fail(I, node, 'the iterate is replaced by a point other than the latest trial point', 'accept')
                elif not lt:
                    self.fail(I, node, 'the trial point is taken without a strictly smaller merit value', 'accept')
                elif not rho:
                    self.fail(I, node, 'the trial point is taken without the prescribed fraction of the predicted decrease', 'accept')
                st.mon[self.name] = (True, None, True, True)
        elif name == self.names['m'] and id(node) in self.inner:
            st.mon[self.name] = (stale, was, False, False)
            for c in self.cand:
                st.env[('$', 't:' + c)] = Val(NO)
        elif name == self.sig and id(node) not in self.inner:
            new = Val(T.leaf('sigma0'))          # some penalty parameter to start with
            for c in self.cand:
                st.env[('$', 's:' + c)] = new
            return new
        elif name == self.sig and old is not None and old.t is not new.t:
            self.event(I, node, 'penalty')
            if not self.grows(I, st, old.t, new.t):
                self.fail(I, node, 'the penalty parameter may become smaller', 'penalty')
        elif name in self.cand:
            s = self.local(st, self.sig)
            info = self.info(st)
            p = merit_of(new.t, s) if s is not None else None
            g = NO
            if p is not None and info is not None:
                f, n = p
                if f is info['f'].t and n.op.startswith('call:norm') and has(I, n, info['ce'].t, any):
                    g = s
                    if id(node) in self.inner:
                        self.event(I, node, 'reference')
                        st.env[('$', 'f')], st.env[('$', 'n')] = Val(f), Val(n)
                        st.mon[self.name] = (False, None, lt, rho)
                elif f is self.ghost(st, 'f') and n is self.ghost(st, 'n'):
                    g = s
                    self.event(I, node, 'reference')
            t = id(node) in self.inner and self.is_trial(I, st, p)
            st.env[('$', 's:' + name)] = Val(s if t else g)
            st.env[('$', 't:' + name)] = Val(YES if t else NO)
        return new

    def grows(self, I, st, old, new):
        if I.implied(st, T.compare('lt', old, new)) or I.implied(st, T.compare('le', old, new)):
            return True
        if new is old:
            return True
        if new.op in ('call:max_', 'call:max', 'call:maximum'):
            return any(self.grows(I, st, old, a) for a in new.args)
        if new.op == 'mul':
            for k in (0, 1):
                c = T.const_value(new.args[k]) if new.args[k].op == 'const' else None
                if isinstance(c, (int, float)) and c >= 1 and new.args[1 - k] is old:
                    return True
        return False

    def on_backedge(self, I, st, node, fid):
        if node is self.loop:
            stale, was, lt, rho = st.mon[self.name]
            st.mon[self.name] = (stale, None, False, False)

    def trial(self, I, st, t):
        """t is the merit value of the trial point with the current penalty parameter"""
        return any(self.local(st, c) is t and self.ghost(st, 't:' + c) is YES and
                   self.ghost(st, 's:' + c) is self.local(st, self.sig) for c in self.cand)

    def is_trial(self, I, st, p):
        m, fX = (self.local(st, self.names[r]) for r in ("m", "fX"))
        if p is None or m is None:
            return False
        f, n = p
        return f is I.index_term(fX, m) and n.op.startswith('call:norm') and has(I, n, m, any)

    def reference(self, I, st, node, t):
        """t is the merit value of the iterate: reported if it is outdated"""
        for c in self.cand:
            if self.local(st, c) is t and self.ghost(st, 's:' + c) is not NO and self.ghost(st, 't:' + c) is NO:
                if self.ghost(st, 's:' + c) is not self.local(st, self.sig):
                    self.fail(I, node, 'the reference merit value was computed with another penalty parameter', 'reference')
                if st.mon[self.name][0]:
                    self.fail(I, node, 'the reference merit value is that of an earlier iterate', 'reference')
                return True
        return False

    def on_assumed(self, I, st, node, term, value, fid):
        if self.main not in I.funcstack or self.mainfid is None:
            return
        stale, was, lt, rho = st.mon[self.name]
        if was is not None:
            i = self.local(st, self.names['i_xbest'])
            k = I.implied(st, T.compare('eq', i, st.env[('$', 'was')].t))
            if k is not None:
                stale, was = (was, None) if k else (True, None)
        if term.op in ('lt', 'le') and len(term.args) == 2:
            a, b = term.args
            strict = (term.op == 'lt') == value
            if not value:
                a, b = b, a
            # a < b (or a <= b) holds
            if not lt and strict and self.trial(I, st, a) and self.reference(I, st, node, b):
                self.event(I, node, 'test')
                lt = True
            if not rho:
                e = st.env.get((self.mainfid, self.main.params[ETA1]))
                if e is not None and (a is e.t or number(a) is not None and number(e.t) is not None and number(a) >= number(e.t)):
                    for r in [b] + list(I.phi_parts.get(b, ())):
                        if r.op == 'div' and r.args[0].op == 'sub' and self.trial(I, st, r.args[0].args[1]) and \
                                has(I, r.args[1], self.local(st, self.sig)) and \
                                self.reference(I, st, node, r.args[0].args[0]):
                            self.event(I, node, 'test')
                            rho = True
        st.mon[self.name] = (stale, was, lt, rho)


class Smallest(Monitor):
    """sqpdfo_find_smallf_ alone: which point is moved to the first position, and under which condition"""
    name = 'smallest'

    def __init__(self, g):
        self.g = g
        self.arg = [T.leaf('arg:' + p) for p in g.params]
        self.bad, self.ev = {}, {}

    def merit(self, I, t):
        """t is fY + sigma * norms of the columns of ceY"""
        if t.op != 'add':
            return False
        for k in (0, 1):
            if has(I, t.args[k], self.arg[4]) and t.args[1 - k].op == 'mul' and has(I, t.args[1 - k], self.arg[22]) and \
                    has(I, t.args[1 - k], self.arg[6], any):
                return True
        return False

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if name != 'sqpdfo_swap_in_Y_' or self.g not in I.funcstack:
            return None
        f = I.funcstack[-1]
        self.ev.setdefault(('move', f.qual, node._site), (f, node))
        v = drive.argval(func, name, 1, args, kwargs)
        if v is None or v.t.op not in ('index',) or not self.least(I, st, v.t):
            self.bad.setdefault(('move', f.qual, 'a point is moved to the first position without a strictly smaller merit value '
                                 'of that point'), (f, node))

    def least(self, I, st, k):
        call = k.args[0]
        if not call.op.startswith('call:') or k.args[1] is not T.const(1) or not call.args:
            return False
        v = call.args[0]
        M = v.args[0] if v.op == 'index' and not self.merit(I, v) else v
        return self.merit(I, M) and I.implied(st, T.compare('lt', I.index_term(call, T.const(0)), I.index_term(M, T.const(0)))) is True


def number(t):
    return T._num(t) if t.op == 'const' else None


def run(ctx, prog):
    ctx.rule('accept', 'the iterate is replaced by the trial point only where a strictly smaller merit value and the prescribed '
                       'fraction of the predicted decrease were established for that point on the path')
    ctx.rule('reference', 'the merit value the trial point is compared with was computed for the current iterate and with the '
                          'current penalty parameter')
    ctx.rule('penalty', 'each new value of the penalty parameter is provably not smaller')
    ctx.rule('test', 'the comparisons of the merit values and of the ratio with the prescribed fraction')
    ctx.rule('move', 'when the best known point is looked up, a point becomes the iterate only if its merit value, computed from '
                     'the values and the penalty parameter handed in, is strictly smaller than that of the first point')
    g = prog.func('sqpdfo_find_smallf_')
    s = Smallest(g)
    D.analyse('sqpdfo_find_smallf_', lambda: [s], lambda I, st, fid, f: None, maxpasses=1, track=False)
    Accept.report(s, ctx)
    ctx.require('move', 1)
    m = Accept()
    m.setup(prog)
    drive.run([m], summarise=drive.summarisable(prog, ()) + EXTRA)
    m.report(ctx)
    ctx.require('accept', 3)
    ctx.require('reference', 2)
    ctx.require('penalty', 1)
    ctx.require('test', 2)
