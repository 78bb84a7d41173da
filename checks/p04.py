"""P04: a status other than success names its cause and is part of the vocabulary."""
import re
from sv import std, driver as D, terms as T
from sv.interp import Val, Monitor
from . import drive

NO = T.const('none')
ONE = T.const(1)
LIM = {'stop_on_max_iter': 'it', 'stop_on_max_simul': 'ev'}


def is_status(k):
    return k == 'success' or k.startswith(('fail_', 'stop_'))


class Causes(drive.InMain):
    """mon state: (codes whose cause was established since the last evaluation or start of an iteration,
    an evaluation was made)"""
    name = 'causes'

    def start(self, I, st):
        st.mon[self.name] = (frozenset(), False)
        self.code = std.codes(I.prog)
        self.nm = {v: k for k, v in self.code.items() if is_status(k)}
        self.stall = self.eps = None
        for k in ('fX', 'm', 'msg', 'r0', 'r1', 'r3'):
            st.env[('$', k)] = Val(NO)

    def g(self, st, k):
        v = st.env.get(('$', k))
        return v.t if v is not None else NO

    def reset(self, st):
        st.mon[self.name] = (frozenset(), st.mon[self.name][1])

    def on_stmt(self, I, st, node, fid):
        super().on_stmt(I, st, node, fid)
        if I.funcstack[-1] is self.main:
            if self.eps is None:
                for nm, pos in (('epsilon', 35), ('stallfact', 30)):
                    p = [q for q in self.main.params if q.strip('_') == nm] or self.main.params[pos:pos + 1]
                    v = st.env.get((fid, p[0])) if p else None
                    v = T._num(v.t) if v is not None else None
                    if nm == 'epsilon':
                        self.eps = v
                    else:
                        self.stall = v
            if node is self.loop:
                self.reset(st)

    def on_backedge(self, I, st, node, fid):
        if node is self.loop:
            self.reset(st)

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if std.user_call(name, args) in ('f', '?'):
            st.mon[self.name] = (frozenset(), True)
        return None

    def after_call(self, I, st, node, name, func, args, kwargs, v, fid):
        f = func.name if func is not None else name

        def el(k):
            if v.elts is not None and len(v.elts) > k:
                return v.elts[k].t
            return I.index_term(v.t, T.const(k))
        if f == 'sqpdfo_evalfgh_':
            for k in (0, 1, 3):
                st.env[('$', 'r%d' % k)] = Val(el(k))
        elif f == 'sqpdfo_augmX_evalf_':
            m = drive.argval(func, f, 2, args, kwargs)
            st.env[('$', 'fX')] = Val(el(1))
            st.env[('$', 'm')] = Val(m.t if m is not None else NO)
            st.env[('$', 'msg')] = Val(el(9))
        return v

    # ------------------------------------------------------------- causes
    def limits(self, I, st):
        for r, d in st.heap.items():
            if 'niter' not in d or 'nsimul' not in d:
                continue
            for q, o in drive.record_with(st, 'miter', 'msimul'):
                yield 'stop_on_max_iter', T.compare('ge', d['niter'].t, o['miter'].t)
                yield 'stop_on_max_simul', T.compare('ge', I.index_term(d['nsimul'].t, ONE), o['msimul'].t)

    def on_assumed(self, I, st, node, term, value, fid):
        got, ev = st.mon[self.name]
        new = set(self.causes(I, st, term, value, ev))
        if new - got:
            st.mon[self.name] = (got | new, ev)

    def causes(self, I, st, t, value, ev):
        while t.op == 'not':
            t, value = t.args[0], not value
        a, b, strict = None, None, None
        if t.op in ('lt', 'le') and len(t.args) == 2:
            a, b = t.args if value else (t.args[1], t.args[0])      # a <= b or a < b
        if not ev:
            names = self.inputs(I, t)
            if names:
                yield 'fail_on_argument'
            if names & {'lb', 'ub'}:
                yield 'fail_on_problem'
            if self.shrunk(a, b):
                yield 'fail_on_simul'
            return
        if not self.inmain(I) or 'sqpdfo_augmX_evalf_' in drive.stack(I):
            if self.failure(I, st, t, value) or (not self.inmain(I) and self.shrunk(a, b)):
                yield 'fail_on_simul'
            return
        if a is not None:
            for nm, c in self.limits(I, st):
                if c.op in ('le', 'lt') and set(c.args) == {a, b} and I.implied(st, c) is True:
                    yield nm
            d = self.var(st, 'delta')
            if d is not None and self.holds(I, a, d.t) and not self.holds(I, b, d.t) and self.small(st, b):
                yield 'stop_on_small_trust_region'
            fp = I.index_term(self.g(st, 'fX'), self.g(st, 'm'))
            if self.g(st, 'm') is not NO and self.holds(I, b, fp) and not T.contains(a, fp) and \
                    self.reduction(st, T.arith('sub', a, b)):
                yield 'fail_on_non_decrease'
        msg = self.g(st, 'msg')
        if msg is not NO:
            if t is msg and value or t.op == 'eq' and value and msg in t.args:
                yield 'stop_on_simul'
                yield 'fail_on_simul'

    def reduction(self, st, d):
        """the difference is the achieved reduction the step is judged by: it occurs in a value main keeps"""
        return any(k[0] == self.mainfid and T.contains(v.t, d) for k, v in st.env.items())

    def inputs(self, I, t):
        out = set()
        for x in self.parts(I, t):
            for s in T.subterms(x):
                if s.op == 'leaf':
                    out.add(str(s.pay))
                elif s.op in ('phi', 'isfield', 'isfield?', 'tok'):
                    out.add(s.op)
                    if s.op == 'phi':
                        # merged start data: bounds and their classification
                        out.update(('lb', 'ub'))
        return out

    def parts(self, I, t):
        seen, w = set(), [t]
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            pp = I.phi_parts.get(x)
            if pp:
                w.extend(pp)
        return seen

    def holds(self, I, t, d):
        """t was computed from d (on some path, when merged: passes over a loop share a merge)"""
        if T.contains(t, d):
            return True
        pp = I.phi_parts.get(t)
        return bool(pp) and any(T.contains(x, d) for x in pp)

    def small(self, st, b):
        n = T._num(b)
        if n is not None:
            return self.eps is not None and n <= self.eps * 1.0000001e-5
        x = self.var(st, 'x')
        if b.op == 'mul':
            for p, q in (b.args, b.args[::-1]):
                n = T._num(p)
                if n is not None and self.stall is not None and n <= self.stall * 1.0000001 and x is not None and \
                        q.op == 'call:norm_' and T.contains(q, x.t):
                    return True
        return False

    def failure(self, I, st, t, value):
        r = [self.g(st, 'r%d' % k) for k in (0, 1, 3)]
        if t is r[0]:
            return value
        if t.op == 'eq' and r[0] in t.args:
            o = t.args[0] if t.args[1] is r[0] else t.args[1]
            return value and T._num(o) != 0
        mine = [x for x in r[1:] if x is not NO and T.contains(t, x)]
        if not mine:
            return False
        if t.op in ('eq',):
            return not value
        if t.op in ('lt', 'le', 'truth'):
            return True
        return value

    def shrunk(self, a, b):
        """the initial radius was reduced until it is negligible next to the start point"""
        return a is not None and any(x.op in ('call:norm_', 'call:max_') for x in T.subterms(b))

    # -------------------------------------------------------------- stores
    def on_store_attr(self, I, st, node, rec, attr, old, new, fid):
        if attr != 'flag' or 'nsimul' not in st.heap.get(rec, {}):
            return
        vs = I.const_values(new.t)
        if vs is None:
            self.fail(I, node, 'a status that is not a known code is stored', 'vocabulary')
            return
        for c in vs:
            k = self.nm.get(T.const_value(c))
            if k is None:
                self.fail(I, node, 'a status that is not a declared code is stored: %s' % T.show(c), 'vocabulary')
            elif k in ('success', 'fail_unexpected'):
                self.event(I, node, 'vocabulary')
            else:
                self.event(I, node, 'cause')
                if k not in st.mon[self.name][0]:
                    self.fail(I, node, 'status %s is set on a path that did not establish its cause' % k, 'cause')

    def mkey(self, I, v):
        return v


class Carry(Causes):
    def on_return(self, I, st, node, func, val, fid):
        if func is not self.main:
            return
        d = self.info(st) or {}
        f = d.get('flag')
        self.judge(I, st, node, f)

    def judge(self, I, st, node, f):
        vs = I.const_values(f.t) if f is not None else None
        self.event(I, node, 'current')
        if vs is None:
            self.fail(I, node, 'the status returned is not a known code', 'vocabulary')
            return
        for c in vs:
            if I.implied(st, T.compare('eq', f.t, c)) is False:
                continue
            k = self.nm.get(T.const_value(c))
            if k not in ('success', 'fail_unexpected') and k not in st.mon[self.name][0]:
                self.fail(I, node, 'status %s is returned on a path that did not establish its cause in the last iteration'
                          % k, 'current')


def run(ctx, prog):
    ctx.rule('cause', 'each store of a status into the run record happens on a path that established its cause: niter >= '
                      'miter, nsimul[1] >= msimul, radius below its threshold, merit of the trial point not below the '
                      'reference, stop or failure reported by the latest evaluation, a test on the arguments before any '
                      'evaluation (success: P03; fail_unexpected: no cause demanded)')
    ctx.rule('current', 'at every return of the main loop and of sqpdfo_ the cause of the status was established since the '
                        'last evaluation and in the current iteration')
    ctx.rule('vocabulary', 'only declared codes are stored as status, and the declared codes are distinct')
    ctx.rule('message', 'sqpdfo_finish_ run with a declared code prints a line it does not print for an unknown code')
    m = Carry()
    m.setup(prog)
    R = drive.run([m])
    m.report(ctx)
    codes = std.codes(prog)
    stat = {k: v for k, v in codes.items() if is_status(k)}
    inv = {}
    for k, v in sorted(stat.items()):
        inv.setdefault(v, []).append(k)
    for v, ks in sorted(inv.items()):
        ctx.expect(len(ks) == 1, 'vocabulary', 'code %s' % v, 'sqpdfo/sqpdfo_values.py', 'codes %s share the value %s' % (ks, v))
    if R is None:
        return
    I = R.I
    e = prog.func('sqpdfo_')
    used = set()
    for st, v, node in R.out.ret:
        i = v.elts[2] if v.elts and len(v.elts) > 2 else None
        f = st.heap.get(i.rec, {}).get('flag') if i is not None and i.rec is not None else None
        vs = I.const_values(f.t) if f is not None else None
        if not vs:
            ctx.fail('current', 'return of sqpdfo_@%s' % node._site, drive.where(e, node), 'the status is not a known code')
            continue
        bad = []
        for c in vs:
            if I.implied(st, T.compare('eq', f.t, c)) is False:
                continue
            k = m.nm.get(T.const_value(c))
            used.add(k)
            if k not in ('success', 'fail_unexpected') and k not in st.mon['causes'][0]:
                bad.append(str(k))
        ctx.expect(not bad, 'current', 'return of sqpdfo_@%s' % node._site, drive.where(e, node),
                   'status %s is returned without its cause' % bad)
    messages(ctx, prog, used)
    ctx.require('cause', 10)
    ctx.require('current', 8)
    ctx.require('message', 6)
    ctx.note('statuses_returned', sorted(str(u) for u in used))


class Prints(Monitor):
    name = 'prints'

    def start(self, I, st):
        self.seen = set()

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if name in ('fprintf_', 'disp_', 'print') or name.endswith('.write') or name == 'm:write':
            self.seen.add((I.funcstack[-1].qual, node._site, tuple(T.show(a.t, 6) for a in args)))
        return None


def finish_prints(prog, code):
    f = prog.func('sqpdfo_finish_')
    p = Prints()
    cs = std.codes(prog)

    def setup(I, st, fid, fn):
        st.heap[('vals',)] = dict({k: Val(T.const(v)) for k, v in cs.items()}, **{'*methods': ()})
        st.heap[('info',)] = {'*open': Val(T.leaf('info')), '*methods': (), 'flag': Val(T.const(code))}
        st.heap[('opt',)] = {'*open': Val(T.leaf('options')), '*methods': (), 'verbose': Val(T.const(1))}
        recs = {'info': 'info', 'options': 'opt', 'values': 'vals'}
        for i, q in enumerate(fn.params):
            for k, r in recs.items():
                if q.strip('_') == k:
                    st.env[(fid, q)] = Val(T.leaf('rec:' + k), rec=(r,))
    R = D.analyse('sqpdfo_finish_', lambda: [p], setup, maxpasses=1, track=False)
    # the number of the code itself is no message
    return set((q, n, tuple(re.sub(r'(?<![\w.])%d(?![\w.])' % code, '#', a) for a in args)) for q, n, args in p.seen)


def messages(ctx, prog, used):
    f = prog.func('sqpdfo_finish_')
    base = finish_prints(prog, 987)
    wh = '%s:%d' % (f.mod.path, f.node.lineno)
    for k in sorted(u for u in used if u):
        got = finish_prints(prog, std.codes(prog)[k])
        ctx.expect(bool(got - base), 'message', k, wh, 'the final printout has no message for status %s' % k)
