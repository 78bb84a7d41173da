"""P01: every objective evaluation is counted exactly once."""
from sv import std, terms as T
from sv.interp import Monitor
from . import drive

KEY = ('$', 'nsim')
ONE = T.const(1)


class Count(Monitor):
    """mon state: (calls not yet counted, any call or count so far)
    the array last written by a count is kept as a ghost variable next to the program's own"""
    name = 'count'

    def __init__(self):
        self.calls = {}
        self.incs = {}
        self.bad = {}

    def start(self, I, st):
        st.mon[self.name] = (0, False)

    def fail(self, I, node, text, what='count'):
        f = I.funcstack[-1]
        self.bad.setdefault((f.qual, text), (f, node, what))

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        u = std.user_call(name, args)
        if u is None:
            return None
        if u == '?':
            self.fail(I, node, 'a call that may be the objective could not be resolved')
        if u == 'f':
            self.calls[(I.funcstack[-1].qual, node._site)] = (I.funcstack[-1], node)
            n, any_ = st.mon[self.name]
            st.mon[self.name] = (min(n + 1, 3), True)
        return None

    def counters(self, st):
        for r, d in st.heap.items():
            v = d.get('nsimul')
            if v is not None:
                yield v

    def is_counter(self, st, base):
        for v in self.counters(st):
            if v is base or v.t is base.t and v.t.op == 'store' or (v.oid is not None and v.oid == base.oid):
                return True
        return False

    def on_store_sub(self, I, st, node, base, idx, elem, new, fid):
        if not self.is_counter(st, base):
            return new
        k = T.const_value(idx.t) if idx.t.op == 'const' else '?'
        if isinstance(k, int) and k not in (1, -1):
            return new
        if k != 1:
            self.fail(I, node, 'the counts are stored at an index that is not fixed')
            return new
        old = I.index_term(base.t, ONE)
        n, any_ = st.mon[self.name]
        if elem.t is T.arith('add', old, ONE) or elem.t is T.arith('add', ONE, old):
            self.incs[(I.funcstack[-1].qual, node._site)] = (I.funcstack[-1], node)
            g = st.env.get(KEY)
            if g is not None and g.t is not base.t:
                self.fail(I, node, 'the count that is increased is not the latest one')
            if not any_ and not self.zero(I, old):
                self.fail(I, node, 'the count does not start from zero')
            st.mon[self.name] = (max(n - 1, -3), True)
            st.env[KEY] = new.but(oid=None, lab=frozenset(), fac=None)
        elif any_:
            self.fail(I, node, 'the count is changed by something other than one')
        return new

    def zero(self, I, t):
        if t.op == 'const':
            return T.const_value(t) == 0
        if t.op == 'index':
            b = t.args[0]
            return b.op in ('call:numpy.zeros', 'call:zeros_', 'call:zeros', 'call:numpy.zeros_like', 'call:numpy.full') and (
                b.op != 'call:numpy.full' or T.const_value(b.args[1]) == 0)
        return False

    def on_store_attr(self, I, st, node, rec, attr, old, new, fid):
        if attr != 'nsimul':
            return
        g = st.env.get(KEY)
        if not st.mon[self.name][1]:
            st.env[KEY] = new.but(oid=None, lab=frozenset(), fac=None)
        elif g is None or new.t is not g.t:
            self.fail(I, node, 'the counts are replaced after the first evaluation')

    def mkey(self, I, v):
        return v[0]

    def join(self, I, vs):
        return (vs[0][0], any(v[1] for v in vs))

    def on_mutate(self, I, st, node, base, how, fid):
        if how != 'subscript' and base is not None and self.is_counter(st, base):
            self.fail(I, node, 'the counts are changed by %s' % how)

    def on_backedge(self, I, st, node, fid):
        n, a = st.mon[self.name]
        if n:
            self.fail(I, node, self.text(n))
            st.mon[self.name] = (0, a)        # reported once

    def text(self, n):
        return 'an evaluation is not counted' if n > 0 else 'a count without an evaluation'


def run(ctx, prog):
    ctx.rule('balance', 'between loop heads and at every exit of sqpdfo_ each call of the objective has been matched by '
                        'exactly one increment, by one, of nsimul[1], and each increment by one call')
    ctx.rule('kept', 'the count is increased where it was last increased, starts at zero and is stored nowhere else')
    ctx.rule('reported', 'the record returned holds the array that was increased last')
    m = Count()
    R = drive.run([m], watch=('nsimul',))
    for d, k in ((m.calls, 'call'), (m.incs, 'increment')):
        for (q, s), (f, node) in d.items():
            ctx.ok('balance', '%s in %s@%s' % (k, q, s), drive.where(f, node))
    for (q, s), (f, node) in m.incs.items():
        ctx.ok('kept', '%s@%s' % (q, s), drive.where(f, node))
    for (q, text), (f, node, what) in m.bad.items():
        ctx.fail('balance' if 'evaluation' in text and 'counts' not in text else 'kept', '%s: %s' % (q, text),
                 drive.where(f, node), text)
    e = prog.func('sqpdfo_')
    if R is None:
        return
    I = R.I
    for st, v, node in R.out.ret:
        n, any_ = st.mon['count']
        ctx.expect(n == 0, 'balance', 'return of sqpdfo_@%s' % node._site, drive.where(e, node), m.text(n))
        if not any_:
            continue
        g = st.env.get(KEY)
        info = v.elts[2] if v.elts is not None and len(v.elts) > 2 else None
        c = st.heap.get(info.rec, {}).get('nsimul') if info is not None and info.rec is not None else None
        if any_ and g is None:
            ctx.fail('reported', 'return of sqpdfo_@%s' % node._site, drive.where(e, node), 'nothing was counted')
            continue
        ctx.expect(c is not None and g is not None and c.t is g.t, 'reported', 'return of sqpdfo_@%s' % node._site,
                   drive.where(e, node), 'the record returned does not hold the latest count')
    ctx.require('balance', 4)
    ctx.require('reported', 2)
    ctx.note('states_joined', I.stats['joins'])
    ctx.note('functions_entered', sorted(I.funcs_seen))
    ctx.assumptions += ['the user functions do not call the solver themselves']
