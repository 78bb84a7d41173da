"""Function summaries: a callee interpreted once on symbolic arguments; its
effect is then replayed at call sites by substitution."""
from . import terms as T
from .terms import leaf, app_p, tok


class Summary(object):
    __slots__ = ('results', 'excs', 'root', 'parts')


class Mapper(object):
    def __init__(self, I, s, actual, root, newroot, recmap):
        self.I, self.s, self.actual, self.root, self.newroot = I, s, actual, root, newroot
        self.memo = {}
        self.smemo = {}
        self.recmap = recmap

    def site(self, x):
        if not isinstance(x, tuple):
            return x
        r = self.smemo.get(x)
        if r is None:
            if x[:len(self.root)] == self.root:
                r = self.newroot + tuple(self.site(y) for y in x[len(self.root):])
            else:
                r = tuple(self.site(y) for y in x)
            self.smemo[x] = r
        return r

    def rec(self, r):
        if r is None:
            return None
        m = self.recmap.get(r)
        if m is not None:
            return m
        return self.site(r)

    def open_arg(self, t):
        if t.op == 'leaf' and isinstance(t.pay, str) and t.pay.startswith('\xa7'):
            return self.actual.get(t.pay)
        return None

    def pure_val(self, t):
        """the actual value a bare input term stands for, or None"""
        a = self.open_arg(t)
        if a is not None:
            return a
        if t.op == 'attr':
            b = self.open_arg(t.args[0])
            if b is not None and b.rec is not None:
                d = self.s0.get(b.rec, {})
                v = self.I.rec_attr(b.rec, d, t.pay, self.st0)
                if v is not None:
                    return v
                return None
        if t.op == 'leaf' and isinstance(t.pay, str) and t.pay.startswith('glob0:'):
            return self.st0.env.get(('G', t.pay[6:]))
        return None

    def term(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        v = self.pure_val(t)
        if v is not None:
            r = v.t
        elif t.op in ('tok', 'phi'):
            ns = self.site(t.pay[0])
            sub = t.pay[1]
            r = T._mk(t.op, (), (ns, sub))
            pp = self.parts.get(t)
            if pp and r is not t:
                self.memo[t] = r
                self.I.add_parts(r, [self.term(x) for x in pp])
        elif t.op == 'isfield':
            b = self.open_arg(t.args[0])
            r = None
            if b is not None and b.rec is not None:
                d = self.s0.get(b.rec, {})
                x = d.get(t.pay)
                if x is not None and not x.undef:
                    r = T.TRUE
                elif '*open' in d:
                    r = app_p('isfield', t.pay, d['*open'].t)
                else:
                    r = T.FALSE if x is None else None
            if r is None:
                r = tok(self.newroot, 'isfield:' + t.pay)
        elif not t.args:
            r = t
        else:
            na = tuple(self.term(a) for a in t.args)
            r = t if all(x is y for x, y in zip(na, t.args)) else T.rebuild(t.op, na, t.pay)
        self.memo[t] = r
        return r

    def val(self, v):
        p = self.pure_val(v.t) if v.rec is None or v.rec in self.recmap else None
        if p is not None:
            return p
        fn = v.fn
        if fn is not None and fn[0] in ('bound', 'recdict'):
            fn = (fn[0], self.val(fn[1])) + tuple(fn[2:])
        return v.but(t=self.term(v.t), oid=self.site(v.oid) if v.oid else None, rec=self.rec(v.rec), fn=fn,
                     elts=tuple(self.val(x) for x in v.elts) if v.elts is not None else None, fac=None)


def const_attrs(I, d):
    real = {a: x for a, x in d.items() if not a.startswith('*')}
    ok = {a: x for a, x in real.items() if x.t.op == 'const' and not x.undef}
    if '*open' not in d and len(ok) == len(real):
        return ok
    return {a: x for a, x in ok.items() if a in I.tested_attrs}


def compute(I, tf, names, vals, heap0):
    """interpret tf with symbolic stand-ins for the (hashable) argument pattern"""
    from .interp import Interp, State, Val
    J = type(I)(I.prog, [], I.inline_pred, I.models, I.maxdepth, tracked=set())
    J.summarise = set(x for x in I.summarise if x != tf.name)
    J.summaries = I.summaries
    J.tested_attrs = I.tested_attrs
    J.loopkeys = True
    J.boolloops = I.boolloops
    root = ('S', tf.name)
    st = State()
    fid = root
    J.fidfunc[fid] = tf
    J.funcstack = [tf]
    for p, v in zip(names, vals):
        nm = '\xa7' + p
        if v.rec is not None:
            rec = ('open', nm)
            d = {'*open': Val(leaf(nm)), '*methods': ()}
            d.update(const_attrs(I, heap0.get(v.rec, {})))
            st.heap[rec] = d
            st.env[(fid, p)] = Val(leaf(nm), rec=rec)
        elif v.fn is not None and v.fn[0] not in ('bound', 'recdict'):
            st.env[(fid, p)] = v
        elif v.t.op == 'const' and not isinstance(T.const_value(v.t), float) or v.t is T.EMPTY:
            st.env[(fid, p)] = v
        else:
            st.env[(fid, p)] = Val(leaf(nm), oid=('arg', nm))
    J.pending_exc = []
    o = J.block(tf.body, [st], fid, tf)
    res = [(s, v) for s, v, nd in o.ret] + [(s, None) for s in o.normal]
    from .interp import VNONE
    pairs = []
    for s, v in res:
        v = v if v is not None else VNONE
        for k in [k for k in s.env if k[0] != 'G']:
            del s.env[k]
        s.env[(fid, '$gc')] = v
        J.gc(s)
        del s.env[(fid, '$gc')]
        pairs.append((s, v))
    S = Summary()
    S.results = J.merge_results(pairs, ('ret', root, 'sum'), fid, None) if len(pairs) > 1 else pairs
    S.excs = [x for _, x in o.exc]
    S.root = root
    S.parts = J.phi_parts
    I.funcs_seen |= J.funcs_seen | {tf.qual}
    I.sum_stats = getattr(I, 'sum_stats', {})
    I.sum_stats[tf.name] = I.sum_stats.get(tf.name, 0) + 1
    return S


def pattern(I, v, heap0):
    if v.rec is not None:
        return ('R', tuple(sorted((a, x.t.tid) for a, x in const_attrs(I, heap0.get(v.rec, {})).items())))
    if v.fn is not None:
        return ('F', str(v.fn[0]), v.t.tid)
    if v.t.op == 'const' and not isinstance(T.const_value(v.t), float) or v.t is T.EMPTY:
        return ('C', v.t.tid)
    return 'V'


def apply(I, e, tf, args, kwargs, s, fid):
    from .interp import State, Val
    nfid = fid + (e._site,)
    I.bind_params(e, tf, args, kwargs, s, nfid, fid, None)
    names = list(tf.params) + list(tf.kwonly)
    if tf.vararg:
        names.append(tf.vararg)
    vals = [s.env.pop((nfid, p)) for p in names]
    for k in [k for k in s.env if k[0] == nfid]:
        del s.env[k]
    key = (tf.qual, tuple(pattern(I, v, s.heap) for v in vals))
    S = I.summaries.get(key)
    if S is None:
        S = I.summaries[key] = compute(I, tf, names, vals, s.heap)
    actual = {'\xa7' + p: v for p, v in zip(names, vals)}
    recmap = {('open', '\xa7' + p): v.rec for p, v in zip(names, vals) if v.rec is not None}
    st0 = s
    out = []
    for rs, rv in S.results:
        n = s.copy()
        M = Mapper(I, n, actual, S.root, nfid, recmap)
        M.st0 = st0
        M.parts = S.parts
        M.s0 = st0.heap
        # records
        for r, d in rs.heap.items():
            nr = M.rec(r)
            base = None
            if '*open' in d:
                b = M.open_arg(d['*open'].t)
                if b is not None and b.rec is not None:
                    base = st0.heap.get(b.rec, {})
            nd = dict(base) if base is not None else {}
            for a, v in d.items():
                if a == '*open':
                    if base is None:
                        nd[a] = v
                    continue
                if a.startswith('*'):
                    if a not in nd:
                        nd[a] = v
                    continue
                p = M.pure_val(v.t) if v.rec is None else None
                if p is not None:
                    nd[a] = p
                else:
                    w = M.val(v)
                    if w.undef and base is not None and a in base and not base[a].undef:
                        w = w.but(undef=False)
                    nd[a] = w
            n.heap[nr] = nd
        for k, v in rs.env.items():
            if k[0] == 'G':
                n.env[k] = M.val(v)
        out.append((n, M.val(rv)))
    if S.excs and I.pending_exc is not None:
        for x in set(S.excs):
            I.pending_exc.append((s.copy(), x))
    return I.merge_results(out, ('ret',) + I.site(e, fid), fid, I.funcstack[-1] if I.funcstack else None) \
        if len(out) > 1 else out
