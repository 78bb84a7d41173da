"""P08: steps and measures use models of the current interpolation set."""
import ast
from sv import terms as T
from sv.interp import Val
from sv.prog import AnalysisBroken
from . import drive

NO = T.const('none')
# where a routine takes factorisation and set (QZ, RZ, Y), and where it returns a changed set with its factorisation
TAKES = {'bcdfo_computeP_': (0, 1, 2), 'bcdfo_include_in_Y_': (1, 2, 3), 'bcdfo_repair_Y_': (0, 1, 2),
         'bcdfo_poisedness_Y_': (0, 1, 2), 'sqpdfo_swap_in_Y_': (2, 3, 4), 'sqpdfo_find_smallf_': (1, 2, 3),
         'bcdfo_replace_in_Y_': (0, 1, 3), 'sqpdfo_computeHessian_': (24, 25, 17), 'bcdfo_find_new_yj_': (0, 1, 2),
         'bcdfo_computeLj_': (0, 1, 3)}
GIVES = {'bcdfo_include_in_Y_': (0, 1, 2), 'bcdfo_repair_Y_': (0, 1, 2), 'bcdfo_replace_in_Y_': (0, 1, 2),
         'bcdfo_augment_Y_': (1, 2, 3), 'sqpdfo_swap_in_Y_': (0, 1, 2), 'sqpdfo_find_smallf_': (2, 3, 4)}
CHANGES = set(GIVES)
# parameters of the main routine, from its interface
ENTRY = {'QZ': 17, 'RZ': 18, 'P': 24, 'gx': 25}
# the routines that re-base the set: taken as they are named
EXTRA = ('sqpdfo_swap_in_Y_', 'sqpdfo_find_smallf_')
HESS = {'gx': 10, 'gce': 12, 'P': 16, 'fY': 18, 'ciY': 19, 'ceY': 20}
SWAP = {'fY': 6, 'ciY': 7, 'ceY': 8}
MAIN = {'P': 13, 'gx': 14}
PRE = {'P': 35, 'gx': 33}
FIELDS = {'g': 'info.g', 'ae': 'info.ae'}
TAKEN = frozenset()        # the pending inclusion took place
MADE = ('zeros_', 'zeros', 'ones_', 'ones', 'empty')
ROLES = ('P', 'gx', 'gce', 'info.g', 'info.ae', 'M', 'lm')
VALUES = ('fY', 'ciY', 'ceY')


def is_call(t, name):
    return t.op == 'call:' + name or t.op == 'call' and t.pay == name


def gradients(t):
    """the gradP calls a value consists of (up to reshaping)"""
    while not is_call(t, 'bcdfo_gradP_'):
        if t.op in ('attr', 'call:copy', 'call:m:reshape', 'call:m:ravel', 'call:m:flatten', 'call:m:transpose', 'call:m:copy',
                    'index', 'call:array', 'call:asarray') and t.args:
            t = t.args[0]
        else:
            return []
    return [t]


def model_row(g):
    """the row of the model coefficients a gradient is taken of"""
    t = g.args[0]
    if t.op != 'index':
        return None
    k = t.args[1]
    if k.op == 'tuple' and k.args:
        k = k.args[0]
    if k.op == 'slice':
        a, b = k.args[:2]
        return a if flat(b) == flat(a, T.const(1)) else None
    while k.op in ('list', 'call:array') and len(k.args) == 1:
        k = k.args[0]
    return k


def flat(*ts):
    """a sum as constant and sorted other terms"""
    c, out, w = 0, [], list(ts)
    while w:
        x = w.pop()
        if x.op == 'add':
            w += list(x.args)
        elif x.op == 'const' and T._num(x) is not None:
            c += T._num(x)
        else:
            out.append(x.tid)
    return c, tuple(sorted(out))


class Fresh(drive.InMain):
    """mon state: (roles built before the latest change of the set, roles to be outdated if the pending inclusion took place
    or None)"""
    name = 'fresh'

    def setup(self, prog):
        super().setup(prog)
        self.roles = {}
        self.vals = {}
        self.yname = None
        self.vname = {}
        self.inner = set(id(x) for x in ast.walk(self.loop))
        for f, tab in ((self.main, MAIN),):
            d = self.roles[f.qual] = {}
            for r, n in drive.local_names(f, tab).items():
                d[n] = r
            w = self.vals[f.qual] = set()
            for x in drive.own(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                    if x.func.id == 'bcdfo_computeP_' and len(x.args) > 2 and isinstance(x.args[2], ast.Name):
                        self.yname = x.args[2].id
                    tab2 = {'sqpdfo_computeHessian_': HESS, 'sqpdfo_swap_in_Y_': SWAP}.get(x.func.id, {})
                    g = prog.byname.get(x.func.id)
                    for r, k in tab2.items():
                        e = x.args[k] if k < len(x.args) else None
                        for kw in x.keywords:
                            if g is not None and k < len(g.params) and kw.arg == g.params[k]:
                                e = kw.value
                        if isinstance(e, ast.Name):
                            if r in VALUES:
                                w.add(e.id)
                                self.vname.setdefault(r, e.id)
                            else:
                                d.setdefault(e.id, r)

    def start(self, I, st):
        st.mon[self.name] = (frozenset(), None)
        for r in ROLES + ('QZ', 'RZ', 'Y', 'pos'):
            st.env[('$', 'r:' + r)] = Val(NO)

    def enter(self, I, st, node, func, args, kwargs):
        """the main routine starts: the models it is given belong to the factorisation it is given"""
        a = {r: drive.argval(func, '', k, args, kwargs) for r, k in ENTRY.items()}
        if any(v is None for v in a.values()):
            raise AnalysisBroken('the call of the main routine lacks arguments')
        self.event(I, node, 'start')
        made = [t for t in [a['P'].t] if is_call(t, 'bcdfo_computeP_')]
        if not made or made[0].args[0] is not a['QZ'].t or made[0].args[1] is not a['RZ'].t:
            self.fail(I, node, 'the main loop is started with models not computed with the factorisation it is given', 'start')
        if not any(x is a['P'].t for x in T.subterms(a['gx'].t)):
            self.fail(I, node, 'the main loop is started with a gradient of another model', 'start')
        st.mon[self.name] = (frozenset(['lm']), None)
        for r, v in a.items():
            st.env[('$', 'r:' + r)] = Val(v.t)

    def mkey(self, I, v):
        return ('P' in v[0], bool(v[0]), None if v[1] is None else bool(v[1]))

    def join(self, I, vs):
        a = frozenset()
        p = None
        for s, q in vs:
            a |= s
            p = q if p is None else p if q is None else p | q
        return (a, p)

    def g(self, st, r):
        v = st.env.get(('$', 'r:' + r))
        return v.t if v is not None else NO

    def stale(self, st):
        s, p = st.mon[self.name]
        return s if p is None or p == TAKEN else s | p

    def outdate(self, st, roles=ROLES):
        s, p = st.mon[self.name]
        st.mon[self.name] = (s | frozenset(roles), p)

    # ----------------------------------------------------------- assignments
    def on_backedge(self, I, st, node, fid):
        s, p = st.mon[self.name]
        if node is self.loop and p is not None:
            st.mon[self.name] = (s | p, None)

    def scan(self, st, t):
        """the outdated roles a value is made of"""
        cur = {}
        for r in ROLES:
            x = self.g(st, r)
            if x is not NO:
                cur.setdefault(x, []).append(r)
        st_ = self.stale(st)
        out, seen, w = set(), set(), [t]
        while w:
            x = w.pop()
            if x in seen or len(seen) > 3000:
                continue
            seen.add(x)
            if any(is_call(x, k) for k in MADE):
                continue                   # a new array, filled afterwards
            if x.op != 'const' and x in cur:
                # one value in several roles: outdated only if it is in all of them
                if all(r in st_ for r in cur[x]):
                    out.update(cur[x])
                continue
            if x.op == 'call:bcdfo_computeP_' or x.op == 'call' and x.pay == 'bcdfo_computeP_':
                if x.args[0] is not self.g(st, 'QZ') or x.args[2] is not self.g(st, 'Y'):
                    out.add('P')
                continue
            if 'bcdfo_gradP_' in str(x.op) + str(x.pay):
                w.append(x.args[0])
                continue
            w += list(x.args)
        return out

    def put(self, st, r, t):
        bad = self.scan(st, t)
        s, p = st.mon[self.name]
        if bad:
            s |= {r}
        else:
            s -= {r}
            p = p - {r} if p else p
        st.mon[self.name] = (s, p)
        st.env[('$', 'r:' + r)] = Val(t)

    def on_bind(self, I, st, node, name, old, new, fid):
        f = I.funcstack[-1]
        d = self.roles.get(f.qual)
        if d is None:
            return new
        if name == self.yname and self.g(st, 'Y') is NO:
            st.env[('$', 'r:Y')] = Val(new.t)       # the set the main loop starts with
        if name in self.vals[f.qual] and id(node) in self.inner and (old is None or old.t is not new.t) :
            self.outdate(st)
        r = d.get(name)
        if r is not None:
            self.put(st, r, new.t)
            if r == 'gx':
                for g in gradients(new.t):
                    k = model_row(g)
                    if k is not None:
                        self.event(I, node, 'row')
                        if T.const_value(k) != 0:
                            self.fail(I, node, 'the gradient of the objective model is that of another model', 'row')
        return new

    def on_store_sub(self, I, st, node, base, idx, elem, new, fid):
        if self.inmain(I):
            i = idx.t.args[0] if idx.t.op == 'tuple' and idx.t.args else idx.t
            for g in gradients(elem.t):
                k = model_row(g)
                if k is None or i.op != 'idx' or i.args[0].op != 'call:range':
                    continue
                n = i.args[0].args
                if n[0].op == 'const' and len(n) > 1:
                    n = n[1:]
                mi, me = (st.env.get((self.mainfid, self.main.params[j])) for j in (3, 4))
                if mi is None or me is None:
                    continue
                want = [flat(T.const(1), i)] if n[0] is mi.t else []
                want += [flat(T.const(1), mi.t, i)] if n[0] is me.t else []
                self.event(I, node, 'row')
                if not want:
                    self.fail(I, node, 'the gradients of the constraint models are filled in over another number of rows', 'row')
                elif flat(k) not in want:
                    self.fail(I, node, 'a row of the Jacobian is the gradient of the model of another function', 'row')
        return new

    def on_store_attr(self, I, st, node, rec, attr, old, new, fid):
        if attr in FIELDS:
            self.put(st, FIELDS[attr], new.t)
        return None

    # ----------------------------------------------------------------- calls
    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if name == 'sqpdfo_main_':
            self.enter(I, st, node, func, args, kwargs)
        if not self.inmain(I):
            return None
        if name == 'bcdfo_computeP_' and I.funcstack[-1].name != 'sqpdfo_computeHessian_':
            self.values(I, st, node, drive.argval(func, name, 3, args, kwargs))
        if name in TAKES:
            a = [drive.argval(func, name, k, args, kwargs) for k in TAKES[name]]
            self.event(I, node, 'pair')
            if all(v is not None for v in a) and self.g(st, 'Y') is not NO:
                if any(v.t is not self.g(st, r) for v, r in zip(a, ('QZ', 'RZ', 'Y'))):
                    self.fail(I, node, '%s is called with a factorisation and a set that do not belong together' % name, 'pair')
        use = {'sqpdfo_solve_TR_bc_': ('info.g', 'info.ae', 'M', 'lm', 'P'),
               'sqpdfo_optimality_': ('info.g', 'info.ae', 'lm'),
               'sqpdfo_computeHessian_': ('P', 'gx', 'gce')}.get(name)
        if use is not None:
            self.event(I, node, 'current')
            for r in use:
                if r in self.stale(st) and not (r in ('gce', 'info.ae') and self.unconstrained(I, st)):
                    self.fail(I, node, '%s uses %s built before the latest change of the interpolation set' % (name, WORDS[r]),
                              'current')
                    self.forget(st, r)
        if name == 'sqpdfo_compute_multiplier_':
            self.event(I, node, 'current')
        return None

    def unconstrained(self, I, st):
        me = st.env.get((self.mainfid, self.main.params[4]))
        return me is not None and I.implied(st, T.compare('lt', T.const(0), me.t)) is False

    def values(self, I, st, node, v):
        """models of all functions are built from the values held for the set"""
        if v is None:
            return
        self.event(I, node, 'values')
        sub = set(T.subterms(v.t))
        for r, n in self.vname.items():
            x = st.env.get((self.mainfid, n))
            if x is None:
                continue
            if x.t not in sub and x.t is not T.EMPTY:
                self.fail(I, node, 'the models are computed from other %s than those held for the set' % VWORDS[r], 'values')

    def forget(self, st, r):
        s, p = st.mon[self.name]
        st.mon[self.name] = (s - {r}, p - {r} if p else p)

    def after_call(self, I, st, node, name, func, args, kwargs, v, fid):
        def el(k):
            if v.elts is not None and len(v.elts) > k:
                return v.elts[k].t
            return I.index_term(v.t, T.const(k))
        if not self.inmain(I):
            return v
        if name in GIVES:
            k = GIVES[name]
            st.env[('$', 'r:QZ')] = Val(el(k[0]))
            st.env[('$', 'r:RZ')] = Val(el(k[1]))
            st.env[('$', 'r:Y')] = Val(el(k[2]))
            self.event(I, node, 'change')
        if name in CHANGES:
            if name == 'bcdfo_include_in_Y_':
                s, p = st.mon[self.name]
                st.mon[self.name] = (s, frozenset(ROLES))
                st.env[('$', 'r:pos')] = Val(el(3))
            else:
                self.outdate(st)
        if name == 'bcdfo_augment_Y_':
            # included in the last place, which exists
            st.mon[self.name] = (st.mon[self.name][0], TAKEN)
            st.env[('$', 'r:pos')] = Val(T.arith('sub', el(0), T.const(1)))
        if name == 'sqpdfo_computeHessian_':
            s, p = st.mon[self.name]
            st.mon[self.name] = (s - {'M'}, p - {'M'} if p else p)
        if name == 'sqpdfo_compute_multiplier_':
            s, p = st.mon[self.name]
            bad = [r for r in ('info.g', 'info.ae') if r in self.stale(st)]
            if bad == ['info.ae'] and self.unconstrained(I, st):
                bad = []
            st.mon[self.name] = (s | {'lm'} if bad else s - {'lm'}, p - {'lm'} if p else p)
        return v

    def on_assumed(self, I, st, node, term, value, fid):
        s, p = st.mon[self.name]
        if s & {'gce', 'info.ae'} and self.unconstrained(I, st):
            s -= {'gce', 'info.ae'}
            st.mon[self.name] = (s, p)
        if p is None:
            return
        pos = self.g(st, 'pos')
        k = I.implied(st, T.compare('lt', pos, T.const(0)))
        if k is None:
            k = True if I.implied(st, T.compare('eq', pos, T.const(-1))) is True else None
        if k is True:
            if p == TAKEN:
                st.mon['$dead'] = True
            else:
                st.mon[self.name] = (s, None)
        elif k is False and p != TAKEN:
            st.mon[self.name] = (s | p, TAKEN)


VWORDS = {'fY': 'objective values', 'ciY': 'inequality values', 'ceY': 'constraint values'}
WORDS = {'P': 'model coefficients', 'gx': 'the gradient of the objective model', 'gci': 'the gradients of the inequality models',
         'gce': 'the Jacobian of the constraint models', 'info.g': 'the gradient in the run record',
         'info.ai': 'the inequality Jacobian in the run record', 'info.ae': 'the constraint Jacobian in the run record',
         'M': 'a Hessian', 'lm': 'multipliers'}


def run(ctx, prog):
    ctx.rule('current', 'at each step computation, optimality measure and Hessian update of the main loop, the model '
                        'coefficients, gradients, Jacobians, multipliers and Hessian used were built after the latest change '
                        'of the interpolation set or its values')
    ctx.rule('pair', 'each routine that takes factorisation and set gets those of the latest change of the set')
    ctx.rule('row', 'each gradient comes from the row of the model of its function')
    ctx.rule('values', 'models are computed from the values held for the set at that moment')
    ctx.rule('start', 'the main loop starts with models of the factorisation it is given')
    ctx.rule('change', 'changes of the set followed')
    m = Fresh()
    m.setup(prog)
    drive.run([m], summarise=drive.summarisable(prog, ()) + EXTRA)
    m.report(ctx)
    ctx.require('current', 6)
    ctx.require('pair', 8)
    ctx.require('change', 4)
    ctx.assumptions += ['a loop that fills a freshly made array of gradients fills all rows',
                        'bcdfo_include_in_Y_ returning position -1 leaves the set as it was']
