"""P03: success is reported only after the optimality tests passed."""
from sv import std, terms as T
from sv.interp import Val
from . import drive

NO = T.const('none')
GH = ('po', 'yr', 'po2', 'yr2', 'feas', 'comp', 'glag', 'ox', 'olm', 'og', 'oae', 'oce', 'mx', 'mlm', 'flag', 'mxg')


def only_of(t, g):
    """t is computed from g and constants alone"""
    seen = [False]

    def go(x):
        if x is g:
            seen[0] = True
            return True
        if x.op == 'const':
            return True
        return bool(x.args) and x.op != 'phi' and all(go(y) for y in x.args)
    return go(t) and seen[0]


class Success(drive.InMain):
    """ghosts ('$', k): what the latest poisedness, multiplier and optimality computations used and returned
    mon state: (set repaired in this iteration, degree of the set raised in this iteration, main ended with success,
    step computed in this iteration)"""
    name = 'success'

    def start(self, I, st):
        st.mon[self.name] = (False, False, False, False)
        self.par = {}
        self.clear(st)

    def clear(self, st):
        for k in GH:
            st.env[('$', k)] = Val(NO)

    def g(self, st, k):
        v = st.env.get(('$', k))
        return v.t if v is not None else NO

    def put(self, st, k, v):
        st.env[('$', k)] = Val(v.t if hasattr(v, 't') else v)

    def on_stmt(self, I, st, node, fid):
        super().on_stmt(I, st, node, fid)
        if I.funcstack[-1] is not self.main:
            return
        if not self.par:
            for nm, pos in (('epsilon', 35), ('factor_CV', 43)):
                p = [q for q in self.main.params if q.strip('_') == nm] or self.main.params[pos:pos + 1]
                v = st.env.get((fid, p[0])) if p else None
                self.par[nm] = v.t if v is not None else None
        if node is self.loop:
            self.fresh(st)

    def fresh(self, st, step=False):
        st.mon[self.name] = (False, False, False, step)
        self.clear(st)

    def on_backedge(self, I, st, node, fid):
        if node is self.loop:
            self.fresh(st)

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if not self.inmain(I):
            return None
        rep, aug, d, step = st.mon[self.name]
        if name == 'sqpdfo_optimality_':
            a = [drive.argval(func, name, k, args, kwargs) for k in range(5)]
            self.put(st, 'ox', a[0])
            self.put(st, 'olm', a[1])
            self.put(st, 'lb', a[2])
            h = self.rec(st, a[4])
            for k, at in (('og', 'g'), ('oae', 'ae'), ('oce', 'ce')):
                self.put(st, k, h[at] if at in h else NO)
        elif name == 'sqpdfo_compute_multiplier_':
            a = [drive.argval(func, name, k, args, kwargs) for k in range(4)]
            self.put(st, 'mx', a[0])
            h = self.rec(st, a[3])
            self.put(st, 'mxg', h['g'] if 'g' in h else NO)
        elif name == 'bcdfo_repair_Y_':
            st.mon[self.name] = (True, aug, d, step)
        elif name in ('bcdfo_augment_Y_', 'bcdfo_replace_in_Y_') and not step:
            st.mon[self.name] = (True, True, d, step)
        elif name == 'sqpdfo_solve_TR_bc_':
            self.fresh(st, True)
        return None

    def rec(self, st, v):
        if v is None or v.rec is None:
            return {}
        return st.heap.get(v.rec, {})

    def after_call(self, I, st, node, name, func, args, kwargs, v, fid):
        if not self.inmain(I):
            return v

        def el(k):
            if v.elts is not None and len(v.elts) > k:
                return v.elts[k]
            return Val(I.index_term(v.t, T.const(k)))
        if name == 'sqpdfo_optimality_':
            self.put(st, 'feas', el(0))
            self.put(st, 'comp', el(1))
            h = self.rec(st, el(2))
            self.put(st, 'glag', h['glag'] if 'glag' in h else NO)
            self.event(I, node, 'measures')
        elif name == 'sqpdfo_compute_multiplier_':
            self.put(st, 'mlm', el(0))
        elif name in ('bcdfo_poisedness_Y_', 'bcdfo_repair_Y_'):
            k = 0 if name == 'bcdfo_poisedness_Y_' else 4
            if k or self.g(st, 'po') is NO:
                self.put(st, 'po', el(k))
                self.put(st, 'yr', el(k + 1))
            self.put(st, 'po2', el(k))
            self.put(st, 'yr2', el(k + 1))
            self.event(I, node, 'estimate')
        elif name == 'bcdfo_include_in_Y_':
            self.put(st, 'po', NO)
            self.put(st, 'po2', NO)
        return v

    def mkey(self, I, v):
        return v

    # -------------------------------------------------------------- decision
    def implied_ok(self, I, st, small, big):
        return I.implied(st, T.compare('le', small, big)) is True

    def on_return(self, I, st, node, func, val, fid):
        if func is not self.main:
            return
        d = self.info(st) or {}
        f = d.get('flag')
        ok = std.codes(I.prog)['success']
        if f is None:
            self.fail(I, node, 'the status returned is not known', 'tested')
            return
        self.put(st, 'flag', f)
        if I.implied(st, T.compare('eq', f.t, T.const(ok))) is False:
            st.mon[self.name] = (False, False, False, False)
            return
        rep, aug, _, _ = st.mon[self.name]
        st.mon[self.name] = (False, False, True, False)
        self.event(I, node, 'tested')
        opt = None
        for r, o in drive.record_with(st, 'tol_grad', 'tol_feas', 'tol_bnds'):
            if opt is None or self.names_options(st, r):
                opt = o
        cv, eps = self.par.get('factor_CV'), self.par.get('epsilon')
        for at, tol, gh in (('glagn', 'tol_grad', 'glag'), ('feasn', 'tol_feas', 'feas'), ('compl', 'tol_bnds', 'comp')):
            m = d.get(at)
            g = self.g(st, gh)
            if m is None or opt is None:
                self.fail(I, node, 'success without the measure %s' % at, 'tested')
                continue
            if g is NO or not only_of(m.t, g):
                self.fail(I, node, 'success with %s not taken from the latest optimality computation' % at, 'measured')
            t = opt[tol].t
            if self.implied_ok(I, st, m.t, t):
                continue
            if rep and cv is not None and self.relaxed(I, st, m.t, t, cv):
                continue
            self.fail(I, node, 'success on a path that did not establish %s <= %s%s' % (
                at, tol, '' if rep else ' (not relaxed: the set was not repaired)'), 'tested')
        if not aug:
            self.estimate(I, st, node, eps)
        x, lm = self.var(st, 'x'), self.var(st, 'lm')
        for k, v, nm in (('ox', x, 'point'), ('olm', lm, 'multiplier'), ('mx', x, 'point'), ('mlm', lm, 'multiplier')):
            if v is None or self.g(st, k) is NO or v.t is not self.g(st, k):
                self.fail(I, node, 'success measured for another %s than the one returned' % nm, 'measured')
        for k, at in (('og', 'g'), ('oae', 'ae'), ('oce', 'ce'), ('mxg', 'g')):
            v = d.get(at)
            if v is None or v.t is not self.g(st, k):
                self.fail(I, node, 'info.%s changed between the measures and the success' % at, 'measured')

    def names_options(self, st, r):
        return any(v.rec == r for k, v in st.env.items() if k[0] == self.mainfid)

    def relaxed(self, I, st, m, t, cv):
        for a, b in ((T.arith('div', m, cv), t), (m, T.arith('mul', t, cv)), (m, T.arith('mul', cv, t))):
            if self.implied_ok(I, st, a, b):
                return True
        return False

    def estimate(self, I, st, node, eps):
        for k in ('', '2'):
            po, yr = self.g(st, 'po' + k), self.g(st, 'yr' + k)
            if po is NO or yr is NO or eps is None:
                continue
            for t, v in st.facts.items():
                if t.op in ('le', 'lt') and len(t.args) == 2:
                    a, b = t.args
                    if not v:
                        a, b = b, a
                    if b is eps and T.contains(a, po) and T.contains(a, yr):
                        return
        self.fail(I, node, 'success without an interpolation error estimate of the current set within the accuracy threshold',
                  'estimated')


def run(ctx, prog):
    ctx.rule('tested', 'at every return of the main loop whose status may be success the path established that the three '
                       'measures are within tol_grad, tol_feas, tol_bnds (divided by factor_CV only if the set was '
                       'repaired in this iteration)')
    ctx.rule('measured', 'those measures come from the latest sqpdfo_optimality_ call, made with the point and multiplier '
                         'returned and with info.g, info.ae, info.ce as they are at the return; the multiplier comes from '
                         'sqpdfo_compute_multiplier_ at the same point and gradient')
    ctx.rule('estimated', 'the path established that a product of the latest poisedness and radius of the set, computed in '
                          'this iteration, is at most epsilon')
    ctx.rule('measures', 'optimality computations followed')
    ctx.rule('estimate', 'poisedness computations followed')
    ctx.rule('only', 'sqpdfo_ returns success only with the status of such a return of the main loop')
    m = Success()
    m.setup(prog)
    R = drive.run([m], watch=())
    for kind in ('tested',):
        pass
    m.report(ctx)
    if R is None:
        return
    I = R.I
    for r in ('measured', 'estimated'):
        for (kind, q, s), (f, node) in m.ev.items():
            if kind == 'tested':
                ctx.ok(r, '%s@%s' % (q, s), drive.where(f, node))
    e = prog.func('sqpdfo_')
    ok = T.const(std.codes(prog)['success'])
    n = 0
    for st, v, node in R.out.ret:
        i = v.elts[2] if v.elts and len(v.elts) > 2 else None
        f = st.heap.get(i.rec, {}).get('flag') if i is not None and i.rec is not None else None
        if f is None:
            ctx.fail('only', 'return of sqpdfo_@%s' % node._site, drive.where(e, node), 'the status returned is not known')
            continue
        if I.implied(st, T.compare('eq', f.t, ok)) is False:
            ctx.ok('only', 'return of sqpdfo_@%s' % node._site, drive.where(e, node))
            continue
        g = st.env.get(('$', 'flag'))
        ctx.expect(g is not None and g.t is f.t and g.t is not NO, 'only', 'return of sqpdfo_@%s' % node._site,
                   drive.where(e, node), 'success is returned that the main loop did not report')
    ctx.require('tested', 2)
    ctx.require('measures', 2)
    ctx.require('estimate', 2)
    ctx.require('only', 2)
    ctx.assumptions += ['augment branch: after bcdfo_augment_Y_ enlarged the set to the repair degree the estimate is not '
                        'recomputed; the repair degree is that of the initial set, so the branch is not taken']
    ctx.note('functions_entered', sorted(I.funcs_seen))
