"""P21: the record of evaluated points is append-only."""
import ast
from sv import driver as D, terms as T
from sv.interp import Val, Monitor
from sv.prog import AnalysisBroken
from . import drive

NO = T.const('none')
EVAL = 'sqpdfo_augmX_evalf_'
M = 2                                        # parameter: index of the new point
RECORD = {'X': 3, 'fX': 4, 'ciX': 5, 'ceX': 6}   # parameters of the evaluation routine, results 0..3 in this order
PRE_OUT = {'X': 23, 'fX': 24, 'ciX': 27, 'ceX': 29}
EXTRA = ('sqpdfo_swap_in_Y_', 'sqpdfo_find_smallf_')
HUGE = 1e20


def last_axis(idx):
    """the index along the last axis, None if it cannot be told"""
    t = idx
    if t.op == 'tuple':
        t = t.args[-1] if t.args else None
    while t is not None and t.op in ('list', 'call:array', 'call:numpy.array') and len(t.args) == 1:
        t = t.args[0]
    return t


def clip(base, idx):
    """the index selects the entries of the array that are beyond a huge number"""
    if idx.op not in ('le', 'lt') or len(idx.args) != 2:
        return False
    for a, b in (idx.args, idx.args[::-1]):
        c = T._num(a) if a.op == 'const' else None
        if c is not None and abs(c) >= HUGE:
            if b is base:
                # beyond: c <= b with c > 0, or b <= c with c < 0
                return (a is idx.args[0]) == (c > 0)
    return False


class Own(Monitor):
    """the evaluation routine alone: what it stores in the record it is given"""
    name = 'own'

    def __init__(self, g):
        self.g = g
        self.bad, self.ev = {}, {}

    def on_return(self, I, st, node, func, val, fid):
        if func is not self.g:
            return
        m = T.leaf('arg:' + self.g.params[M])
        for k, (r, p) in enumerate(RECORD.items()):
            v = val.elts[k] if val.elts and len(val.elts) > k else None
            self.ev.setdefault(('own', '%s:%s' % (func.qual, r), node._site), (func, node))
            if v is None or not self.appended(I, v.t, T.leaf('arg:' + self.g.params[p]), m, set()):
                self.bad.setdefault(('own', func.qual, 'the evaluation changes the record %s in another place than that of the new point' % r),
                                    (func, node))

    def appended(self, I, t, old, m, seen):
        if t is old or t in seen:
            return True
        seen.add(t)
        if t.op == 'phi':
            ps = [p for p in I.phi_parts.get(t, ()) if p is not t]
            return bool(ps) and all(self.appended(I, p, old, m, seen) for p in ps)
        if t.op == 'store':
            return last_axis(t.args[1]) is m and self.appended(I, t.args[0], old, m, seen)
        if t.op in ('call:copy', 'call:m:copy', 'call:numpy.copy') and len(t.args) == 1:
            return self.appended(I, t.args[0], old, m, seen)
        if t.op == 'concat' or t.op.startswith('call:') and t.op.split('.')[-1].split(':')[-1] in ('append', 'hstack', 'concatenate', 'concatenate_'):
            a = [x for x in t.args if x.op != 'const']
            if a and a[0].op in ('list', 'tuple'):
                a = list(a[0].args)
            return bool(a) and self.appended(I, a[0], old, m, seen)
        return False


class Archive(drive.InMain):
    name = 'archive'

    def setup(self, prog):
        super().setup(prog)
        self.inner = set(id(x) for x in ast.walk(self.loop))
        self.pre = prog.func('sqpdfo_prelim_')
        pn = drive.local_names(self.pre, PRE_OUT)
        self.arch = {self.main: {self.names[r]: r for r in RECORD}, self.pre: {pn[r]: r for r in RECORD}}
        self.fids = {}

    def on_stmt(self, I, st, node, fid):
        super().on_stmt(I, st, node, fid)
        if I.funcstack[-1] in self.arch:
            self.fids[I.funcstack[-1]] = fid

    def frame(self, I):
        for f in reversed(I.funcstack):
            if f in self.arch:
                return f
        return None

    def start(self, I, st):
        for n in ['last', 'loop'] + ['r:' + r for r in RECORD]:
            st.env[('$', n)] = Val(NO)

    def ghost(self, st, n):
        v = st.env.get(('$', n))
        return v.t if v is not None else NO

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if name == 'sqpdfo_main_':
            self.argm = [a.t for a in args]
        if name != EVAL:
            return None
        m = drive.argval(func, name, M, args, kwargs)
        self.event(I, node, 'new')
        if m is None:
            self.fail(I, node, 'a point is evaluated without an index', 'new')
        elif not self.inmain(I):
            if not self.counted(I, node, m.t):
                self.fail(I, node, 'the index of an evaluation of the initial design is not the number of the evaluations before it',
                          'new')
        else:
            last = self.ghost(st, 'last')
            if last is NO or not self.greater(m.t, last):
                self.fail(I, node, 'a point is recorded under an index that was used before', 'new')
            st.env[('$', 'last')] = Val(m.t)
            for k, (r, p) in enumerate(RECORD.items()):
                a = drive.argval(func, name, p, args, kwargs)
                v = st.env.get((self.mainfid, self.names[r]))
                if a is None or v is None or a.t is not v.t:
                    self.fail(I, node, 'the evaluation is given another record %s than that of the run' % r, 'kept')
        return None

    def greater(self, m, last):
        a, b = flat(m), flat(last)
        return a[1] == b[1] and a[0] - b[0] >= 1

    def counted(self, I, node, t):
        """t counts the rounds of the loop the call is in, from 0, with one evaluation per round"""
        if t.op != 'idx' or t.args[0].op != 'call:range':
            return False
        a = t.args[0].args
        if len(a) > 2 and T.const_value(a[2]) != 1 or len(a) > 1 and T.const_value(a[0]) != 0:
            return False
        f = I.funcstack[-1]
        best = None
        for x in drive.own(f.node):
            if isinstance(x, (ast.For, ast.While)) and any(y is node for y in ast.walk(x)):
                n = sum(1 for _ in ast.walk(x))
                if best is None or n < best[0]:
                    best = (n, x)
        if best is None or not isinstance(best[1], ast.For):
            return False
        calls = [y for y in ast.walk(best[1]) if isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == EVAL]
        return len(calls) == 1

    def after_call(self, I, st, node, name, func, args, kwargs, v, fid):
        if name == EVAL and v.elts and self.frame(I):
            for k, r in enumerate(RECORD):
                st.env[('$', 'r:' + r)] = Val(v.elts[k].t)
        return v

    def on_bind(self, I, st, node, name, old, new, fid):
        f = I.funcstack[-1]
        if f not in self.arch:
            return new
        if f is self.main and name == self.names['m'] and id(node) not in self.inner:
            X = st.env.get((fid, self.names['X']))
            x = X.t if X is not None else None
            self.event(I, node, 'first')
            if not (x is not None and flat(new.t) == flat(T.const(-1), T.app('call:size_', x, T.const(2)))) and \
                    new.t not in getattr(self, 'argm', []):
                self.fail(I, node, 'the run starts counting at another index than the number of points recorded', 'first')
            st.env[('$', 'last')] = Val(new.t)
        r = self.arch[f].get(name)
        if r is not None and (id(node) in self.inner or f is self.pre) and (old is None or old.t is not new.t):
            self.event(I, node, 'kept')
            if new.t is not self.ghost(st, 'r:' + r) and not (f is self.pre and (new.t is T.EMPTY or new.t.op == 'const')):
                self.fail(I, node, 'the record %s is replaced by something else than the result of an evaluation' % r, 'kept')
        return new

    def of_record(self, I, st, b):
        """the record a stored-into array is (the same object), if any"""
        f = self.frame(I)
        if f is None or f not in self.fids:
            return None
        for n, r in self.arch[f].items():
            v = st.env.get((self.fids[f], n))
            if v is None or v.t is T.EMPTY:
                continue
            if v.oid == b.oid if v.oid is not None and b.oid is not None else v.t is b.t:
                return r
        return None

    def inside(self, I):
        return any(f.name == EVAL for f in I.funcstack)

    def on_store_sub(self, I, st, node, base, idx, elem, new, fid):
        if not self.inside(I):
            r = self.of_record(I, st, base)
            if r is not None:
                self.event(I, node, 'kept')
                if not (r in ('ciX', 'ceX') and clip(base.t, idx.t)):
                    self.fail(I, node, 'recorded values of %s are overwritten' % r, 'kept')
        return new

    def on_mutate(self, I, st, node, base, how, fid):
        if not self.inside(I) and how not in ('subscript',):
            r = self.of_record(I, st, base)
            if r is not None:
                self.fail(I, node, 'the record %s is modified in place (%s)' % (r, how), 'kept')


def flat(*ts):
    """a sum as constant and sorted other terms"""
    c, out, w = 0, [], list(ts)
    while w:
        x = w.pop()
        if x.op == 'add':
            w += list(x.args)
        elif x.op == 'const' and T._num(x) is not None:
            c += T._num(x)
        else:
            out.append(x.tid)
    return c, tuple(sorted(out))


def run(ctx, prog):
    ctx.rule('own', 'the evaluation routine returns each record either as it got it or with the place of the new index filled')
    ctx.rule('new', 'each evaluation of the main loop gets an index provably greater than that of every evaluation before it; in '
                    'the initial design the index counts the rounds of the evaluating loop, with one evaluation per round')
    ctx.rule('first', 'the main loop starts counting at the number of points recorded')
    ctx.rule('kept', 'in the initial design and the main loop the records are only replaced by the results of an evaluation that was given them, and '
                     'stored into only to clip constraint values beyond a huge bound')
    g = prog.func(EVAL)
    s = Own(g)
    D.analyse(EVAL, lambda: [s], lambda I, st, fid, f: None, maxpasses=1, track=False)
    drive.InMain.report(s, ctx)
    ctx.require('own', 4)
    m = Archive()
    m.setup(prog)
    drive.run([m], summarise=drive.summarisable(prog, ()) + EXTRA)
    m.report(ctx)
    ctx.require('new', 3)
    ctx.require('first', 1)
    ctx.require('kept', 6)
