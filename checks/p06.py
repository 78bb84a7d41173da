"""P06: points, objective values and constraint values that belong together stay together."""
import ast
from sv import driver as D, terms as T
from sv.interp import Val, Monitor
from sv.prog import AnalysisBroken
from . import drive
from .drive import subterm

NO = T.const('none')
SWAP, SMALL, AUGM = 'sqpdfo_swap_in_Y_', 'sqpdfo_find_smallf_', 'sqpdfo_augmX_evalf_'
EXTRA = (SWAP, SMALL)
# argument and result positions of the quantities of the interpolation set
ARGS = {SWAP: {'Y': 4, 'ind': 5, 'f': 6, 'ci': 7, 'ce': 8},
        SMALL: {'Y': 3, 'f': 4, 'ci': 5, 'ce': 6, 'ind': 7, 'i_xbest': 8, 'fx': 14}}
RETS = {SWAP: {'Y': 2, 'ind': 3, 'f': 4, 'ci': 5, 'ce': 6},
        SMALL: {'fx': 1, 'Y': 4, 'f': 5, 'ci': 6, 'ce': 7, 'ind': 8, 'i_xbest': 9}}
RECORD = {'f': 'fX', 'ci': 'ciX', 'ce': 'ceX'}
STAGES = {SWAP, SMALL, 'bcdfo_computeP_', 'sqpdfo_computeHessian_'}
PLACE = {'bcdfo_include_in_Y_': lambda I, t: I.index_term(t, T.const(3)),
         'bcdfo_augment_Y_': lambda I, t: T.arith('sub', I.index_term(t, T.const(0)), T.const(1))}
MESSAGE = {'ind': 'index of the point', 'f': 'objective value', 'ci': 'inequality values', 'ce': 'constraint values'}


def roles(f):
    """role -> local name of the main routine, from the positions in the calls of swap and find_smallf"""
    n = {}
    for x in drive.own(f.node):
        if not isinstance(x, ast.Assign) or not isinstance(x.value, ast.Call) or not isinstance(x.value.func, ast.Name):
            continue
        g = x.value.func.id
        if g not in RETS or not isinstance(x.targets[0], ast.Tuple):
            continue
        for tab, es in ((RETS[g], x.targets[0].elts), (ARGS[g], x.value.args)):
            for r, k in tab.items():
                if k < len(es) and isinstance(es[k], ast.Name):
                    d = n.setdefault(r, {})
                    d[es[k].id] = d.get(es[k].id, 0) + 1
    out = {r: max(sorted(d), key=d.get) for r, d in n.items()}
    if not set(('ind', 'f', 'ce', 'ci')) <= set(out):
        raise AnalysisBroken('the arrays of the interpolation set are not found in %s' % f.qual)
    return out


class Together(drive.InMain):
    """mon state: roles stored for the point just recorded (frozenset), whether a test of the constraint arrays lies on the path;
    ghosts: p position and its inclusion place, front: index of the point in the first position, fxof: index of the point the
    best value belongs to"""
    name = 'together'

    def setup(self, prog):
        super().setup(prog)
        self.roles = roles(self.main)
        self.nodes = {}
        self.recs = {r: set() for r in RECORD.values()}
        self.inner = set(id(x) for x in ast.walk(self.loop))

    def start(self, I, st):
        st.mon[self.name] = (frozenset(), None, False)
        for n in ('p', 'place', 'inx', 'y', 'front', 'fxof', 'last'):
            st.env[('$', n)] = Val(NO)

    def mkey(self, I, v):
        return v

    def cur(self, st, name):
        v = st.env.get((self.mainfid, self.names.get(name, name)))
        return v.t if v is not None else None

    def g(self, st, n):
        v = st.env.get(('$', n))
        return v.t if v is not None else NO

    def on_undef(self, I, st, node, name, maybe, fid):
        if not maybe:
            st.mon['$dead'] = True

    # -- stores into the arrays of the interpolation set --------------------------------
    def role_of(self, st, base):
        for r, n in self.roles.items():
            v = st.env.get((self.mainfid, n))
            if v is not None and v.oid == base.oid and r in MESSAGE:
                return r
        return None

    def on_store_sub(self, I, st, node, base, idx, elem, new, fid):
        if self.mainfid is None or self.main not in I.funcstack:
            return new
        if any(f.name in STAGES or f.name == AUGM for f in I.funcstack):
            return new
        for r in self.recs:
            v = st.env.get((self.mainfid, self.names.get(r, r)))
            if v is not None and v.oid == base.oid:
                self.recs[r].add(new.t)
        r = self.role_of(st, base)
        if r is not None:
            self.stored(I, st, node, r, idx.t, elem.t)
        return new

    def stored(self, I, st, node, r, p, e):
        if p.op == 'tuple':
            p = p.args[-1]
        if p.op == 'list' and len(p.args) == 1:
            p = p.args[0]
        done, site, excuse = st.mon[self.name]
        if done and self.g(st, 'p') is not p:
            if self.more(I, st, done, excuse):
                if r == 'ind' or 'ind' in done:
                    self.incomplete(I, st, node)
                else:
                    self.fail(I, node, 'the %s is stored in another position than the rest of the point' % MESSAGE[r], 'together')
            done = frozenset()
        m = self.cur(st, 'm')
        self.event(I, node, 'together')
        if r == 'ind':
            ok = e is m
        elif r == 'f':
            ok = e is I.index_term(self.cur(st, 'fX'), m)
        else:
            rec = self.recs[RECORD[r]]
            ok = subterm(I, e, lambda t: t.op == 'index' and t.args[0] in rec and
                         (t.args[1] is m or t.args[1].op in ('tuple', 'list') and subterm(I, t.args[1], lambda u: u is m)),
                         self.loop)
            ok = ok or e.op == 'emptyarray'
        if not ok:
            self.fail(I, node, 'the %s stored in the interpolation set is not that of the point evaluated last' % MESSAGE[r],
                      'together')
        if not done:
            site = node._site
            self.nodes[site] = node
            st.env[('$', 'p')] = Val(p)
        st.mon[self.name] = (done | {r}, site, excuse)

    def more(self, I, st, done, excuse):
        if not {'ind', 'f'} <= done:
            return True
        if 'ce' in done or excuse:
            return False
        me = st.env.get((self.mainfid, self.main.params[4]))
        return me is None or I.implied(st, T.compare('gt', me.t, T.const(0))) is not False

    def incomplete(self, I, st, node):
        done, site, excuse = st.mon[self.name]
        miss = [MESSAGE[r] for r in ('ind', 'f', 'ce') if r not in done]
        f, nd = self.main, self.nodes.get(site, node)
        self.bad.setdefault(('together', f.qual, 'a point enters the interpolation set without its %s' % miss[0]), (f, nd))

    def check(self, I, st, node):
        done, site, excuse = st.mon[self.name]
        if not done:
            return
        if self.more(I, st, done, excuse):
            self.incomplete(I, st, node)
        p, y, inx, place = (self.g(st, k) for k in ('p', 'y', 'inx', 'place'))
        self.event(I, self.nodes[site], 'place')
        same = inx is y and (place is p or I.implied(st, T.compare('eq', place, p)) is True)
        if not same and not subterm(I, y, lambda t: t.op == 'index' and subterm(I, t.args[1], lambda u: u is p)):
            self.fail(I, self.nodes[site], 'a point is recorded in another position of the interpolation set than it was put in',
                      'place')
        st.env[('$', 'last')] = Val(p)
        st.mon[self.name] = (frozenset(), None, False)

    def on_assumed(self, I, st, node, term, value, fid):
        if self.mainfid is None or self.main not in I.funcstack:
            return
        done, site, excuse = st.mon[self.name]
        if not excuse and 'ce' not in done and (done or I.funcstack[-1] is not self.main):
            ce = [self.cur(st, self.roles['ce']), self.cur(st, 'ceX')]
            if any(f.name in STAGES or f.name == AUGM for f in I.funcstack):
                return
            if subterm(I, term, lambda t: t in ce or t.op == 'index' and t.args[0] in self.recs['ceX']):
                st.mon[self.name] = (done, site, True)

    # -- calls ---------------------------------------------------------------------------
    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if self.mainfid is None or I.funcstack[-1] is not self.main and name not in PLACE and name != AUGM:
            return None
        if self.main not in I.funcstack or any(f.name in STAGES for f in I.funcstack):
            return None
        if name in STAGES:
            self.check(I, st, node)
        if name in ARGS and func is not None:
            self.event(I, node, 'handed')
            for r, k in ARGS[name].items():
                v = drive.argval(func, name, k, args, kwargs)
                c = self.cur(st, self.roles.get(r, r))
                if v is None or c is None or v.t is not c:
                    self.fail(I, node, '%s receives another value as argument %d (%s)' % (name, k + 1, r), 'handed')
        if name == SWAP:
            a, b = (drive.argval(func, name, k, args, kwargs) for k in (0, 1))
            last = self.g(st, 'last')
            if a is not None and b is not None:
                if T._num(a.t) == 0 and b.t is last or T._num(b.t) == 0 and a.t is last:
                    st.env[('$', 'front')] = Val(self.cur(st, 'm'))
                else:
                    st.env[('$', 'front')] = Val(NO)
        elif name == AUGM:
            v = drive.argval(func, name, 1, args, kwargs)
            st.env[('$', 'y')] = Val(v.t if v is not None else NO)
            done, site, excuse = st.mon[self.name]
            st.mon[self.name] = (done, site, False)
        elif name in PLACE:
            v = drive.argval(func, name, 0, args, kwargs)
            st.env[('$', 'inx')] = Val(v.t if v is not None else NO)
        return None

    def after_call(self, I, st, node, name, func, args, kwargs, v, fid):
        if func is self.main and v.elts:
            for r in ('X', 'ceX', 'i_xbest', 'fx'):
                st.env[('$', 'out:' + r)] = Val(v.elts[drive.MAIN_OUT[r]].t)
            return v
        if self.mainfid is None or self.main not in I.funcstack or any(f.name in STAGES for f in I.funcstack):
            return v
        if name in PLACE:
            st.env[('$', 'place')] = Val(PLACE[name](I, v.t))
        if name in RETS and v.elts:
            self.results = {v.elts[k].t: (name, r) for r, k in RETS[name].items()}
            if name == SMALL:
                st.env[('$', 'front')] = Val(v.elts[RETS[SMALL]['i_xbest']].t)
                st.env[('$', 'smallfx')] = Val(v.elts[RETS[SMALL]['fx']].t)
        return v

    results = {}

    def on_bind(self, I, st, node, name, old, new, fid):
        if I.funcstack[-1] is not self.main:
            return new
        for r in self.recs:
            if name == self.names.get(r, r):
                self.recs[r].add(new.t)
        h = self.results.get(new.t)
        if h is not None:
            self.event(I, node, 'handed')
            want = self.roles.get(h[1], h[1])
            if name != want and name in self.roles.values():
                self.fail(I, node, 'the %s returned by %s is kept as something else' % (h[1], h[0]), 'handed')
        if name == self.names['fx']:
            m, i = self.cur(st, 'm'), self.cur(st, 'i_xbest')
            fX = self.cur(st, 'fX')
            if new.t is self.g(st, 'smallfx') and new.t is not NO:
                w = self.g(st, 'front')
            elif m is not None and new.t is I.index_term(fX, m):
                w = m
            elif i is not None and new.t is I.index_term(fX, i):
                w = i
            elif old is not None and new.t is old.t:
                w = self.g(st, 'fxof')
            else:
                w = NO
                if old is not None:
                    self.fail(I, node, 'the best objective value is set to a value that is not that of the best or latest point',
                              'best')
            st.env[('$', 'fxof')] = Val(w)
        elif name == self.names['i_xbest'] and self.g(st, 'front') is NO and id(node) not in self.inner:
            st.env[('$', 'front')] = new
        elif old is not None and new.t.op == 'store' and new.t.args[0] is old.t:
            for r, n in self.roles.items():
                if n == name and r in MESSAGE and new.oid != old.oid:
                    self.stored(I, st, node, r, new.t.args[1], new.t.args[2])
        return new

    def consistent(self, I, st, node):
        i, w, fr = self.cur(st, 'i_xbest'), self.g(st, 'fxof'), self.g(st, 'front')
        if w is NO:
            return
        self.event(I, node, 'best')
        if w is not i:
            self.fail(I, node, 'the best objective value and the index of the best point are those of different points', 'best')
        if isinstance(node, (ast.While, ast.For)) and fr is not i:
            self.fail(I, node, 'the point in the first position of the interpolation set is not the best point', 'best')

    def on_backedge(self, I, st, node, fid):
        if self.mainfid is None or self.main not in I.funcstack:
            return
        if I.funcstack[-1] is self.main:
            self.check(I, st, node)
        if node is self.loop:
            self.consistent(I, st, node)

    def on_return(self, I, st, node, func, val, fid):
        if func is self.main:
            self.consistent(I, st, node)
        elif func.name == 'sqpdfo_' and st.env.get(('$', 'out:X')) is not None:
            X, ceX, i, fx = (self.g(st, 'out:' + r) for r in ('X', 'ceX', 'i_xbest', 'fx'))
            self.event(I, node, 'result')
            col = lambda t, rec: subterm(I, t, lambda u: u.op == 'index' and u.args[0] is rec and
                                         subterm(I, u.args[1], lambda w: w is i))
            if not val.elts or not col(val.elts[0].t, X):
                self.fail(I, node, 'the point returned is not the best point of the record', 'result')
            d = st.heap.get(val.elts[2].rec) if val.elts and len(val.elts) > 2 else None
            if d is None or d['f'].t is not fx:
                self.fail(I, node, 'the objective value returned is not that of the best point', 'result')
            if d is not None and not col(d['ce'].t, ceX) and self.nonempty(I, st, ceX):
                self.fail(I, node, 'the constraint values returned are not those of the best point', 'result')

    def nonempty(self, I, st, t):
        k = I.implied(st, T.app('call:isempty_', t))
        return k is not True


class Alone(Monitor):
    """a routine analysed by itself; bad and ev as in InMain"""
    name = 'alone'

    def __init__(self, g):
        self.g = g
        self.arg = [T.leaf('arg:' + p) for p in g.params]
        self.bad, self.ev = {}, {}
    fail, event, report = drive.InMain.fail, drive.InMain.event, drive.InMain.report

    def mkey(self, I, v):
        return v


def writes(t, arg):
    """[(position, element)] if t is arg with single elements or columns replaced, else None"""
    out = []
    while t is not arg:
        if t.op != 'store':
            return None
        t, p, e = t.args
        p = last(p)
        if p.op in ('list', 'tuple') and e.op == 'index' and last(e.args[1]).op == p.op:
            q = last(e.args[1])
            if len(q.args) != len(p.args):
                return None
            out += [(a, ('of', e.args[0], b)) for a, b in zip(p.args, q.args)]
        elif e.op == 'index':
            out.append((p, ('of', e.args[0], last(e.args[1]))))
        else:
            return None
    return out


def last(p):
    return last(p.args[-1]) if p.op == 'tuple' and p.args and p.args[0].op == 'slice' else \
        p.args[0] if p.op == 'list' and len(p.args) == 1 else p


def views(e):
    """names of arrays of which the expression may be a view (a slice that is not copied)"""
    if isinstance(e, ast.IfExp):
        return views(e.body) + views(e.orelse)
    if isinstance(e, ast.BoolOp):
        return sum([views(x) for x in e.values], [])
    if isinstance(e, (ast.Tuple, ast.List)):
        return sum([views(x) for x in e.elts], [])
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name):
        xs = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        if any(isinstance(x, ast.Slice) for x in xs) and not any(isinstance(x, ast.List) for x in xs):
            return [e.value.id]
    return []


class Swap(Alone):
    """mon state: the constraint arrays that were tested on the path"""

    def start(self, I, st):
        st.mon[self.name] = frozenset()

    def on_assumed(self, I, st, node, term, value, fid):
        for r in ('ci', 'ce'):
            if subterm(I, term, lambda t: t is self.arg[ARGS[SWAP][r]]):
                st.mon[self.name] |= {(r, value)}

    def on_stmt(self, I, st, node, fid):
        self.stmt = node

    # a slice kept without a copy shows what is stored into its array later
    def on_bind(self, I, st, node, name, old, new, fid):
        k = st.mon[self.name]
        k = frozenset(x for x in k if x[:2] not in (('view', name), ('stale', name)))
        for v in views(getattr(self.stmt, 'value', None)):
            b = st.env.get((fid, v))
            if b is not None:
                k |= {('view', name, b.oid)}
        st.mon[self.name] = k
        return new

    def on_store_sub(self, I, st, node, base, idx, elem, new, fid):
        k = st.mon[self.name]
        s = self.stmt
        v = getattr(s, 'value', None)
        if isinstance(v, ast.Tuple) and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple):
            ts = [t for t in s.targets[0].elts if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)]
            if len([t for t in ts if st.env.get((fid, t.value.id)) is not None and
                    st.env[(fid, t.value.id)].oid == base.oid]) > 1 and \
                    any(st.env.get((fid, n)) is not None and st.env[(fid, n)].oid == base.oid for n in views(v)):
                self.fail(I, node, 'an entry is read through a view of the array after it was overwritten', 'swap')
        for x in ast.walk(v) if v is not None else ():
            if isinstance(x, ast.Name) and ('stale', x.id) in k:
                self.fail(I, node, 'an entry is read through a view of the array after it was overwritten', 'swap')
        st.mon[self.name] = k | {('stale', x[1]) for x in k if x[0] == 'view' and x[2] == base.oid}
        return new

    def on_return(self, I, st, node, func, val, fid):
        if func is not self.g:
            return
        if not val.elts:
            raise AnalysisBroken('%s returns no tuple' % self.g.qual)
        i, j = self.arg[:2]
        same = not any(I.implied(st, T.compare('lt', a, b)) for a, b in ((i, j), (j, i)))
        used = None
        for r, k in RETS[SWAP].items():
            self.event(I, node, 'swap')
            a, t = self.arg[ARGS[SWAP][r]], val.elts[k].t
            w = writes(t, a)
            if w == [] and (same or any(x[0] == r for x in st.mon[self.name])):
                continue
            d = set((p, e) for p, e in w or ())
            ps = set(p for p, e in d)
            if len(ps) == 2:
                p, q = ps
                used = used or ps
            if len(ps) != 2 or ps != used or d != {(p, ('of', a, q)), (q, ('of', a, p))} or \
                    not all(subterm(I, T.app('tuple', p, q), lambda t: t is x) for x in (i, j)):
                self.fail(I, node, 'the array %s does not come back with just the two entries exchanged' % r, 'swap')


class Small(Alone):
    """mon state: the set was rearranged"""

    def start(self, I, st):
        st.mon[self.name] = False

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if name == SWAP and self.g in I.funcstack:
            st.mon[self.name] = True
            for r, k in ARGS[SWAP].items():
                v = drive.argval(func, name, k, args, kwargs)
                self.event(I, node, 'handed')
                if v is None or v.t is not self.arg[ARGS[SMALL][r]]:
                    self.fail(I, node, '%s receives another value as argument %d (%s)' % (name, k + 1, r), 'handed')

    def on_return(self, I, st, node, func, val, fid):
        if func is not self.g:
            return
        if not val.elts:
            raise AnalysisBroken('%s returns no tuple' % self.g.qual)
        e = {r: val.elts[k].t for r, k in RETS[SMALL].items()}
        a = {r: self.arg[k] for r, k in ARGS[SMALL].items()}
        self.event(I, node, 'find')
        if e['fx'] is a['fx'] and e['i_xbest'] is a['i_xbest'] and all(e[r] is a[r] for r in e):
            return
        for r, of in (('fx', 'f'), ('i_xbest', 'ind')):
            t = e[r]
            first = t is I.index_term(e[of], T.const(0))
            if not first and not (t is a[r] and not st.mon[self.name]):
                self.fail(I, node, '%s is not that of the first point of the set returned' % (
                    'the objective value' if r == 'fx' else 'the index'), 'find')


class Augment(Alone):
    """mon state: nothing; ghosts: y the point of the last evaluation, v its result, X the point recorded last"""
    OUT = {'X': 0, 'fX': 1, 'ciX': 2, 'ceX': 3}
    PART = {'fX': 1, 'ciX': 2, 'ceX': 3}

    def __init__(self, g):
        Alone.__init__(self, g)
        self.names = drive.local_names(g, self.OUT)
        self.vs = set()

    def start(self, I, st):
        st.mon[self.name] = None
        for n in ('y', 'X'):
            st.env[('$', n)] = Val(NO)

    def after_call(self, I, st, node, name, func, args, kwargs, v, fid):
        if func is None and self.isuser(node, st, fid, I) and len(args) > 1:
            y = args[-1].t
            st.env[('$', 'y')] = Val(y)
            self.vs.add(v.t)
            self.event(I, node, 'record')
            x = st.env[('$', 'X')].t
            if x is not NO and not subterm(I, y, lambda t: t is x):
                self.fail(I, node, 'another point is evaluated than the one recorded', 'record')
        return v

    def isuser(self, node, st, fid, I):
        f = node.func
        return isinstance(f, ast.Name) and any(v.t is self.arg[0] for v in [st.env.get((fid, f.id))] if v is not None)

    def on_store_sub(self, I, st, node, base, idx, elem, new, fid):
        for r, n in self.names.items():
            v = next((x for (q, m), x in st.env.items() if m == n and q != '$' and x is not None and x.oid == base.oid), None)
            if v is None:
                continue
            self.event(I, node, 'record')
            if last(idx.t) is not self.arg[2]:
                self.fail(I, node, '%s is not stored under the index of the new point' % r, 'record')
            y = st.env[('$', 'y')].t
            if r == 'X':
                st.env[('$', 'X')] = Val(elem.t)
                if y is not NO and not subterm(I, y, lambda t: t is elem.t):
                    self.fail(I, node, 'another point is recorded than the one evaluated', 'record')
            else:
                part = set(k for k in range(4) if subterm(I, elem.t, lambda t: t.op == 'index' and t.args[0] in self.vs and
                                                          T._num(t.args[1]) == k))
                if part != {self.PART[r]}:
                    self.fail(I, node, '%s does not get the value the evaluation returned' % r, 'record')
        return new


def run(ctx, prog):
    ctx.rule('swap', 'exchanging two points exchanges the same two entries of every array, and changes nothing else')
    ctx.rule('find', 'the lookup of the best known point returns value and index of the first point of the set it returns, or '
                     'changes nothing')
    ctx.rule('record', 'a new point is recorded as the point that is evaluated, with the values that evaluation returned, all '
                       'under the same new index')
    ctx.rule('result', 'the solver returns the best point of the record with its objective and constraint values')
    ctx.rule('together', 'a point that enters the interpolation set enters it with its index, objective value and constraint '
                         'values, all those of the point evaluated last and all in the same position')
    ctx.rule('place', 'that position is the one in which the evaluated point itself was put')
    ctx.rule('handed', 'the stages that rearrange the set get and return each array in its own position')
    ctx.rule('best', 'at each iteration and return the best value, the index of the best point and the first position of the '
                     'set belong to the same point')
    for name, cls in ((SWAP, Swap), (SMALL, Small), (AUGM, Augment)):
        g = prog.func(name)
        a = cls(g)
        D.analyse(name, lambda: [a], lambda I, st, fid, f: None, maxpasses=1, track=False)
        a.report(ctx)
    ctx.require('swap', 1)
    ctx.require('find', 1)
    ctx.require('record', 5)
    m = Together()
    m.setup(prog)
    drive.run([m], summarise=drive.summarisable(prog, ()) + EXTRA)
    m.report(ctx)
    ctx.require('together', 4)
    ctx.require('place', 3)
    ctx.require('handed', 3)
    ctx.require('best', 2)
    ctx.require('result', 1)
