"""Abstract interpreter: interprocedural value-numbering analysis over the AST.

States map locations (frame variables, record attributes, module globals) to
terms; branches add facts; merges keep what both sides agree on; loops are run
to a fixpoint.  States are kept apart only by the tracked facts/constants (see
`key`).  Calls to package functions are either entered (fresh frame per call
site) or left as uninterpreted terms.  Nothing of the analysed program is run.
"""
import ast
from . import terms as T
from .terms import app, const, tok, phi, leaf

BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.Pow: 'pow',
       ast.FloorDiv: 'fdiv', ast.Mod: 'mod', ast.MatMult: 'matmul', ast.BitAnd: 'band', ast.BitOr: 'bor',
       ast.BitXor: 'bxor', ast.LShift: 'shl', ast.RShift: 'shr'}
CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne', ast.Is: 'is',
       ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}
MUTATORS = {'append', 'extend', 'sort', 'insert', 'remove', 'pop', 'fill', 'resize', 'itemset', 'update', 'clear',
            'setdefault', 'reverse', 'add', 'discard', 'put', 'partition', 'setfield', 'setflags', 'popitem'}
NOLAB = frozenset()


class Val(object):
    __slots__ = ('t', 'oid', 'rec', 'fn', 'elts', 'undef', 'lab', 'fac')

    def __init__(self, t, oid=None, rec=None, fn=None, elts=None, undef=False, lab=NOLAB, fac=None):
        self.t = t
        self.oid = oid
        self.rec = rec
        self.fn = fn
        self.elts = elts
        self.undef = undef
        self.lab = lab
        self.fac = fac

    def but(self, **kw):
        v = Val(self.t, self.oid, self.rec, self.fn, self.elts, self.undef, self.lab, self.fac)
        for k, x in kw.items():
            setattr(v, k, x)
        return v

    def f(self, name):
        return self.fac.get(name) if self.fac else None

    def withfac(self, **kw):
        d = dict(self.fac) if self.fac else {}
        for k, x in kw.items():
            if x is None:
                d.pop(k, None)
            else:
                d[k] = x
        return self.but(fac=d or None)

    def __repr__(self):
        return 'Val(%s%s)' % (T.show(self.t), ' rec=%s' % (self.rec,) if self.rec else '')


def vconst(c):
    return Val(const(c))


VNONE = Val(T.NONE)


class State(object):
    __slots__ = ('env', 'heap', 'facts', 'mon')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.mon = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.mon = dict(self.mon)
        return s

    def setattr(self, rec, attr, v):
        d = dict(self.heap.get(rec, {}))
        d[attr] = v
        self.heap[rec] = d


class Monitor(object):
    """hooks; every method may be overridden"""
    name = 'mon'

    def start(self, I, st):
        pass

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        return None

    def after_call(self, I, st, node, name, func, args, kwargs, v, fid):
        return v

    def on_attr(self, I, st, node, rec, attr, v, fid):
        return v

    def on_store_attr(self, I, st, node, rec, attr, old, new, fid):
        pass

    def on_store_sub(self, I, st, node, base, idx, elem, new, fid):
        return new

    def on_store_global(self, I, st, node, name, new, fid):
        pass

    def on_read_global(self, I, st, node, name, v, fid):
        return v

    def on_bind(self, I, st, node, name, old, new, fid):
        return new

    def on_mutate(self, I, st, node, base, how, fid):
        pass

    def on_return(self, I, st, node, func, val, fid):
        pass

    def on_backedge(self, I, st, node, fid):
        pass

    def on_loop_enter(self, I, st, node, fid):
        pass

    def on_loop_exit(self, I, st, node, fid):
        pass

    def on_cond(self, I, st, node, term, fid):
        """called for each non-constant atom tested"""

    def on_assumed(self, I, st, node, term, value, fid):
        pass

    def on_undef(self, I, st, node, name, maybe, fid):
        pass

    def on_raise(self, I, st, node, fid):
        pass

    def on_op(self, I, st, node, v, parts, fid):
        return v

    def on_stmt(self, I, st, node, fid):
        pass

    def on_with_exit(self, I, st, node, v, fid):
        pass

    def mkey(self, I, v):
        return v

    def join(self, I, vs):
        """values of this monitor in states merged with equal mkey"""
        return vs[0]


class Outcome(object):
    __slots__ = ('normal', 'brk', 'cont', 'ret', 'exc')

    def __init__(self):
        self.normal = []
        self.brk = []
        self.cont = []
        self.ret = []     # (state, Val, node)
        self.exc = []     # (state, excname)


class Limit(Exception):
    pass


class Interp(object):
    MAXSTATES = 96

    def __init__(self, prog, monitors=(), inline=None, models=None, maxdepth=10, tracked=None):
        self.prog = prog
        self.monitors = list(monitors)
        self.inline_pred = inline or (lambda f, I: True)
        self.models = models
        self.maxdepth = maxdepth
        self.tracked = tracked if tracked is not None else set()
        self.cond_sites = {}
        self.noise_terms = set()      # terms whose tests are never tracked (verbosity)
        self.noise_attrs = {'verbose'}
        self.handlers = []
        self.stats = {'stmts': 0, 'calls': 0, 'inlined': 0, 'joins': 0, 'loopiters': 0, 'maxstates': 0}
        self.funcs_seen = set()
        self.sites_seen = set()
        self.depth = 0
        self.funcstack = []
        self.closures = {}
        self.fidfunc = {}
        self.summarise = set()
        self.summaries = {}
        self.budget = 6000000
        self.dyn_snap = None
        self.testvars_cache = {}
        self.boolvars_cache = {}
        self.tested_attrs = {'flag'}
        self.unsupported = {}
        self._bornmemo = {}
        self.loopkeys = False
        self.phi_parts = {}
        self.parts_version = 0
        self.leafmemo = {}
        self.boolloops = False

    # ------------------------------------------------------------ utilities
    def site(self, node, fid):
        return (fid, node._site)

    def fire(self, hook, *a):
        for m in self.monitors:
            getattr(m, hook)(self, *a)

    def here(self, node):
        f = self.funcstack[-1] if self.funcstack else None
        path = f.mod.path if f else '?'
        return '%s:%d' % (path, getattr(node, 'lineno', 0))

    # ------------------------------------------------------------ facts
    def implied(self, st, t):
        """truth of condition term t under the facts, or None"""
        if t.op == 'const':
            return T.truth_const(t)
        if t is T.EMPTY:
            return False
        f = st.facts.get(t)
        if f is not None:
            return f
        if t.op == 'not':
            r = self.implied(st, t.args[0])
            return None if r is None else (not r)
        if t.op == 'and':
            rs = [self.implied(st, a) for a in t.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if t.op == 'or':
            rs = [self.implied(st, a) for a in t.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if t.op == 'phi':
            cs = self.const_values(t)
            if cs is not None:
                tr = set(T.truth_const(z) for z in cs if st.facts.get(T.compare('eq', t, z)) is not False)
                if len(tr) == 1:
                    return tr.pop()
        if t.op in ('lt', 'le', 'eq') and len(t.args) == 2:
            a, b = t.args
            g = st.facts.get
            lt_ab, lt_ba = g(app('lt', a, b)), g(app('lt', b, a))
            le_ab, le_ba = g(app('le', a, b)), g(app('le', b, a))
            if lt_ab or le_ba is False:
                return {'lt': True, 'le': True, 'eq': False}[t.op]
            if lt_ba or le_ab is False:
                return {'lt': False, 'le': False, 'eq': False}[t.op]
            eq = g(app('eq', a, b)) if g(app('eq', a, b)) is not None else g(app('eq', b, a))
            if eq:
                return {'lt': False, 'le': True, 'eq': True}[t.op]
            if t.op == 'le' and lt_ba is False:
                return True
            if t.op == 'lt' and le_ba is True:
                return False
            if eq is False and t.op == 'lt' and le_ab:
                return True
            x, y = T._num(a), T._num(b)
            if x is not None or y is not None:
                v = b if x is not None else a
                if t.op == 'eq' and v.op == 'phi':
                    k = a if x is not None else b
                    cs = self.const_values(v)
                    if cs is not None:
                        cs = [z for z in cs if z is k or st.facts.get(T.compare('eq', v, z)) is not False]
                        if k not in cs:
                            return False
                        if len(cs) == 1:
                            return True
                if t.op == 'eq' and (x if x is not None else y) == 0 and g(v) is not None:
                    return not g(v)
                lo, hi = self.bounds(st, v)
                c = x if x is not None else y
                if t.op == 'eq':
                    if lo is not None and (c < lo[0] or (c == lo[0] and lo[1])):
                        return False
                    if hi is not None and (c > hi[0] or (c == hi[0] and hi[1])):
                        return False
                elif y is not None:   # v < c / v <= c
                    if hi is not None and (hi[0] < c or (hi[0] == c and (t.op == 'le' or hi[1]))):
                        return True
                    if lo is not None and (lo[0] > c or (lo[0] == c and (t.op == 'lt' or lo[1]))):
                        return False
                else:                 # c < v / c <= v
                    if lo is not None and (lo[0] > c or (lo[0] == c and (t.op == 'le' or lo[1]))):
                        return True
                    if hi is not None and (hi[0] < c or (hi[0] == c and (t.op == 'lt' or hi[1]))):
                        return False
        return None

    def add_parts(self, r, known):
        pp = self.phi_parts.get(r)
        if pp is None:
            pp = self.phi_parts[r] = set()
        n = len(pp)
        pp.update(known)
        if len(pp) != n:
            self.parts_version += 1
            self.leafmemo = {}

    def const_values(self, t):
        """the constants t may be when every merged value is a constant, else None"""
        r = self.leafmemo.get(t)
        if r is None:
            out = set()
            seen = set()
            work = [t]
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                pp = self.phi_parts.get(x) if x.op == 'phi' else None
                if pp:
                    work.extend(pp)
                elif x.op == 'const':
                    out.add(x)
                else:
                    out = ()
                    break
            r = self.leafmemo[t] = out
        return r or None

    def values(self, st, t):
        """terms t may be equal to, merges expanded, without those the facts exclude"""
        out = set()
        seen = set()
        work = [t]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            pp = self.phi_parts.get(x)
            if pp:
                work.extend(pp)
            else:
                out.add(x)
        return set(x for x in out if x.op != 'const' or x is t or
                   self.implied(st, T.compare('eq', t, x)) is not False)

    def bounds(self, st, v):
        """(lo, strict), (hi, strict) from facts comparing v with constants"""
        lo = hi = None
        if v.op in ('call:length_', 'call:size_', 'call:len', 'call:norm_', 'call:abs'):
            lo = (0.0, False)
        for f, val in st.facts.items():
            if f.op not in ('lt', 'le', 'eq'):
                continue
            a, b = f.args
            op = f.op
            if a is v:
                c = T._num(b)
                side = 'L'
            elif b is v:
                c = T._num(a)
                side = 'R'
            else:
                continue
            if c is None:
                continue
            if op == 'eq':
                if val:
                    return (c, False), (c, False)
                continue
            up = (side == 'L') == bool(val)   # v bounded above
            strict = (op == 'lt') == bool(val)
            if up:
                if hi is None or c < hi[0] or (c == hi[0] and strict):
                    hi = (c, strict)
            else:
                if lo is None or c > lo[0] or (c == lo[0] and strict):
                    lo = (c, strict)
        return lo, hi

    def assume(self, st, t, val):
        """list of states (possibly empty) in which t has truth value val; st is owned"""
        r = self.implied(st, t)
        if r is not None:
            return [st] if r == val else []
        if t.op == 'not':
            return self.assume(st, t.args[0], not val)
        if t.op == 'and' or t.op == 'or':
            conj = (t.op == 'and') == val
            if conj:
                sts = [st]
                for a in t.args:
                    nx = []
                    for s in sts:
                        nx.extend(self.assume(s, a, val))
                    sts = nx
                return sts
            out = []
            cur = [st]
            for a in t.args:
                nxt = []
                for s in cur:
                    out.extend(self.assume(s.copy(), a, val))
                    nxt.extend(self.assume(s, a, not val))
                cur = nxt
                if not cur:
                    break
            return out
        st.facts[t] = val
        return [st]

    def note_test(self, t, site):
        if t.op == 'not':
            return self.note_test(t.args[0], site)
        if t.op in ('and', 'or'):
            for a in t.args:
                self.note_test(a, site)
            return
        if t.op == 'const':
            return
        if self.is_noise(t):
            return
        s = self.cond_sites.setdefault(t, set())
        s.add(site)

    def is_noise(self, t):
        for n in self.noise_terms:
            if t is n or n in t.args:
                return True
        return False

    # ------------------------------------------------------------ keys / joins
    def testvars(self, func):
        r = self.testvars_cache.get(func)
        if r is None:
            r = set()
            for n in ast.walk(func.node):
                tests = []
                if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                    tests.append(n.test)
                for t in tests:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            r.add(x.id)
            self.testvars_cache[func] = r
        return r

    def boolvars(self, func):
        """tested variables that are only ever assigned truth values"""
        r = self.boolvars_cache.get(func)
        if r is None:
            good, bad = set(), set()
            for n in ast.walk(func.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v = n.value
                    if isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords:
                        v = v.args[0]
                    nm = n.targets[0].id
                    if isinstance(v, ast.Constant) and isinstance(v.value, bool):
                        good.add(nm)
                    else:
                        bad.add(nm)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in good:
                    bad.add(n.id)
            cnt = {}
            for n in ast.walk(func.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    cnt[n.id] = cnt.get(n.id, 0) + 1
            asg = {}
            for n in ast.walk(func.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    asg[n.targets[0].id] = asg.get(n.targets[0].id, 0) + 1
            r = sorted(x for x in good - bad if cnt.get(x) == asg.get(x) and x in self.testvars(func)
                       and x not in func.params)
            self.boolvars_cache[func] = r
        return r

    def key(self, st, fid, func):
        tr = self.tracked
        fk = tuple(sorted((f.tid, v) for f, v in st.facts.items() if f in tr))
        mk = []
        for m in self.monitors:
            if m.name in st.mon:
                mk.append((m.name, m.mkey(self, st.mon[m.name])))
        vk = []
        if func is not None:
            for n in self.testvars(func):
                v = st.env.get((fid, n))
                if v is not None and v.t.op == 'const' and v.t.pay[0] != 'o':
                    vk.append((n, v.t.tid))
        hk = []
        for r, d in st.heap.items():
            for a in self.tested_attrs:
                v = d.get(a)
                if v is not None and v.t.op == 'const':
                    hk.append((str(r), a, v.t.tid))
        vk.sort()
        hk.sort()
        return (fk, tuple(mk), tuple(vk), tuple(hk))

    def merge(self, states, site, fid, func, loop=None):
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.key(s, fid, func), []).append(s)
        if len(groups) > self.stats['maxstates']:
            self.stats['maxstates'] = len(groups)
        if len(groups) > self.MAXSTATES:
            # collapse: monitors and tested attrs only
            g2 = {}
            for k, ss in groups.items():
                g2.setdefault((k[1], k[3]), []).extend(ss)
            groups = g2
            self.stats['collapsed'] = self.stats.get('collapsed', 0) + 1
        out = []
        for k, ss in groups.items():
            out.append(self.join(ss, site, loop) if len(ss) > 1 else ss[0])
        return out

    def join(self, states, site, loop=None, force=False):
        """loop: None or set-predicate born(term)->bool, with states[0] the head state"""
        self.stats['joins'] += 1
        first = states[0]
        res = State()
        n = len(states)
        classes = {}     # tuple of terms -> min loc name
        assign = []      # (kind, key, sub, tuple)
        headphi_site = site

        pend = []        # (setter, locname, vals)
        if loop is None:
            res.env = dict(first.env)
            fi = first.env.items()
            keys = set()
            for s in states[1:]:
                if s.env is not first.env:
                    keys.update([k for k, _ in fi ^ s.env.items()])
            for k in keys:
                pend.append((('e', k), k[1] if k[0] != 'G' else 'G.' + str(k[1]), [s.env.get(k) for s in states]))
        else:
            keys = set(first.env)
            for s in states[1:]:
                keys |= set(s.env)
            envs = [s.env for s in states]
            for k in keys:
                vs = [e.get(k) for e in envs]
                v0 = vs[0]
                for v in vs:
                    if v is not v0:
                        break
                else:
                    if v0 is None or not (self.val_is_headphi(v0, site) or force and self.val_born(v0, loop)):
                        res.env[k] = v0
                        continue
                pend.append((('e', k), k[1] if k[0] != 'G' else 'G.' + str(k[1]), vs))
        hkeys = set(first.heap)
        for s in states[1:]:
            hkeys |= set(s.heap)
        for r in hkeys:
            ds = [s.heap.get(r) for s in states]
            if all(d is ds[0] for d in ds) and (loop is None or not any(
                    self.val_is_headphi(v, site) or force and self.val_born(v, loop) for v in (ds[0] or {}).values())):
                res.heap[r] = ds[0]
                continue
            present = [d for d in ds if d is not None]
            res.heap[r] = {}
            attrs = set()
            for d in present:
                attrs |= set(d)
            for a in sorted(attrs):
                if a.startswith('*'):
                    res.heap[r][a] = [d[a] for d in present if a in d][0]
                    continue
                # a record that does not exist in a state imposes nothing
                vs = [(self.rec_attr(r, d, a, s) if d is not None else 'norec') for d, s in zip(ds, states)]
                real = [v for v in vs if v != 'norec']
                if all(v is real[0] for v in real) and len(real) == len(vs) and (
                        loop is None or real[0] is None or not (
                            self.val_is_headphi(real[0], site) or force and self.val_born(real[0], loop))):
                    if real[0] is not None:
                        res.heap[r][a] = real[0]
                    continue
                if len(real) < len(vs):
                    vs = real if len(real) > 1 else real
                pend.append((('h', r, a), '%s.%s' % (r, a), vs))
        # phi records for merged record references are created on demand
        self._join_records = {}
        # gather classes
        work = []
        i = 0
        while i < len(pend):
            setter, ln, vs = pend[i]
            i += 1
            work.append((setter, ln, vs))
            self.ensure_rec(vs, ln, n, site, states, pend, res, loop if force else None)
        clsmin = {}

        def tup(vs, sub=None):
            r = []
            for v in vs:
                if v is None:
                    r.append(None)
                elif sub is None:
                    r.append(v.t)
                else:
                    r.append(v.f(sub))
            return tuple(r)

        def note(tp, ln):
            if any(x is None for x in tp) and all(x is None for x in tp):
                return
            o = clsmin.get(tp)
            if o is None or ln < o:
                clsmin[tp] = ln

        for setter, ln, vs in work:
            tp = tup(vs)
            note(tp, ln)
            names = set()
            for v in vs:
                if v is not None and v.fac:
                    names |= set(v.fac)
            for fn in names:
                note(tup(vs, fn), '%s/%s' % (ln, fn))

        def jt(tp):
            known = [x for x in tp if x is not None]
            if not known:
                return None
            x0 = known[0]
            if len(known) == len(tp) and all(x is x0 for x in tp):
                if loop is None or not (x0.op == 'phi' and x0.pay[0] == site or force and loop(x0)):
                    return x0
            r = phi(site, clsmin[tp])
            self.add_parts(r, known)
            return r

        def jval(setter, ln, vs, depth=0):
            real = [v for v in vs if v is not None]
            undef = any(v is None or v.undef for v in vs)
            v0 = real[0]
            lab = frozenset().union(*[v.lab for v in real])
            tp = tup(vs)
            t = jt(tp)
            fac = None
            names = None
            for v in vs:
                fs = set(v.fac) if v is not None and v.fac else (set() if v is not None else None)
                if fs is None:
                    continue
                names = fs if names is None else names & fs
            for fn in names or ():
                ft = tup(real, fn) if len(real) < len(vs) else tup(vs, fn)
                if len(real) < len(vs):
                    if all(x is ft[0] for x in ft):
                        fac = fac or {}
                        fac[fn] = ft[0]
                    continue
                if ft not in clsmin:
                    clsmin[ft] = '%s/%s' % (ln, fn)
                fac = fac or {}
                fac[fn] = jt(ft)
            oids = tuple(v.oid if v is not None else None for v in vs)
            if all(o == oids[0] for o in oids):
                oid = oids[0]
            else:
                oid = ('j', site, oidmin.setdefault(oids, ln))
            rec = None
            recs = [v.rec for v in vs if v is not None]
            if recs and None not in recs:
                if len(set(recs)) == 1:
                    rec = self._join_records.get(tuple(recs), recs[0])
                elif len(vs) == n and len(recs) == n:
                    rec = self._join_records.get(tuple(recs))
            fn_ = v0.fn if all(v.fn == v0.fn for v in real) else None
            elts = None
            if depth < 3 and all(v.elts is not None for v in real) and len(real) == len(vs) and len(
                    set(len(v.elts) for v in real)) == 1 and v0.elts is not None:
                es = []
                for j in range(len(v0.elts)):
                    sub = [v.elts[j] for v in vs]
                    for nm, tpx in [('', tup(sub))]:
                        note(tpx, '%s[%d]' % (ln, j))
                    for x in sub:
                        for fnm in (x.fac or ()):
                            note(tup(sub, fnm), '%s[%d]/%s' % (ln, j, fnm))
                    es.append(jval(None, '%s[%d]' % (ln, j), sub, depth + 1))
                elts = tuple(es)
            return Val(t, oid, rec, fn_, elts, undef, lab, fac)

        oidmin = {}
        for setter, ln, vs in work:
            if not vs or all(v is None for v in vs):
                if setter[0] == 'e':
                    res.env.pop(setter[1], None)
                continue
            v = jval(setter, ln, vs)
            if setter[0] == 'e':
                res.env[setter[1]] = v
            else:
                res.heap[setter[1]][setter[2]] = v
        # facts: rename through classes, intersect
        subs = [dict() for _ in states]
        for tp in clsmin:
            if len(tp) != n or any(x is None for x in tp):
                continue
            r = jt(tp)
            for j, x in enumerate(tp):
                if x.op == 'const' or x is r:
                    continue
                if x in subs[j] and subs[j][x] is not r:
                    # ambiguous: prefer first by name
                    if subs[j][x].op == 'phi' and r.op == 'phi' and str(subs[j][x].pay[1]) <= str(r.pay[1]):
                        continue
                subs[j][x] = r
        fsets = []
        for j, s in enumerate(states):
            sj = subs[j]
            anyleaf = False
            ul = set()
            for x in sj:
                lx = T.leaves(x)
                if not lx:
                    anyleaf = True
                ul |= lx
            memo = {}
            if loop is not None and j > 0:
                d = {}
                for f, v in s.facts.items():
                    if loop(f):
                        g = T.subst(f, sj, memo)
                        if g is f or self.mentions_born(g, loop, site):
                            continue
                        d[g] = v
                        continue
                    d[f] = v
                    if sj and (anyleaf or not ul.isdisjoint(T.leaves(f))):
                        g = T.subst(f, sj, memo)
                        if g is not f:
                            d[g] = v
            elif sj:
                d = None
                for f, v in s.facts.items():
                    if anyleaf or not ul.isdisjoint(T.leaves(f)):
                        g = T.subst(f, sj, memo)
                        if g is not f:
                            if d is None:
                                d = dict(s.facts)
                            d[g] = v
                if d is None:
                    d = s.facts
            else:
                d = s.facts
            fsets.append(d)
        acc = fsets[0].items()
        for d in fsets[1:]:
            if d is not fsets[0]:
                acc = acc & d.items()
        res.facts = dict(acc)
        for m in set().union(*[set(s.mon) for s in states]):
            mm = [x for x in self.monitors if x.name == m]
            vs = [s.mon[m] for s in states if m in s.mon]
            res.mon[m] = mm[0].join(self, vs) if mm else vs[0]
        return res

    def ensure_rec(self, vs, ln, n, site, states, pend, res, born=None, depth=0):
        """record references that differ between the merged states get a merged record"""
        if len(vs) != n or any(v is None or v == 'norec' for v in vs):
            return
        recs = [v.rec for v in vs]
        if None not in recs and (len(set(recs)) > 1 or born is not None and born.site_in(recs[0])):
            rk = tuple(recs)
            if rk not in self._join_records:
                nr = ('phi', site, ln)
                self._join_records[rk] = nr
                ds = [s.heap.get(r, {}) for s, r in zip(states, recs)]
                attrs = set()
                for d in ds:
                    attrs |= set(d)
                res.heap[nr] = {}
                for a in sorted(attrs):
                    if a.startswith('*'):
                        if a == '*open' or all(d.get(a) == ds[0].get(a) for d in ds):
                            res.heap[nr][a] = [d[a] for d in ds if a in d][0]
                        continue
                    pend.append((('h', nr, a), '%s.%s' % (ln, a),
                                 [self.rec_attr(r, d, a, s) for r, d, s in zip(recs, ds, states)]))
        e0 = vs[0].elts
        if depth < 3 and e0 is not None and all(v.elts is not None and len(v.elts) == len(e0) for v in vs):
            for j in range(len(e0)):
                self.ensure_rec([v.elts[j] for v in vs], '%s[%d]' % (ln, j), n, site, states, pend, res, born,
                                depth + 1)

    def rec_attr(self, r, d, a, s):
        v = d.get(a)
        if v is None and '*open' in d and not a.startswith('*'):
            base = d['*open']
            return Val(T.app_p('attr', a, base.t), oid=(r, a),
                       undef=s.facts.get(T.app_p('isfield', a, base.t)) is not True)
        return v

    def gc(self, st, frame=None):
        """drop records no variable can reach"""
        seen = set()
        work = [v for v in st.env.values()]
        while work:
            v = work.pop()
            if not isinstance(v, Val):
                continue
            if v.rec is not None and v.rec not in seen:
                seen.add(v.rec)
                work.extend(st.heap.get(v.rec, {}).values())
            if v.elts:
                work.extend(v.elts)
            if v.fn is not None and v.fn[0] in ('bound', 'recdict'):
                work.append(v.fn[1])
        for r in [r for r in st.heap if r not in seen]:
            if frame is None or self.within(r, frame):
                del st.heap[r]

    def within(self, r, frame):
        """was record r created in this activation (or below it)"""
        for x in r:
            if isinstance(x, tuple):
                if x[:len(frame)] == frame:
                    return True
                if self.within(x, frame):
                    return True
        return False

    def val_born(self, v, loop):
        if not isinstance(v, Val):
            return False
        if loop(v.t) or v.rec is not None and loop.site_in(v.rec):
            return True
        if v.fac and any(loop(x) for x in v.fac.values()):
            return True
        return bool(v.elts) and any(self.val_born(e, loop) for e in v.elts)

    def val_is_headphi(self, v, site):
        if not isinstance(v, Val):
            return False
        if v.t.op == 'phi' and v.t.pay[0] == site:
            return True
        if v.fac:
            for x in v.fac.values():
                if x.op == 'phi' and x.pay[0] == site:
                    return True
        if v.elts:
            return any(self.val_is_headphi(e, site) for e in v.elts)
        return False

    def mentions_born(self, t, loop, site):
        """does t mention tokens born in the loop body other than the head's own phis"""
        for x in T.subterms(t):
            if x.op in ('tok', 'phi') and loop.one(x) and not (x.op == 'phi' and x.pay[0] == site):
                return True
        return False

    class Born(object):
        def __init__(self, I, node, fid, site):
            self.sub = set()
            for x in ast.walk(node):
                s = getattr(x, '_site', None)
                if s:
                    self.sub.add(s)
            self.fid = fid
            self.site = site
            self.memo = {}
            self.tm = {}

        def site_in(self, s):
            r = self.memo.get(s)
            if r is None:
                try:
                    k = 0
                    while isinstance(s[k], str):
                        k += 1
                    f, nd = s[k], s[k + 1]
                except Exception:
                    return False
                if f == self.fid:
                    r = nd in self.sub
                else:
                    r = len(f) > len(self.fid) and f[:len(self.fid)] == self.fid and f[len(self.fid)] in self.sub
                self.memo[s] = r
            return r

        def one(self, x):
            return self.site_in(x.pay[0])

        def __call__(self, t):
            r = self.tm.get(t.tid)
            if r is None:
                r = False
                if t.op in ('tok', 'phi'):
                    r = self.one(t)
                else:
                    for a in t.args:
                        if self(a):
                            r = True
                            break
                self.tm[t.tid] = r
            return r

    def same(self, a, b):
        if set(a.env) != set(b.env) or a.facts != b.facts or a.mon != b.mon:
            return False
        for k, v in a.env.items():
            w = b.env[k]
            if v is not w and not self.vsame(v, w):
                return False
        if set(a.heap) != set(b.heap):
            return False
        for r, d in a.heap.items():
            e = b.heap[r]
            if d is e:
                continue
            if set(d) != set(e):
                return False
            for k, v in d.items():
                if v is not e[k] and not self.vsame(v, e[k]):
                    return False
        return True

    def vsame(self, v, w):
        if not isinstance(v, Val) or not isinstance(w, Val):
            return v is w or (not isinstance(v, Val) and not isinstance(w, Val) and v == w)
        if v.t is not w.t or v.rec != w.rec or v.undef != w.undef or v.lab != w.lab or v.fn != w.fn:
            return False
        if (v.fac or None) != (w.fac or None):
            return False
        if (v.elts is None) != (w.elts is None):
            return False
        if v.elts is not None:
            if len(v.elts) != len(w.elts):
                return False
            return all(self.vsame(x, y) for x, y in zip(v.elts, w.elts))
        return True

    # ------------------------------------------------------------ variables
    def read_name(self, node, name, st, fid, func):
        loc, glo = func.collect()
        if name in loc:
            v = st.env.get((fid, name))
            if v is None:
                # comprehension variables / closures of same frame
                self.fire('on_undef', st, node, name, False, fid)
                v = Val(tok(self.site(node, fid), 'undef:' + name), oid=(fid, node._site))
                return v
            if v.undef:
                self.fire('on_undef', st, node, name, True, fid)
                v = v.but(undef=False)
            return v
        v = st.env.get((fid, name))
        if v is not None:            # comprehension variable
            return v
        p = func.parent
        pf = self.closures.get(fid)
        while p is not None and pf is not None:
            if name in p.collect()[0]:
                v = st.env.get((pf, name))
                if v is not None:
                    return v
                break
            p, pf = p.parent, self.closures.get(pf)
        b = self.prog.lookup_global(func.mod, name)
        return self.binding_val(b, node, name, st, fid, func)

    def binding_val(self, b, node, name, st, fid, func):
        if b is None or b[0] == 'missing':
            self.fire('on_undef', st, node, name, False, fid)
            return Val(tok(self.site(node, fid), 'undef:' + name))
        k = b[0]
        if k == 'func':
            return Val(leaf('fn:' + b[1].qual), fn=('func', b[1]))
        if k == 'class':
            return Val(leaf('class:' + b[1]._qual), fn=('class', b[1]))
        if k in ('module', 'extmod'):
            return Val(leaf('mod:' + b[1]), fn=b)
        if k == 'ext':
            return self.ext_val(b[1])
        if k == 'builtin':
            return Val(leaf('builtin:' + b[1]), fn=('builtin', b[1]))
        if k == 'gvar':
            return self.read_gvar(node, b[1], b[2], st, fid)
        return Val(tok(self.site(node, fid), name))

    def ext_val(self, nm):
        last = nm.split('.')[-1]
        if nm in ('numpy.inf', 'numpy.Inf', 'numpy.infty', 'numpy.Infinity', 'numpy.PINF', 'math.inf'):
            return vconst(float('inf'))
        if nm in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan'):
            return vconst(float('nan'))
        return Val(leaf('ext:' + nm), fn=('ext', nm))

    def read_gvar(self, node, mod, name, st, fid):
        k = ('G', mod + '.' + name)
        v = st.env.get(k)
        if v is None:
            v = Val(leaf('glob0:' + mod + '.' + name))
            st.env[k] = v
        for m in self.monitors:
            v = m.on_read_global(self, st, node, mod + '.' + name, v, fid)
        return v

    def write_name(self, node, name, v, st, fid, func):
        loc, glo = func.collect()
        if name in glo:
            k = ('G', func.mod.name + '.' + name)
            self.fire('on_store_global', st, node, func.mod.name + '.' + name, v, fid)
            st.env[k] = v
            return
        old = st.env.get((fid, name))
        for m in self.monitors:
            v = m.on_bind(self, st, node, name, old, v, fid)
        if v.undef:
            v = v.but(undef=False)
        st.env[(fid, name)] = v

    def update_oid(self, st, oid, new):
        if oid is None:
            return
        for k, v in list(st.env.items()):
            if v is not None and v.oid == oid:
                st.env[k] = new
        for r, d in list(st.heap.items()):
            hit = [a for a, v in d.items() if isinstance(v, Val) and v.oid == oid]
            if hit:
                d = dict(d)
                for a in hit:
                    d[a] = new
                st.heap[r] = d

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fid, func):
        """list of (state, Val)"""
        self.budget -= 1
        if self.budget < 0:
            raise Limit('analysis budget exhausted')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unsupported[type(e).__name__] = self.unsupported.get(type(e).__name__, 0) + 1
            return [(st, Val(tok(self.site(e, fid))))]
        return m(e, st, fid, func)

    def ev1(self, e, st, fid, func):
        r = self.ev(e, st, fid, func)
        return r

    def ev_list(self, es, st, fid, func):
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in acc:
                for s2, v in self.ev(e, s, fid, func):
                    nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def op(self, st, node, v, parts, fid):
        for m in self.monitors:
            v = m.on_op(self, st, node, v, parts, fid)
        return v

    def e_Constant(self, e, st, fid, func):
        return [(st, vconst(e.value) if not isinstance(e.value, (bytes, complex, type(Ellipsis)))
                 else Val(T.app_p('lit', repr(e.value))))]

    def e_Name(self, e, st, fid, func):
        return [(st, self.read_name(e, e.id, st, fid, func))]

    def e_NamedExpr(self, e, st, fid, func):
        out = []
        for s, v in self.ev(e.value, st, fid, func):
            self.write_name(e, e.target.id, v, s, fid, func)
            out.append((s, v))
        return out

    def e_Tuple(self, e, st, fid, func):
        out = []
        for s, vs in self.ev_list([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fid, func):
            star = any(isinstance(x, ast.Starred) for x in e.elts)
            nm = 'list' if isinstance(e, ast.List) else ('set' if isinstance(e, ast.Set) else 'tuple')
            t = app(nm, *[v.t for v in vs])
            if nm == 'list' and not vs:
                t = T.EMPTY
            v = Val(t, oid=(fid, e._site), elts=None if star or nm == 'set' else tuple(vs))
            out.append((s, self.op(s, e, v, vs, fid)))
        return out

    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Dict(self, e, st, fid, func):
        es = [x for x in e.keys if x is not None] + list(e.values)
        out = []
        for s, vs in self.ev_list(es, st, fid, func):
            v = Val(app('dict', *[x.t for x in vs]), oid=(fid, e._site))
            out.append((s, self.op(s, e, v, vs, fid)))
        return out

    def e_JoinedStr(self, e, st, fid, func):
        es = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
        shape = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                shape.append(('v', ast.unparse(x.format_spec) if x.format_spec is not None else '', x.conversion))
            else:
                shape.append(('s', x.value if isinstance(x, ast.Constant) else ''))
        shape = tuple(shape)
        return [(s, self.op(s, e, Val(T.app_p('fstr', shape, *[v.t for v in vs])), vs, fid))
                for s, vs in self.ev_list(es, st, fid, func)]

    def e_FormattedValue(self, e, st, fid, func):
        return self.ev(e.value, st, fid, func)

    def e_Starred(self, e, st, fid, func):
        return self.ev(e.value, st, fid, func)

    def e_Lambda(self, e, st, fid, func):
        from .prog import Func
        f = getattr(e, '_func', None)
        if f is None:
            class N(object):
                pass
            n = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno,
                                col_offset=e.col_offset)], decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
            n._site = e._site
            n.body[0]._site = e._site + 'r'
            f = Func(func.mod, n, func.qual + '.<lambda>', func)
            e._func = f
        v = Val(leaf('fn:%s@%s' % (f.qual, e._site)), fn=('func', f, fid))
        return [(st, v)]

    def e_IfExp(self, e, st, fid, func):
        out = []
        for b, s in self.split(e.test, st, fid, func):
            out.extend(self.ev(e.body if b else e.orelse, s, fid, func))
        if len(out) > 1:
            return self.merge_results(out, self.site(e, fid), fid, func)
        return out

    def merge_results(self, pairs, site, fid, func):
        """merge (state, Val) pairs"""
        if len(pairs) <= 1:
            return pairs
        K = (fid, '$ret')
        sts = []
        for s, v in pairs:
            s.env[K] = v
            sts.append(s)
        out = []
        for s in self.merge(sts, site, fid, func):
            v = s.env.pop(K)
            out.append((s, v))
        for s in sts:
            s.env.pop(K, None)
        return out

    def e_BoolOp(self, e, st, fid, func):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        out = []
        for s, vs in self.ev_list(e.values, st, fid, func):
            ts = []
            for v in vs:
                if v.t.op == op:
                    ts.extend(v.t.args)
                else:
                    ts.append(v.t)
            known = [self.implied(s, t) for t in ts]
            if op == 'and' and any(k is False for k in known):
                v = vconst(False)
            elif op == 'or' and any(k is True for k in known):
                v = vconst(True)
            elif all(k is not None for k in known) and len(vs) == len(ts):
                v = vs[-1] if vs[-1].t.op == 'const' else vconst(known[-1])
            else:
                v = Val(app(op, *ts))
            out.append((s, self.op(s, e, v, vs, fid)))
        return out

    def e_UnaryOp(self, e, st, fid, func):
        out = []
        for s, v in self.ev(e.operand, st, fid, func):
            if isinstance(e.op, ast.Not):
                t = T.logical_not(v.t) if v.t is not T.EMPTY else T.TRUE
                k = self.implied(s, t)
                if k is not None:
                    t = const(k)
            elif isinstance(e.op, ast.USub):
                t = T.neg(v.t)
            elif isinstance(e.op, ast.UAdd):
                t = v.t
            else:
                t = app('inv', v.t)
            out.append((s, self.op(s, e, Val(t, oid=None if t.op == 'const' else (fid, e._site)), [v], fid)))
        return out

    def e_BinOp(self, e, st, fid, func):
        op = BIN[type(e.op)]
        out = []
        for s, (a, b) in self.ev_list([e.left, e.right], st, fid, func):
            t = self.binterm(op, a, b)
            elts = None
            if op == 'add' and a.elts is not None and b.elts is not None and (a.t.op in ('tuple', 'list', 'emptyarray')):
                elts = a.elts + b.elts
                t = app(a.t.op if a.t.op != 'emptyarray' else 'list', *[x.t for x in elts])
            v = Val(t, oid=None if t.op == 'const' else (fid, e._site), elts=elts)
            out.append((s, self.op(s, e, v, [a, b], fid)))
        return out

    def binterm(self, op, a, b):
        if a.t is T.EMPTY or b.t is T.EMPTY:
            if op in ('add', 'sub', 'mul', 'div'):
                return app(op, a.t, b.t)
        if a.t.op == 'const' and a.t.pay[0] == 'o' or b.t.op == 'const' and b.t.pay[0] == 'o':
            if a.t.op == 'const' and b.t.op == 'const' and op == 'add':
                try:
                    return const(T.const_value(a.t) + T.const_value(b.t))
                except Exception:
                    pass
            return app('s' + op, a.t, b.t)
        return T.arith(op, a.t, b.t)

    def e_Compare(self, e, st, fid, func):
        out = []
        for s, vs in self.ev_list([e.left] + list(e.comparators), st, fid, func):
            ts = []
            for i, o in enumerate(e.ops):
                c = self.member(o, vs[i], vs[i + 1])
                ts.append(c if c is not None else self.cmpterm(CMP[type(o)], vs[i], vs[i + 1]))
            t = ts[0] if len(ts) == 1 else app('and', *ts)
            if len(ts) == 1 and t.op not in ('const',):
                k = self.implied(s, t)
                if k is not None:
                    t = const(k)
            out.append((s, self.op(s, e, Val(t), vs, fid)))
        return out

    def member(self, o, a, b):
        """x in <display or dict of constants>"""
        if not isinstance(o, (ast.In, ast.NotIn)):
            return None
        ks = None
        if b.t.op in ('tuple', 'list', 'set') and b.t.args:
            ks = b.t.args
        elif b.t.op == 'dict' and len(b.t.args) % 2 == 0 and b.t.args:
            ks = b.t.args[:len(b.t.args) // 2]
        if ks is None or not all(k.op == 'const' for k in ks):
            return None
        if a.t.op == 'const':
            r = any(k is a.t for k in ks)
            return const(r if isinstance(o, ast.In) else not r)
        t = app('or', *[T.compare('eq', a.t, k) for k in ks]) if len(ks) > 1 else T.compare('eq', a.t, ks[0])
        return t if isinstance(o, ast.In) else T.logical_not(t)

    def cmpterm(self, op, a, b):
        # None tests on known objects
        if op in ('is', 'isnot', 'eq', 'ne') and (a.t is T.NONE or b.t is T.NONE):
            o = b if a.t is T.NONE else a
            if o.t is T.NONE:
                return const(op in ('is', 'eq'))
            if o.rec is not None or o.fn is not None or o.elts is not None or o.t is T.EMPTY or (
                    o.t.op == 'const') or o.t.op in NONNONE or o.t.op.startswith('call:') or (
                        o.t.op == 'index' and sliced(o.t.args[1])):
                if not o.undef:
                    return const(op in ('isnot', 'ne'))
        return T.compare(op, a.t, b.t)

    def e_Attribute(self, e, st, fid, func):
        out = []
        for s, v in self.ev(e.value, st, fid, func):
            out.append((s, self.getattr(e, v, e.attr, s, fid, func)))
        return out

    def getattr(self, e, v, attr, s, fid, func):
        if v.fn is not None and v.fn[0] in ('module', 'extmod', 'ext'):
            b = self.prog.attr_of(v.fn, attr)
            if b is not None:
                return self.binding_val(b, e, attr, s, fid, func)
        if v.rec is not None:
            d = s.heap.get(v.rec, {})
            w = d.get(attr)
            if w is None:
                base = d.get('*open')
                if base is not None:
                    w = Val(T.app_p('attr', attr, base.t), oid=(v.rec, attr), undef=True)
                    w = w.but(undef=False)
                    s2 = dict(d)
                    s2[attr] = w
                    s.heap[v.rec] = s2
                    if s.facts.get(T.app_p('isfield', attr, base.t)) is not True:
                        self.fire('on_undef', s, e, '.' + attr, True, fid)
                elif attr in d.get('*methods', ()):
                    return Val(T.app_p('attr', attr, v.t), fn=('bound', v, attr))
                elif attr == '__dict__':
                    return Val(T.app_p('attr', attr, v.t), fn=('recdict', v))
                else:
                    self.fire('on_undef', s, e, '.' + attr, False, fid)
                    w = Val(tok(self.site(e, fid), 'noattr:' + attr))
            elif w.undef:
                self.fire('on_undef', s, e, '.' + attr, True, fid)
                w = w.but(undef=False)
                s.setattr(v.rec, attr, w)
            for m in self.monitors:
                w = m.on_attr(self, s, e, v.rec, attr, w, fid)
            if attr in self.noise_attrs and w.t.op != 'const':
                self.noise_terms.add(w.t)
            return w
        t = T.app_p('attr', attr, v.t)
        if v.t is T.EMPTY and attr == 'T':
            t = T.EMPTY
        r = Val(t, oid=(fid, e._site), lab=v.lab if attr in ('T', 'flat', 'real', 'imag') else NOLAB,
                fn=('bound', v, attr))
        if attr == 'T' and v.t.op == 'attr' and v.t.pay == 'T':
            r = r.but(t=v.t.args[0])
        return self.op(s, e, r, [v], fid)

    def e_Subscript(self, e, st, fid, func):
        out = []
        for s, (b, i) in self.ev_list([e.value, e.slice], st, fid, func):
            out.append((s, self.index(e, b, i, s, fid)))
        return out

    def index(self, e, b, i, s, fid):
        if b.elts is not None and i.t.op == 'const' and i.t.pay[0] == 'n':
            k = int(i.t.pay[1])
            if -len(b.elts) <= k < len(b.elts):
                return b.elts[k]
        t = self.index_term(b.t, i.t)
        view = isinstance(getattr(e, 'slice', None), (ast.Slice, ast.Tuple)) or i.t.op == 'slice'
        v = Val(t, oid=(fid, e._site), lab=b.lab if view else (b.lab and frozenset(b.lab)))
        return self.op(s, e, v, [b, i], fid)

    def index_term(self, bt, it):
        # read over write
        if bt.op == 'store':
            a, i, v = bt.args
            if i is it:
                return v
            x, y = T._num(i), T._num(it)
            if x is not None and y is not None and x != y and x * y >= 0:
                return self.index_term(a, it)
        if bt.op in ('tuple', 'list') and T._num(it) is not None:
            k = int(T._num(it))
            if -len(bt.args) <= k < len(bt.args):
                return bt.args[k]
        if bt.op == 'dict' and it.op == 'const':
            k = len(bt.args) // 2
            if k and len(bt.args) == 2 * k and all(x.op == 'const' for x in bt.args[:k]):
                for x, y in zip(bt.args[:k], bt.args[k:]):
                    if x is it:
                        return y
        if it.op == 'slice' and all(x is T.NONE for x in it.args):
            return bt
        return app('index', bt, it)

    def e_Slice(self, e, st, fid, func):
        es = [x for x in (e.lower, e.upper, e.step) if x is not None]
        out = []
        for s, vs in self.ev_list(es, st, fid, func):
            it = iter(vs)
            ts = [next(it).t if x is not None else T.NONE for x in (e.lower, e.upper, e.step)]
            out.append((s, Val(app('slice', *ts))))
        return out

    def e_Index(self, e, st, fid, func):
        return self.ev(e.value, st, fid, func)

    def comp(self, e, st, fid, func, elts):
        # bind comprehension variables to opaque tokens, evaluate parts once
        sts = [st]
        gens = []
        names = []
        for g in e.generators:
            nxt = []
            for s in sts:
                for s2, it in self.ev(g.iter, s, fid, func):
                    gens.append(it)
                    self.bind_target(g.target, Val(app('elem', it.t, tok(self.site(g.target, fid), 'it'))), s2, fid,
                                     func, comp=True)
                    nxt.append(s2)
            sts = nxt
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.append(x.id)
            for c in g.ifs:
                nxt = []
                for s in sts:
                    nxt.extend(x for x, _ in self.ev(c, s, fid, func))
                sts = nxt
        out = []
        for s in sts:
            for s2, vs in self.ev_list(elts, s, fid, func):
                conds = []
                for n in names:
                    if n not in func.collect()[0]:
                        s2.env.pop((fid, n), None)
                t = T.app_p('comp', e._site if any(g.ifs for g in e.generators) else type(e).__name__,
                            *[v.t for v in vs + gens])
                out.append((s2, self.op(s2, e, Val(t, oid=(fid, e._site)), vs + gens, fid)))
        return out

    def e_ListComp(self, e, st, fid, func):
        return self.comp(e, st, fid, func, [e.elt])

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st, fid, func):
        return self.comp(e, st, fid, func, [e.key, e.value])

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fid, func):
        self.stats['calls'] += 1
        out = []
        argx = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        star = any(isinstance(a, ast.Starred) for a in e.args)
        kwx = [(k.arg, k.value) for k in e.keywords]
        for s, vs in self.ev_list([e.func] + argx + [x for _, x in kwx], st, fid, func):
            f = vs[0]
            args = vs[1:1 + len(argx)]
            kwargs = {}
            for (k, _), v in zip(kwx, vs[1 + len(argx):]):
                kwargs[k if k is not None else '**'] = v
            if star:
                na = []
                for a, v in zip(e.args, args):
                    if isinstance(a, ast.Starred):
                        if v.elts is not None:
                            na.extend(v.elts)
                        else:
                            kwargs['*'] = v
                    else:
                        na.append(v)
                args = na
            out.extend(self.call(e, f, args, kwargs, s, fid, func))
        return out

    def call(self, e, f, args, kwargs, s, fid, func):
        kind = f.fn[0] if f.fn else None
        tf = None
        if kind == 'func':
            tf = f.fn[1]
            name = tf.name
        elif kind == 'ext':
            name = f.fn[1]
        elif kind == 'builtin':
            name = f.fn[1]
        elif kind == 'bound':
            name = 'm:' + f.fn[2]
            args = [f.fn[1]] + list(args)
        elif kind == 'class':
            name = 'class:' + f.fn[1].name
        else:
            name = 'dyn'
            args = [f] + list(args)
        dyn = name == 'dyn' and self.dyn_snap is not None
        for m in self.monitors:
            r = m.on_call(self, s, e, name, tf, args, kwargs, fid)
            if r is not None:
                res = r
                break
        else:
            if dyn:
                self.dyn_snap.append(s.copy())
            res = self.call2(e, f, kind, tf, name, args, kwargs, s, fid, func)
        out = []
        for s2, v in res:
            for m in self.monitors:
                v = m.after_call(self, s2, e, name, tf, args, kwargs, v, fid)
            out.append((s2, v))
        return out

    def call2(self, e, f, kind, tf, name, args, kwargs, s, fid, func):
        if kind == 'class':
            return self.instantiate(e, f.fn[1], args, kwargs, s, fid, func)
        if kind == 'bound':
            base = f.fn[1]
            attr = f.fn[2]
            if base.rec is not None and base.fn and False:
                pass
            if base.rec is not None:
                cls = s.heap.get(base.rec, {}).get('*class')
                if cls is not None:
                    mf = self.find_method(cls, attr)
                    if mf is not None and self.depth < self.maxdepth:
                        return self.enter(e, mf, args, kwargs, s, fid, None)
            if attr in MUTATORS and not base.fn:
                self.mutate(e, base, attr, args[1:], s, fid, func)
        if self.models is not None:
            r = self.models.call(self, e, name, args, kwargs, s, fid, func)
            if r is not None:
                if not isinstance(r, Val):
                    return []
                return [(s, r)]
        if tf is not None:
            clos = f.fn[2] if len(f.fn) > 2 else (self.closure_of(tf, fid))
            if tf.name in self.summarise and clos is None and '*' not in kwargs and '**' not in kwargs:
                from . import summary
                return summary.apply(self, e, tf, args, kwargs, s, fid)
            if self.depth < self.maxdepth and tf not in self.funcstack and self.inline_pred(tf, self):
                return self.enter(e, tf, args, kwargs, s, fid, clos)
        nm = ('call:' + name)
        ts = [a.t for a in args]
        for k in sorted(kwargs):
            if k == 'nargout':
                continue
            ts.append(T.app_p('kw', k, kwargs[k].t))
        if name == 'dyn' or (kind == 'bound' and f.fn[1].fn is not None and f.fn[1].fn[0] == 'func'):
            t = tok(self.site(e, fid), 'call')
        else:
            t = app(nm, *ts)
        if name.startswith('m:') and f.fn[1].t is T.EMPTY and name in ('m:reshape', 'm:copy'):
            t = T.EMPTY
        lab = NOLAB
        if name in ('m:reshape', 'm:ravel', 'm:view', 'm:squeeze', 'm:transpose', 'm:swapaxes') or name in (
                'numpy.asarray', 'numpy.ravel', 'numpy.reshape', 'numpy.atleast_1d', 'numpy.atleast_2d',
                'numpy.asanyarray', 'numpy.squeeze', 'numpy.transpose'):
            lab = args[0].lab if args else NOLAB
        v = Val(t, oid=(fid, e._site), lab=lab)
        return [(s, self.op(s, e, v, list(args) + list(kwargs.values()), fid))]

    def closure_of(self, tf, fid):
        if tf.parent is None:
            return None
        # nearest enclosing frame of the parent
        return fid

    def find_method(self, cls, attr):
        for n in cls.body:
            if isinstance(n, ast.FunctionDef) and n.name == attr:
                return n._func
        return None

    def instantiate(self, e, cls, args, kwargs, s, fid, func):
        rec = ('obj',) + self.site(e, fid)
        d = {'*class': cls}
        for n in cls.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        d[t.id] = vconst(n.value.value)
        d['*methods'] = tuple(n.name for n in cls.body if isinstance(n, ast.FunctionDef))
        s.heap[rec] = d
        v = Val(tok(self.site(e, fid), 'obj'), oid=None, rec=rec)
        init = self.find_method(cls, '__init__')
        if init is not None and self.depth < self.maxdepth:
            res = self.enter(e, init, [v] + list(args), kwargs, s, fid, None)
            return [(s2, v) for s2, _ in res]
        return [(s, v)]

    def mutate(self, e, base, how, args, s, fid, func):
        self.fire('on_mutate', s, e, base, how, fid)
        new = base.but(t=app('mut:' + how, base.t, *[a.t for a in args]), elts=None)
        if how == 'append' and base.elts is not None and len(args) == 1:
            el = base.elts + (args[0],)
            new = new.but(t=app('list', *[x.t for x in el]), elts=el)
        self.update_oid(s, base.oid, new)
        # write back through the syntactic receiver
        if isinstance(e.func, ast.Attribute):
            self.write_back(e.func.value, new, s, fid, func)

    def write_back(self, target, new, s, fid, func):
        if isinstance(target, ast.Name):
            if target.id in func.collect()[0]:
                s.env[(fid, target.id)] = new
            else:
                b = self.prog.lookup_global(func.mod, target.id)
                if b is not None and b[0] == 'gvar':
                    self.fire('on_store_global', s, target, b[1] + '.' + b[2], new, fid)
                    s.env[('G', b[1] + '.' + b[2])] = new
        elif isinstance(target, ast.Attribute):
            r = self.ev(target.value, s, fid, func)
            if len(r) == 1 and r[0][1].rec is not None:
                self.store_attr(target, r[0][1], target.attr, new, s, fid, inplace=True)

    def bind_params(self, e, tf, args, kwargs, s, nfid, fid, func_caller):
        ps = tf.params
        extra = []
        for i, a in enumerate(args):
            if i < len(ps):
                s.env[(nfid, ps[i])] = a
            else:
                extra.append(a)
        named = dict(kwargs)
        named.pop('*', None)
        named.pop('**', None)
        unk = []
        for k, v in named.items():
            if k in ps or k in tf.kwonly:
                s.env[(nfid, k)] = v
            else:
                unk.append((k, v))
        vague = '*' in kwargs or '**' in kwargs
        for p in list(ps) + list(tf.kwonly):
            if (nfid, p) not in s.env:
                d = tf.defaults.get(p)
                if d is not None:
                    s.env[(nfid, p)] = self.default_val(d, s, nfid, tf)
                else:
                    s.env[(nfid, p)] = Val(tok(self.site(e, fid), 'missingarg:' + p))
                    if not vague:
                        self.fire('on_undef', s, e, 'argument ' + p, False, fid)
        if tf.vararg:
            s.env[(nfid, tf.vararg)] = Val(app('tuple', *[x.t for x in extra]), oid=(nfid, 'va'), elts=tuple(extra))
        elif extra and not vague:
            self.fire('on_undef', s, e, 'too many arguments for ' + tf.name, False, fid)
        if tf.kwarg:
            s.env[(nfid, tf.kwarg)] = Val(app('dict', *[v.t for _, v in sorted(unk, key=lambda x: x[0])]),
                                          oid=(nfid, 'kw'))
        elif unk:
            self.fire('on_undef', s, e, 'unexpected keyword %s for %s' % (unk[0][0], tf.name), False, fid)

    def default_val(self, d, s, nfid, tf):
        if isinstance(d, ast.Constant):
            return vconst(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
            r = self.e_UnaryOp(d, s, nfid, tf)
            return r[0][1]
        return Val(leaf('default:%s' % d._site), oid=('default', d._site), lab=frozenset(['default']))

    def enter(self, e, tf, args, kwargs, s, fid, clos):
        self.stats['inlined'] += 1
        self.funcs_seen.add(tf.qual)
        nfid = fid + (e._site,)
        self.fidfunc[nfid] = tf
        if len(nfid) > 40:
            return [(s, Val(tok(self.site(e, fid), 'deep')))]
        self.bind_params(e, tf, args, kwargs, s, nfid, fid, None)
        if clos is not None:
            self.closures[nfid] = clos
        self.depth += 1
        self.funcstack.append(tf)
        saved = self.handlers
        try:
            o = self.block(tf.body, [s], nfid, tf)
        finally:
            self.depth -= 1
            self.funcstack.pop()
            self.handlers = saved
        res = []
        for s2, v, nd in o.ret:
            res.append((s2, v))
        for s2 in o.normal:
            self.fire('on_return', s2, tf.node, tf, VNONE, nfid)
            res.append((s2, VNONE))
        keep = self.keep_frame(tf)
        for s2, v in res:
            if not keep:
                for k in [k for k in s2.env if k[0] == nfid]:
                    del s2.env[k]
        if o.exc:
            for s2, x in o.exc:
                for k in [k for k in s2.env if k[0] == nfid]:
                    del s2.env[k]
                self.pending_exc.append((s2, x))
        for s2, v in res:
            s2.env[(fid, '$gc')] = v
            self.gc(s2, nfid)
            del s2.env[(fid, '$gc')]
        return self.merge_results(res, ('ret',) + self.site(e, fid), fid, self.funcstack[-1] if self.funcstack else None) \
            if len(res) > 1 else res

    def keep_frame(self, tf):
        # frames must survive when nested functions may be returned
        return any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(tf.node) if n is not tf.node)

    # ------------------------------------------------------------ conditions
    def split(self, test, st, fid, func):
        """list of (bool, state)"""
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            out = []
            cur = [st]
            for i, v in enumerate(test.values):
                nxt = []
                for s in cur:
                    for b, s2 in self.split(v, s, fid, func):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((b, s2))
                cur = self.merge(nxt, self.site(v, fid), fid, func)
            out.extend((isand, s) for s in cur)
            # merge the short-circuit side
            sc = self.merge([s for b, s in out if b != isand], self.site(test, fid) + ('sc',), fid, func)
            return [(not isand, s) for s in sc] + [(isand, s) for s in cur]
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(not b, s) for b, s in self.split(test.operand, st, fid, func)]
        out = []
        for s, v in self.ev(test, st, fid, func):
            t = v.t
            if v.rec is not None or v.fn is not None and t.op == 'leaf':
                out.append((True, s))
                continue
            r = self.implied(s, t)
            if r is not None:
                if t.op != 'const':
                    self.note_test(t, self.site(test, fid))
                self.fire('on_cond', s, test, t, fid)
                out.append((r, s))
                continue
            self.note_test(t, self.site(test, fid))
            self.fire('on_cond', s, test, t, fid)
            s2 = s.copy()
            for x in self.assume(s, t, True):
                self.fire('on_assumed', x, test, t, True, fid)
                if x.mon.pop('$dead', None) is None:         # a monitor knows that this side is not taken
                    out.append((True, x))
            for x in self.assume(s2, t, False):
                self.fire('on_assumed', x, test, t, False, fid)
                if x.mon.pop('$dead', None) is None:
                    out.append((False, x))
        return out

    # ------------------------------------------------------------ statements
    pending_exc = None

    def block(self, stmts, states, fid, func):
        o = Outcome()
        cur = states
        for st_ in stmts:
            if not cur:
                break
            nxt = []
            for s in cur:
                self.stats['stmts'] += 1
                self.fire('on_stmt', s, st_, fid)
                r = self.stmt(st_, s, fid, func)
                nxt.extend([x for x in r.normal if x.mon.pop('$dead', None) is None])
                o.brk.extend(r.brk)
                o.cont.extend(r.cont)
                o.ret.extend(r.ret)
                o.exc.extend(r.exc)
            if len(nxt) > 1:
                nxt = self.merge(nxt, ('after',) + self.site(st_, fid), fid, func)
            cur = nxt
        o.normal = cur
        return o

    def stmt(self, n, st, fid, func):
        saved = self.pending_exc
        self.pending_exc = []
        m = getattr(self, 's_' + type(n).__name__, None)
        self.sites_seen.add(n._site)
        if m is None:
            self.unsupported[type(n).__name__] = self.unsupported.get(type(n).__name__, 0) + 1
            o = Outcome()
            o.normal = [st]
        else:
            o = m(n, st, fid, func)
        o.exc.extend(self.pending_exc)
        self.pending_exc = saved
        return o

    def s_Expr(self, n, st, fid, func):
        o = Outcome()
        if isinstance(n.value, ast.Constant):
            o.normal = [st]
            return o
        o.normal = [s for s, _ in self.ev(n.value, st, fid, func)]
        return o

    def s_Pass(self, n, st, fid, func):
        o = Outcome()
        o.normal = [st]
        return o

    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_Import(self, n, st, fid, func):
        o = Outcome()
        tmp = {}
        self.prog.module_bind(func.mod, [n], tmp)
        for k, b in tmp.items():
            if k == '*ext':
                continue
            v = self.binding_val(b, n, k, st, fid, func)
            self.write_name(n, k, v, st, fid, func)
        o.normal = [st]
        return o

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, st, fid, func):
        o = Outcome()
        f = n._func
        v = Val(leaf('fn:' + f.qual), fn=('func', f, fid))
        self.write_name(n, n.name, v, st, fid, func)
        o.normal = [st]
        return o

    def s_ClassDef(self, n, st, fid, func):
        o = Outcome()
        # a class object used as a plain attribute container
        rec = ('cls',) + self.site(n, fid)
        d = {}
        for x in n.body:
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        r = self.ev(x.value, st, fid, func)
                        st, d[t.id] = r[0]
        d['*isclass'] = True
        d['*class'] = n
        d['*methods'] = ()
        st.heap[rec] = d
        v = Val(leaf('localclass:' + n._site), rec=rec)
        self.write_name(n, n.name, v, st, fid, func)
        o.normal = [st]
        return o

    def s_Assign(self, n, st, fid, func):
        o = Outcome()
        for s, v in self.ev(n.value, st, fid, func):
            for t in n.targets:
                s = self.assign(t, v, s, fid, func, n)
            o.normal.append(s)
        return o

    def s_AnnAssign(self, n, st, fid, func):
        o = Outcome()
        if n.value is None:
            o.normal = [st]
            return o
        for s, v in self.ev(n.value, st, fid, func):
            o.normal.append(self.assign(n.target, v, s, fid, func, n))
        return o

    def s_AugAssign(self, n, st, fid, func):
        o = Outcome()
        load = ast.copy_location(_as_load(n.target), n.target)
        for s, (a, b) in self.ev_list([load, n.value], st, fid, func):
            op = BIN[type(n.op)]
            t = self.binterm(op, a, b)
            v = Val(t, oid=a.oid, lab=a.lab)
            if a.elts is not None and b.elts is not None and op == 'add':
                v = v.but(elts=a.elts + b.elts)
            v = self.op(s, n, v, [a, b], fid)
            if a.t.op != 'const':
                self.fire('on_mutate', s, n, a, 'augassign', fid)
                if not isinstance(n.target, ast.Subscript):
                    self.update_oid(s, a.oid, v)
            s = self.assign(n.target, v, s, fid, func, n, aug=True)
            o.normal.append(s)
        return o

    def bind_target(self, t, v, s, fid, func, comp=False):
        if comp and isinstance(t, ast.Name) and t.id not in func.collect()[0]:
            s.env[(fid, t.id)] = v
            return s
        if comp and isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bind_target(x, self.proj(v, i, len(t.elts), t, s, fid), s, fid, func, comp)
            return s
        return self.assign(t, v, s, fid, func, t)

    def proj(self, v, i, n, node, s, fid):
        if v.elts is not None:
            if i < len(v.elts):
                return v.elts[i]
            return Val(tok(self.site(node, fid), 'proj%d' % i))
        t = self.index_term(v.t, T.const(i))
        r = Val(t, oid=(fid, node._site, i), lab=v.lab)
        return self.op(s, node, r, [v], fid)

    def assign(self, t, v, s, fid, func, stmt, aug=False):
        if isinstance(t, ast.Name):
            self.write_name(t, t.id, v, s, fid, func)
            return s
        if isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            if v.elts is not None and len(v.elts) != k and not any(isinstance(x, ast.Starred) for x in t.elts):
                self.fire('on_undef', s, t, 'unpacking %d values into %d targets' % (len(v.elts), k), False, fid)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                s = self.assign(x, self.proj(v, i, k, t, s, fid), s, fid, func, stmt)
            return s
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, s, fid, func, stmt)
        if isinstance(t, ast.Attribute):
            r = self.ev(t.value, s, fid, func)
            s, b = r[0]
            if b.rec is not None:
                self.store_attr(t, b, t.attr, v, s, fid)
            elif b.fn is not None and b.fn[0] in ('module',):
                self.fire('on_store_global', s, t, b.fn[1] + '.' + t.attr, v, fid)
                s.env[('G', b.fn[1] + '.' + t.attr)] = v
            elif b.fn is not None and b.fn[0] in ('ext', 'extmod', 'func', 'class', 'builtin'):
                self.fire('on_store_global', s, t, str(b.fn[1]) + '.' + t.attr, v, fid)
            else:
                self.fire('on_mutate', s, t, b, 'attr:' + t.attr, fid)
            return s
        if isinstance(t, ast.Subscript):
            r = self.ev_list([_as_load(t.value), t.slice], s, fid, func)
            s, (b, i) = r[0]
            self.fire('on_mutate', s, t, b, 'subscript', fid)
            new = b.but(t=app('store', b.t, i.t, v.t), elts=None, undef=False)
            if b.elts is not None and i.t.op == 'const' and i.t.pay[0] == 'n' and 0 <= int(i.t.pay[1]) < len(b.elts):
                el = list(b.elts)
                el[int(i.t.pay[1])] = v
                new = new.but(elts=tuple(el))
            for m in self.monitors:
                new = m.on_store_sub(self, s, t, b, i, v, new, fid)
            if b.rec is not None:
                return s
            self.update_oid(s, b.oid, new)
            self.store_base(t.value, new, s, fid, func)
            return s
        return s

    def store_base(self, target, new, s, fid, func):
        if isinstance(target, (ast.Name, ast.Attribute)):
            if isinstance(target, ast.Attribute) and target.attr in ('T', 'flat', 'real'):
                return
            self.write_back(target, new, s, fid, func)

    def store_attr(self, t, b, attr, v, s, fid, inplace=False):
        d = s.heap.get(b.rec, {})
        old = d.get(attr)
        self.fire('on_store_attr', s, t, b.rec, attr, old, v, fid)
        if b.lab:
            self.fire('on_mutate', s, t, b, 'attr:' + attr, fid)
        if v.undef:
            v = v.but(undef=False)
        s.setattr(b.rec, attr, v)

    def s_Delete(self, n, st, fid, func):
        o = Outcome()
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop((fid, t.id), None)
            elif isinstance(t, ast.Subscript):
                r = self.ev_list([_as_load(t.value), t.slice], st, fid, func)
                st, (b, i) = r[0]
                self.fire('on_mutate', st, t, b, 'del', fid)
                new = b.but(t=app('mut:del', b.t, i.t), elts=None)
                self.update_oid(st, b.oid, new)
                self.store_base(t.value, new, st, fid, func)
        o.normal = [st]
        return o

    def s_Assert(self, n, st, fid, func):
        o = Outcome()
        for b, s in self.split(n.test, st, fid, func):
            if b:
                o.normal.append(s)
            else:
                o.exc.append((s, 'AssertionError'))
        o.normal = self.merge(o.normal, self.site(n, fid), fid, func)
        return o

    def s_Raise(self, n, st, fid, func):
        o = Outcome()
        nm = '?'
        x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
        if isinstance(x, ast.Name):
            nm = x.id
        self.fire('on_raise', st, n, fid)
        o.exc.append((st, nm))
        return o

    def s_Return(self, n, st, fid, func):
        o = Outcome()
        if n.value is None:
            self.fire('on_return', st, n, func, VNONE, fid)
            o.ret.append((st, VNONE, n))
            return o
        for s, v in self.ev(n.value, st, fid, func):
            self.fire('on_return', s, n, func, v, fid)
            o.ret.append((s, v, n))
        return o

    def s_Break(self, n, st, fid, func):
        o = Outcome()
        o.brk.append(st)
        return o

    def s_Continue(self, n, st, fid, func):
        o = Outcome()
        o.cont.append(st)
        return o

    def s_If(self, n, st, fid, func):
        o = Outcome()
        tr, fa = [], []
        for b, s in self.split(n.test, st, fid, func):
            (tr if b else fa).append(s)
        tr = self.merge(tr, ('t',) + self.site(n, fid), fid, func)
        fa = self.merge(fa, ('f',) + self.site(n, fid), fid, func)
        for body, sts in ((n.body, tr), (n.orelse, fa)):
            if not sts:
                continue
            r = self.block(body, sts, fid, func) if body else None
            if r is None:
                o.normal.extend(sts)
                continue
            o.normal.extend(r.normal)
            o.brk.extend(r.brk)
            o.cont.extend(r.cont)
            o.ret.extend(r.ret)
            o.exc.extend(r.exc)
        o.normal = self.merge(o.normal, ('if',) + self.site(n, fid), fid, func)
        return o

    def s_With(self, n, st, fid, func):
        sts = [st]
        for it in n.items:
            nxt = []
            for s in sts:
                for s2, v in self.ev(it.context_expr, s, fid, func):
                    if it.optional_vars is not None:
                        s2 = self.assign(it.optional_vars, v, s2, fid, func, n)
                    s2.env[(fid, '$with:' + it.context_expr._site)] = v
                    nxt.append(s2)
            sts = nxt
        o = self.block(n.body, sts, fid, func)
        for s in o.normal + o.brk + o.cont + [x[0] for x in o.ret]:
            for it in reversed(n.items):
                v = s.env.pop((fid, '$with:' + it.context_expr._site), None)
                if v is not None:
                    self.fire('on_with_exit', s, n, v, fid)
        return o

    def s_Try(self, n, st, fid, func):
        o = Outcome()
        entry = []
        hn = []
        for h in n.handlers:
            if h.type is None:
                hn.append('*')
            elif isinstance(h.type, ast.Tuple):
                hn.extend(x.id if isinstance(x, ast.Name) else '?' for x in h.type.elts)
            else:
                hn.append(h.type.id if isinstance(h.type, ast.Name) else '?')
        saved = self.handlers
        self.handlers = saved + [tuple(hn)]
        cur = [st]
        body = Outcome()
        stores = []
        newstores = []
        for x in n.body:
            if not cur:
                break
            nxt = []
            for s in cur:
                saved_snap = self.dyn_snap
                self.dyn_snap = []
                pre = None
                k = None
                if can_raise(x, hn):
                    pre = s.copy()
                    k = self.note_try_store(x, pre, fid, func) if isinstance(x, ast.Assign) else None
                    # a second store at the same index into a parallel array succeeds when the first did
                    if k is not None:
                        newstores.append(k)
                r = self.stmt(x, s, fid, func)
                if self.dyn_snap:
                    # the call of an unknown function is what raises: after it was made
                    entry.extend(self.dyn_snap)
                elif pre is not None and (k is None or k not in stores):
                    entry.append(pre)
                self.dyn_snap = saved_snap
                nxt.extend(r.normal)
                body.brk.extend(r.brk)
                body.cont.extend(r.cont)
                body.ret.extend(r.ret)
                for s2, nm in r.exc:
                    if hn:
                        entry.append(s2)
                    else:
                        body.exc.append((s2, nm))
            stores.extend(newstores)
            newstores = []
            cur = self.merge(nxt, ('try',) + self.site(x, fid), fid, func)
        self.handlers = saved
        if n.orelse and cur:
            r = self.block(n.orelse, cur, fid, func)
            cur = r.normal
            body.brk.extend(r.brk)
            body.cont.extend(r.cont)
            body.ret.extend(r.ret)
            body.exc.extend(r.exc)
        o.normal.extend(cur)
        if n.handlers:
            ent = self.merge([e.copy() for e in entry], ('exc',) + self.site(n, fid), fid, func)
            for h in n.handlers:
                es = [e.copy() for e in ent]
                for e_ in es:
                    if h.name:
                        e_.env[(fid, h.name)] = Val(tok(self.site(h, fid), 'exc'))
                r = self.block(h.body, es, fid, func)
                o.normal.extend(r.normal)
                body.brk.extend(r.brk)
                body.cont.extend(r.cont)
                body.ret.extend(r.ret)
                body.exc.extend(r.exc)
        for s in o.normal:
            s.env.pop((fid, '$oob'), None)
        o.normal = self.merge(o.normal, ('tryj',) + self.site(n, fid), fid, func)
        if n.finalbody:
            fin = Outcome()
            for lst in ('normal', 'brk', 'cont'):
                sts = getattr(o, lst) if lst == 'normal' else getattr(body, lst)
                if sts:
                    r = self.block(n.finalbody, sts, fid, func)
                    getattr(fin, lst).extend(r.normal)
                    fin.ret.extend(r.ret)
            for s, v, nd in body.ret:
                r = self.block(n.finalbody, [s], fid, func)
                for s2 in r.normal:
                    fin.ret.append((s2, v, nd))
                fin.ret.extend(r.ret)
            for s, nm in body.exc:
                r = self.block(n.finalbody, [s], fid, func)
                for s2 in r.normal:
                    fin.exc.append((s2, nm))
            return fin
        o.brk, o.cont, o.ret, o.exc = body.brk, body.cont, body.ret, body.exc
        return o

    def note_try_store(self, x, pre, fid, func):
        """in the handler of  try: A[i]=v / A[:,i]=v  the index was out of bounds"""
        t = x.targets[0]
        if isinstance(t, ast.Subscript):
            try:
                r = self.ev_list([_as_load(t.value), t.slice], pre.copy(), fid, func)
            except Exception:
                return
            _, (b, i) = r[0]
            pre.env[(fid, '$oob')] = Val(app('oob', b.t, i.t))
            return i.t
        return None

    # loops
    def s_While(self, n, st, fid, func):
        return self.loop(n, st, fid, func, None)

    def s_For(self, n, st, fid, func):
        o = Outcome()
        for s, it in self.ev(n.iter, st, fid, func):
            if it.elts is not None and 2 <= len(it.elts) <= 24 and it.t.op in ('tuple', 'list'):
                r = self.unroll(n, s, fid, func, it)
            else:
                r = self.loop(n, s, fid, func, it)
            for k in ('normal', 'brk', 'cont', 'ret', 'exc'):
                getattr(o, k).extend(getattr(r, k))
        o.normal = self.merge(o.normal, ('for',) + self.site(n, fid), fid, func)
        return o

    def unroll(self, n, st, fid, func, it):
        """for over a display of known length: one body per element"""
        o = Outcome()
        cur = [st]
        brks = []
        for v in it.elts:
            if not cur:
                break
            nxt = []
            for s in cur:
                s = self.assign(n.target, v, s, fid, func, n)
                r = self.block(n.body, [s], fid, func)
                nxt.extend(r.normal)
                nxt.extend(r.cont)
                brks.extend(r.brk)
                o.ret.extend(r.ret)
                o.exc.extend(r.exc)
            cur = self.merge(nxt, ('un',) + self.site(n, fid), fid, func)
        if n.orelse and cur:
            r = self.block(n.orelse, cur, fid, func)
            cur = r.normal
            o.ret.extend(r.ret)
            o.brk.extend(r.brk)
            o.cont.extend(r.cont)
            o.exc.extend(r.exc)
        o.normal = self.merge(cur + brks, ('ux',) + self.site(n, fid), fid, func)
        return o

    def iter_empty(self, it, st):
        t = it.t
        if t is T.EMPTY or (it.elts is not None and len(it.elts) == 0):
            return True
        if t.op == 'call:range':
            a = t.args
            lo, hi = (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) <= 2:
                r = self.implied(st, T.compare('lt', lo, hi))
                if r is False:
                    return True
                if r is True:
                    return False
        return None

    def loop(self, n, st, fid, func, it):
        site = ('loop',) if False else self.site(n, fid)
        born = Interp.Born(self, n, fid, site)
        o = Outcome()
        self.fire('on_loop_enter', st, n, fid)
        heads = {self.hkey(st, fid, func, born): st}
        done_exits = {}
        rounds = 0
        final_ret = []
        while True:
            rounds += 1
            self.stats['loopiters'] += 1
            pv = self.parts_version
            back = []
            exits = []
            brks = []
            rets = []
            excs = []
            for k, h in list(heads.items()):
                s = h.copy()
                if it is None:
                    tr, fa = [], []
                    for b, s2 in self.split(n.test, s, fid, func):
                        (tr if b else fa).append(s2)
                    tr = self.merge(tr, ('wt',) + site, fid, func)
                    exits.extend(fa)
                else:
                    em = self.iter_empty(it, h) if rounds == 1 else None
                    tr = []
                    if em is True:
                        exits.append(s)
                    else:
                        if em is not False or rounds > 1:
                            exits.append(s.copy())
                        ev = self.elem_val(n, it, s, fid)
                        s = self.assign(n.target, ev, s, fid, func, n)
                        tr = [s]
                if not tr:
                    continue
                r = self.block(n.body, tr, fid, func)
                back.extend(r.normal)
                back.extend(r.cont)
                brks.extend(r.brk)
                rets.extend(r.ret)
                excs.extend(r.exc)
            for b in back:
                self.fire('on_backedge', b, n, fid)
            # join back states into heads
            new = dict(heads)
            for b in self.merge(back, ('back',) + site, fid, func):
                kb = self.hkey(b, fid, func, born)
                if kb in new:
                    new[kb] = self.join([new[kb], b], site, born)
                else:
                    # re-key after dropping loop-born facts; keep as separate head
                    # a back state without matching head is generalised by itself
                    new[kb] = self.join([b, b], site, born, force=True)
            stable = pv == self.parts_version and len(new) == len(heads) and all(self.same(new[k], heads[k]) for k in new)
            heads = new
            if stable or rounds > 25:
                if rounds > 25:
                    self.stats['unstable'] = self.stats.get('unstable', 0) + 1
                o.ret.extend(rets)
                o.exc.extend(excs)
                for s in exits:
                    self.fire('on_loop_exit', s, n, fid)
                sts = exits
                if n.orelse and sts:
                    r = self.block(n.orelse, self.merge(sts, ('le',) + site, fid, func), fid, func)
                    sts = r.normal
                    o.ret.extend(r.ret)
                    o.brk.extend(r.brk)
                    o.cont.extend(r.cont)
                    o.exc.extend(r.exc)
                o.normal = self.merge(sts + brks, ('lx',) + site, fid, func)
                return o

    def hkey(self, st, fid, func, born):
        tr = self.tracked
        fk = tuple(sorted((f.tid, v) for f, v in st.facts.items() if f in tr and not born(f)))
        mk = []
        for m in self.monitors:
            if m.name in st.mon:
                mk.append((m.name, m.mkey(self, st.mon[m.name])))
        hk = []
        for r, d in st.heap.items():
            for a in self.tested_attrs:
                v = d.get(a)
                if v is not None and v.t.op == 'const':
                    hk.append((str(r), a, v.t.tid))
        hk.sort()
        vk = ()
        if self.boolloops:
            vk = []
            for nm in self.boolvars(func):
                v = st.env.get((fid, nm))
                if v is not None and v.t.op == 'const':
                    vk.append((nm, v.t.tid))
            vk = tuple(vk)
        return (fk, tuple(mk), vk, tuple(hk) if self.loopkeys else ())

    def elem_val(self, n, it, s, fid):
        if it.elts is not None and len(it.elts) == 1:
            return it.elts[0]
        if it.t.op == 'call:range':
            t = app('idx', it.t, tok(self.site(n, fid), 'i'))
        elif it.t.op == 'call:enumerate':
            i = app('idx', app('call:range', app('call:len', it.t.args[0])), tok(self.site(n, fid), 'i'))
            x = app('index', it.t.args[0], i)
            return Val(app('tuple', i, x), elts=(Val(i), Val(x, oid=(fid, n._site, 'x'))))
        else:
            t = app('index', it.t, app('idx', app('call:range', app('call:len', it.t)), tok(self.site(n, fid), 'i')))
        v = Val(t, oid=(fid, n._site, 'it'), lab=it.lab)
        return self.op(s, n, v, [it], fid)


NONNONE = {'add', 'sub', 'mul', 'div', 'list', 'tuple', 'dict', 'store', 'and', 'or', 'not', 'lt', 'le', 'eq', 'sadd',
           'smod', 'neg', 'comp'}


def sliced(t):
    """an index that selects a part of a sequence, never a single element"""
    return t.op in ('slice', 'list') or t.op == 'tuple' and any(x.op in ('slice', 'list') for x in t.args)


def app_s(op, e, vs):
    return T.app_p(op, e._site, *[v.t for v in vs])


def can_raise(x, handlers=()):
    if isinstance(x, (ast.Pass, ast.FunctionDef, ast.Global)):
        return False
    if handlers and all(h == 'IndexError' for h in handlers):
        return any(isinstance(y, ast.Subscript) for y in ast.walk(x))
    return True


_loadcache = {}


def _as_load(n):
    r = _loadcache.get(id(n))
    if r is not None and r[0] is n:
        return r[1]
    if isinstance(n, ast.Name):
        m = ast.Name(id=n.id, ctx=ast.Load())
    elif isinstance(n, ast.Attribute):
        m = ast.Attribute(value=_as_load(n.value), attr=n.attr, ctx=ast.Load())
    elif isinstance(n, ast.Subscript):
        m = ast.Subscript(value=_as_load(n.value), slice=n.slice, ctx=ast.Load())
    else:
        return n
    m.lineno = getattr(n, 'lineno', 0)
    m.col_offset = getattr(n, 'col_offset', 0)
    m._site = n._site + 'L'
    m._fn = getattr(n, '_fn', '')
    _loadcache[id(n)] = (n, m)
    return m
