"""Which objects may a function modify, and what may its results share?

Flow-sensitive, interprocedural may-alias / may-modify analysis.  An abstract
value says which roots an object may share storage with: parameters of the
function ('p', k), record fields ('a', name), module variables ('g', name).
Everything created in the function has no root.
"""
import ast

EMPTY = frozenset()
USER = '<user>'
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view', 'diagonal', 'get', 'setdefault', 'values',
                'items', 'flat', '__getitem__'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat', 'mT', 'base', 'A'}
SCALAR_ATTRS = {'shape', 'size', 'ndim', 'dtype', 'itemsize', 'nbytes'}
VIEW_FUNCS = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'squeeze', 'reshape', 'ravel', 'transpose',
              'swapaxes', 'real', 'imag', 'broadcast_to', 'expand_dims', 'moveaxis', 'flip', 'fliplr', 'flipud', 'split',
              'hsplit', 'vsplit', 'array_split', 'ascontiguousarray', 'asfortranarray', 'rollaxis', 'diagonal', 'nditer',
              'ndenumerate', 'asmatrix', 'mat', 'require', 'asfarray', 'rot90', 'real_if_close', 'asarray_chkfinite'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', 'fill', 'resize', 'put', 'itemset',
            'setfield', 'partition', 'update', 'setdefault', 'popitem', 'setflags', 'byteswap', '__setitem__', '__setattr__',
            '__iadd__', '__isub__', '__imul__', '__delitem__', 'add', 'discard'}
MUT_FUNCS = {'fill_diagonal': 0, 'put': 0, 'place': 0, 'putmask': 0, 'copyto': 0, 'put_along_axis': 0, 'shuffle': 0,
             'setattr': 0, 'delattr': 0, 'setitem': 0, 'delitem': 0, 'iadd': 0, 'isub': 0, 'imul': 0, 'at': 0,
             'heappush': 0, 'heappop': 0}
REFS = {'list', 'tuple', 'sorted', 'reversed', 'zip', 'enumerate', 'iter', 'next', 'dict', 'set', 'filter', 'map', 'max', 'min',
        'getattr', 'vars'}


class V(object):
    __slots__ = ('own', 'content', 'funcs', 'arr', 'elts', 'fresh')

    def __init__(self, own=EMPTY, content=EMPTY, funcs=EMPTY, arr=None, elts=None):
        self.own, self.content, self.funcs, self.arr, self.elts = own, content, funcs, arr, elts

    def all(self):
        r = self.own | self.content
        for e in self.elts or ():
            r |= e.all()
        return r

    def key(self):
        return (self.own, self.content, self.funcs, self.arr, tuple(e.key() for e in self.elts) if self.elts else None)

    def __eq__(self, o):
        return self.key() == o.key()

    def __ne__(self, o):
        return self.key() != o.key()


NEW = V()
SCAL = V(arr='scalar')


def join(a, b):
    if a is b or a == b:
        return a
    el = None
    ca, cb = a.content, b.content
    if a.elts and b.elts and len(a.elts) == len(b.elts):
        el = tuple(join(x, y) for x, y in zip(a.elts, b.elts))
    else:
        for e in a.elts or ():
            ca = ca | e.all()
        for e in b.elts or ():
            cb = cb | e.all()
    return V(a.own | b.own, ca | cb, a.funcs | b.funcs, a.arr if a.arr == b.arr else None, el)


def joinenv(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = {}
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if isinstance(k, tuple):
            if x is not None and x == y:
                r[k] = x
            continue
        r[k] = x if y is None else y if x is None else join(x, y)
    return r


def envkey(e):
    return frozenset((k, v if isinstance(k, tuple) else v.key()) for k, v in e.items())


def consts(env):
    return frozenset((k, v) for k, v in env.items() if isinstance(k, tuple))


def merge(envs, limit=6):
    """joins the states that agree on the known constants"""
    d = {}
    for e in envs:
        if e is None:
            continue
        k = consts(e)
        d[k] = joinenv(d.get(k), e)
    r = list(d.values())
    if len(r) > limit:
        e = None
        for x in r:
            e = joinenv(e, x)
        r = [e]
    return r


def flagvars(f):
    """local variables that only ever hold constants and are tested"""
    vals, bad, tested = {}, set(f.params), set()
    ok = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
                isinstance(x.value, ast.Constant):
            vals.setdefault(x.targets[0].id, set()).add(repr(x.value.value))
            ok.add(id(x.targets[0]))
        if isinstance(x, (ast.If, ast.While, ast.IfExp)):
            for y in ast.walk(x.test):
                if isinstance(y, ast.Name):
                    tested.add(y.id)
    for x in ast.walk(f.node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and id(x) not in ok:
            bad.add(x.id)
    return set(n for n, v in vals.items() if len(v) > 1 and n in tested and n not in bad)


class Summary(object):
    def __init__(self):
        self.mut = {}          # root -> {(qual, kind, text): node}
        self.ret = None        # V or None
        self.esc = {}          # root -> set of destinations ('a', name) / ('g', mod, name)
        self.user = {}         # roots handed to user functions

    def key(self):
        return (frozenset((r, frozenset(d)) for r, d in self.mut.items()), self.ret.key() if self.ret else None,
                frozenset((r, frozenset(d)) for r, d in self.esc.items()), frozenset(self.user))


class Alias(object):
    def __init__(self, prog, observe=None):
        self.prog = prog
        self.sums = {}
        self.pfuncs = {}       # (qual, k) -> set of functions passed
        self.gfuncs = {}       # module variable -> functions stored
        self.gvals = {}
        self.observe = observe
        self.nested = {}
        for f in prog.funcs.values():
            if f.parent is not None:
                self.nested[(f.parent.qual, f.name)] = f
        self.sites = {}        # user-call sites: (qual, node) -> [values]
        self.calls = 0
        self.run()

    def run(self):
        """passes over all functions until summaries and function values are stable"""
        prev = None
        for n in range(60):
            self.sites = {}
            self.shared = {}
            for q in sorted(self.prog.funcs):
                self.sums[q] = analyse(self, self.prog.funcs[q])
            key = ({q: s.key() for q, s in self.sums.items()}, {k: frozenset(v) for k, v in self.pfuncs.items()},
                   {k: frozenset(v) for k, v in self.gfuncs.items()})
            if key == prev:
                break
            prev = key
        else:
            raise RuntimeError('alias analysis does not converge')
        self.passes = n + 1

    # ---------------------------------------------------------------- queries
    def destinations(self):
        """root fields/globals that some function modifies: dest -> [(qual, node, text)]"""
        out = {}
        for q, s in self.sums.items():
            for r, d in s.mut.items():
                if r[0] in 'ag':
                    out.setdefault(r, {}).update(d)
        return out


def flags(f):
    """parameters whose truth value is tested several times and that are never rebound"""
    cnt = {}

    def names(t):
        if isinstance(t, ast.BoolOp):
            for x in t.values:
                names(x)
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            names(t.operand)
        elif isinstance(t, ast.Name):
            cnt[t.id] = cnt.get(t.id, 0) + 1
    stored = set()
    for x in ast.walk(f.node):
        if isinstance(x, (ast.If, ast.While, ast.IfExp)):
            names(x.test)
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            stored.add(x.id)
    return [p for p in f.params if cnt.get(p, 0) > 1 and p not in stored][:4]


def analyse(A, f):
    fl = flags(f)
    out = None
    for k in range(2 ** len(fl)):
        s = Intra(A, f, {p: bool(k >> i & 1) for i, p in enumerate(fl)}).go()
        if out is None:
            out = s
            continue
        for r, d in s.mut.items():
            for x, n in d.items():
                out.mut.setdefault(r, {}).setdefault(x, n)
        for r, d in s.esc.items():
            out.esc.setdefault(r, set()).update(d)
        for r, n in s.user.items():
            out.user.setdefault(r, n)
        if s.ret is not None:
            out.ret = s.ret if out.ret is None else join(out.ret, s.ret)
    return out


class Intra(object):
    def __init__(self, A, f, given=None):
        self.given = given or {}
        self.A, self.f, self.prog = A, f, A.prog
        self.s = Summary()
        self.loc = f.collect()[0]
        self.glo = f.collect()[1]
        self.final = False
        self.breaks, self.conts = [], []
        self.flagv = flagvars(f)

    def go(self):
        env = {}
        f = self.f
        names = list(f.params) + list(f.kwonly)
        if f.vararg:
            names.append(f.vararg)
        if f.kwarg:
            names.append(f.kwarg)
        for i, p in enumerate(names):
            r = frozenset([('p', i)])
            env[p] = V(r, EMPTY, frozenset(self.A.pfuncs.get((f.qual, i), ())))
            if p in (f.vararg, f.kwarg):
                env[p] = V(EMPTY, r)
        for v in self.flagv:
            env[('#', v)] = ('<unset>',)
        body = f.body
        if body and not isinstance(body[0], ast.stmt):
            self.ret(self.ev(body[0], env))
            return self.s
        if self.block(body, [env]):
            self.ret(SCAL)
        return self.s

    # ------------------------------------------------------------- statements
    def block(self, body, envs):
        for st in body:
            out = []
            for env in envs:
                r = self.stmt(st, env)
                out += r if isinstance(r, list) else [r]
            envs = merge(out)
            if not envs:
                break
        return envs

    def strip(self, v):
        f = lambda s: frozenset(r for r in s if r[0] not in 'f!')
        return V(f(v.own), f(v.content), v.funcs, v.arr, tuple(self.strip(x) for x in v.elts) if v.elts is not None else None)

    def ret(self, v):
        v = self.strip(v)
        self.s.ret = v if self.s.ret is None else join(self.s.ret, v)

    def stmt(self, n, env):
        t = type(n)
        if t is ast.Assign:
            v = self.ev(n.value, env)
            env = dict(env)
            if not isinstance(n.value, (ast.Name, ast.Tuple)) and not \
                    (v.elts is None and isinstance(n.targets[0], (ast.Tuple, ast.List))):
                v = self.alloc(v, n, env, '')
            for x in n.targets:
                self.bind(x, v, env, n)
                if isinstance(x, ast.Name) and x.id in self.flagv:
                    env[('#', x.id)] = (n.value.value,)
            return env
        if t is ast.AnnAssign:
            if n.value is None:
                return env
            v = self.ev(n.value, env)
            env = dict(env)
            self.bind(n.target, v, env, n)
            return env
        if t is ast.AugAssign:
            v = self.ev(n.value, env)
            if isinstance(n.target, ast.Name):
                o = self.load(n.target, env)
                if o.arr != 'scalar':
                    self.mutate(o.own, n, 'updates in place', n.target, env)
                return env
            if isinstance(n.target, ast.Subscript):
                b = self.ev(n.target.value, env)
                self.mutate(b.own, n, 'stores into', n.target.value, env)
            elif isinstance(n.target, ast.Attribute):
                b = self.ev(n.target.value, env)
                self.mutate(b.own | frozenset([('a', n.target.attr)]), n, 'updates a field of', n.target.value, env)
            return env
        if t is ast.Expr:
            self.ev(n.value, env)
            return env
        if t is ast.Return:
            self.ret(self.ev(n.value, env) if n.value is not None else SCAL)
            return None
        if t is ast.Raise:
            for x in (n.exc, n.cause):
                if x is not None:
                    self.ev(x, env)
            return None
        if t is ast.If:
            self.ev(n.test, env)
            k = self.truth(n.test, env)
            if k is not None:
                return self.block(n.body if k else n.orelse, [env])
            return self.block(n.body, [env]) + self.block(n.orelse, [env])
        if t in (ast.For, ast.While, ast.AsyncFor):
            return self.loop(n, env)
        if t is ast.Try or t.__name__ == 'TryStar':
            return self.tr(n, env)
        if t in (ast.With, ast.AsyncWith):
            env = dict(env)
            for it in n.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v, env, n)
            return self.block(n.body, [env])
        if t is ast.Break:
            self.breaks[-1].append(env)
            return None
        if t is ast.Continue:
            self.conts[-1].append(env)
            return None
        if t is ast.Delete:
            env = dict(env)
            for x in n.targets:
                if isinstance(x, ast.Subscript):
                    b = self.ev(x.value, env)
                    self.mutate(b.own, n, 'deletes from', x.value, env)
                elif isinstance(x, ast.Name):
                    env.pop(x.id, None)
                elif isinstance(x, ast.Attribute):
                    b = self.ev(x.value, env)
                    self.mutate(b.own, n, 'deletes a field of', x.value, env)
            return env
        if t is ast.FunctionDef:
            g = self.A.nested.get((self.f.qual, n.name))
            env = dict(env)
            env[n.name] = V(funcs=frozenset([g.qual]) if g else EMPTY)
            return env
        if t is ast.Assert:
            self.ev(n.test, env)
            return env
        if t in (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass, ast.ClassDef):
            return env
        if t.__name__ == 'Match':
            self.ev(n.subject, env)
            out = [env]
            for c in n.cases:
                out += self.block(c.body, [env])
            return out
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return env

    def truth(self, t, env):
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.Name):
            c = env.get(('#', t.id))
            return self.given.get(t.id) if c is None else None if c[0] == '<unset>' else bool(c[0])
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            k = self.truth(t.operand, env)
            return None if k is None else not k
        if isinstance(t, ast.BoolOp):
            ks = [self.truth(x, env) for x in t.values]
            stop = isinstance(t.op, ast.Or)
            if stop in ks:
                return stop
            return None if None in ks else not stop
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            x, y = t.left, t.comparators[0]
            if isinstance(x, ast.Constant):
                x, y = y, x
            if isinstance(x, ast.Name) and isinstance(y, ast.Constant) and ('#', x.id) in env:
                eq = env[('#', x.id)][0] == y.value
                if isinstance(t.ops[0], (ast.Eq, ast.Is)):
                    return eq
                if isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
                    return not eq
        return None

    def loop(self, n, env):
        self.breaks.append([])
        self.conts.append([])
        cur = [env]
        for _ in range(30):
            self.breaks[-1], self.conts[-1] = [], []
            o, out = [], []
            for e in cur:
                if isinstance(n, ast.While):
                    self.ev(n.test, e)
                    k = self.truth(n.test, e)
                    if k is not True:
                        out.append(e)
                    if k is False:
                        continue
                else:
                    it = self.ev(n.iter, e)
                    out.append(e)
                    e = dict(e)
                    if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range':
                        v = SCAL
                    else:
                        v = V(it.all())
                    self.bind(n.target, v, e, n)
                o += self.block(n.body, [e])
            o += self.conts[-1]
            nxt = merge(cur + o)
            if sorted(map(envkey, nxt), key=repr) == sorted(map(envkey, cur), key=repr):
                break
            cur = nxt
        if n.orelse and out:
            out = self.block(n.orelse, merge(out))
        out = out + self.breaks.pop()
        self.conts.pop()
        return merge(out)

    def tr(self, n, env):
        # states in which a handler may start: before and after every statement
        mid = [env]
        e = [env]
        for st in n.body:
            if not e:
                break
            e = self.block([st], e)
            mid = merge(mid + e)
        out = list(self.block(n.orelse, e) if e and n.orelse else e)
        for h in n.handlers:
            ms = []
            for m in mid:
                m = dict(m)
                if h.name:
                    m[h.name] = NEW
                ms.append(m)
            out += self.block(h.body, ms)
        if n.finalbody:
            if not out:
                self.block(n.finalbody, mid)
            else:
                out = self.block(n.finalbody, merge(out))
        return out

    def alloc(self, v, n, env, sfx):
        """a value created here: a root of its own, older values of the place become 'old'"""
        if v.elts is not None:
            return V(v.own, v.content, v.funcs, v.arr,
                     tuple(self.alloc(x, n, env, '%s.%d' % (sfx, i)) for i, x in enumerate(v.elts)))
        if v.all() or v.arr == 'scalar' or v.funcs:
            return v
        new, old = ('f', n._site + sfx if isinstance(n._site, str) else (n._site, sfx), 0), None
        old = new[:2] + (1,)
        for k, w in list(env.items()):
            if isinstance(k, str) and (new in w.all()):
                env[k] = self.aged(w, new, old)
        return V(frozenset([new]), EMPTY, v.funcs, v.arr)

    def aged(self, w, new, old):
        f = lambda s: s - {new} | {old} if new in s else s
        return V(f(w.own), f(w.content), w.funcs, w.arr, tuple(self.aged(x, new, old) for x in w.elts) if w.elts else None)

    def bind(self, x, v, env, n):
        if isinstance(x, ast.Name):
            if x.id in self.glo:
                self.store_global((self.f.mod.name, x.id), v, n)
            else:
                env[x.id] = v
        elif isinstance(x, (ast.Tuple, ast.List)):
            k = len(x.elts)
            for i, y in enumerate(x.elts):
                if isinstance(y, ast.Starred):
                    self.bind(y.value, V(EMPTY, v.all()), env, n)
                elif v.elts is not None and len(v.elts) == k:
                    self.bind(y, v.elts[i], env, n)
                else:
                    self.bind(y, self.alloc(V(v.all(), EMPTY, EMPTY, 'scalar' if v.arr == 'scalar' else None), n, env,
                                            '/%d' % i), env, n)
        elif isinstance(x, ast.Subscript):
            b = self.ev(x.value, env)
            self.ev(x.slice, env)
            self.mutate(b.own, n, 'stores into', x.value, env)
            if isinstance(x.value, ast.Name) and x.value.id in env and v.arr != 'scalar':
                # a list keeps a reference, an array copies: only lists built here
                if b.elts is not None or b.content or b.arr == 'list':
                    env[x.value.id] = V(b.own, b.all() | v.all(), b.funcs, b.arr, None)
        elif isinstance(x, ast.Attribute):
            g = self.gname(x, env)
            if g is not None:
                self.store_global(g, v, n)
                return
            b = self.ev(x.value, env)
            self.mutate(b.own, n, 'sets field %s of' % x.attr, x.value, env)
            for r in v.all():
                if r[0] not in 'f!' and r != ('a', x.attr):
                    self.s.esc.setdefault(r, set()).add(('a', x.attr))

    def store_global(self, g, v, n):
        for r in v.all():
            if r[0] not in 'f!' and r != ('g',) + g:
                self.s.esc.setdefault(r, set()).add(('g',) + g)
        if v.funcs:
            self.A.gfuncs.setdefault(g, set()).update(v.funcs)

    def shared(self, roots, n, target, env):
        """other variables that hold the object being modified"""
        if env is None:
            return
        roots = frozenset(r for r in roots if r[0] == 'p' or r[0] == 'f' and r[2] == 0)
        a = target
        if a == USER:
            for k, w in list(env.items()):
                if isinstance(k, str) and w.all() & roots:
                    env[k] = V(w.own | {('!', a, n)}, w.content, w.funcs, w.arr, w.elts)
            return
        while isinstance(a, (ast.Subscript, ast.Attribute, ast.Call)):
            a = a.func if isinstance(a, ast.Call) else a.value
        a = a.id if isinstance(a, ast.Name) else None
        for k, w in list(env.items()):
            if isinstance(k, str) and k != a and w.own & roots:
                env[k] = V(w.own | {('!', a, n)}, w.content, w.funcs, w.arr, w.elts)

    def mutate(self, roots, n, what, target, env=None):
        if 'field' not in what:
            self.shared(roots, n, target, env)
        for r in roots:
            if r[0] in 'f!':
                continue
            self.s.mut.setdefault(r, {}).setdefault((self.f.qual, '%s %s' % (what, ast.unparse(target)[:40])), n)

    # ------------------------------------------------------------ expressions
    def gname(self, x, env):
        """module variable an attribute expression denotes"""
        base = self.prog.purity.resolve_base(self.f, x.value, self.loc)
        if base is None or base[0] != 'module':
            return None
        b = self.prog.attr_of(base, x.attr)
        if b is not None and b[0] == 'missing':
            return (base[1], x.attr)
        return (b[1], b[2]) if b is not None and b[0] == 'gvar' else None

    def load(self, n, env):
        v = env.get(n.id)
        if v is not None:
            for r in v.own:
                if r[0] == '!':
                    self.A.shared.setdefault((self.f.qual, r[1], n.id), (self.f, r[2], n))
            return v
        if n.id in self.loc and n.id not in self.glo:
            return NEW
        g = self.f.parent
        while g is not None:
            if n.id in g.collect()[0]:
                h = self.A.nested.get((g.qual, n.id))
                return V(funcs=frozenset([h.qual])) if h else V(frozenset([('c', g.qual, n.id)]))
            g = g.parent
        b = self.prog.lookup_global(self.f.mod, n.id)
        return self.binding(b)

    def binding(self, b):
        if b is None:
            return NEW
        if b[0] == 'func':
            return V(funcs=frozenset([b[1].qual]))
        if b[0] == 'gvar':
            return V(frozenset([('g', b[1], b[2])]), EMPTY, frozenset(self.A.gfuncs.get((b[1], b[2]), ())))
        return NEW

    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return NEW

    def e_Constant(self, e, env):
        return SCAL

    def e_Name(self, e, env):
        return self.load(e, env)

    def e_Attribute(self, e, env):
        base = self.prog.purity.resolve_base(self.f, e.value, self.loc)
        if base is not None:
            g = self.gname(e, env)
            if g is not None:
                return V(frozenset([('g',) + g]), EMPTY, frozenset(self.A.gfuncs.get(g, ())))
            b = self.prog.attr_of(base, e.attr)
            return self.binding(b)
        v = self.ev(e.value, env)
        if e.attr in VIEW_ATTRS:
            return V(v.own, v.content, EMPTY, 'arr' if v.arr == 'arr' else None)
        if e.attr in SCALAR_ATTRS:
            return SCAL
        return V(v.own | v.content | frozenset([('a', e.attr)]))

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.Add) and (a.arr == 'list' or b.arr == 'list'):
            return V(EMPTY, a.content | b.content | (a.all() if a.arr == 'list' else EMPTY) |
                     (b.all() if b.arr == 'list' else EMPTY), EMPTY, 'list')
        return SCAL if a.arr == 'scalar' and b.arr == 'scalar' else NEW

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        return SCAL if v.arr == 'scalar' or isinstance(e.op, ast.Not) else NEW

    def e_Compare(self, e, env):
        self.ev(e.left, env)
        for x in e.comparators:
            self.ev(x, env)
        return NEW

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            y = self.ev(x, env)
            v = y if v is None else join(v, y)
        return v

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return join(self.ev(e.body, env), self.ev(e.orelse, env))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def seq(self, e, env, arr):
        el = []
        cont = EMPTY
        star = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                cont |= self.ev(x.value, env).all()
                star = True
            else:
                el.append(self.ev(x, env))
        return V(EMPTY, cont, EMPTY, arr, None if star else tuple(el)) if not star else \
            V(EMPTY, cont.union(*[x.all() for x in el]), EMPTY, arr)

    def e_Tuple(self, e, env):
        return self.seq(e, env, 'tuple')

    def e_List(self, e, env):
        return self.seq(e, env, 'list')

    def e_Set(self, e, env):
        return self.seq(e, env, 'list')

    def e_Dict(self, e, env):
        c = EMPTY
        for x in list(e.keys) + list(e.values):
            if x is not None:
                c |= self.ev(x, env).all()
        return V(EMPTY, c, EMPTY, 'list')

    def comp(self, e, env):
        env = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, env)
            rng = isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == 'range'
            self.bind(g.target, SCAL if rng else V(it.all()), env, e)
            for c in g.ifs:
                self.ev(c, env)
        if isinstance(e, ast.DictComp):
            return V(EMPTY, self.ev(e.value, env).all(), EMPTY, 'list')
        v = self.ev(e.elt, env)
        return V(EMPTY, v.all(), EMPTY, 'list')

    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = comp

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Lambda(self, e, env):
        return NEW

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        idx = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        fancy = False
        scal = True
        for i in idx:
            if isinstance(i, ast.Slice):
                for x in (i.lower, i.upper, i.step):
                    if x is not None:
                        self.ev(x, env)
                scal = False
                continue
            w = self.ev(i, env)
            if self.fancy(i, w):
                fancy = True
                scal = False
            elif w.arr != 'scalar':
                scal = False
        if v.elts is not None and len(idx) == 1 and isinstance(idx[0], ast.Constant) and isinstance(idx[0].value, int) and \
                -len(v.elts) <= idx[0].value < len(v.elts):
            return v.elts[idx[0].value]
        if v.elts is not None or v.arr in ('list', 'tuple') or v.content:
            if not scal and any(isinstance(i, ast.Slice) for i in idx):
                return V(v.own, v.all(), EMPTY, v.arr)
            return V(v.all())
        if fancy:
            return V(arr='arr')
        if len(idx) == 1 and not isinstance(idx[0], ast.Slice):
            # an element (or a row)
            return V(frozenset(r for r in v.own if r[0] not in 'f!'))
        if scal:
            return SCAL
        return V(v.own, EMPTY, EMPTY, None)

    def fancy(self, i, w):
        """an index that selects a copy"""
        if isinstance(i, (ast.List, ast.ListComp, ast.Compare)):
            return True
        if isinstance(i, ast.Call):
            nm = i.func.id if isinstance(i.func, ast.Name) else getattr(i.func, 'attr', '')
            if nm in ('list', 'range', 'arange', 'array', 'find_', 'where', 'nonzero', 'setdiff1d', 'argsort', 'flatnonzero',
                      'ix_', 'astype', 'logical_and', 'logical_or', 'logical_not', 'sorted'):
                return True
        return w.arr in ('list', 'arr')

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env):
        f = e.func
        args = [(x, self.ev(x, env)) for x in e.args]
        kws = [(k.arg, self.ev(k.value, env)) for k in e.keywords]
        for k, v in kws:
            if k == 'out' or k is not None and k.startswith('overwrite_') and False:
                self.mutate(v.own, e, 'writes through out=', e.func, env)
        b = None
        if isinstance(f, (ast.Name, ast.Attribute)):
            b = self.prog.purity.resolve(self.f, f, self.loc)
        if b is not None and b[0] == 'func':
            return self.internal([b[1].qual], e, args, kws, env)
        if b is not None and b[0] == 'class':
            q = b[1]._qual + '.__init__'
            if q in self.prog.funcs:
                self.internal([q], e, [(None, NEW)] + args, kws, env)
            return NEW
        if b is not None and b[0] in ('ext', 'builtin', 'extmod'):
            return self.external(b[1], e, args, kws, env)
        if b is not None and b[0] == 'gvar':
            fs = self.A.gfuncs.get((b[1], b[2]), ())
            if fs:
                return self.internal(sorted(fs), e, args, kws, env)
            return self.usercall(e, args, kws, env)
        if b is None and isinstance(f, ast.Attribute):
            return self.method(e, f, args, kws, env)
        v = self.ev(f, env)
        if v.funcs:
            return self.internal(sorted(v.funcs), e, args, kws, env)
        if isinstance(f, ast.Name) and f.id not in self.loc:
            return NEW
        return self.usercall(e, args, kws, env)

    def usercall(self, e, args, kws, env):
        self.A.sites[(self.f.qual, e._site)] = (self.f, e, [v for _, v in args] + [v for _, v in kws])
        for _, v in args + kws:
            self.shared(v.all(), e, USER, env)
        for x, v in args + [(None, v) for _, v in kws]:
            for r in v.all():
                if r[0] in 'f!':
                    continue
                self.s.user.setdefault(r, e)
                self.s.mut.setdefault(r, {}).setdefault((self.f.qual, 'hands to a user function %s'
                                                         % (ast.unparse(x)[:40] if x is not None else '')), e)
        return NEW

    def method(self, e, f, args, kws, env):
        o = self.ev(f.value, env)
        if f.attr in MUTATORS and not (f.attr in ('add', 'update', 'remove', 'put', 'partition') and o.arr == 'scalar'):
            self.mutate(o.own, e, 'calls .%s on' % f.attr, f.value, env)
            if isinstance(f.value, ast.Name) and f.value.id in env and f.attr in ('append', 'extend', 'insert', 'add', 'update'):
                c = o.all()
                for _, v in args:
                    c |= v.all()
                env[f.value.id] = V(o.own, c, o.funcs, 'list', None)
            if f.attr == 'pop' or f.attr == 'setdefault':
                return V(o.all())
            return SCAL
        if f.attr in VIEW_METHODS:
            return V(o.own, o.content if o.elts is None else o.all(), EMPTY, 'arr' if o.arr == 'arr' else None)
        if f.attr in ('copy', '__copy__'):
            return V(EMPTY, o.content if o.elts is None else o.all() - o.own, EMPTY, o.arr)
        if f.attr in ('tolist', 'astype', 'flatten', 'dot', 'nonzero', 'argsort', 'round', 'clip', 'conj'):
            return V(arr='arr' if f.attr in ('astype', 'flatten', 'nonzero', 'argsort') else None)
        if f.attr in ('any', 'all', 'item', 'argmax', 'argmin', 'lower', 'upper', 'strip', 'format'):
            return SCAL
        return NEW

    def external(self, name, e, args, kws, env):
        short = name.split('.')[-1]
        if short in MUT_FUNCS and not (short in ('put', 'place', 'at') and not name.startswith('numpy')):
            k = MUT_FUNCS[short]
            if k < len(args):
                self.mutate(args[k][1].own, e, '%s on' % short, args[k][0], env)
            return SCAL
        if name in ('copy.copy',):
            v = args[0][1] if args else NEW
            return V(EMPTY, v.content if v.elts is None else v.all() - v.own, v.funcs, v.arr)
        if name in ('copy.deepcopy',):
            return V(funcs=args[0][1].funcs, arr=args[0][1].arr) if args else NEW
        if short in VIEW_FUNCS and name.startswith('numpy') or name == 'numpy.array' and \
                any(k.arg == 'copy' and not (isinstance(k.value, ast.Constant) and k.value.value is True) for k in e.keywords):
            v = args[0][1] if args else NEW
            return V(v.own | v.content, EMPTY, EMPTY, v.arr if v.arr == 'arr' else None)
        if short in REFS and '.' not in name:
            c = EMPTY
            for _, v in args:
                c |= v.all()
            if short in ('list', 'sorted', 'tuple') and len(args) == 1 and args[0][1].own and not args[0][1].content \
                    and args[0][1].elts is None:
                # the elements of an array are numbers
                return V(EMPTY, EMPTY, EMPTY, 'list')
            if short in ('max', 'min', 'next', 'getattr'):
                return V(c)
            return V(EMPTY, c, EMPTY, 'list')
        if short in ('len', 'int', 'float', 'abs', 'bool', 'str', 'isinstance', 'round', 'type', 'isnan', 'isinf') and \
                '.' not in name:
            return SCAL
        if short == 'range' and '.' not in name:
            return V(arr='list')
        if short in ('where', 'arange', 'nonzero', 'flatnonzero', 'argsort', 'setdiff1d', 'union1d', 'intersect1d', 'array',
                     'zeros', 'ones', 'concatenate', 'append', 'linspace', 'logical_and', 'logical_or', 'delete', 'hstack',
                     'vstack', 'empty', 'full', 'eye', 'diag'):
            return V(arr='arr')
        return NEW

    def internal(self, quals, e, args, kws, env):
        out = None
        for q in quals:
            g = self.prog.funcs[q]
            names = list(g.params) + list(g.kwonly)
            nm = names + ([g.vararg] if g.vararg else []) + ([g.kwarg] if g.kwarg else [])
            act = {}
            off = 0
            for i, (x, v) in enumerate(args):
                if isinstance(x, ast.Starred):
                    for j in range(i, len(nm)):
                        act[j] = join(act[j], V(v.all())) if j in act else V(v.all())
                    break
                k = i if i < len(g.params) else (nm.index(g.vararg) if g.vararg else None)
                if k is not None:
                    act[k] = join(act[k], v) if k in act else v
            for a, v in kws:
                if a in names:
                    k = names.index(a)
                elif g.kwarg:
                    k = nm.index(g.kwarg)
                else:
                    continue
                act[k] = join(act[k], v) if k in act else v
            for k, v in act.items():
                if v.funcs:
                    s = self.A.pfuncs.setdefault((q, k), set())
                    s |= v.funcs
                sm = self.A.sums.get(q)
            sm = self.A.sums.get(q)
            if sm is None:
                continue

            def mp(roots):
                r = EMPTY
                for x in roots:
                    if x[0] == 'p':
                        if x[1] in act:
                            r |= act[x[1]].all()
                    elif x[0] == 'c' and x[1] == self.f.qual:
                        if x[2] in env:
                            r |= env[x[2]].all()
                    else:
                        r |= frozenset([x])
                return r

            def mpown(x):
                if x[0] == 'p':
                    return act[x[1]].own if x[1] in act else EMPTY
                if x[0] == 'c' and x[1] == self.f.qual:
                    return env[x[2]].own if x[2] in env else EMPTY
                return frozenset([x])
            for r, d in sm.mut.items():
                ys = mpown(r)
                if r[0] == 'p':
                    x = args[r[1]][0] if r[1] < len(args) else None
                    self.shared(ys, e, x if x is not None else e, env)
                for y in ys:
                    if y[0] in 'f!':
                        continue
                    self.s.mut.setdefault(y, {})
                    for k, nd in d.items():
                        self.s.mut[y].setdefault(k, nd)
                        if y[0] != r[0] or y != r:
                            pass
            for r, d in sm.esc.items():
                for y in mp([r]):
                    if y[0] not in 'f!':
                        self.s.esc.setdefault(y, set()).update(x for x in d if x != y)
            for r, nd in sm.user.items():
                self.shared(mp([r]), e, USER, env)
                for y in mp([r]):
                    if y[0] not in 'f!':
                        self.s.user.setdefault(y, nd)

            def mv(v):
                return V(mp(v.own), mp(v.content), v.funcs, v.arr, tuple(mv(x) for x in v.elts) if v.elts else None)
            r = mv(sm.ret) if sm.ret is not None else NEW
            out = r if out is None else join(out, r)
        return out if out is not None else NEW

