"""What depends on the verbosity level?

Interprocedural, flow- and context-sensitive information-flow analysis with
explicit flows (values) and implicit flows (values set, calls made and exits
taken under a test that depends on the source).  The source is every read of
the record field `verbose`.  A value is (origin of its dependence or None,
known constant, elements, functions it may be).
"""
import ast
from . import alias

TOP = object()


class W(object):
    __slots__ = ('o', 'c', 'el', 'fn')

    def __init__(self, o=None, c=TOP, el=None, fn=frozenset()):
        self.o, self.c, self.el, self.fn = o, c, el, fn

    def taint(self):
        if self.o is not None:
            return self.o
        for e in self.el or ():
            t = e.taint()
            if t is not None:
                return t
        return None

    def key(self):
        return (self.o is not None, None if self.c is TOP else (type(self.c).__name__, self.c),
                tuple(e.key() for e in self.el) if self.el is not None else None, self.fn)


NEW = W()


def pick(a, b):
    return b if a is None else a


def wjoin(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    o = pick(a.o, b.o)
    el = None
    if a.el is not None and b.el is not None and len(a.el) == len(b.el):
        el = tuple(wjoin(x, y) for x, y in zip(a.el, b.el))
    else:
        o = pick(o, pick(a.taint(), b.taint()))
    c = a.c if a.c is not TOP and b.c is not TOP and type(a.c) is type(b.c) and a.c == b.c else TOP
    return W(o, c, el, a.fn | b.fn)


def mark(v, o):
    """v, additionally depending on o"""
    if o is None:
        return v
    return W(pick(v.o, o), v.c, v.el, v.fn)


def ejoin(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = dict(a)
    for k, v in b.items():
        r[k] = wjoin(r.get(k), v)
    for k in a:
        if k not in b and k not in ('$pc', '$lpc'):
            v = a[k]
            r[k] = W(v.o, TOP, v.el, v.fn)
    for k in b:
        if k not in a:
            v = b[k]
            r[k] = W(v.o, TOP, v.el, v.fn)
    return r


def ekey(e):
    return None if e is None else {k: v.key() for k, v in e.items()}


def const(v):
    return isinstance(v, (int, str, bool, type(None))) and not (isinstance(v, str) and len(v) > 40)


class Flow(object):
    def __init__(self, prog, entry, source=('verbose',)):
        self.prog, self.source = prog, set(source)
        self.A = alias.Alias(prog)
        self.fields, self.globs = {}, {}
        self.memo, self.old = {}, {}
        self.users = {}
        self.stores = {}
        self.tests = {}
        self.reads = {}
        f = prog.func(entry)
        for n in range(40):
            snap = (set(self.fields), set(self.globs), {k: self.rkey(v) for k, v in self.memo.items()})
            self.old, self.memo = self.memo, {}
            self.users, self.stores, self.tests = {}, {}, {}
            r = self.call(f, {p: NEW for p in f.params + f.kwonly}, None)
            if snap == (set(self.fields), set(self.globs), {k: self.rkey(v) for k, v in self.memo.items()}):
                break
        else:
            raise RuntimeError('flow analysis does not converge')
        self.passes = n + 1
        self.result = r[0]

    def rkey(self, r):
        return (r[0].key() if r[0] else None, r[1] is not None, frozenset(r[2]))

    def call(self, f, args, pc):
        k = (f.qual, tuple(sorted((p, v.key()) for p, v in args.items())), pc is not None)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = self.old.get(k, (None, None, {}))
        r = Intra(self, f, args, pc).go()
        self.memo[k] = r
        return r


def groups(f):
    """names of f that may hold views of each other: name -> group"""
    par = {}

    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x

    def base(e):
        while True:
            if isinstance(e, (ast.Subscript, ast.Starred)):
                e = e.value
            elif isinstance(e, ast.Attribute) and e.attr in alias.VIEW_ATTRS:
                e = e.value
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in alias.VIEW_METHODS:
                e = e.func.value
            else:
                return e.id if isinstance(e, ast.Name) else None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                ps = [(t, n.value)]
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and \
                        len(t.elts) == len(n.value.elts):
                    ps = list(zip(t.elts, n.value.elts))
                for a, b in ps:
                    if isinstance(a, ast.Name):
                        y = base(b)
                        if y is not None:
                            par[find(a.id)] = find(y)
    out = {}
    for x in par:
        out.setdefault(find(x), set()).add(x)
        out[find(x)].add(find(x))
    r = {}
    for g in out.values():
        for x in g:
            r[x] = g
    return r


class Intra(object):
    def __init__(self, F, f, args, pc):
        self.F, self.f, self.prog = F, f, F.prog
        self.args = args
        self.pc0 = pc
        self.loc, self.glo = f.collect()
        self.ret = None
        self.exit = None           # origin of an exception raised under a dependent test
        self.mut = {}
        self.brk, self.cnt = [], []
        self.gr = groups(f)
        s = F.A.sums[f.qual]
        # parameters whose own object the function may change
        self.changed = set(p for i, p in enumerate(f.params + f.kwonly) if s.mut.get(('p', i)))

    # the dependence of control: stack kept in self.pcs, plus '$pc' in env after dependent exits
    def go(self):
        f = self.f
        env = {}
        names = f.params + f.kwonly
        for p in names:
            if p in self.args:
                env[p] = self.args[p]
            elif p in f.defaults:
                d = f.defaults[p]
                env[p] = W(None, d.value) if isinstance(d, ast.Constant) and const(d.value) else NEW
            else:
                env[p] = NEW
            i = f.params.index(p) if p in f.params else None
            fs = self.F.A.pfuncs.get((f.qual, i), ()) if i is not None else ()
            if fs:
                env[p] = W(env[p].o, env[p].c, env[p].el, env[p].fn | frozenset(fs))
        for p in (f.vararg, f.kwarg):
            if p:
                env[p] = self.args.get(p, NEW)
        self.pc = self.pc0
        if f.body and not isinstance(f.body[0], ast.stmt):
            self.ret = self.ev(f.body[0], env)
            return self.ret, self.exit, self.mut
        e = self.block(f.body, env)
        if e is not None:
            self.doret(W(None, None), e)
        return self.ret or NEW, self.exit, self.mut

    def now(self, env):
        return pick(self.pc, env.get('$pc', NEW).o)

    def doret(self, v, env):
        v = mark(v, self.now(env)) if self.now(env) is not None and self.pc0 is None else v
        self.ret = wjoin(self.ret, v)

    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def test(self, t, env):
        v = self.ev(t, env)
        o = v.taint()
        if o is not None:
            self.F.tests[(self.f.qual, getattr(t, '_site', t.lineno))] = (self.f, t)
        return v, o

    def under(self, o, fn):
        old = self.pc
        self.pc = pick(old, o)
        r = fn()
        self.pc = old
        return r

    def stmt(self, n, env):
        t = type(n)
        if t is ast.Assign:
            v = self.ev(n.value, env)
            env = dict(env)
            for x in n.targets:
                self.bind(x, v, env, n)
            return env
        if t is ast.AnnAssign:
            if n.value is not None:
                v = self.ev(n.value, env)
                env = dict(env)
                self.bind(n.target, v, env, n)
            return env
        if t is ast.AugAssign:
            v = self.ev(n.value, env)
            u = self.ev(n.target, env)
            env = dict(env)
            self.bind(n.target, W(pick(u.taint(), v.taint())), env, n)
            return env
        if t is ast.Expr:
            self.ev(n.value, env)
            return self.after(env)
        if t is ast.Return:
            self.doret(self.ev(n.value, env) if n.value is not None else W(None, None), env)
            return None
        if t is ast.Raise:
            if n.exc is not None:
                self.ev(n.exc, env)
            o = self.now(env)
            if o is not None and self.pc0 is None:
                self.exit = pick(self.exit, o)
            return None
        if t is ast.If:
            v, o = self.test(n.test, env)
            if v.c is not TOP and o is None:
                return self.block(n.body if v.c else n.orelse, env)
            a = self.under(o, lambda: self.block(n.body, dict(env)))
            b = self.under(o, lambda: self.block(n.orelse, dict(env)))
            if a is None and b is None:
                return None
            r = ejoin(a, b)
            if o is not None and (a is None) != (b is None):
                r = dict(r)
                r['$pc'] = mark(r.get('$pc', NEW), o)
            return r
        if t in (ast.For, ast.AsyncFor, ast.While):
            return self.loop(n, env)
        if t is ast.Try or t.__name__ == 'TryStar':
            return self.tr(n, env)
        if t in (ast.With, ast.AsyncWith):
            env = dict(env)
            for it in n.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v, env, n)
            return self.block(n.body, env)
        if t is ast.Break:
            self.brk[-1] = ejoin(self.brk[-1], env)
            if self.now(env) is not None:
                self.lex[-1] = pick(self.lex[-1], self.now(env))
            return None
        if t is ast.Continue:
            self.cnt[-1] = ejoin(self.cnt[-1], env)
            if self.now(env) is not None:
                self.lex[-1] = pick(self.lex[-1], self.now(env))
            return None
        if t is ast.Delete:
            env = dict(env)
            for x in n.targets:
                if isinstance(x, ast.Name):
                    env.pop(x.id, None)
                elif self.now(env) is not None:
                    self.touch(x.value, self.now(env), env, n)
            return env
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            g = self.F.A.nested.get((self.f.qual, n.name))
            env = dict(env)
            env[n.name] = W(fn=frozenset([g.qual]) if g else frozenset())
            return env
        if t is ast.Assert:
            v, o = self.test(n.test, env)
            return env
        if t.__name__ == 'Match':
            v, o = self.test(n.subject, env)
            out = env
            for c in n.cases:
                out = ejoin(out, self.under(o, lambda: self.block(c.body, dict(env))))
            return out
        return env

    def after(self, env):
        return env

    lex = None

    def loop(self, n, env):
        if self.lex is None:
            self.lex = []
        self.brk.append(None)
        self.cnt.append(None)
        self.lex.append(None)
        cur = env
        out = None
        for _ in range(60):
            self.brk[-1] = self.cnt[-1] = None
            e = dict(cur)
            if isinstance(n, ast.While):
                v, o = self.test(n.test, e)
                out = dict(cur) if v.c is TOP or not v.c or o is not None else None
                dead = v.c is not TOP and not v.c and o is None
            else:
                v = self.ev(n.iter, e)
                o = v.taint()
                out = dict(cur)
                dead = False
            o = pick(o, self.lex[-1])
            b = None
            if not dead:
                def body():
                    if not isinstance(n, ast.While):
                        self.bind(n.target, W(v.taint()), e, n)
                    return self.block(n.body, e)
                b = self.under(o, body)
            b = ejoin(b, self.cnt[-1])
            nxt = ejoin(cur, b) if b is not None else cur
            if ekey(nxt) == ekey(cur):
                break
            cur = nxt
        # what a dependent exit decides ends with the loop unless it leaves the function
        if n.orelse and out is not None:
            out = self.block(n.orelse, out)
        out = ejoin(out, self.brk.pop())
        self.cnt.pop()
        lx = self.lex.pop()
        if out is not None and '$pc' in out and lx is not None and '$pc' not in env:
            # break or continue under a dependent test
            out = dict(out)
            if not self.rets(n):
                out.pop('$pc')
        return out

    def rets(self, n):
        return any(isinstance(x, (ast.Return, ast.Raise)) for x in ast.walk(n))

    def tr(self, n, env):
        mid = env
        e = env
        old = self.exit
        self.exit = None
        for s in n.body:
            if e is None:
                break
            e = self.stmt(s, e)
            mid = ejoin(mid, e) if e is not None else mid
        ex = self.exit
        self.exit = old
        if not n.handlers:
            self.exit = pick(self.exit, ex)
        if e is not None and n.orelse:
            e = self.block(n.orelse, e)
        out = e
        for h in n.handlers:
            m = dict(mid)
            if h.name:
                m[h.name] = W(ex)
            out = ejoin(out, self.under(ex, lambda: self.block(h.body, m)))
        if ex is not None and out is not None:
            out = dict(out)
            out['$pc'] = mark(out.get('$pc', NEW), ex)
        if n.finalbody:
            r = self.block(n.finalbody, dict(out if out is not None else mid))
            out = r if out is not None else None
        return out

    # ---------------------------------------------------------------- stores
    def origin(self, v, env, node, what):
        """dependence of a value stored now"""
        o = v.taint()
        if o is not None:
            return o
        p = self.now(env)
        if p is not None:
            # the first thing set under a test of the source itself is the cause
            return (self.f.qual, what, node) if p[1] in self.F.source and self.pc0 is None else p
        return None

    def bind(self, x, v, env, n):
        if isinstance(x, ast.Name):
            if x.id in self.glo:
                o = self.origin(v, env, n, x.id)
                if o is not None:
                    self.F.globs.setdefault((self.f.mod.name, x.id), o)
                    self.F.stores[('g', self.f.mod.name, x.id, self.f.qual)] = (self.f, n, o)
            else:
                if v.taint() is None and self.now(env) is not None:
                    v = mark(v, self.origin(v, env, n, x.id))
                env[x.id] = v
        elif isinstance(x, (ast.Tuple, ast.List)):
            k = len(x.elts)
            for i, y in enumerate(x.elts):
                if isinstance(y, ast.Starred):
                    self.bind(y.value, W(v.taint()), env, n)
                elif v.el is not None and len(v.el) == k:
                    w = v.el[i]
                    self.bind(y, mark(w, v.o), env, n)
                else:
                    self.bind(y, W(v.taint(), TOP, None, v.fn), env, n)
        elif isinstance(x, ast.Attribute):
            b = self.prog.purity.resolve_base(self.f, x.value, self.loc)
            o = self.origin(v, env, n, x.attr)
            if b is None:
                self.ev(x.value, env)
            if o is not None:
                if b is not None and b[0] in ('mod', 'module'):
                    self.F.globs.setdefault((str(b[1]), x.attr), o)
                    self.F.stores[('g', str(b[1]), x.attr, self.f.qual)] = (self.f, n, o)
                else:
                    self.F.fields.setdefault(x.attr, o)
                    self.F.stores[('a', x.attr, self.f.qual)] = (self.f, n, o)
        elif isinstance(x, ast.Subscript):
            i = self.ev(x.slice, env)
            o = self.origin(W(pick(v.taint(), i.taint())), env, n, ast.unparse(x.value)[:30])
            if o is not None:
                self.touch(x.value, o, env, n)
            elif v.fn and isinstance(x.value, ast.Name) and x.value.id in env:
                w = env[x.value.id]
                env[x.value.id] = W(w.o, w.c, None, w.fn | v.fn)
        elif isinstance(x, ast.Starred):
            self.bind(x.value, v, env, n)

    def touch(self, e, o, env, n):
        """the object e is changed in a way that depends on o"""
        while True:
            if isinstance(e, (ast.Subscript, ast.Starred)):
                e = e.value
            elif isinstance(e, ast.Attribute) and e.attr in alias.VIEW_ATTRS:
                e = e.value
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in alias.VIEW_METHODS:
                e = e.func.value
            else:
                break
        if isinstance(e, ast.Attribute):
            self.F.fields.setdefault(e.attr, o)
            self.F.stores[('a', e.attr, self.f.qual)] = (self.f, n, o)
        elif isinstance(e, ast.Name):
            for y in self.gr.get(e.id, {e.id}):
                if y in self.loc:
                    if y in env:
                        env[y] = mark(env[y], o)
                    if y in self.changed:
                        self.mut.setdefault(y, o)
                else:
                    self.F.globs.setdefault((self.f.mod.name, y), o)
                    self.F.stores[('g', self.f.mod.name, y, self.f.qual)] = (self.f, n, o)
        elif isinstance(e, ast.Call):
            b = self.prog.purity.resolve(self.f, e.func, self.loc) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if b is not None and b[0] == 'func':
                s = self.F.A.sums.get(b[1].qual)
                for r in (s.ret.own if s is not None and s.ret is not None else ()):
                    if r[0] == 'g':
                        self.F.globs.setdefault(r[1:], o)
                        self.F.stores[('g', r[1], r[2], self.f.qual)] = (self.f, n, o)
                    elif r[0] == 'a':
                        self.F.fields.setdefault(r[1], o)
                        self.F.stores[('a', r[1], self.f.qual)] = (self.f, n, o)

    # ----------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        o = None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                o = pick(o, self.ev(c, env).taint())
        return W(o)

    def e_Constant(self, e, env):
        return W(None, e.value) if const(e.value) else NEW

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.loc:
            return NEW
        b = self.prog.lookup_global(self.f.mod, e.id)
        return self.binding(b)

    def binding(self, b):
        if b is not None and b[0] == 'func':
            return W(fn=frozenset([b[1].qual]))
        if b is not None and b[0] == 'gvar':
            o = self.F.globs.get((b[1], b[2]))
            return W(o, fn=frozenset(self.F.A.gfuncs.get((b[1], b[2]), ())))
        return NEW

    def e_Attribute(self, e, env):
        b = self.prog.purity.resolve_base(self.f, e.value, self.loc)
        if b is not None:
            return self.binding(self.prog.attr_of(b, e.attr))
        v = self.ev(e.value, env)
        if e.attr in self.F.source:
            self.F.reads[(self.f.qual, getattr(e, '_site', e.lineno))] = e
            return W((self.f.qual, e.attr, e))
        return W(pick(v.taint(), self.F.fields.get(e.attr)), TOP, None, v.fn)

    def e_BoolOp(self, e, env):
        o = None
        c = []
        stop = isinstance(e.op, ast.Or)
        for x in e.values:
            v = self.under(o, lambda: self.ev(x, env))
            if v.c is not TOP and o is None and v.taint() is None and bool(v.c) == stop:
                c.append(v.c)
                break
            o = pick(o, v.taint())
            c.append(v.c)
        if o is None and c and all(x is not TOP for x in c):
            r = c[-1]
            return W(None, r)
        if o is not None and any(x is not TOP and bool(x) == stop for x in c):
            # an operand decides whatever the others are
            return W(None, stop)
        return W(o)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not) and v.c is not TOP:
            return W(v.taint(), not v.c)
        if isinstance(e.op, ast.USub) and v.c is not TOP and isinstance(v.c, int):
            return W(v.taint(), -v.c)
        return W(v.taint())

    def e_Compare(self, e, env):
        v = self.ev(e.left, env)
        o = v.taint()
        ws = [self.ev(x, env) for x in e.comparators]
        for w in ws:
            o = pick(o, w.taint())
        if len(ws) == 1 and v.c is not TOP and ws[0].c is not TOP and o is None:
            try:
                a, b = v.c, ws[0].c
                r = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.Gt: lambda: a > b,
                     ast.LtE: lambda: a <= b, ast.GtE: lambda: a >= b, ast.Is: lambda: a is b or a == b and type(a) is type(b),
                     ast.IsNot: lambda: not (a is b or a == b and type(a) is type(b))}.get(type(e.ops[0]))
                if r is not None:
                    return W(None, bool(r()))
            except TypeError:
                pass
        return W(o)

    def e_IfExp(self, e, env):
        v, o = self.test(e.test, env)
        if v.c is not TOP and o is None:
            return self.ev(e.body if v.c else e.orelse, env)
        a = self.under(o, lambda: self.ev(e.body, env))
        b = self.under(o, lambda: self.ev(e.orelse, env))
        return mark(wjoin(a, b), o)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.bind(e.target, v, env, e)
        return v

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            o = None
            for x in e.elts:
                o = pick(o, self.ev(x, env).taint())
            return W(o)
        return W(el=tuple(self.ev(x, env) for x in e.elts))

    e_List = e_Tuple

    def comp(self, e, env):
        env = dict(env)
        o = None

        def run():
            o = None
            for g in e.generators:
                v = self.ev(g.iter, env)
                o = pick(o, v.taint())
                self.bind(g.target, W(v.taint()), env, e)
                for c in g.ifs:
                    o = pick(o, self.ev(c, env).taint())
            if isinstance(e, ast.DictComp):
                o = pick(o, self.ev(e.key, env).taint())
                return pick(o, self.ev(e.value, env).taint())
            return pick(o, self.ev(e.elt, env).taint())
        return W(run())

    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = comp

    def e_Lambda(self, e, env):
        return NEW

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        i = self.ev(e.slice, env)
        if v.el is not None and i.c is not TOP and isinstance(i.c, int) and -len(v.el) <= i.c < len(v.el):
            return mark(v.el[i.c], pick(v.o, i.taint()))
        return W(pick(v.taint(), i.taint()), TOP, None, v.fn)

    def e_Call(self, e, env):
        f = e.func
        args = [(x, self.ev(x, env)) for x in e.args]
        kws = [(k.arg, k.value, self.ev(k.value, env)) for k in e.keywords]
        o = None
        for _, v in args:
            o = pick(o, v.taint())
        for _, _, v in kws:
            o = pick(o, v.taint())
        b = None
        if isinstance(f, (ast.Name, ast.Attribute)):
            b = self.prog.purity.resolve(self.f, f, self.loc)
        if b is not None and b[0] == 'func':
            return self.internal([b[1].qual], e, args, kws, env)
        if b is not None and b[0] == 'class':
            q = b[1]._qual + '.__init__'
            if q in self.prog.funcs:
                self.internal([q], e, [(None, NEW)] + args, kws, env)
            return W(o)
        if b is not None and b[0] in ('ext', 'builtin', 'extmod'):
            short = b[1].split('.')[-1]
            pc = self.now(env)
            if short in alias.MUT_FUNCS and args and (o is not None or pc is not None):
                k = alias.MUT_FUNCS[short]
                if short in ('setattr', 'delattr') and len(args) > 1:
                    a = args[1][1].c if isinstance(args[1][1].c, str) else '?'
                    oo = pick(o, self.origin(NEW, env, e, a))
                    self.F.fields.setdefault(a, oo)
                    self.F.stores[('a', a, self.f.qual)] = (self.f, e, oo)
                elif k < len(args):
                    self.touch(args[k][0], pick(o, self.origin(NEW, env, e, short)), env, e)
            if short == 'getattr' and len(args) > 1 and args[1][1].c in self.F.source:
                return W((self.f.qual, args[1][1].c, e))
            if short == 'getattr' and len(args) > 1 and isinstance(args[1][1].c, str):
                return W(pick(o, self.F.fields.get(args[1][1].c)))
            if short in ('exit', 'quit', '_exit') and pc is not None and self.pc0 is None:
                self.exit = pick(self.exit, pc)
            if short in ('copy', 'deepcopy', 'tuple', 'list') and len(args) == 1:
                v = args[0][1]
                return W(v.o, v.c if short not in ('tuple', 'list') else TOP, v.el, v.fn)
            if short in ('int', 'bool') and len(args) == 1 and args[0][1].c is not TOP and isinstance(args[0][1].c, int):
                return W(o, (int if short == 'int' else bool)(args[0][1].c))
            return W(o)
        if b is not None and b[0] == 'gvar':
            fs = self.F.A.gfuncs.get((b[1], b[2]), ())
            if fs:
                return self.internal(sorted(fs), e, args, kws, env)
            return self.user(e, o, env)
        if b is None and isinstance(f, ast.Attribute):
            v = self.ev(f.value, env)
            pc = self.now(env)
            if f.attr in alias.MUTATORS and (o is not None or pc is not None) and v.c is TOP:
                self.touch(f.value, pick(o, self.origin(NEW, env, e, ast.unparse(f.value)[:30])), env, e)
            return W(pick(o, v.taint()))
        v = self.ev(f, env)
        if v.fn:
            return mark(self.internal(sorted(v.fn), e, args, kws, env), v.o)
        if isinstance(f, ast.Name) and f.id not in self.loc:
            return W(o)
        return self.user(e, pick(o, v.taint()), env)

    def user(self, e, o, env):
        k = (self.f.qual, getattr(e, '_site', e.lineno))
        u = self.F.users.setdefault(k, [self.f, e, None])
        u[2] = pick(u[2], pick(o, self.now(env)))
        return W(o)

    def internal(self, quals, e, args, kws, env):
        out = None
        pc = self.now(env)
        for q in quals:
            g = self.prog.funcs[q]
            act, expr = {}, {}
            for i, (x, v) in enumerate(args):
                if isinstance(x, ast.Starred):
                    for p in g.params[i:]:
                        act[p] = W(v.taint())
                    continue
                if i < len(g.params):
                    act[g.params[i]], expr[g.params[i]] = v, x
                elif g.vararg:
                    act[g.vararg] = W(pick(act.get(g.vararg, NEW).o, v.taint()))
            for k, x, v in kws:
                if k in g.params or k in g.kwonly:
                    act[k], expr[k] = v, x
                elif g.kwarg:
                    act[g.kwarg] = W(pick(act.get(g.kwarg, NEW).o, v.taint()))
            r, ex, mut = self.F.call(g, act, pc)
            if ex is not None and self.pc0 is None:
                self.exit = pick(self.exit, ex)
                env['$pc'] = mark(env.get('$pc', NEW), ex)
            for p, o in mut.items():
                if expr.get(p) is not None:
                    self.touch(expr[p], o, env, e)
            out = wjoin(out, r) if r is not None else out
        return out if out is not None else NEW
