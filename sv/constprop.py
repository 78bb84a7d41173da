"""Context-sensitive constant propagation with branch pruning over the AST.

One abstract environment per program point (joins go to TOP when values
differ); a function is analysed once per combination of known argument values.
Used to decide which statements remain reachable under a given configuration
(for instance: verbosity 0).
"""
import ast

TOP = ('top',)
OBJ = ('obj',)          # some object, not None, truth unknown
FILE = ('file',)


def C(v):
    return ('c', type(v).__name__, v)


def is_c(v):
    return v[0] == 'c'


def join(a, b):
    if a == b:
        return a
    if a[0] == 't' and b[0] == 't' and len(a[1]) == len(b[1]):
        return ('t', tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if nonnone(a) and nonnone(b):
        return OBJ
    return TOP


def nonnone(v):
    return v[0] in ('obj', 'file', 't', 'func', 'class', 'ext', 'mod') or (v[0] == 'c' and v[2] is not None)


def joinenv(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = dict(b)              # a variable unset on one side keeps the other's value
    for k in a:
        if k in b:
            r[k] = join(a[k], b[k])
        else:
            r[k] = a[k]
    return r


class CP(object):
    """attr(name, base) -> value or None; model(name, args, node) -> value or None"""

    def __init__(self, prog, attr=None, model=None, on_call=None, on_store_attr=None, opaque=None, keepargs=None):
        self.prog = prog
        self.attr = attr or (lambda *a: None)
        self.model = model or (lambda *a: None)
        self.on_call = on_call or (lambda *a: None)
        self.on_store_attr = on_store_attr or (lambda *a: None)
        self.opaque = opaque or (lambda f: False)
        self.keepargs = keepargs or (lambda v: v if v[0] in ('c', 'file', 'func') else
                                     (OBJ if v[0] in ('obj', 't', 'class') else TOP))
        self.args_nonnull = False    # unknown explicit arguments are objects
        self.memo = {}
        self.stack = []
        self.reached = set()        # (qual, site)
        self.contexts = 0
        self.callsites = set()
        self.attrconst = attr_constants(prog)

    # ---------------------------------------------------------------- functions
    def run(self, f, args):
        """args: dict param -> value; returns joined return value"""
        key = (f.qual, tuple(sorted((k, self.keepargs(v)) for k, v in args.items())))
        if key in self.memo:
            return self.memo[key] or TOP
        self.memo[key] = None
        self.contexts += 1
        env = {}
        for p in f.params + f.kwonly:
            if p in args:
                env[p] = self.keepargs(args[p])
            elif p in f.defaults:
                d = f.defaults[p]
                env[p] = C(d.value) if isinstance(d, ast.Constant) and isinstance(
                    d.value, (int, float, str, bool, type(None))) else TOP
            else:
                env[p] = TOP
        if f.vararg:
            env[f.vararg] = args.get('*' + f.vararg, TOP)
        if f.kwarg:
            env[f.kwarg] = TOP
        self.stack.append((f, []))
        env = self.block(f.body, env)
        _, rets = self.stack.pop()
        if env is not None:
            rets.append(C(None))
        r = None
        for x in rets:
            r = x if r is None else join(r, x)
        r = r if r is not None else OBJ
        self.memo[key] = r
        return r

    @property
    def func(self):
        return self.stack[-1][0]

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, n, env):
        self.reached.add((self.func.qual, n._site))
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is not None:
            return m(n, env)
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return env

    def s_Expr(self, n, env):
        env = dict(env)
        self.ev(n.value, env)
        if isinstance(n.value, ast.Call) and self.noreturn(n.value):
            return None
        return env

    def noreturn(self, c):
        d = dotted(c.func)
        return d in ('sys.exit', 'exit', 'quit', 'os._exit')

    def s_Assign(self, n, env):
        env = dict(env)
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env, n)
        return env

    def s_AnnAssign(self, n, env):
        if n.value is None:
            return env
        env = dict(env)
        self.assign(n.target, self.ev(n.value, env), env, n)
        return env

    def s_AugAssign(self, n, env):
        env = dict(env)
        v = self.ev(n.value, env)
        if isinstance(n.target, ast.Name):
            a = env.get(n.target.id, TOP)
            env[n.target.id] = self.binop(type(n.op), a, v)
        else:
            self.assign(n.target, TOP, env, n)
        return env

    def assign(self, t, v, env, stmt):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v[0] == 't' and len(v[1]) == len(t.elts):
                for x, y in zip(t.elts, v[1]):
                    self.assign(x, y, env, stmt)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, TOP, env, stmt)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.on_store_attr(self, t, b, t.attr, v)
            if isinstance(t.value, ast.Name) and env.get(t.value.id) == C(None):
                env[t.value.id] = OBJ
        elif isinstance(t, ast.Subscript):
            self.ev(t.value, env)
            self.ev(t.slice, env)
            x = t.value
            if isinstance(x, ast.Name) and x.id in env:
                env[x.id] = OBJ

    def s_If(self, n, env):
        env = dict(env)
        r = self.truth(self.ev(n.test, env))
        a = b = None
        if r is not False:
            a = self.block(n.body, self.refine(n.test, dict(env), True))
        if r is not True:
            b = self.block(n.orelse, self.refine(n.test, dict(env), False))
        return joinenv(a, b)

    def refine(self, t, env, val):
        if isinstance(t, ast.Name) and not val and env.get(t.id) == TOP:
            pass
        return env

    def havoc(self, body, env):
        env = dict(env)
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    env[x.id] = TOP
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    env[x.name] = TOP
        return env

    def loop(self, n, env, bind):
        """iterate to a fixpoint from the entry environment"""
        self.breaks = getattr(self, 'breaks', [])
        cur = dict(env)
        exits = []
        for rnd in range(12):
            if rnd == 11:
                cur = self.havoc(n.body, cur)
            self.breaks.append(([], []))
            e = dict(cur)
            r = None
            if bind is None:
                r = self.truth(self.ev(n.test, e))
            else:
                self.assign(n.target, bind, e, n)
            out = self.block(n.body, e) if r is not False else None
            brk, cont = self.breaks.pop()
            for c in cont:
                out = joinenv(out, c)
            nxt = joinenv(cur, out)
            if nxt == cur or rnd == 11:
                ex = None if (bind is None and r is True) else cur
                for b in brk:
                    ex = joinenv(ex, b)
                if n.orelse and ex is not None:
                    ex = self.block(n.orelse, ex)
                return ex
            cur = nxt

    def s_While(self, n, env):
        return self.loop(n, env, None)

    def s_For(self, n, env):
        env = dict(env)
        it = self.ev(n.iter, env)
        b = OBJ if it == OBJ else TOP
        if it[0] == 't' and len(it[1]) == 0:
            return env
        return self.loop(n, env, b)

    def s_Break(self, n, env):
        self.breaks[-1][0].append(env)
        return None

    def s_Continue(self, n, env):
        self.breaks[-1][1].append(env)
        return None

    def s_Return(self, n, env):
        env = dict(env)
        v = self.ev(n.value, env) if n.value is not None else C(None)
        self.stack[-1][1].append(v)
        return None

    def s_Raise(self, n, env):
        if n.exc is not None:
            self.ev(n.exc, dict(env))
        return None

    def s_Try(self, n, env):
        entry = dict(env)
        out = self.block(n.body, dict(env))
        if out is not None and n.orelse:
            out = self.block(n.orelse, out)
        hin = self.havoc(n.body, entry)
        for h in n.handlers:
            e = dict(hin)
            if h.name:
                e[h.name] = OBJ
            out = joinenv(out, self.block(h.body, e))
        if n.finalbody:
            out = self.block(n.finalbody, out if out is not None else hin) if out is not None else \
                (self.block(n.finalbody, hin) and None)
        return out

    def s_With(self, n, env):
        env = dict(env)
        for it in n.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, n)
        return self.block(n.body, env)

    def s_FunctionDef(self, n, env):
        env = dict(env)
        env[n.name] = ('func', n._func)
        return env

    def s_ClassDef(self, n, env):
        env = dict(env)
        env[n.name] = OBJ
        return env

    def s_Import(self, n, env):
        tmp = {}
        self.prog.module_bind(self.func.mod, [n], tmp)
        env = dict(env)
        for k, b in tmp.items():
            if k != '*ext':
                env[k] = self.bind(b)
        return env

    s_ImportFrom = s_Import

    def s_Assert(self, n, env):
        env = dict(env)
        if self.truth(self.ev(n.test, env)) is False:
            return None
        return env

    # ---------------------------------------------------------------- expressions
    def truth(self, v):
        if v[0] == 'c':
            return bool(v[2])
        if v[0] == 't':
            return len(v[1]) > 0
        if v[0] in ('func', 'file'):
            return True
        return None

    def bind(self, b):
        if b is None:
            return TOP
        if b[0] == 'func':
            return ('func', b[1])
        if b[0] == 'ext':
            return ('ext', b[1])
        if b[0] == 'builtin':
            return ('ext', b[1])
        if b[0] in ('module', 'extmod'):
            return ('mod', b)
        if b[0] == 'class':
            return ('class', b[1]._qual)
        return TOP

    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env)
            elif isinstance(x, ast.comprehension):
                self.ev(x.iter, env)
                for y in x.ifs:
                    self.ev(y, env)
        return TOP

    def e_Constant(self, e, env):
        if isinstance(e.value, (int, float, str, bool, type(None))):
            return C(e.value)
        return OBJ

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        f = self.func
        if e.id in f.collect()[0]:
            return TOP
        p = f.parent
        while p is not None:
            if e.id in p.collect()[0]:
                for st, _ in reversed(self.stack[:-1]):
                    pass
                for n in p.body:
                    if isinstance(n, ast.FunctionDef) and n.name == e.id:
                        return ('func', n._func)
                return TOP
            p = p.parent
        return self.bind(self.prog.lookup_global(f.mod, e.id))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def e_Tuple(self, e, env):
        vs = tuple(self.ev(x.value if isinstance(x, ast.Starred) else x, env) for x in e.elts)
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return OBJ
        return ('t', vs)

    def e_List(self, e, env):
        for x in e.elts:
            self.ev(x.value if isinstance(x, ast.Starred) else x, env)
        return OBJ

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        unknown = False
        v = TOP
        for x in e.values:
            v = self.ev(x, env)
            r = self.truth(v)
            if r is None:
                unknown = True
            elif r != isand:
                return C(r) if unknown else v
        return TOP if unknown else v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            r = self.truth(v)
            return TOP if r is None else C(not r)
        if v[0] == 'c':
            try:
                return C({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v[2]))
            except Exception:
                pass
        return OBJ

    def binop(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            try:
                x, y = a[2], b[2]
                r = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y,
                     ast.Div: lambda: x / y, ast.Mod: lambda: x % y if not isinstance(x, str) else None,
                     ast.FloorDiv: lambda: x // y,
                     ast.Pow: lambda: x ** y if abs(y) < 64 else None}[op]()
                if isinstance(r, (int, float, str, bool)):
                    return C(r)
            except Exception:
                pass
        return OBJ        # arithmetic never yields None

    def e_BinOp(self, e, env):
        return self.binop(type(e.op), self.ev(e.left, env), self.ev(e.right, env))

    def e_Compare(self, e, env):
        vs = [self.ev(x, env) for x in [e.left] + list(e.comparators)]
        res = True
        for i, o in enumerate(e.ops):
            a, b = vs[i], vs[i + 1]
            r = None
            if isinstance(o, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) and (a == C(None) or b == C(None)):
                x = b if a == C(None) else a
                if x == C(None):
                    r = True
                elif x[0] in ('c', 'obj', 'file', 't', 'func', 'class', 'ext', 'mod'):
                    r = False
                if r is not None and isinstance(o, (ast.IsNot, ast.NotEq)):
                    r = not r
            elif a[0] == 'c' and b[0] == 'c':
                try:
                    x, y = a[2], b[2]
                    r = {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y,
                         ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(o)]()
                except Exception:
                    r = None
            if r is False:
                return C(False)
            if r is None:
                res = None
        return C(True) if res else TOP

    def e_IfExp(self, e, env):
        r = self.truth(self.ev(e.test, env))
        if r is True:
            return self.ev(e.body, env)
        if r is False:
            return self.ev(e.orelse, env)
        return join(self.ev(e.body, env), self.ev(e.orelse, env))

    def e_Attribute(self, e, env):
        b = self.ev(e.value, env)
        if b[0] == 'mod':
            return self.bind(self.prog.attr_of(b[1], e.attr))
        v = self.attr(self, e, b, e.attr)
        if v is None:
            v = self.attrconst.get(e.attr)
            if v is None and e.attr == 'T':
                v = OBJ
        return TOP if v is None else v

    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        i = self.ev(e.slice, env)
        if b[0] == 't' and i[0] == 'c' and isinstance(i[2], int) and -len(b[1]) <= i[2] < len(b[1]):
            return b[1][i[2]]
        return OBJ if b[0] in ('obj', 't') else TOP

    def e_Lambda(self, e, env):
        return OBJ

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = True
                self.ev(a.value, env)
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                star = True
            else:
                kw[k.arg] = v
        name = None
        tf = None
        if f[0] == 'func':
            tf = f[1]
            name = tf.name
        elif f[0] == 'ext':
            name = f[1]
        elif isinstance(e.func, ast.Attribute):
            name = 'm:' + e.func.attr
        self.callsites.add((self.func.qual, e._site))
        r = self.on_call(self, e, name, tf, args, kw, star)
        if r is not None:
            return r
        r = self.model(self, e, name, args, kw)
        if r is not None:
            return r
        if f[0] == 'class':
            return OBJ
        if tf is not None and not self.opaque(tf):
            if (tf.qual in [x.qual for x, _ in self.stack]):
                return TOP
            d = {}
            if not star:
                for p, v in zip(tf.params, args):
                    d[p] = OBJ if v == TOP and self.args_nonnull else v
                for k, v in kw.items():
                    if k in tf.params or k in tf.kwonly:
                        d[k] = v
                if tf.vararg:
                    d['*' + tf.vararg] = ('t', tuple(self.keepargs(a) for a in args[len(tf.params):]))
            else:
                for p in tf.params:
                    d[p] = TOP
            return self.run(tf, d)
        if name in ('copy.copy', 'copy.deepcopy', 'numpy.copy') and len(args) == 1:
            return args[0]
        if name == 'len' and len(args) == 1 and args[0][0] == 't':
            return C(len(args[0][1]))
        if name == 'm:count' and isinstance(e.func.value, (ast.List, ast.Tuple)) and len(args) == 1:
            es = [self.ev(x, env) for x in e.func.value.elts]
            if args[0][0] == 'c' and all(x[0] == 'c' for x in es):
                return C([x[2] for x in es].count(args[0][2]))
        if name and name.startswith('numpy.'):
            return OBJ
        if name and (name.startswith('m:') or name in ('range', 'len', 'int', 'float', 'abs', 'str', 'list', 'tuple',
                                                        'enumerate', 'zip', 'min', 'max', 'sum', 'sorted', 'round', 'bool')):
            return OBJ
        return TOP


def attr_constants(prog):
    """attributes that hold one constant in every record of the program: class-level
    or constructor constants that no other statement stores"""
    vals = {}

    def put(name, v):
        vals.setdefault(name, set()).add(v)
    for m in prog.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                put(t.id, C(s.value.value) if isinstance(s.value, ast.Constant) and isinstance(
                                    s.value.value, (int, float, str, bool)) else None)
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                            v = None
                            if isinstance(n, ast.Assign) and x is t and isinstance(n.value, ast.Constant) and \
                                    isinstance(n.value.value, (int, float, str, bool)):
                                v = C(n.value.value)
                            put(x.attr, v)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    put(n.args[1].value, None)
    return {k: list(v)[0] for k, v in vals.items() if len(v) == 1 and None not in v}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + '.' + e.attr if b else None
    return None
