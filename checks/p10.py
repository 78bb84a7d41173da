"""P10: a run depends only on its arguments and the user functions."""
import ast
from sv import names as N
from sv.interp import MUTATORS
from sv.prog import AnalysisBroken

# functions whose result differs between identical runs or that read or change process-wide state
IMPURE = ('random', 'secrets', 'uuid', 'time', 'datetime', 'numpy.random', 'os', 'platform', 'socket', 'tempfile',
          'threading', 'multiprocessing', 'subprocess', 'signal', 'locale', 'getpass', 'glob', 'pathlib', 'shutil',
          'importlib', 'gc', 'resource', 'scipy.stats', 'asyncio', 'inspect', 'shelve', 'pickle')
SETTINGS = ('numpy.seterr', 'numpy.seterrcall', 'numpy.setbufsize', 'numpy.set_printoptions', 'numpy.set_string_function',
            'warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings', 'sys.setrecursionlimit',
            'sys.settrace', 'sys.setprofile', 'sys.setswitchinterval', 'atexit.register', 'scipy.seterr')
SYSREAD = ('sys.argv', 'sys.path', 'sys.modules', 'sys.flags', 'sys.stdin', 'sys.getrefcount')
BUILTIN = ('id', 'hash', 'input', 'globals', 'vars', 'breakpoint', 'exec', 'eval', '__import__')
OK = ('os.path.join', 'os.path.basename', 'os.linesep', 'os.sep', 'time.__name__')


def impure(full):
    if full in OK:
        return None
    if full in SETTINGS:
        return 'changes a process-wide setting'
    for p in SYSREAD:
        if full == p or full.startswith(p + '.'):
            return 'reads process state'
    for p in IMPURE:
        if full.startswith(p + '.'):
            return 'is not determined by its arguments'
    return None


class Globals(object):
    """reads of module variables before the run wrote them"""

    def __init__(self, prog, reached):
        self.prog = prog
        self.reached = reached
        self.sum = {}
        self.busy = set()
        self.writes = {}          # global -> [(func, node)]
        self.nested = {}
        self._taken = None
        for f in prog.funcs.values():
            if f.parent is not None:
                self.nested.setdefault(f.parent, {})[f.name] = f

    def gname(self, f, n):
        """module variable a name or attribute denotes"""
        loc = f.collect()[0]
        if isinstance(n, ast.Name):
            if n.id in loc:
                return None
            g = f.parent
            while g is not None:
                if n.id in g.collect()[0]:
                    return None
                g = g.parent
            if n.id in f.collect()[1]:
                return (f.mod.name, n.id)
            b = self.prog.lookup_global(f.mod, n.id)
        elif isinstance(n, ast.Attribute):
            base = self.prog.purity.resolve_base(f, n.value, loc)
            if base is None or base[0] != 'module':
                return None
            b = self.prog.attr_of(base, n.attr)
            if b is not None and b[0] == 'missing':
                return (base[1], n.attr)
        else:
            return None
        if b is not None and b[0] == 'gvar':
            return (b[1], b[2])
        return None

    def summary(self, f):
        r = self.sum.get(f.qual)
        if r is not None:
            return r
        if f.qual in self.busy:
            return ({}, frozenset())
        self.busy.add(f.qual)
        exposed = {}
        outs = []
        w = self.block(f, f.body, frozenset(), exposed, outs)
        if w is not None:
            outs.append(w)
        must = frozenset.intersection(*outs) if outs else frozenset()
        self.busy.discard(f.qual)
        self.sum[f.qual] = (exposed, must)
        return self.sum[f.qual]

    def taken(self):
        """package functions used as values"""
        if self._taken is None:
            self._taken = set()
            for f in self.prog.funcs.values():
                callee = {id(n.func) for n, _ in N.own_nodes(f) if isinstance(n, ast.Call)}
                for n, st in N.own_nodes(f):
                    if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and id(n) not in callee \
                            and (f.qual, st._site) in self.reached:
                        b = self.prog.purity.resolve(f, n, f.collect()[0])
                        if b is not None and b[0] == 'func':
                            self._taken.add(b[1])
        return sorted(self._taken, key=lambda f: f.qual)

    def target(self, f, call):
        loc = f.collect()[0]
        fn = call.func
        if isinstance(fn, ast.Name):
            g = f
            while g is not None:
                t = self.nested.get(g, {}).get(fn.id)
                if t is not None:
                    return [t]
                g = g.parent
            if fn.id in loc:
                return []
        b = self.prog.purity.resolve(f, fn, loc)
        if b is not None and b[0] == 'func':
            return [b[1]]
        if b is not None and b[0] == 'class':
            return [x for q, x in self.prog.funcs.items() if x.cls is b[1] and x.name == '__init__']
        if isinstance(fn, ast.Attribute) and b is None:
            # method of an unknown object: any method of that name in the package (reads only)
            return [x for x in self.prog.funcs.values() if x.cls is not None and x.name == fn.attr]
        return []

    def expr(self, f, e, w, exposed):
        """evaluates reads and calls in e; returns the written set afterwards"""
        if e is None:
            return w
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return w
        if isinstance(e, (ast.BoolOp, ast.IfExp)):
            first = e.values[0] if isinstance(e, ast.BoolOp) else e.test
            w = self.expr(f, first, w, exposed)
            rest = e.values[1:] if isinstance(e, ast.BoolOp) else [e.body, e.orelse]
            for x in rest:
                self.expr(f, x, w, exposed)
            return w
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr) or isinstance(c, (ast.keyword, ast.comprehension, ast.Slice)):
                w = self.expr(f, c, w, exposed)
        if isinstance(e, (ast.Name, ast.Attribute)) and isinstance(e.ctx, ast.Load):
            g = self.gname(f, e)
            if g is not None and g not in w:
                exposed.setdefault(g, (f, e))
        if isinstance(e, ast.Call):
            ts = self.target(f, e)
            if not ts and isinstance(e.func, ast.Name) and e.func.id in f.collect()[0]:
                for t in self.taken():              # call of a function value
                    for g, x in self.summary(t)[0].items():
                        if g not in w:
                            exposed.setdefault(g, x)
            for t in ts:
                ex, must = self.summary(t)
                for g, x in ex.items():
                    if g not in w:
                        exposed.setdefault(g, x)
            if len(ts) == 1:
                w = w | self.summary(ts[0])[1]
        return w

    def store(self, f, t, w):
        g = None
        if isinstance(t, ast.Name) and t.id in f.collect()[1] or isinstance(t, ast.Attribute):
            g = self.gname(f, t)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                w = self.store(f, x, w)
            return w
        if isinstance(t, ast.Starred):
            return self.store(f, t.value, w)
        if g is not None:
            self.writes.setdefault(g, []).append((f, t))
            return w | {g}
        return w

    def block(self, f, body, w, exposed, outs):
        for s in body:
            if w is None:
                return None
            if (f.qual, s._site) not in self.reached and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Global)):
                continue
            w = self.stmt(f, s, w, exposed, outs)
        return w

    def stmt(self, f, s, w, exposed, outs):
        B = lambda b, x: self.block(f, b, x, exposed, outs)
        E = lambda e, x: self.expr(f, e, x, exposed)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Import, ast.ImportFrom, ast.Pass)):
            return w
        if isinstance(s, ast.Return):
            outs.append(E(s.value, w))
            return None
        if isinstance(s, (ast.Raise,)):
            E(s.exc, w)
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            return None
        if isinstance(s, ast.Assign):
            w = E(s.value, w)
            for t in s.targets:
                w = E(t, w)
                w = self.store(f, t, w)
            return w
        if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            w = E(s.value, w)
            if isinstance(s, ast.AugAssign):
                l = ast.copy_location(_load(s.target), s.target)
                w = E(l, w)
            return self.store(f, s.target, w) if s.value is not None else w
        if isinstance(s, ast.If):
            w = E(s.test, w)
            a, b = B(s.body, w), B(s.orelse, w)
            if not any((f.qual, x._site) in self.reached for x in s.body):
                a = None if s.orelse and not falls(s.orelse) else a
                return b
            if s.orelse and not any((f.qual, x._site) in self.reached for x in s.orelse):
                return a
            return a if b is None else b if a is None else a & b
        if isinstance(s, (ast.While, ast.For)):
            w = E(s.test if isinstance(s, ast.While) else s.iter, w)
            B(s.body, w)
            r = B(s.orelse, w)
            return w
        if isinstance(s, ast.Try):
            B(s.body + s.orelse, w)
            hs = [B(h.body, w) for h in s.handlers]
            r = w
            return B(s.finalbody, r) if s.finalbody else r
        if isinstance(s, ast.With):
            for i in s.items:
                w = E(i.context_expr, w)
            return B(s.body, w)
        if isinstance(s, ast.Expr):
            w = E(s.value, w)
            from sv.constprop import dotted
            if isinstance(s.value, ast.Call) and dotted(s.value.func) in ('sys.exit', 'exit', 'quit', 'os._exit'):
                return None
            return w
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                w = E(c, w)
        return w


def setter_only(G, prog, f, body, g, exposed):
    """statements that only call functions writing module variables which nothing reads before writing"""
    for s in body:
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)) and not isinstance(s, (ast.Pass, ast.Assign)):
            return False
        if isinstance(s, ast.Assign):
            if not all(G.gname(f, t) is not None and (G.gname(f, t) == g or G.gname(f, t) not in exposed)
                       for t in s.targets):
                return False
            continue
        if isinstance(s, ast.Pass):
            continue
        ts = G.target(f, s.value)
        if not ts:
            return False
        for t in ts:
            for x in t.body:
                if isinstance(x, (ast.Global, ast.Pass)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                    continue
                if not isinstance(x, ast.Assign) or not isinstance(x.value, (ast.Name, ast.Constant)):
                    return False
                for tg in x.targets:
                    h = G.gname(t, tg)
                    if h is None or (h != g and h in exposed):
                        return False
    return True


def harmless(G, prog, g, exposed, fq, reached):
    """every read of g only decides whether other module variables are written that are never read before a write"""
    getters = set()
    for q in fq:
        f = prog.funcs[q]
        for n, st in N.own_nodes(f):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and G.gname(f, n) == g and \
                    (q, st._site) in reached:
                if len(f.body) == 1 and isinstance(f.body[0], ast.Return):
                    getters.add(f)
                elif not gate(G, prog, f, n, g, exposed):
                    return False
    for q in fq:
        f = prog.funcs[q]
        for n, st in N.own_nodes(f):
            if isinstance(n, ast.Call) and any(t in getters for t in G.target(f, n)):
                if isinstance(st, ast.Assign) and st.value is n and len(st.targets) == 1 and \
                        isinstance(st.targets[0], ast.Name):
                    v = st.targets[0].id
                    for m, _ in N.own_nodes(f):
                        if isinstance(m, ast.Name) and m.id == v and isinstance(m.ctx, ast.Load) and \
                                not gate(G, prog, f, m, g, exposed):
                            return False
                elif not gate(G, prog, f, n, g, exposed):
                    return False
    return True


def gate(G, prog, f, n, g, exposed):
    """n is the whole test (or its negation) of an if whose branches only set module variables"""
    for x, _ in N.own_nodes(f):
        if isinstance(x, ast.If):
            t = x.test
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t = t.operand
            if isinstance(t, ast.Compare) and len(t.comparators) == 1 and isinstance(t.comparators[0], ast.Constant):
                t = t.left
            if t is n:
                return setter_only(G, prog, f, x.body + x.orelse, g, exposed)
    return False


def falls(b):
    return N.ends(b)


def _load(t):
    import copy
    t = copy.copy(t)
    if hasattr(t, 'ctx'):
        t.ctx = ast.Load()
    return t


def run(ctx, prog):
    ctx.rule('state', 'every module variable that run code writes is written by the run before the run first reads it')
    ctx.rule('object', 'no run code changes an object held in a module variable, class body or default argument')
    ctx.rule('impure', 'no reachable call or read of random numbers, clock, environment, files or process settings')
    cp, fq = N.reach(prog)
    G = Globals(prog, cp.reached)
    entry = prog.func('sqpdfo_')
    exposed, must = G.summary(entry)
    for q in sorted(fq):
        G.summary(prog.funcs[q])
    wq = 0
    for g, sites in sorted(G.writes.items()):
        sites = [(f, n) for f, n in sites if f.qual in fq]
        if not sites:
            continue
        wq += 1
        c = '%s.%s' % g
        if g in exposed and harmless(G, prog, g, exposed, fq, cp.reached):
            ctx.ok('state', c + ' gates only other state', '%s:%d' % (exposed[g][0].mod.path, exposed[g][1].lineno))
        elif g in exposed:
            f, n = exposed[g]
            ctx.fail('state', c, '%s:%d' % (f.mod.path, n.lineno),
                     'module variable %s is read in %s although the run may not have written it; %s writes it' % (
                         g[1], f.qual, sites[0][0].qual))
        else:
            ctx.ok('state', c, '%s:%d' % (sites[0][0].mod.path, sites[0][1].lineno))
    # objects that outlive a run
    classlevel = classmut(prog)
    for q in sorted(fq):
        f = prog.funcs[q]
        w = lambda n: '%s:%d' % (f.mod.path, n.lineno)
        muts = {}
        for n, st in N.own_nodes(f):
            if (q, st._site) not in cp.reached:
                continue
            base = None
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                base = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                base = n.func.value
            elif isinstance(n, ast.AugAssign):
                base = n.target
                if isinstance(base, ast.Subscript):
                    base = base.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
                base = n.args[0]
            if base is None:
                continue
            while isinstance(base, (ast.Subscript,)):
                base = base.value
            g = G.gname(f, base)
            b = None
            if isinstance(base, (ast.Name, ast.Attribute)):
                b = prog.purity.resolve_base(f, base, f.collect()[0])
            if isinstance(n, ast.AugAssign) and g is not None and isinstance(n.target, (ast.Name, ast.Attribute)):
                continue                            # rebinding, rule state
            if g is not None and g not in must:
                ctx.fail('object', '%s.%s in %s' % (g + (q,)), w(n), 'the object in module variable %s is changed' % g[1])
            elif b is not None and b[0] in ('module', 'ext', 'extmod') and isinstance(n, ast.Call) and \
                    isinstance(n.func, ast.Attribute):
                continue                            # a function of a module, not a change of it
            elif b is not None and b[0] in ('func', 'class', 'ext', 'extmod', 'builtin') or b is not None and \
                    b[0] == 'module' and not isinstance(n, ast.Attribute):
                ctx.fail('object', '%s in %s' % (ast.unparse(base), q), w(n),
                         'an attribute or item of %s is changed, which outlives the run' % ast.unparse(base))
            elif isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and base.attr == '__class__':
                ctx.fail('object', '%s in %s' % (ast.unparse(base), q), w(n), 'a class attribute is changed')
            elif isinstance(base, ast.Name) and base.id in f.defaults and mutable(f.defaults[base.id]):
                ctx.fail('object', 'default %s of %s' % (base.id, q), w(n), 'the default value of a parameter is changed')
            elif isinstance(base, ast.Attribute) and base.attr in classlevel:
                ctx.fail('object', '%s.%s' % (classlevel[base.attr], base.attr), w(n), 'a class-level object is changed')
        for d in getattr(f.node, 'decorator_list', []):
            t = ast.unparse(d)
            if 'cache' in t:
                ctx.fail('object', 'cache on %s' % q, w(f.node), 'results of %s are kept between runs' % f.name)
        ctx.ok('object', q, w(f.node))
        # impure
        scoped = set()
        for n, st in N.own_nodes(f):
            if isinstance(n, ast.With) and any(isinstance(i.context_expr, ast.Call) and ast.unparse(
                    i.context_expr.func).split('.')[-1] == 'catch_warnings' for i in n.items):
                scoped |= {id(x) for x in ast.walk(n)}
        for n, st, shown, ok in N.names(prog, f):
            if (q, st._site) not in cp.reached:
                continue
            loc = f.collect()[0]
            b = prog.lookup_global(f.mod, n.id) if isinstance(n, ast.Name) else \
                prog.attr_of(prog.purity.resolve_base(f, n.value, loc), n.attr)
            full = None
            if b is not None and b[0] in ('ext', 'extmod'):
                full = b[1]
            elif b is not None and b[0] == 'builtin':
                if b[1] in BUILTIN:
                    ctx.fail('impure', '%s in %s' % (b[1], q), w(n), 'builtin %s is used' % b[1])
                continue
            if full is None:
                continue
            why = impure(full)
            if full.startswith('warnings.') and id(n) in scoped:
                why = None                          # undone at the end of the with block
            ctx.expect(why is None, 'impure', '%s in %s' % (full, q), w(n), '%s %s' % (full, why))
        for n, st in N.own_nodes(f):
            if (q, st._site) not in cp.reached or not isinstance(n, ast.Call):
                continue
            nm = n.func.id if isinstance(n.func, ast.Name) else None
            if nm in ('open', 'fopen_') and n.args and f.mod.short != 'runtime':
                m = n.args[1] if len(n.args) > 1 else None
                bad = m is None or isinstance(m, ast.Constant) and ('r' in str(m.value) or '+' in str(m.value))
                ctx.expect(not bad, 'impure', 'open in %s' % q, w(n), 'a file is read')
    if wq < 3:
        raise AnalysisBroken('only %d module variables written by run code' % wq)
    ctx.require('state', 3)
    ctx.require('impure', 50)
    ctx.require('object', 60)
    ctx.note('reachable_statements', len(cp.reached))
    ctx.note('globals_written', wq)
    ctx.assumptions += ['module variables no reachable code writes are constants of the installation '
                        '(for instance check_condition)']


def mutable(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp))


def classmut(prog):
    """attribute -> class for mutable class-level objects that no statement rebinds on an instance"""
    r = {}
    for m in prog.mods.values():
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                for x in c.body:
                    if isinstance(x, ast.Assign) and mutable(x.value):
                        for t in x.targets:
                            if isinstance(t, ast.Name):
                                r[t.id] = c.name
    for m in prog.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                r.pop(x.attr, None)
    return r
