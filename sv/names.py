"""Name, arity and result-count facts of the reachable statements of the package."""
import ast
import builtins
import json
import os
from . import driver as D
from .constprop import CP, TOP

_ext = None


def ext_names():
    global _ext
    if _ext is None:
        with open(os.path.join(os.path.dirname(__file__), 'extnames.json')) as f:
            _ext = json.load(f)
    return _ext


def ext_exists(full):
    """does the dotted name exist in the libraries the package imports (True / False / None: unknown library)"""
    names = ext_names()
    parts = full.split('.')
    for i in range(len(parts) - 1, 0, -1):
        m = '.'.join(parts[:i])
        if m in names:
            return parts[i] in names[m] or m + '.' + parts[i] in names
    return None


def exists(b):
    if b is None or b[0] == 'missing':
        return False
    if b[0] == 'ext':
        return ext_exists(b[1]) is not False
    return True


def reach(prog):
    """statements reachable from the entry point with unknown arguments: set of (qual, site), functions"""
    cp = CP(prog)
    f = prog.func('sqpdfo_')
    args = {q: TOP for q in f.params}
    cp.run(f, args)
    return cp, set(q for q, _ in cp.reached)


def own_nodes(f):
    """(node, innermost statement) of the function's own body, nested functions excluded"""
    def rec(n, st):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                continue
            s = c if isinstance(c, ast.stmt) else st
            yield c, s
            for x in rec(c, s):
                yield x
    for s in f.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        yield s, s
        for x in rec(s, s):
            yield x


def comp_names(f):
    r = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.comprehension):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    r.add(x.id)
        elif isinstance(n, ast.Lambda):
            a = n.args
            for y in a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                r.add(y.arg)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            r.add(n.name)
    return r


def names(prog, f):
    """(node, statement, shown name, resolves) for every global name and module attribute read in f"""
    loc = f.collect()[0]
    comp = comp_names(f)
    outer = set()
    g = f.parent
    while g is not None:
        outer |= g.collect()[0]
        g = g.parent
    for n, st in own_nodes(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in loc and n.id not in comp \
                and n.id not in outer:
            yield n, st, n.id, exists(prog.lookup_global(f.mod, n.id))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            b = prog.purity.resolve_base(f, n.value, loc)
            if b is not None and b[0] in ('module', 'extmod', 'ext'):
                if b[0] != 'module' and not isinstance(n.value, (ast.Name, ast.Attribute)):
                    continue
                yield n, st, ast.unparse(n), exists(prog.attr_of(b, n.attr))


def calls(prog, f):
    """(call, statement, callee Func) of statically resolved package calls in f"""
    loc = f.collect()[0]
    for n, st in own_nodes(f):
        if isinstance(n, ast.Call):
            t = None
            if isinstance(n.func, ast.Name) and n.func.id in loc:
                # nested function
                for q, g in prog.funcs.items():
                    if g.parent is f and g.name == n.func.id:
                        t = g
            else:
                b = prog.purity.resolve(f, n.func, loc)
                if b is not None and b[0] == 'func':
                    t = b[1]
            if t is not None:
                yield n, st, t


def arity_problem(call, t):
    """text when the call cannot be bound to t's signature"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    skip = 1 if t.cls is not None else 0
    params = t.params[skip:]
    if len(call.args) > len(params) and not t.vararg:
        return 'takes %d arguments, %d given' % (len(params), len(call.args))
    given = set(params[:len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return 'argument %s given twice' % k.arg
        if k.arg in params or k.arg in t.kwonly:
            given.add(k.arg)
        elif not t.kwarg:
            return 'has no parameter %s' % k.arg
    for p in params + t.kwonly:
        if p not in given and p not in t.defaults:
            return 'parameter %s gets no value' % p
    return None


def ends(body):
    """can control leave the end of the block normally (syntactic over-approximation)"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If) and s.orelse and not ends(s.body) and not ends(s.orelse):
            return False
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            from .constprop import dotted
            if dotted(s.value.func) in ('sys.exit', 'exit', 'quit', 'os._exit'):
                return False
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and \
                not any(isinstance(x, ast.Break) for x in ast.walk(s)):
            return False
        if isinstance(s, ast.Try):
            if s.finalbody and not ends(s.finalbody):
                return False
            if not ends(s.body + s.orelse) and all(not ends(h.body) for h in s.handlers):
                return False
        if isinstance(s, ast.With) and not ends(s.body):
            return False
    return True


def result_counts(prog, f, reached, depth=0):
    """lengths of the tuples f returns at reachable returns; 1 for other values, 0 for None, None when unknown"""
    r = set()
    for n, st in own_nodes(f):
        if isinstance(n, ast.Return) and (reached is None or (f.qual, n._site) in reached):
            v = n.value
            if v is None or (isinstance(v, ast.Constant) and v.value is None):
                r.add((0, n))
            elif isinstance(v, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in v.elts):
                r.add((len(v.elts), n))
            elif isinstance(v, ast.Call) and depth < 4:
                b = prog.purity.resolve(f, v.func, f.collect()[0])
                if b is not None and b[0] == 'func':
                    for k, _ in result_counts(prog, b[1], reached, depth + 1):
                        r.add((k, n))
                else:
                    r.add((None, n))
            elif isinstance(v, (ast.Constant, ast.BinOp, ast.Compare, ast.BoolOp, ast.Attribute)):
                r.add((1, n))
            else:
                r.add((None, n))
    if ends(f.body):
        r.add((0, f.node))
    return r
