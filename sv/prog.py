"""Loads the package's sources and resolves names to definitions."""
import ast
import hashlib
import os
import warnings

REPO = os.environ.get('SQPDFO_REPO', '/repo')
PKG = 'sqpdfo'


class AnalysisBroken(Exception):
    """an anchor the analysis depends on is missing: neither pass nor violation"""


class Func(object):
    def __init__(self, mod, node, qual, parent=None, cls=None):
        self.mod = mod
        self.node = node
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.qual = qual
        self.parent = parent
        self.cls = cls
        a = node.args
        self.params = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        nd = len(a.defaults)
        self.defaults = {}
        for p, d in zip(self.params[len(self.params) - nd:], a.defaults):
            self.defaults[p] = d
        for p, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[p] = d
        body = node.body if isinstance(node.body, list) else [node.body]
        self.body = body
        self._locals = None
        self._globals = None

    def __repr__(self):
        return 'Func(%s)' % self.qual

    def collect(self):
        if self._locals is None:
            loc, glo, nonloc = set(self.params) | set(self.kwonly), set(), set()
            if self.vararg:
                loc.add(self.vararg)
            if self.kwarg:
                loc.add(self.kwarg)

            def walk(n, comp):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    loc.add(n.name)
                    return
                if isinstance(n, ast.Lambda):
                    return
                if isinstance(n, ast.Global):
                    glo.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    nonloc.update(n.names)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not comp:
                    loc.add(n.id)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    loc.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        loc.add((al.asname or al.name).split('.')[0])
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    comp = True
                for c in ast.iter_child_nodes(n):
                    walk(c, comp)
            for s in self.body:
                walk(s, False)
            self._locals = loc - glo - nonloc
            self._globals = glo
            self._nonlocals = nonloc
        return self._locals, self._globals


class Module(object):
    def __init__(self, name, path, src):
        self.name = name          # e.g. sqpdfo.runtime
        self.short = name.split('.')[-1]
        self.path = path
        self.src = src
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(src, path)
        self.ns = {}              # name -> binding
        self.funcs = {}
        self.classes = {}
        self.resolved = False


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, PKG)
        self.mods = {}
        self.funcs = {}           # qual -> Func
        self.byname = {}          # plain top-level function name -> Func
        if not os.path.isdir(self.root):
            raise AnalysisBroken('package directory %s is missing' % self.root)
        h = hashlib.sha256()
        for dp, dn, fs in sorted(os.walk(self.root)):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                with open(p, encoding='utf-8', errors='replace') as fh:
                    src = fh.read()
                h.update(rel.encode() + b'\0' + src.encode('utf-8', 'replace'))
                try:
                    self.mods[rel] = Module(rel, os.path.relpath(p, self.repo), src)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (p, e))
        self.digest = h.hexdigest()
        self._number()
        for m in self.mods.values():
            self._defs(m)
        for m in list(self.mods.values()):
            self._resolve(m)
        # functions defined at top level reachable by plain name
        for f in self.funcs.values():
            if f.parent is None and f.cls is None:
                self.byname.setdefault(f.name, f)

    def _number(self):
        """every node gets a stable id: module, enclosing function, preorder number"""
        for m in self.mods.values():
            def rec(n, q, cnt):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    n._site = '%s:%s' % (q, n.name)
                    n._fn = q
                    q2 = q + '.' + n.name
                    c2 = [0]
                    for ch in ast.iter_child_nodes(n):
                        rec(ch, q2, c2)
                    return
                cnt[0] += 1
                n._site = '%s#%d' % (q, cnt[0])
                n._fn = q
                for ch in ast.iter_child_nodes(n):
                    rec(ch, q, cnt)
            rec(m.tree, m.short, [0])

    def _defs(self, m):
        def rec(body, qual, parent, cls):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    q = qual + '.' + n.name
                    f = Func(m, n, q, parent, cls)
                    n._func = f
                    self.funcs[q] = f
                    if parent is None and cls is None:
                        m.funcs[n.name] = f
                    rec(n.body, q, f, None)
                elif isinstance(n, ast.ClassDef):
                    q = qual + '.' + n.name
                    n._cls = True
                    n._mod = m
                    n._qual = q
                    if parent is None and cls is None:
                        m.classes[n.name] = n
                    rec(n.body, q, parent, n)
                else:
                    for fld in ('body', 'orelse', 'finalbody', 'handlers'):
                        b = getattr(n, fld, None)
                        if isinstance(b, list):
                            rec([x for x in b if isinstance(x, ast.stmt)] if fld != 'handlers'
                                else [s for hd in b for s in hd.body], qual, parent, cls)
        rec(m.tree.body, m.short, None, None)

    # -------------------------------------------------------------- names
    def _resolve(self, m):
        if m.resolved:
            return
        m.resolved = True
        ns = m.ns
        self.module_bind(m, m.tree.body, ns)

    def _imp_target(self, m, n):
        """absolute module name of an ImportFrom"""
        if n.level:
            base = m.name if m.path.endswith('__init__.py') else m.name.rsplit('.', 1)[0]
            for _ in range(n.level - 1):
                base = base.rsplit('.', 1)[0]
            return base + ('.' + n.module if n.module else '')
        return n.module

    def module_bind(self, m, body, ns):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                if getattr(n, '_func', None):
                    ns[n.name] = ('func', n._func)
            elif isinstance(n, ast.ClassDef):
                ns[n.name] = ('class', n)
                for x in ast.walk(n):
                    if isinstance(x, ast.Global):
                        for g in x.names:
                            ns.setdefault(g, ('gvar', m.name, g))
            elif isinstance(n, ast.Import):
                for al in n.names:
                    if al.asname:
                        ns[al.asname] = self.mod_binding(al.name)
                    else:
                        ns[al.name.split('.')[0]] = self.mod_binding(al.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                t = self._imp_target(m, n)
                tm = self.mods.get(t)
                if tm is not None:
                    self._resolve(tm)
                for al in n.names:
                    if al.name == '*':
                        if tm is not None:
                            for k, v in tm.ns.items():
                                if not k.startswith('_'):
                                    ns[k] = v
                        else:
                            ns.setdefault('*ext', []).append(t)
                    else:
                        nm = al.asname or al.name
                        if tm is not None and al.name in tm.ns:
                            ns[nm] = tm.ns[al.name]
                        elif (t or '') + '.' + al.name in self.mods:
                            ns[nm] = ('module', t + '.' + al.name)
                        elif tm is not None:
                            ns[nm] = ('missing', t, al.name)
                        else:
                            ns[nm] = ('ext', '%s.%s' % (t, al.name))
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and \
                                    n.value.id in ns:
                                ns[x.id] = ns[n.value.id]
                            else:
                                ns[x.id] = ('gvar', m.name, x.id)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self.module_bind(m, getattr(n, fld, []) or [], ns)
                for h in getattr(n, 'handlers', []):
                    self.module_bind(m, h.body, ns)
        # globals assigned from functions
        for f in self.funcs.values():
            if f.mod is m:
                for g in f.collect()[1]:
                    ns.setdefault(g, ('gvar', m.name, g))

    def mod_binding(self, name):
        if name in self.mods:
            return ('module', name)
        return ('extmod', name)

    def lookup_global(self, mod, name):
        b = mod.ns.get(name)
        if b is not None:
            return b
        import builtins
        if hasattr(builtins, name):
            return ('builtin', name)
        if mod.ns.get('*ext'):
            return ('ext', mod.ns['*ext'][0] + '.' + name)
        return None

    def attr_of(self, binding, attr):
        """module attribute access"""
        kind = binding[0]
        if kind == 'module':
            tm = self.mods[binding[1]]
            b = tm.ns.get(attr)
            if b is None and binding[1] + '.' + attr in self.mods:
                return ('module', binding[1] + '.' + attr)
            return b if b is not None else ('missing', binding[1], attr)
        if kind in ('extmod', 'ext'):
            return ('ext', binding[1] + '.' + attr)
        return None

    def func(self, name):
        f = self.byname.get(name)
        if f is None:
            raise AnalysisBroken('function %s not found' % name)
        return f


def loc(node, mod=None):
    return getattr(node, 'lineno', 0)
