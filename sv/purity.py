"""Which functions does the interpreter enter?

A function is entered when it (or something it calls) reads or writes a record
attribute, touches module state, or calls something that is not statically
resolved.  Everything else only maps argument values to result values, so its
calls become uninterpreted terms over their arguments.
"""
import ast


class Purity(object):
    def __init__(self, prog, opaque_modules=('sqpdfo.runtime', 'sqpdfo.minq', 'sqpdfo.blls', 'sqpdfo.minq_util'),
                 record_attrs=None):
        self.prog = prog
        self.opaque = set(opaque_modules)
        self.calls = {}
        self.effect = {}
        for q, f in prog.funcs.items():
            self.calls[q], self.effect[q] = self.scan(f)
        changed = True
        while changed:
            changed = False
            for q in prog.funcs:
                if not self.effect[q]:
                    for c in self.calls[q]:
                        if self.effect.get(c):
                            self.effect[q] = True
                            changed = True
                            break

    def scan(self, f):
        """resolved callees, and does the body have a direct effect"""
        calls = set()
        eff = False
        if f.mod.name in self.opaque:
            return calls, False
        loc = f.collect()[0]
        if f.collect()[1]:
            eff = True
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                b = self.resolve(f, n.func, loc)
                if b is None:
                    if isinstance(n.func, ast.Name) and n.func.id in loc:
                        eff = True        # calls a function value
                elif b[0] == 'func':
                    calls.add(b[1].qual)
                elif b[0] == 'class':
                    calls.add(b[1]._qual + '.__init__')
                    eff = True
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                eff = True
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in loc:
                b = self.prog.lookup_global(f.mod, n.id)
                if b is not None and b[0] == 'gvar':
                    eff = True
        return calls, eff

    def resolve(self, f, fn, loc):
        if isinstance(fn, ast.Name):
            if fn.id in loc:
                for n in f.body:
                    if isinstance(n, ast.FunctionDef) and n.name == fn.id:
                        return ('func', n._func)
                return None
            return self.prog.lookup_global(f.mod, fn.id)
        if isinstance(fn, ast.Attribute):
            b = self.resolve_base(f, fn.value, loc)
            if b is not None:
                return self.prog.attr_of(b, fn.attr)
        return None

    def resolve_base(self, f, x, loc):
        if isinstance(x, ast.Name) and x.id not in loc:
            return self.prog.lookup_global(f.mod, x.id)
        if isinstance(x, ast.Attribute):
            b = self.resolve_base(f, x.value, loc)
            if b is not None:
                return self.prog.attr_of(b, x.attr)
        return None

    def inline(self, f, I=None):
        """numeric kernels (frozen list of modules) stay opaque unless they have
        effects; everything else, including new helpers, is entered"""
        if f.mod.name in self.opaque:
            return False
        if f.mod.short in KERNELS:
            return f.mod.short in ENTER
        return True


# numeric kernels: arrays in, arrays out
KERNELS = {'bcdfo_augment_Y', 'bcdfo_build_QR_of_Y', 'bcdfo_computeLj', 'bcdfo_computeP', 'bcdfo_evalL',
           'bcdfo_evalP', 'bcdfo_evalZ', 'bcdfo_find_new_yj', 'bcdfo_gradP', 'bcdfo_hessP', 'bcdfo_include_in_Y',
           'bcdfo_poisedness_Y', 'bcdfo_projgrad', 'bcdfo_repair_Y', 'bcdfo_replace_in_Y', 'bcdfo_solve_TR_MS',
           'bcdfo_solve_TR_MS_bc', 'blls', 'minq', 'minq_util', 'runtime', 'sqpdfo_check_cond',
           'sqpdfo_check_convex', 'sqpdfo_truncated_cg', 'sqpdfo_init_prob'}
ENTER = set()
