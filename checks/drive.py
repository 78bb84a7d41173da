"""Runs the whole solver (sqpdfo_) in the interpreter for the checks that follow
events along its paths, and names the roles of values by interface position."""
import ast
from sv import driver as D, std, terms as T
from sv.interp import Val, Monitor, Limit
from sv.prog import AnalysisBroken


def run(mons, entry=None, summarise=None, watch=(), **kw):
    """watch: attributes whose stores matter to the monitors (a callee that stores them is not summarised)"""
    ms = list(mons)
    if summarise is None:
        summarise = summarisable(D.program(), watch)
    try:
        return D.analyse('sqpdfo_', lambda: ms, entry or std.entry(), maxpasses=1, track=False, summarise=summarise, **kw)
    except Limit:
        if any(m.bad for m in ms):
            return None          # the violations found before the limit stand
        raise AnalysisBroken('analysis budget exhausted')


def closure(prog, f):
    """functions a function may call, by name"""
    seen, w = set(), [f.qual]
    while w:
        q = w.pop()
        if q not in seen:
            seen.add(q)
            w += list(prog.purity.calls.get(q, ()))
    return [prog.funcs[q] for q in sorted(seen) if q in prog.funcs]


def summarisable(prog, watch):
    out = []
    for n in std.SUMMARISE:
        fs = closure(prog, prog.func(n))
        ok = True
        for g in fs:
            loc = g.collect()[0]
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in loc and \
                        prog.purity.resolve(g, x.func, loc) is None:
                    ok = False         # calls a function value
                if isinstance(x, ast.Attribute) and (isinstance(x.ctx, ast.Store) and x.attr in watch):
                    ok = False
        if ok:
            out.append(n)
    return tuple(out)


def record_with(st, *attrs):
    """records that have all the attributes (the info and options records)"""
    for r, d in st.heap.items():
        if all(a in d for a in attrs):
            yield r, d


def where(f, node):
    return '%s:%d' % (f.mod.path, node.lineno)


# positions in the results of sqpdfo_main_ and sqpdfo_prelim_
MAIN_OUT = {'i_xbest': 1, 'x': 2, 'fx': 3, 'm': 4, 'X': 5, 'fX': 6, 'ciX': 7, 'ceX': 8, 'ind_Y': 9, 'delta': 10,
            'lm': 27, 'info': 28}


def local_names(f, table):
    """role -> name of the local variable returned in that position by every return of f"""
    out = {}
    n = max(table.values()) + 1
    rets = []
    for x in own(f.node):
        if isinstance(x, ast.Return) and x.value is not None:
            if isinstance(x.value, ast.Tuple) and len(x.value.elts) >= n:
                rets.append(x.value.elts)
    if not rets:
        raise AnalysisBroken('%s has no return with %d results' % (f.qual, n))
    for role, k in table.items():
        ns = {}
        for r in rets:
            if isinstance(r[k], ast.Name):
                ns[r[k].id] = ns.get(r[k].id, 0) + 1
        if not ns:
            raise AnalysisBroken('result %d of %s is not a variable' % (k, f.qual))
        out[role] = max(ns, key=ns.get)
    return out


def own(fn):
    """nodes of a function without those of nested functions"""
    st = list(ast.iter_child_nodes(fn))
    while st:
        x = st.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(x))


def stack(I):
    return [f.name for f in I.funcstack]


def argval(tf, name, pos, args, kwargs):
    """value passed for the parameter in a position (or its keyword)"""
    if pos < len(args):
        return args[pos]
    if tf is not None and pos < len(tf.params):
        return kwargs.get(tf.params[pos])
    return None


def main_loop(f):
    """the outermost loop of a function with the largest body"""
    best = None
    st = [(c, 0) for c in ast.iter_child_nodes(f.node)]
    for x in outer_loops(f.node):
        n = sum(1 for _ in ast.walk(x))
        if best is None or n > best[0]:
            best = (n, x)
    if best is None:
        raise AnalysisBroken('no loop in %s' % f.qual)
    return best[1]


def outer_loops(node):
    for x in ast.iter_child_nodes(node):
        if isinstance(x, (ast.While, ast.For)):
            yield x
        elif not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            for y in outer_loops(x):
                yield y


def subterm(I, t, pred, stop=None):
    """some part of t (on some branch it may come from) satisfies pred; stop: a loop whose earlier rounds do not count"""
    seen, w = set(), [t]
    while w:
        t = w.pop()
        if t in seen:
            continue
        seen.add(t)
        if pred(t):
            return True
        if t.op != 'phi':
            w += t.args
        elif stop is None or t.pay[0][-1] != stop._site:
            w += I.phi_parts.get(t, ())
    return False


class InMain(Monitor):
    """base: knows the frame of sqpdfo_main_ and its info record"""
    bad = None

    def setup(self, prog):
        self.main = prog.func('sqpdfo_main_')
        self.loop = main_loop(self.main)
        self.names = local_names(self.main, MAIN_OUT)
        self.mainfid = None
        self.bad = {}
        self.ev = {}

    def fail(self, I, node, text, rule=None):
        f = I.funcstack[-1]
        self.bad.setdefault((rule, f.qual, text), (f, node))

    def event(self, I, node, kind):
        f = I.funcstack[-1]
        self.ev.setdefault((kind, f.qual, node._site), (f, node))

    def on_stmt(self, I, st, node, fid):
        if I.funcstack[-1] is self.main:
            self.mainfid = fid

    def inmain(self, I):
        return self.main in I.funcstack

    def var(self, st, role):
        return st.env.get((self.mainfid, self.names[role])) if self.mainfid is not None else None

    def info(self, st):
        v = self.var(st, 'info')
        return st.heap.get(v.rec) if v is not None and v.rec is not None else None

    def report(self, ctx):
        for (kind, q, s), (f, node) in self.ev.items():
            ctx.ok(kind, '%s@%s' % (q, s), where(f, node))
        for (rule, q, text), (f, node) in self.bad.items():
            ctx.fail(rule, '%s: %s' % (q, text), where(f, node), text)
