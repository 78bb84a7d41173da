"""P17: no unset variable or attribute, unknown name, wrong call or result count on any path."""
import ast
from sv import driver as D, std, names as N
from sv.interp import Monitor, vconst
from sv.purity import KERNELS
from sv.prog import AnalysisBroken

# Reads the flow analysis cannot show to be preceded by a write; all were inspected by hand and are either
# correlated with a condition the analysis does not track (loop bodies that run at least once, flags of numerical
# cases) or lie in unreachable code.  Per function: number of distinct names and the names as of the last review
# (the count decides, the names are for the report only).
MAYBE = {
    'sqpdfo_main.sqpdfo_main_': {'radius', 'rand_'},            # augmentation with random points: rep_degree is the
    #                                                             linear degree and cur_degree is never below it
    'bcdfo_computeLj.bcdfo_computeLj_': set(),
    'bcdfo_repair_Y.bcdfo_repair_Y_': {'jmax', 'maximprove', 'ymax', 'bcdfo_find_new_yj_bc_'},
    'bcdfo_poisedness_Y.bcdfo_poisedness_Y_': {'bcdfo_find_new_yj_bc_'},   # hardcons is 0 in every call
    'bcdfo_include_in_Y.bcdfo_include_in_Y_': {'cv'},           # criterion is one of the three names handled
    'bcdfo_solve_TR_MS_bc.bcdfo_solve_TR_MS_bc_': {
        'delta_b', 'diff_b_l', 'diff_b_u', 'hardcase', 'ind_b', 'ind_b_l', 'ind_b_u', 'norms_b', 's_afterH',
        's_after_reduced_ms', 'sign_b'},
    'blls.blls_': {'kb', 'kc', 'natlbt', 'natubt'},
    'minq.Minq._Info': {'.nfree_old'}, 'minq.Minq._quadMin': {'x'}, 'minq.Minq.ldlrk1': {'.neps'},
    'minq.Minq.ldlup': {'.neps'}, 'minq.Minq.search': {'.fval', '.nfree_old'}, 'minq.Minq.setSearchInit': {'.neps'},
    'minq.Minq.subspace': {'.neps'},
    'minq_util.removeByInd': {'xrange'}, 'minq_util.rsort': {'xrange'},    # not called
    'runtime.compare_array': {'rel_error'},                                # test helper
    'sqpdfo_truncated_cg.sqpdfo_truncated_cg_': {'d', 'g2_'},   # first pass of the loop sets them
}
# constructs in unreachable code (same reason as sqpdfo_main_ above)
DEAD = {('name', 'sqpdfo_main.sqpdfo_main_', 'rand_'),
        ('results', 'sqpdfo_main.sqpdfo_main_', 'bcdfo_find_new_yj.bcdfo_find_new_yj_')}
CRITERIA = ('weighted', 'standard', 'distance')


class Undef(Monitor):
    name = 'undef'

    def __init__(self):
        self.d = {}
        self.problems = {}

    def on_undef(self, I, st, node, name, maybe, fid):
        f = I.funcstack[-1]
        if ' ' in name:
            self.problems.setdefault((f.qual, name), (f, node))
            return
        self.d.setdefault(f.qual, {}).setdefault(name, (f, node, maybe))


def contexts(f):
    """argument constants a kernel is analysed with: every declared model kind, soft constraints, each criterion"""
    base = {}
    per = [{}]
    for p in f.params:
        n = p.rstrip('_')
        if n == 'whichmodel':
            per = [dict(c, **{p: w}) for c in per for w in (0, 1, 2, 3)]
        elif n == 'criterion':
            per = [dict(c, **{p: w}) for c in per for w in CRITERIA]
        elif n == 'hardcons':
            base[p] = 0
    return [dict(base, **c) for c in per]


def run(ctx, prog):
    ctx.rule('name', 'every global name and module attribute read in a reachable statement exists')
    ctx.rule('call', 'every reachable call of a package function binds to its parameters')
    ctx.rule('results', 'every reachable unpacking of a package function fits all of its reachable returns')
    ctx.rule('attr', 'every attribute read in a reachable statement is stored somewhere or belongs to a library type')
    ctx.rule('set', 'no more names are read possibly unset in a function than the reviewed ones')
    cp, fq = N.reach(prog)
    stored = attributes(prog)
    allowed = set(N.ext_names()['*object'])
    for q, f in sorted(prog.funcs.items()):
        if q not in fq:
            continue
        loc = f.collect()[0]
        for n, st, shown, ok in N.names(prog, f):
            if (q, st._site) not in cp.reached:
                continue
            c = '%s in %s' % (shown, q)
            if ('name', q, shown) in DEAD:
                continue
            ctx.expect(ok, 'name', c, '%s:%d' % (f.mod.path, n.lineno), 'name %s does not exist' % shown)
        for n, st, t in N.calls(prog, f):
            if (q, st._site) not in cp.reached:
                continue
            c = '%s in %s' % (t.qual, q)
            w = '%s:%d' % (f.mod.path, n.lineno)
            pr = N.arity_problem(n, t)
            ctx.expect(pr is None, 'call', c, w, 'call of %s: %s' % (t.name, pr))
            if not (isinstance(st, ast.Assign) and st.value is n):
                continue
            rc = N.result_counts(prog, t, cp.reached)
            for tg in st.targets:
                k = len(tg.elts) if isinstance(tg, (ast.Tuple, ast.List)) and \
                    not any(isinstance(x, ast.Starred) for x in tg.elts) else 1
                if isinstance(tg, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Starred) for x in tg.elts):
                    continue
                fits = [x is None or x == k for x, _ in rc]
                library = t.mod.short in ('runtime', 'minq_util', 'helper')      # results depend on nargout
                ok = (any(fits) if library else all(fits)) or not fits
                if k == 1 and not library:
                    # a single name may take a whole tuple
                    ok = all(x is None or x != 0 for x, _ in rc) or not fits
                if not ok and ('results', q, t.qual) in DEAD and k == 2:
                    continue
                ctx.expect(ok, 'results', c, w, '%d result(s) of %s are taken, it returns %s' % (
                    k, t.name, sorted(set('nothing' if x == 0 else str(x) for x, _ in rc if x is not None and x != k))))
        for n, st in N.own_nodes(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and (q, st._site) in cp.reached:
                b = prog.purity.resolve_base(f, n.value, loc)
                if b is not None and b[0] in ('module', 'extmod', 'ext') and isinstance(n.value, (ast.Name, ast.Attribute)):
                    continue
                ctx.expect(n.attr in stored or n.attr in allowed, 'attr', '.%s in %s' % (n.attr, q),
                           '%s:%d' % (f.mod.path, n.lineno), 'attribute %s is never set' % n.attr)
    # possibly unset reads
    mons = []
    m = Undef()
    D.analyse('sqpdfo_', lambda: [m], std.entry(), maxpasses=1, track=False, summarise=std.SUMMARISE, boolloops=True)
    mons.append(m)
    kernels = 0
    k = Undef()
    for q, f in sorted(prog.funcs.items()):
        if f.mod.short not in KERNELS or f.parent is not None or f.cls is not None or q not in fq:
            continue
        kernels += 1
        for cx in contexts(f):
            def setup(I, st, fid, fn, cx=cx):
                for p, w in cx.items():
                    st.env[(fid, p)] = vconst(w)
            D.analyse(f.name, lambda: [k], setup, maxpasses=1, track=False, boolloops=True,
                      inline=lambda fn, I: fn.parent is not None or fn.cls is not None)
    mons.append(k)
    seen = set()
    found = {}
    for m in mons:
        for (q, text), (f, node) in m.problems.items():
            if q in fq:
                ctx.fail('call', '%s in %s' % (text, q), '%s:%d' % (f.mod.path, node.lineno), text)
        for q, d in m.d.items():
            found.setdefault(q, {}).update(d)
    for q in sorted(fq):
        f = prog.funcs[q]
        d = {}
        for n, (g, node, maybe) in found.get(q, {}).items():
            if not n.startswith('.') and n not in f.collect()[0]:
                continue                     # global names: decided by rule name
            if ('name', q, n) in DEAD:
                continue
            d[n] = (g, node, maybe)
        old = {x for x in MAYBE.get(q, ()) if x.startswith('.') or True}
        old -= {x for x in old if ('name', q, x) in DEAD}
        if len(d) > len(old):
            new = [n for n in sorted(d) if n not in old]
            for n in new[:len(d) - len(old)] if len(new) != len(d) else new:
                g, node, maybe = d[n]
                ctx.fail('set', '%s in %s' % (n, q), '%s:%d' % (f.mod.path, node.lineno),
                         '%s %s read before it was set' % (n, 'may be' if maybe else 'is'))
        else:
            ctx.ok('set', q, f.mod.path)
    if kernels < 15:
        raise AnalysisBroken('only %d kernel functions found' % kernels)
    ctx.require('name', 300)
    ctx.require('call', 200)
    ctx.require('results', 100)
    ctx.require('set', 60)
    ctx.note('reachable_statements', len(cp.reached))
    ctx.note('kernels_analysed', kernels)
    ctx.assumptions += [
        'reachability: constant propagation from sqpdfo_ with unknown arguments over-approximates the executed statements',
        'reads listed in checks/p17.py MAYBE were reviewed by hand (%d functions)' % len(MAYBE),
        'loops over interpolation points run at least once where the reviewed entries rely on it']


def attributes(prog):
    r = set()
    for m in prog.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                r.add(n.attr)
            elif isinstance(n, ast.ClassDef):
                for x in n.body:
                    if isinstance(x, ast.FunctionDef):
                        r.add(x.name)
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            r.add(y.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant):
                r.add(n.args[1].value)
    return r
