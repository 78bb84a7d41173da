"""P13: with verbosity 0 no console print is reachable from the entry point."""
from sv.constprop import CP, C, TOP, OBJ, FILE

# print sites outside the property, one reason each (function, reason)
EXEMPT = {
    ('bcdfo_augment_Y', 'bcdfo_augment_Y_'):
        'set already fully quadratic: callers only augment below the requested degree',
}
PRIM = {'print': 'print', 'disp_': 'disp_', 'fprintf_': 'fprintf_', 'sys.stdout.write': 'write',
        'sys.stderr.write': 'write', 'warnings.warn': 'warn', 'numpy.disp': 'print', 'pprint.pprint': 'print',
        'logging.warning': 'log', 'logging.info': 'log', 'logging.error': 'log', 'logging.debug': 'log'}


def config(prog, level, hits, stores, sites):
    def attr(cp, e, base, name):
        if name == 'verbose':
            return C(level)
        if name in ('stdout', 'stderr'):
            return OBJ
        return None

    def on_call(cp, e, name, tf, args, kw, star):
        if name in ('m:write',):
            import ast
            b = e.func.value
            if isinstance(b, ast.Attribute) and b.attr in ('stdout', 'stderr'):
                hits.append((cp.func, e, 'write'))
            return None
        if name not in PRIM:
            return None
        sites.add((cp.func.qual, e._site))
        if name == 'fprintf_' and args and args[0] == FILE:
            return C(None)
        if name == 'print' and kw.get('file') == FILE:
            return C(None)
        hits.append((cp.func, e, PRIM[name]))
        return C(None)

    def model(cp, e, name, args, kw):
        if name in ('fopen_', 'open', 'io.open'):
            return FILE
        if name == 'fclose_' and args and args[0] == FILE:
            return C(None)
        if name in ('isfield_', 'hasattr') and len(args) == 2 and args[1] == C('verbose'):
            return C(True)
        if name == 'getattr' and len(args) >= 2 and args[1] == C('verbose'):
            return C(level)
        if name == 'isinstance' and args and args[0][0] == 'c' and args[0][2] is not None:
            return TOP
        return None

    def on_store(cp, t, base, name, v):
        if name == 'verbose':
            stores.append((cp.func, t, v))

    cp = CP(prog, attr=attr, model=model, on_call=on_call, on_store_attr=on_store)
    cp.args_nonnull = True
    return cp


def primitives(prog, all_sites):
    """every print primitive call of the package, for the coverage count"""
    import ast
    for q, f in prog.funcs.items():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in PRIM:
                all_sites.add((q, n._site))


def run(ctx, prog):
    ctx.rule('silent', 'no call that prints to the console is reachable from sqpdfo_ when options.verbose is 0 '
                       '(context-sensitive constant propagation; callee contexts per known argument values)')
    ctx.rule('kept', 'no reachable statement replaces a verbosity of 0 by another value')
    f = prog.func('sqpdfo_')
    allsites = set()
    primitives(prog, allsites)
    # positive control: at verbosity 6 most of the sites are reachable
    hi, st, si = [], [], set()
    cp6 = config(prog, 6, hi, st, si)
    args = {p: OBJ for p in f.params}
    for p in ('me', 'mi'):
        if p in args:
            args[p] = TOP
    cp6.run(f, args)
    live = set((fn.qual, e._site) for fn, e, _ in hi)
    hits, stores, sites = [], [], set()
    cp = config(prog, 0, hits, stores, sites)
    cp.run(f, args)
    bad = {}
    for fn, e, k in hits:
        bad[(fn.qual, e._site)] = (fn, e, k)
    for s in sorted(live):
        ctx.ok('silent', '%s@%s' % s)
    for (q, s), (fn, e, k) in sorted(bad.items(), key=lambda x: (x[1][0].qual, x[1][1].lineno)):
        if (fn.mod.short, fn.name) in EXEMPT:
            continue
        if invalid_branch(fn, e):
            continue
        import ast
        txt = ''
        for a in e.args:
            for c in ast.walk(a):
                if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value.strip():
                    txt = c.value.strip()[:40]
                    break
            if txt:
                break
        ctx.fail('silent', '%s:%s(%s)' % (fn.qual, k, txt), '%s:%d' % (fn.mod.path, e.lineno),
                 'prints to the console although the verbosity is 0')
    for fn, t, v in stores:
        if v == C(0) or v == C(0.0):
            ctx.ok('kept', fn.qual)
            continue
        ctx.fail('kept', fn.qual + ':verbose', '%s:%d' % (fn.mod.path, t.lineno),
                 'verbosity 0 is replaced by another value')
    ctx.note('console_sites_reachable_at_level_6', len(live))
    ctx.note('contexts', cp.contexts)
    ctx.note('reachable_statements', len(cp.reached))
    ctx.require('silent', 120)
    ctx.assumptions += ['arguments passed explicitly between routines are not None unless written so',
                        'arguments other than the verbosity are valid (rejections of invalid arguments may print)',
                        'output of user functions and of numpy/scipy warnings is not counted']


def invalid_branch(fn, e):
    """is the print part of the rejection of an invalid argument: its block also
    sets the status to the invalid-argument code, or returns at once from the
    argument checks of the entry point"""
    import ast
    best = None

    def rec(body):
        nonlocal best
        for i, s in enumerate(body):
            if any(x is e for x in ast.walk(s)):
                best = body
                for fld in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, fld, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        rec(b)
                for h in getattr(s, 'handlers', []):
                    rec(h.body)
    rec(fn.body)
    if best is None or best is fn.body:
        return False
    for s in best:
        for x in ast.walk(s):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and fn.name == 'sqpdfo_options_' and t.attr == 'fout':
                        return True        # invalid output channel, replaced on the spot
                    if isinstance(t, ast.Attribute) and t.attr == 'flag':
                        v = x.value
                        if isinstance(v, ast.Attribute) and v.attr == 'fail_on_argument':
                            return True
                        if isinstance(v, ast.Constant) and v.value == 1:
                            return True
    return False
