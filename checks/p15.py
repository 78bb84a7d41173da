"""P15: options: complete defaults, values honoured, strings recognised."""
import ast
from sv import std, terms as T
from sv.terms import leaf, const
from . import optlib as O


def option_reads(prog, names):
    """attributes read from the options record anywhere: attribute loads whose name is an option"""
    r = {}
    for q, f in prog.funcs.items():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and \
                    n.value.id.rstrip('_') == 'options':
                r.setdefault(n.attr, []).append((f, n))
    return r


def run(ctx, prog):
    ctx.rule('default', 'with no option given every option the package reads has a value at the successful exit of '
                        'the option routine')
    ctx.rule('subset', 'giving any one option leaves all others with a value')
    ctx.rule('keep', 'a valid value given by the user is the value at the successful exit')
    ctx.rule('string', 'each accepted string, in any case and with any blanks, selects the declared code of its name')
    ctx.rule('distinct', 'the codes of one option are pairwise different')
    ctx.rule('default-code', 'the default of a string option is one of its declared codes')
    ctx.rule('default-range', 'numeric defaults are positive (limits, tolerances) and the verbosity default is 1')
    f = prog.func('sqpdfo_options_')
    where = '%s:%d' % (f.mod.path, f.node.lineno)
    code = std.codes(prog)
    R, outs = O.run_options({})
    good = [o for o in outs if o[0] is not None and o[0] is const(code['success'])]
    ctx.expect(len(good) == len(outs) and good, 'default', 'no options: success', where,
               'the option routine does not succeed when no option is given')
    known = set()
    for fl, d, n, s in good:
        known |= set(d)
    reads = option_reads(prog, known)
    need = set(known)
    for a, uses in reads.items():
        if a.startswith('__'):
            continue
        guarded = all(is_guarded(fn, n, a) for fn, n in uses)
        if not guarded:
            need.add(a)
    for a in sorted(need | set(O.STRINGS) | set(O.NUMERIC)):
        bad = None
        for fl, d, n, s in good:
            v = d.get(a)
            if v is None or v.undef:
                bad = n
        ctx.expect(bad is None, 'default', a, where, 'option %s has no value after the defaults were set' % a)
    for fl, d, n, s in good:
        for a, names in O.STRINGS.items():
            v = d.get(a)
            cs = [code.get(x) for x in names]
            okc = v is not None and v.t.op == 'const' and T.const_value(v.t) in [c for c in cs if c is not None]
            ctx.expect(okc, 'default-code', a, where, 'default of %s is not one of its declared choices' % a)
        for a in list(O.NUMERIC) + ['verbose']:
            v = d.get(a)
            if v is None:
                continue
            x = T._num(v.t)
            if a == 'verbose':
                ctx.expect(x == 1, 'default-range', a, where, 'default verbosity is %s, documented default is 1' % x)
            else:
                ctx.expect(x is not None and x > 0, 'default-range', a, where, 'default of %s is %s' % (a, x))
    for a, names in O.STRINGS.items():
        cs = [code.get(x) for x in names]
        ctx.expect(None not in cs and len(set(cs)) == len(cs), 'distinct', a, where,
                   'codes of %s are not distinct declared codes: %s' % (a, dict(zip(names, cs))))
        for s0, c in zip(names, cs):
            for v in variants(s0):
                R, outs = O.run_options({a: v})
                for fl, d, n, s in outs:
                    w = d.get(a)
                    ok = fl is const(code['success']) and w is not None and w.t.op == 'const' and \
                        c is not None and T.const_value(w.t) == c
                    ctx.expect(ok, 'string', '%s=%r' % (a, v), where,
                               'option %s = %r ends with status %s and value %s, expected success and %s' % (
                                   a, v, show(fl), show(w.t) if w else None, c))
                    missing = [k for k in need if k not in d or d[k].undef]
                    ctx.expect(not missing, 'subset', '%s=%r' % (a, v), where, 'no value for %s' % missing)
    for a, kinds in O.NUMERIC.items():
        R, outs = O.run_options({a: ('cls', O.pos)})
        check_keep(ctx, a, 'positive', outs, where, code, need)
    R, outs = O.run_options({'verbose': ('cls', O.between(0, 6))})
    check_keep(ctx, 'verbose', '0..6', outs, where, code, need)
    R, outs = O.run_options({'fout': ('cls', O.above(0))})
    check_keep(ctx, 'fout', 'positive', outs, where, code, need)
    R, outs = O.run_options({'bfgs_restart': ('cls', O.between(0, 1000))})
    check_keep(ctx, 'bfgs_restart', 'given', outs, where, code, need)
    ctx.require('string', 30)
    ctx.require('default', 12)
    ctx.require('keep', 9)
    ctx.note('options', sorted(need))


def show(t):
    return T.show(t) if t is not None else None


def variants(s):
    return [s, s.upper(), s.capitalize(), s[:2].upper() + ' ' + s[2:], '  ' + s + ' ', s[0] + '  ' + s[1:].title()]


def check_keep(ctx, a, what, outs, where, code, need):
    for fl, d, n, s in outs:
        w = d.get(a)
        ok = fl is const(code['success']) and w is not None and w.t is leaf('opt:' + a)
        ctx.expect(ok, 'keep', '%s %s' % (a, what), where,
                   'option %s (%s) ends with status %s and value %s' % (a, what, show(fl), show(w.t) if w else None))
        missing = [k for k in need if k not in d or d[k].undef]
        ctx.expect(not missing, 'subset', '%s %s' % (a, what), where, 'no value for %s' % missing)


def is_guarded(fn, node, attr):
    """every read of the attribute sits under (or after, in a conjunction) a presence test of that attribute"""
    def has_test(x):
        return any(isinstance(c, ast.Constant) and c.value == attr for c in ast.walk(x))
    ok = []

    def rec(n, g):
        if n is node:
            ok.append(g)
            return
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            t = has_test(n.test)
            rec(n.test, g)
            b = n.body if isinstance(n.body, list) else [n.body]
            o = n.orelse if isinstance(n.orelse, list) else [n.orelse]
            for x in b + o:
                rec(x, g or t)
            return
        if isinstance(n, ast.BoolOp):
            t = g
            for v in n.values:
                rec(v, t)
                t = t or has_test(v)
            return
        for c in ast.iter_child_nodes(n):
            rec(c, g)
    rec(fn.node, False)
    return bool(ok) and all(ok)
