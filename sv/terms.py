"""Hash-consed terms: the value domain (global value numbering).

A term denotes a run-time value as an uninterpreted expression over constants,
inputs ("leaf"), program-point tokens ("tok": the value a site produced the
last time it ran) and merge tokens ("phi": the value a location had at a merge
point).  Two locations holding the same term hold the same value.
"""
import math


class Term(object):
    __slots__ = ('op', 'args', 'pay', 'tid', 'depth', '_leaves')

    def __repr__(self):
        return show(self)


_table = {}


def _mk(op, args, pay):
    key = (op, tuple(a.tid for a in args), pay)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.pay = pay
        t.tid = len(_table)
        t.depth = 1 + max([a.depth for a in args]) if args else 0
        t._leaves = None
        _table[key] = t
    return t


def const(v):
    # distinguish True/1/1.0 where it matters little: normalise bool/ints kept apart by type name
    if isinstance(v, bool):
        return _mk('const', (), ('b', v))
    if isinstance(v, int):
        return _mk('const', (), ('n', float(v)) if abs(v) < 2 ** 53 else ('i', v))
    if isinstance(v, float):
        if math.isnan(v):
            return _mk('const', (), ('nan',))
        return _mk('const', (), ('n', v))
    return _mk('const', (), ('o', repr(v)))


_constval = {}


def const_value(t):
    """python value of a constant term (numbers come back as float)"""
    if t.op != 'const':
        return None
    p = t.pay
    if p[0] == 'b':
        return p[1]
    if p[0] in ('n', 'i'):
        return p[1]
    if p[0] == 'nan':
        return float('nan')
    import ast
    try:
        return ast.literal_eval(p[1])
    except Exception:
        return p[1]


def is_const(t):
    return t.op == 'const'


def leaf(name):
    return _mk('leaf', (), name)


def tok(site, sub=''):
    return _mk('tok', (), (site, sub))


def phi(site, loc):
    return _mk('phi', (), (site, loc))


MAXDEPTH = 40


def app(op, *args):
    return _mk(op, tuple(args), None)


def app_p(op, pay, *args):
    return _mk(op, tuple(args), pay)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
EMPTY = _mk('emptyarray', (), None)


def subterms(t, limit=20000):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.tid in seen:
            continue
        seen.add(x.tid)
        yield x
        if len(seen) > limit:
            return
        st.extend(x.args)


_NOL = frozenset()


def leaves(t):
    """ids of the tokens/phis/inputs/opaque leaves t mentions"""
    r = t._leaves
    if r is None:
        if t.op in ('tok', 'phi', 'leaf'):
            r = frozenset((t.tid,))
        elif not t.args:
            r = _NOL
        elif len(t.args) == 1:
            r = leaves(t.args[0])
        else:
            r = frozenset().union(*[leaves(a) for a in t.args])
        t._leaves = r
    return r


def contains(t, s):
    return any(x is s for x in subterms(t))


def any_sub(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m, memo=None):
    """replace subterms by mapping term->term"""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    if not t.args:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    na = tuple(subst(a, m, memo) for a in t.args)
    if all(x is y for x, y in zip(na, t.args)):
        r = t
    else:
        r = _mk(t.op, na, t.pay)
    memo[t] = r
    return r


def show(t, d=4):
    if t.op == 'const':
        p = t.pay
        if p[0] == 'n' and p[1] == int(p[1]) if p[0] == 'n' and abs(p[1]) < 1e15 else False:
            return str(int(p[1]))
        return str(p[1]) if len(p) > 1 else 'nan'
    if t.op == 'leaf':
        return '$' + str(t.pay)
    if t.op in ('tok', 'phi'):
        s, l = t.pay
        return '%s<%s|%s>' % (t.op, _short(s), l)
    if d <= 0:
        return t.op + '(..)'
    p = '' if t.pay is None else '[%s]' % (t.pay,)
    return t.op + p + '(' + ','.join(show(a, d - 1) for a in t.args) + ')'


def _short(s):
    s = str(s)
    return s if len(s) < 60 else '..' + s[-58:]


# ---------------------------------------------------------------- arithmetic
def _num(t):
    if t.op == 'const' and t.pay[0] in ('n', 'b', 'i'):
        return float(t.pay[1])
    return None


def arith(op, a, b):
    x, y = _num(a), _num(b)
    if x is not None and y is not None:
        try:
            if op == 'add':
                return const(x + y)
            if op == 'sub':
                return const(x - y)
            if op == 'mul':
                return const(x * y)
            if op == 'div':
                return const(x / y)
            if op == 'pow':
                return const(x ** y)
            if op == 'fdiv':
                return const(x // y)
            if op == 'mod':
                return const(x % y)
        except Exception:
            pass
    if op == 'sub' and y is not None:
        if y == 0:
            return a
        return arith('add', a, const(-y))
    if op == 'sub' and a is b and a.op != 'const':
        return const(0)
    if op == 'sub':
        # (u + c) - u  and  u - (u + c)
        if a.op == 'add' and a.args[0] is b and _num(a.args[1]) is not None:
            return a.args[1]
        if b.op == 'add' and b.args[0] is a and _num(b.args[1]) is not None:
            return const(-_num(b.args[1]))
    if op == 'add':
        if x is not None and y is None:
            a, b = b, a
            x, y = y, x
        if y is not None:
            if y == 0:
                return a
            if a.op == 'add' and _num(a.args[1]) is not None:
                return arith('add', a.args[0], const(_num(a.args[1]) + y))
        elif b.tid < a.tid:
            a, b = b, a
    if op == 'mul':
        if x is not None and y is None:
            a, b = b, a
            x, y = y, x
        if y is not None:
            if y == 1:
                return a
        elif b.tid < a.tid:
            a, b = b, a
    if op == 'div' and y == 1:
        return a
    return app(op, a, b)


def rebuild(op, args, pay):
    if len(args) == 2 and op in ('add', 'sub', 'mul', 'div', 'pow', 'fdiv', 'mod'):
        return arith(op, *args)
    if len(args) == 2 and op in ('lt', 'le', 'eq', 'is', 'in'):
        return compare(op, *args)
    if op == 'not':
        return logical_not(args[0])
    if op == 'neg':
        return neg(args[0])
    return _mk(op, args, pay)


def neg(a):
    x = _num(a)
    if x is not None:
        return const(-x)
    if a.op == 'neg':
        return a.args[0]
    return app('neg', a)


def logical_not(a):
    if a.op == 'const':
        return const(not truth_const(a))
    if a.op == 'not':
        return a.args[0]
    return app('not', a)


def truth_const(t):
    p = t.pay
    if p[0] in ('b', 'n', 'i'):
        return bool(p[1])
    if p[0] == 'nan':
        return True
    v = const_value(t)
    return bool(v)


def compare(op, a, b):
    """canonical comparison terms: lt, le, eq, is, in (negations are 'not')"""
    x, y = _num(a), _num(b)
    if x is not None and y is not None:
        r = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y,
             'is': x == y, 'isnot': x != y}.get(op)
        if r is not None:
            return const(r)
    if op == 'gt':
        return compare('lt', b, a)
    if op == 'ge':
        return compare('le', b, a)
    if op == 'ne':
        return logical_not(compare('eq', a, b))
    if op == 'isnot':
        return logical_not(compare('is', a, b))
    if op == 'notin':
        return logical_not(compare('in', a, b))
    if op in ('eq', 'is') and a is b:
        if a.op != 'const' or a.pay[0] != 'nan':
            return TRUE
    if op in ('eq', 'is') and a.op == 'const' and b.op == 'const':
        if a.pay[0] == 'o' or b.pay[0] == 'o' or a is b:
            return const(a is b)
    if op in ('eq', 'is') and b.tid < a.tid and not (b.op == 'const'):
        a, b = b, a
    if op in ('eq', 'is') and a.op == 'const' and b.op != 'const':
        a, b = b, a
    if op in ('lt', 'le'):
        # normalise integer/real shifts:  u + c < d   ->  u < d - c
        if a.op == 'add' and _num(a.args[1]) is not None and y is not None:
            return compare(op, a.args[0], const(y - _num(a.args[1])))
        if b.op == 'add' and _num(b.args[1]) is not None and x is not None:
            return compare(op, const(x - _num(b.args[1])), b.args[0])
    if op == 'eq' and a.op == 'add' and _num(a.args[1]) is not None and y is not None:
        return compare('eq', a.args[0], const(y - _num(a.args[1])))
    return app(op, a, b)
