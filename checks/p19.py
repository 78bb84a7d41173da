"""P19: the inner searches stop after a bounded number of rounds."""
import ast
from sv import driver as D, terms as T
from sv.interp import Monitor
from . import drive

COMPARE = ('lt', 'le', 'eq')
ENTRY = 'sqpdfo_'


def of(t, site):
    """values the loop at site carries round that occur in t"""
    return set(u for u in T.subterms(t) if u.op == 'phi' and u.pay[0][-1] == site)


def linear(t):
    """(term, coefficient, offset) of k*x + c"""
    k, c = 1.0, 0.0
    while True:
        n = [T._num(a) for a in t.args]
        if t.op == 'add' and n[1] is not None:
            t, c = t.args[0], c + k * n[1]
        elif t.op == 'add' and n[0] is not None:
            t, c = t.args[1], c + k * n[0]
        elif t.op == 'sub' and n[1] is not None:
            t, c = t.args[0], c - k * n[1]
        elif t.op == 'mul' and n[0] is not None:
            t, k = t.args[1], k * n[0]
        elif t.op == 'mul' and n[1] is not None:
            t, k = t.args[0], k * n[1]
        elif t.op == 'div' and n[1]:
            t, k = t.args[0], k / n[1]
        elif t.op == 'neg':
            t, k = t.args[0], -k
        elif t.op == 'call:copy' and len(t.args) == 1:
            t = t.args[0]
        else:
            return t, k, c


class Progress(Monitor):
    """mon state: comparisons made on the path in which values of the loops under way occur, with their outcome"""
    name = 'progress'

    def __init__(self, judged, counted=()):
        self.judged, self.counted = judged, counted     # loops: each path tests the limit / only counts towards it
        self.bad, self.ev = {}, {}
        self.bodies, self.now, self.phase = {}, {}, {}
        self.final = {}
        self.limits = {}

    def start(self, I, st):
        st.mon[self.name] = frozenset()

    def mkey(self, I, v):
        return v

    def mine(self, node):
        return node in self.judged or node in self.counted

    def on_loop_enter(self, I, st, node, fid):
        if self.mine(node):
            self.bodies[id(node.body[0])] = node
            self.commit(node)

    def commit(self, node):
        self.final.setdefault(id(node), []).extend(self.now.pop(id(node), ()))
        self.phase[id(node)] = 'body'

    def on_stmt(self, I, st, node, fid):
        n = self.bodies.get(id(node))
        if n is not None and self.phase.get(id(n)) == 'back':
            self.now.pop(id(n), None)       # what the rounds before the fixed point showed
            self.phase[id(n)] = 'body'
        if n is not None:
            site = n._site
            s = frozenset((site, x, T._num(v.t)) for (q, x), v in st.env.items()
                          if v is not None and q != '$' and T._num(v.t) is not None)
            st.mon[self.name] = frozenset(f for f in st.mon[self.name] if f[0] != site) | s

    def on_assumed(self, I, st, node, term, value, fid):
        live = set(n._site for n in self.bodies.values())
        if term.op == 'phi' and term.pay[0][-1] in live:
            st.mon[self.name] |= {(term, value)}
        if term.op not in COMPARE:
            return
        for a, b in (term.args, term.args[::-1]):
            x = linear(a)[0]
            if x.op == 'phi' and x.pay[0][-1] in live:
                st.mon[self.name] |= {(term, value)}
                if term.op != 'eq' and not of(b, x.pay[0][-1]):
                    self.limits.setdefault(x.pay[0][-1], set()).add(x.pay[1])

    def on_loop_exit(self, I, st, node, fid):
        st.mon[self.name] = self.keep(st, node)

    def on_backedge(self, I, st, node, fid):
        facts = st.mon[self.name]
        if self.mine(node):
            self.phase[id(node)] = 'back'
            flags = self.flags(I, st, node, facts)
            w = 'over' if self.over(I, st, node, fid) else self.progress(I, st, node, facts, fid)
            tests = frozenset(f for f in facts if len(f) == 2)
            # the first round, before the counter or the flag varies
            first = frozenset(x for s, x, k in (f for f in facts if len(f) == 3) if s == node._site and any(
                v is not None and y == x and q != '$' and self.moved(I, st, v.t, k) for (q, y), v in st.env.items()))
            w = (w, tests, flags, first)
            self.now.setdefault(id(node), []).append((w, I.funcstack[-1], node))
        st.mon[self.name] = self.keep(st, node)

    def finish(self):
        for n in list(self.judged) + list(self.counted):
            self.commit(n)
            res = self.final.get(id(n), ())
            # a flag that is set ends the search if no path goes round with it set
            ends = set((t, r) for (w, tests, flags, first), f, node in res for t, r in flags)
            ends = set((t, r) for t, r in ends if not any((t, r) in tests for (w, tests, flags, first), f, node in res))
            vary = set(w[1] for (w, tests, flags, first), f, node in res if isinstance(w, tuple))
            for t, r in ends:
                vary |= set(u.pay[1] for u in of(t, n._site))
            for (w, tests, flags, first), f, node in res:
                self.ev.setdefault(('round', f.qual, node._site), (f, node))
                if w is None and not flags & ends and not any(
                        str(v) == str(x) or str(v).endswith('.' + str(x)) for v in vary for x in first):
                    text = 'a path goes round this search without counting towards a limit that is tested, and without ' \
                           'reducing anything down to a limit'
                    self.bad.setdefault(('round', f.qual, text), (f, node))

    def moved(self, I, st, t, k):
        n = T._num(t)
        r = I.implied(st, t)
        return n is not None and n != k or r is not None and r != bool(k)

    def flags(self, I, st, node, facts):
        """tests that the path made on a value carried round, which the new value now answers the other way"""
        out = set()
        for t, val in (f for f in facts if len(f) == 2):
            x = t if t.op == 'phi' else next((a for a in t.args if a.op == 'phi'), None)
            if x is None or x.pay[0][-1] != node._site:
                continue
            for (q, n), v in st.env.items():
                if v is None or q == '$' or v.t is x or not self.same(x, n):
                    continue
                cs = [v.t] if v.t.op == 'const' else I.const_values(v.t) if v.t.op == 'phi' else None
                known = I.implied(st, v.t)
                cs = [z for z in cs or () if (known is None or T.truth_const(z) == known) and
                      (v.t is z or st.facts.get(T.compare('eq', v.t, z)) is not False)]
                rs = set(T.truth_const(z) if t is x else
                         I.implied(st, T.compare(t.op, *[z if a is x else a for a in t.args])) for z in cs)
                if len(rs) == 1 and rs <= {True, False} and rs != {val}:
                    out.add((t, not val))
        return frozenset(out)

    def keep(self, st, node):
        """forget what was found out about the values of the round that ends"""
        return frozenset(f for f in st.mon[self.name] if (f[0] != node._site if len(f) == 3 else not of(f[0], node._site)))

    def over(self, I, st, node, fid):
        """the condition of the loop is known to fail now"""
        def val(e):
            if isinstance(e, ast.Constant):
                return T.const(e.value)
            if isinstance(e, ast.Name):
                v = st.env.get((fid, e.id))
                return v.t if v is not None else None
        e, pos = node.test, True
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, pos = e.operand, not pos
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = val(e.left), val(e.comparators[0])
            op = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}.get(type(e.ops[0]))
            t = T.compare(op, a, b) if a is not None and b is not None and op else None
        else:
            t = val(e)
        r = I.implied(st, t) if t is not None else None
        return r is not None and bool(r) != pos

    def progress(self, I, st, node, facts, fid):
        site = node._site
        head = {}
        for (q, n), v in st.env.items():
            if v is None or q == '$':
                continue
            x, k, c = linear(v.t)
            if x.op == 'phi' and x.pay[0][-1] == site and v.t is not x and self.same(x, n):
                head[x] = (k, c)
        if node in self.counted:
            # the limit is tested on the paths that need it; all of them count
            lim = self.limits.get(site, ())
            if any(k == 1 and c > 0 and x.pay[1] in lim for x, (k, c) in head.items()):
                return 'counts', ''
            return None
        for t, val in (f for f in facts if len(f) == 2 and f[0].op != 'phi'):
            s = [linear(a) for a in t.args]
            for (x, k, c), (y, kk, cc), first in ((s[0], s[1], True), (s[1], s[0], False)):
                if x not in head or of(t.args[1 if first else 0], site) or k <= 0 or t.op == 'eq':
                    continue
                hk, hc = head[x]
                upper = first == val        # the path goes on below the limit
                lower = first != val
                if hk == 1 and hc > 0 and upper or hk == 1 and hc < 0 and lower:
                    return 'counts', x.pay[1]
                if 0 < hk < 1 and hc == 0 and lower:
                    return 'is reduced down to a limit'
        return None

    def same(self, x, name):
        """x is what the loop carries in the variable called name"""
        return x.pay[1] == name or str(x.pay[1]).endswith('.' + str(name))



def loops(f):
    return [x for x in drive.own(f.node) if isinstance(x, ast.While)]


def reaches(prog, f, node, work, seen, all=False):
    """a call to work below node, directly or through functions of the program (those without searches, if not all)"""
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            n = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
            if n == work:
                return True
            g = prog.byname.get(n) if n else None
            if g is not None and g.qual not in seen and (all or not loops(g)):
                seen.add(g.qual)
                if reaches(prog, g, g.node, work, seen, all):
                    return True
    return False


def recursive(prog, q):
    w, seen = list(prog.purity.calls.get(q, ())), set()
    while w:
        c = w.pop()
        if c == q:
            return True
        if c not in seen:
            seen.add(c)
            w += list(prog.purity.calls.get(c, ()))
    return False


def run(ctx, prog):
    ctx.rule('round', 'each path round a search counts, in a variable carried round the loop, towards a limit that the path '
                      'tests, or reduces a value by a factor down to a limit that the path tests (the active-set loop of '
                      'sqpdfo_solve_TR_bc_ counts on each path and tests the limit on some)')
    ctx.rule('range', 'a for loop does not extend what it runs over')
    ctx.rule('call', 'no function of the solver calls itself, directly or through others')
    ctx.assumptions += [
        'the loops of bcdfo_solve_TR_MS_bc_ that fix variables one after the other end because variables run out, which '
        'depends on the values of the step; they are not decided here',
        'the random start (initial_Y = random) is not offered by the solver',
        'the loops of minq.py are not analysed; the loop of sqpdfo_main_ is decided by P02']
    main = prog.func('sqpdfo_main_')
    tr = prog.func('sqpdfo_solve_TR_bc_')
    fs = [f for f in drive.closure(prog, prog.func(ENTRY)) if f.mod.path.rsplit('/', 1)[-1] != 'minq.py']
    outer = drive.closure(prog, tr)
    ms = drive.closure(prog, prog.func('bcdfo_solve_TR_MS_bc_'))
    withwhile = [f for f in fs if loops(f)]
    for f in fs:
        for x in drive.own(f.node):
            if isinstance(x, (ast.For, ast.AsyncFor)):
                it = x.iter
                ctx.ok('range', '%s@%s' % (f.qual, x._site), drive.where(f, x))
                if isinstance(it, ast.Name):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) \
                                and y.func.value.id == it.id and y.func.attr in ('append', 'extend', 'insert'):
                            ctx.fail('range', '%s: %s' % (f.qual, 'extends'), drive.where(f, y),
                                     'the list that the loop runs over is extended in the loop')
        ctx.ok('call', f.qual, drive.where(f, f.node))
        if recursive(prog, f.qual):
            ctx.fail('call', '%s: calls itself' % f.qual, drive.where(f, f.node), 'the function calls itself')
    ctx.require('range', 40)
    ctx.require('call', 40)
    for f in withwhile:
        judged, counted = [], []
        for n in loops(f):
            if f is main or reaches(prog, f, n, 'sqpdfo_solve_TR_bc_', set(), all=True):
                continue
            if reaches(prog, f, n, 'rand_', set()) and not reaches(prog, f, n, 'sqpdfo_augmX_evalf_', set()):
                continue
            if f in outer and reaches(prog, f, n, 'sqpdfo_truncated_cg_', set(), all=True):
                counted.append(n)
            elif f in ms and reaches(prog, f, n, 'bcdfo_solve_TR_MS_', set()):
                continue
            else:
                judged.append(n)
        if not judged and not counted:
            continue
        p = Progress(judged, counted)
        D.analyse(f.name, lambda: [p], lambda I, st, fid, f: None, maxpasses=1, track=False,
                  summarise=tuple(h.name for h in fs if h not in withwhile))
        p.finish()
        for (kind, q, s), (g, node) in p.ev.items():
            ctx.ok(kind, '%s@%s' % (q, s), drive.where(g, node))
        for (rule, q, text), (g, node) in p.bad.items():
            ctx.fail(rule, '%s: %s' % (q, text), drive.where(g, node), text)
    ctx.require('round', 3)
