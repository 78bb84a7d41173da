"""P16: the convergence history file is complete and well formed."""
import ast
import re
from sv import driver as D, std, terms as T
from sv.terms import leaf, const
from sv.interp import Monitor, Val, vconst

CONV = re.compile(r'%(?:%|[-+ #0]*\d*(?:\.\d+)?[diouxXeEfFgGcrs])')


def pieces(t):
    """text term -> list of ('s', literal) and ('v', term)"""
    if t.op == 'const':
        return [('s', str(T.const_value(t)))]
    if t.op in ('mod', 'smod') and t.args[0].op == 'const' and isinstance(T.const_value(t.args[0]), str):
        fmt = T.const_value(t.args[0])
        vals = list(t.args[1].args) if t.args[1].op == 'tuple' else [t.args[1]]
        out = []
        i = 0
        for m in CONV.finditer(fmt):
            if m.start() > i:
                out.append(('s', fmt[i:m.start()]))
            i = m.end()
            if m.group() == '%%':
                out.append(('s', '%'))
            else:
                out.append(('v', vals.pop(0) if vals else T.NONE))
        if i < len(fmt):
            out.append(('s', fmt[i:]))
        return out
    if t.op in ('add', 'sadd'):
        out = []
        for a in t.args:
            out.extend(pieces(a))
        return out
    if t.op == 'fstr':
        out = []
        vals = list(t.args)
        for x in t.pay:
            if x[0] == 's':
                out.append(('s', x[1]))
            else:
                out.append(('v', vals.pop(0)))
        return out
    if t.op == 'call:str' or t.op == 'call:m:format' and t.args[0].op != 'const':
        return [('v', t.args[0])]
    if t.op == 'call:m:format' and T.const_value(t.args[0]) is not None:
        fmt = T.const_value(t.args[0])
        vals = list(t.args[1:])
        out = []
        for k, part in enumerate(re.split(r'\{[^{}]*\}', fmt)):
            if k:
                out.append(('v', vals.pop(0) if vals else T.NONE))
            if part:
                out.append(('s', part))
        return out
    return [('v', t)]


def is_file(v):
    return v is not None and v.t.op == 'tok' and len(v.t.pay) > 1 and v.t.pay[1] == 'file'


class Files(Monitor):
    """mon state: (phase, open file or None, mode, text pieces of the current opening, violations)
    phase: 0 nothing, 1 bracket open, 2 bracket closed"""
    name = 'files'

    def __init__(self):
        self.events = {}
        self.bad = {}

    def start(self, I, st):
        st.mon[self.name] = (0, None, '', ())

    def mkey(self, I, v):
        ph, fh, mode, txt = v
        return (ph, fh.tid if fh is not None else None, mode, tuple(x[1] if x[0] == 's' else '%' for x in txt))

    def note(self, I, node, kind):
        self.events[(I.funcstack[-1].qual, node._site, kind)] = (I.funcstack[-1], node)

    def fail(self, I, node, text):
        f = I.funcstack[-1]
        self.bad.setdefault((f.qual, text), (f, node))

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        ph, fh, mode, txt = st.mon[self.name]
        if name in ('fopen_', 'open') and args:
            m = args[1].t if len(args) > 1 else kwargs.get('mode', vconst('r')).t
            m = T.const_value(m) if m.op == 'const' else '?'
            if 'r' in str(m) and '+' not in str(m):
                return None
            self.note(I, node, 'open')
            if fh is not None:
                self.fail(I, node, 'the history file is opened again before it was closed')
            f = T.tok(I.site(node, fid), 'file')
            st.mon[self.name] = (ph, f, str(m), ())
            if 'w' in str(m) and ph != 0:
                self.fail(I, node, 'the history file is truncated after it was started')
            if 'w' not in str(m) and ph != 1:
                self.fail(I, node, 'the history file is written %s' % (
                    'before its header' if ph == 0 else 'after its closing bracket'))
            return None
        if fh is None:
            if name in ('fprintf_', 'print', 'm:write') and (args and is_file(args[0]) or
                                                             'file' in kwargs and is_file(kwargs['file'])):
                self.fail(I, node, 'the history file is written while closed')
            return None
        new = None
        if name == 'fprintf_' and args and args[0].t is fh:
            new = [p for a in args[1:] for p in pieces(a.t)]
        elif name == 'm:write' and args and args[0].t is fh:
            new = [p for a in args[1:] for p in pieces(a.t)]
        elif name == 'print' and 'file' in kwargs and kwargs['file'].t is fh:
            new = [p for a in args for p in pieces(a.t)]
            end = kwargs.get('end')
            new.append(('s', '\n' if end is None else str(T.const_value(end.t) if end.t.op == 'const' else '')))
        elif name in ('fclose_', 'm:close') and args and args[0].t is fh:
            self.note(I, node, 'close')
            self.close(I, st, node)
            return None
        if new is not None:
            self.note(I, node, 'write')
            st.mon[self.name] = (ph, fh, mode, txt + tuple(new))
        return None

    def on_with_exit(self, I, st, node, v, fid):
        ph, fh, mode, txt = st.mon[self.name]
        if fh is not None and v.t is fh:
            self.close(I, st, node)

    def close(self, I, st, node):
        ph, fh, mode, txt = st.mon[self.name]
        lit = ''.join(x[1] if x[0] == 's' else '\0' for x in txt)
        if '[' in lit:
            if ph != 0 or 'w' not in mode:
                self.fail(I, node, 'the opening bracket is written to a file already started')
            if not lit.rstrip(' ').endswith('\n'):
                self.fail(I, node, 'the header does not end with a line end')
            ph = 1
        elif ']' in lit:
            if '\0' in lit:
                self.fail(I, node, 'values are written with the closing bracket')
            ph = 2
        elif '\0' in lit:
            if lit.count('\n') != 1 or not lit.rstrip(' ').endswith('\n'):
                self.fail(I, node, 'a row is not written as one complete line: %r' % lit.replace('\0', '<value>'))
        elif lit.strip():
            self.fail(I, node, 'text other than header, row and bracket is written: %r' % lit)
        st.mon[self.name] = (ph, None, '', ())


class Rows(Monitor):
    """collects what is written to the file and to the console"""
    name = 'rows'

    def start(self, I, st):
        st.mon[self.name] = ((), ())

    def mkey(self, I, v):
        return tuple(tuple(x[1] if x[0] == 's' else x[1].tid for x in y) for y in v)

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        a, b = st.mon[self.name]
        if name == 'fprintf_' and args:
            p = tuple(x for y in args[1:] for x in pieces(y.t))
            st.mon[self.name] = (a + p, b) if is_file(args[0]) else (a, b + p)
        elif name == 'm:write' and args and is_file(args[0]):
            st.mon[self.name] = (a + tuple(x for y in args[1:] for x in pieces(y.t)), b)
        elif name == 'print':
            p = tuple(x for y in args for x in pieces(y.t))
            if 'end' not in kwargs:
                p += (('s', '\n'),)
            if 'file' in kwargs and is_file(kwargs['file']):
                st.mon[self.name] = (a + p, b)
            else:
                st.mon[self.name] = (a, b + p)
        return None


def run(ctx, prog):
    ctx.rule('protocol', 'header, rows and closing bracket are written in this order, each to a freshly opened file that '
                         'is closed again')
    ctx.rule('exit', 'every exit of sqpdfo_ leaves the file either untouched or with its closing bracket, and closed')
    ctx.rule('row', 'at verbosity 1 to 3 the iteration printout writes exactly one row on every path')
    ctx.rule('columns', 'the number of columns of a row depends on nothing that changes between iterations')
    ctx.rule('same', 'the values of a row are the first values of the line printed to the console')
    m = Files()
    R = D.analyse('sqpdfo_', lambda: [m], std.entry(), maxpasses=1, track=False,
                  summarise=tuple(x for x in std.SUMMARISE if x != 'sqpdfo_iter_printout_'))
    e = prog.func('sqpdfo_')
    badsites = set(q for q, _ in m.bad)
    for (q, site, kind), (f, node) in m.events.items():
        ctx.ok('protocol', '%s in %s line %d' % (kind, q, node.lineno), '%s:%d' % (f.mod.path, node.lineno))
    for (q, text), (f, node) in m.bad.items():
        ctx.fail('protocol', '%s: %s' % (q, text), '%s:%d' % (f.mod.path, node.lineno), text)
    for s, v, node in R.out.ret:
        ph, fh, mode, txt = s.mon['files']
        c = 'return after %s' % ('nothing' if ph == 0 else 'bracket' if ph == 2 else 'header only')
        ctx.expect(ph in (0, 2) and fh is None, 'exit', c, '%s:%d' % (e.mod.path, node.lineno),
                   'the run ends here %s' % ('with the history file still open' if fh is not None else
                                             'although the history file has no closing bracket'))
    for s, x in R.out.exc:
        ph, fh, mode, txt = s.mon['files']
        ctx.expect(ph in (0, 2) and fh is None, 'exit', 'exception %s' % x, e.mod.path,
                   'the run can end by %s while the history file is incomplete' % x)
    f = prog.func('sqpdfo_iter_printout_')
    cols = {}
    opt = [p for p in f.params if p.startswith('options')]
    from sv.prog import AnalysisBroken
    if not opt:
        raise AnalysisBroken('sqpdfo_iter_printout_ has no options parameter')
    for verb in (1, 2, 3):
        r = Rows()

        def setup(I, st, fid, fn):
            for p in fn.params:
                if p == opt[0]:
                    v = D.open_record(I, st, p)
                    st.heap[v.rec]['verbose'] = vconst(verb)
                    st.env[(fid, p)] = v
        R = D.analyse('sqpdfo_iter_printout_', lambda: [r], setup, maxpasses=1, track=False)
        n = 0
        for s in [x[0] for x in R.out.ret] + R.out.normal:
            n += 1
            a, b = s.mon['rows']
            lit = ''.join(x[1] if x[0] == 's' else '\0' for x in a)
            va = [x[1] for x in a if x[0] == 'v']
            vb = [x[1] for x in b if x[0] == 'v']
            w = '%s:%d' % (f.mod.path, f.node.lineno)
            c = 'verbosity %d' % verb
            ctx.expect(lit.count('\n') == 1 and '\0' in lit and lit.rstrip(' ').endswith('\n'), 'row', c, w,
                       'the row written is %r' % lit.replace('\0', '<value>'))
            ctx.expect(va == vb[:len(va)], 'same', c, w, 'the row holds %s, the console line %s' % (
                [T.show(x) for x in va], [T.show(x) for x in vb]))
            key = frozenset((t, v) for t, v in s.facts.items())
            cols.setdefault(len(va), []).append(s.facts)
        if n == 0:
            raise AnalysisBroken('no path through sqpdfo_iter_printout_')
    # paths with different numbers of columns must differ in a condition on run constants
    ks = sorted(cols)
    okc = True
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            for fa in cols[a]:
                for fb in cols[b]:
                    d = [t for t, v in fa.items() if t in fb and fb[t] is not v and stable(t)]
                    if not d:
                        okc = False
    ctx.expect(okc and ks, 'columns', 'columns %s' % ks, '%s:%d' % (f.mod.path, f.node.lineno),
               'rows of %s columns can follow each other in one run' % ks)
    ctx.require('protocol', 3)
    ctx.require('exit', 2)
    ctx.require('row', 3)
    ctx.note('calls', R.I.stats)


def stable(t):
    """condition over plain parameters only (problem size, kind of problem), not over the status record"""
    for x in T.subterms(t):
        if x.op == 'attr' or x.op in ('tok', 'phi'):
            return False
    return True
