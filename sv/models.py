"""Models of runtime/numpy/builtin callables the interpreter does not enter."""
from . import terms as T
from .terms import app, const, tok

PRINTS = {'fprintf_', 'disp_', 'print', 'sys.stdout.write', 'sys.stderr.write'}
COPIES = {'copy.copy', 'copy.deepcopy', 'numpy.copy', 'm:copy'}
NORETURN = object()
STRM = {'m:lower', 'm:upper', 'm:strip', 'm:lstrip', 'm:rstrip', 'm:replace', 'm:casefold', 'm:split', 'm:title',
        'm:capitalize', 'm:startswith', 'm:endswith'}


def is_print(name):
    return name in PRINTS


class Models(object):
    def __init__(self, opaque_modules=('sqpdfo.runtime',)):
        self.opaque_modules = set(opaque_modules)

    def call(self, I, e, name, args, kw, st, fid, func):
        from .interp import Val, VNONE, vconst
        short = name.split('.')[-1]
        if name in COPIES and len(args) == 1 and not kw:
            return self.copy(I, e, args[0], st, fid)
        if name in PRINTS:
            return VNONE
        if name == 'fopen_' or name == 'open':
            return Val(tok(I.site(e, fid), 'file'))
        if name == 'fclose_':
            return VNONE
        if name in ('sys.exit', 'exit', 'quit', 'os._exit', 'os.abort'):
            if I.pending_exc is not None:
                I.pending_exc.append((st.copy(), 'SystemExit'))
            return NORETURN
        if name in ('numpy.array', 'numpy.asarray') and len(args) >= 1:
            a = args[0]
            if a.t is T.EMPTY:
                return Val(T.EMPTY, oid=(fid, e._site))
            return None
        if name in ('isempty_',) and len(args) == 1:
            a = args[0]
            if a.t is T.EMPTY:
                return vconst(True)
            if a.t.op == 'const' and a.t is not T.NONE:
                return vconst(False)
            if a.elts:
                return vconst(False)
            if a.t.op == 'call:copy.copy':
                return Val(app('call:isempty_', a.t.args[0]))
            return None
        if name in ('size_', 'length_', 'numel_', 'len') and args and args[0].t is T.EMPTY:
            if name != 'size_' or len(args) > 1:
                return vconst(0)
        if name == 'len' and args and args[0].elts is not None and args[0].t.op in ('tuple', 'list'):
            return vconst(len(args[0].elts))
        if name == 'isfield_' and len(args) == 2 or name == 'hasattr' and len(args) == 2:
            a, k = args
            if a.rec is not None and k.t.op == 'const':
                nm = T.const_value(k.t)
                d = st.heap.get(a.rec, {})
                v = d.get(nm)
                if v is not None and not v.undef:
                    return vconst(True)
                if d.get('*open') is not None:
                    return Val(T.app_p('isfield', nm, d['*open'].t))
                if v is None:
                    return vconst(False)
                return Val(T.app_p('isfield?', nm, tok(I.site(e, fid), 'rec')))
        if name == 'concatenate_' and args and args[0].elts is not None:
            parts = [x for x in args[0].elts if x.t is not T.EMPTY]
            oob = st.env.get((fid, '$oob'))
            if oob is not None and oob.t.op == 'oob' and len(args[0].elts) == 2:
                return self.oob_store(I, e, oob, args[0].elts[0], args[0].elts[1], st, fid)
            if not parts:
                return Val(T.EMPTY, oid=(fid, e._site))
            ax = kw.get('axis') or (args[1] if len(args) > 1 else None)
            t = app('concat', const(0) if ax is None else ax.t, *[p.t for p in parts])
            v = Val(t, oid=(fid, e._site))
            return I.op(st, e, v, parts, fid)
        if name == 'numpy.append' and len(args) == 2:
            oob = st.env.get((fid, '$oob'))
            if oob is not None and oob.t.op == 'oob':
                return self.oob_store(I, e, oob, args[0], args[1], st, fid)
            return None
        if name in ('float', 'int', 'bool') and len(args) == 1 and args[0].t.op == 'const':
            v = T.const_value(args[0].t)
            try:
                return vconst({'float': float, 'int': int, 'bool': bool}[name](v))
            except Exception:
                return None
        if name == 'm:count' and len(args) == 2 and args[0].elts is not None and args[1].t.op == 'const' and \
                all(x.t.op == 'const' for x in args[0].elts):
            return vconst(sum(1 for x in args[0].elts if T.const_value(x.t) == T.const_value(args[1].t)))
        if name in STRM and args and args[0].t.op == 'const' and all(a.t.op == 'const' for a in args):
            xs = [T.const_value(a.t) for a in args]
            if isinstance(xs[0], str):
                try:
                    r = getattr(xs[0], name[2:])(*xs[1:])
                    if isinstance(r, (str, bool, int)):
                        return vconst(r)
                    if isinstance(r, list):
                        es = tuple(vconst(x) for x in r)
                        return Val(app('list', *[x.t for x in es]), elts=es)
                except Exception:
                    pass
        if name == 'm:join' and len(args) == 2 and args[0].t.op == 'const' and args[1].t.op == 'list' and \
                all(x.op == 'const' for x in args[1].t.args):
            try:
                return vconst(T.const_value(args[0].t).join(T.const_value(x) for x in args[1].t.args))
            except Exception:
                pass
        if name == 'm:get' and len(args) >= 2 and args[0].t.op == 'dict' and args[1].t.op == 'const':
            r = I.index_term(args[0].t, args[1].t)
            if r.op != 'index':
                return Val(r)
            return args[2] if len(args) > 2 else VNONE
        if name in ('getattr', 'setattr') and len(args) >= 2 and args[1].t.op == 'const' and args[0].rec is not None:
            k = T.const_value(args[1].t)
            if isinstance(k, str):
                if name == 'setattr' and len(args) == 3:
                    I.store_attr(e, args[0], k, args[2], st, fid)
                    return VNONE
                if len(args) == 2 or k in st.heap.get(args[0].rec, {}):
                    return I.getattr(e, args[0], k, st, fid, None)
        if name in ('str',) and len(args) == 1:
            return Val(app('call:str', args[0].t))
        if name == 'isinstance' and len(args) == 2:
            return Val(app('call:isinstance', args[0].t, args[1].t))
        return None

    def oob_store(self, I, e, oob, arr, elem, st, fid):
        from .interp import Val
        it = oob.t.args[1]
        if elem.elts is not None and len(elem.elts) == 1:
            elem = elem.elts[0]
        v = Val(app('store', arr.t, it, elem.t), oid=(fid, e._site), lab=arr.lab, fac=arr.fac)
        for m in I.monitors:
            v = m.on_store_sub(I, st, e, arr, Val(it), elem, v, fid)
        return v

    def copy(self, I, e, a, st, fid):
        from .interp import Val, NOLAB
        if a.rec is not None:
            d = st.heap.get(a.rec, {})
            if d.get('*isclass'):
                return a
            nr = ('copy',) + I.site(e, fid)
            nd = dict(d)
            st.heap[nr] = nd
            return a.but(rec=nr, oid=None, lab=NOLAB)
        if a.fn is not None and a.fn[0] in ('func', 'class', 'builtin', 'ext'):
            return a
        if a.t.op == 'const':
            return a.but(lab=NOLAB)
        return a.but(oid=(fid, e._site), lab=NOLAB, undef=False)
