"""Standard entry states and event recognition for the engine-based checks."""
from . import terms as T
from .terms import leaf, const, app
from .interp import Val, Monitor, vconst, VNONE, NOLAB
from . import driver as D

# sqpdfo_(options, f, x0, lb, ub, me, mi, cons, li, ui)
ARGS = ['options', 'userf', 'x0', 'lb', 'ub', 'me', 'mi', 'userc', 'li', 'ui']
USER = {'userf', 'userc'}


def entry(opts=None, closed=False, none=(), consts=None):
    """setup function for sqpdfo_: every argument an unknown object, except those in `none`"""
    def setup(I, st, fid, f):
        for i, a in enumerate(ARGS):
            if i >= len(f.params):
                break
            p = f.params[i]
            if a in none:
                st.env[(fid, p)] = VNONE
                continue
            if consts and a in consts:
                st.env[(fid, p)] = vconst(consts[a])
                continue
            if a == 'options':
                if closed:
                    v = Val(leaf('useropts'), rec=('uopt',))
                    st.heap[('uopt',)] = {'*methods': ()}
                    for k, w in (opts or {}).items():
                        st.heap[('uopt',)][k] = w
                else:
                    v = D.open_record(I, st, 'useropts')
                    for k, w in (opts or {}).items():
                        st.heap[v.rec][k] = w
                st.env[(fid, p)] = v
                continue
            st.env[(fid, p)] = Val(leaf(a), oid=('arg', a), lab=frozenset([a]) if a in USER else NOLAB)
            # given arguments are not None
            if a in ('userf', 'userc', 'x0'):
                st.facts[T.compare('is', leaf(a), T.NONE)] = False
                st.facts[T.compare('eq', leaf(a), T.NONE)] = False
    return setup


def user_call(name, args):
    """'f', 'c' or None: which user function a dynamic call invokes"""
    if name != 'dyn' or not args:
        return None
    t = args[0].t
    if t.op == 'tok' and str(t.pay[1]).startswith('undef:'):
        return None        # a name that is never set: nothing is called
    if t is leaf('userf'):
        return 'f'
    if t is leaf('userc'):
        return 'c'
    if args[0].lab & USER:
        return 'f' if 'userf' in args[0].lab else 'c'
    for x in T.subterms(t):
        if x is leaf('userf'):
            return 'f'
        if x is leaf('userc'):
            return 'c'
    return '?'


def flag_code(I, name):
    """numeric value of a declared status code"""
    prog = I if not hasattr(I, 'prog') else I.prog
    return codes(prog).get(name)


_codes = {}


def codes(prog):
    """declared codes of sqpdfoValues: attribute -> number (class level or constructor)"""
    import ast
    r = _codes.get(prog)
    if r is not None:
        return r
    r = {}
    for m in prog.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef) and n.name == 'sqpdfoValues':
                for x in ast.walk(n):
                    if isinstance(x, ast.Assign) and len(x.targets) == 1:
                        t = x.targets[0]
                        nm = t.attr if isinstance(t, ast.Attribute) else (t.id if isinstance(t, ast.Name) else None)
                        try:
                            v = ast.literal_eval(x.value)
                        except Exception:
                            continue
                        if nm and isinstance(v, (int, float)):
                            r[nm] = v
    from .prog import AnalysisBroken
    if not r:
        raise AnalysisBroken('class sqpdfoValues with its codes not found')
    _codes[prog] = r
    return r

SUMMARISE = ('sqpdfo_solve_TR_bc_', 'sqpdfo_compute_multiplier_', 'sqpdfo_optimality_', 'sqpdfo_iter_printout_')
