"""Runs the option routine of the solver in abstract option classes."""
from sv import driver as D, terms as T, std
from sv.terms import leaf, const
from sv.interp import Val, vconst

# option -> accepted strings; each must select the declared code of the same name
STRINGS = {
    'algo_descent': ('powell', 'wolfe'),
    'hess_approx': ('bfgs', 'model'),
    'whichmodel': ('subbasis', 'frobnorm', 'l2norm', 'regression'),
    'final_degree': ('linear', 'diagonal', 'quadratic'),
}
# option -> outcome per sign class: 'reject', 'keep', 'replace'
NUMERIC = {
    'dxmin': ('reject', 'reject', 'keep'),
    'inf': ('reject', 'reject', 'keep'),
    'miter': ('reject', 'reject', 'keep'),
    'msimul': ('reject', 'reject', 'keep'),
    'tol_grad': ('reject', 'replace', 'keep'),
    'tol_feas': ('reject', 'replace', 'keep'),
    'tol_bnds': ('reject', 'replace', 'keep'),
}
OPEN_CLASS = ('neg', 'zero', 'pos')


def run_options(given):
    """returns list of (status term, options attrs dict, node) of all exits of
    sqpdfo_options_ for a record holding exactly the given attributes"""
    def setup(I, st, fid, f):
        st.heap[('uinfo',)] = {'*methods': ()}
        st.env[(fid, f.params[0])] = Val(leaf('info'), rec=('uinfo',))
        st.heap[('uopt',)] = {'*methods': ()}
        for k, v in given.items():
            if isinstance(v, tuple):
                t = leaf('opt:' + k)
                st.heap[('uopt',)][k] = Val(t)
                for fact, val in v[1](t):
                    st.facts[fact] = val
            else:
                st.heap[('uopt',)][k] = vconst(v)
        st.env[(fid, f.params[1])] = Val(leaf('useropts'), rec=('uopt',))
    R = D.analyse('sqpdfo_options_', lambda: [], setup, maxpasses=1, track=False)
    out = []
    for s, v, n in R.out.ret:
        es = v.elts
        if es is None or len(es) < 2 or es[0].rec is None or es[1].rec is None:
            continue
        fl = s.heap[es[0].rec].get('flag')
        out.append((fl.t if fl is not None else None,
                    {k: w for k, w in s.heap[es[1].rec].items() if not k.startswith('*')}, n, s))
    return R, out


def neg(t):
    return [(T.compare('lt', t, const(0)), True)]


def pos(t):
    return [(T.compare('lt', const(0), t), True)]


def between(lo, hi):
    def f(t):
        return [(T.compare('le', const(lo), t), True), (T.compare('le', t, const(hi)), True)]
    return f


def above(x):
    def f(t):
        return [(T.compare('lt', const(x), t), True)]
    return f


CLASSES = {'neg': ('cls', neg), 'zero': 0, 'pos': ('cls', pos)}
