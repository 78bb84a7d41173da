"""Runs the interpreter on the package's entry points in chosen configurations."""
import sys
import time
from . import terms as T
from .terms import app, const, tok, leaf
from .prog import Program, AnalysisBroken
from .purity import Purity
from .models import Models
from .interp import Interp, Val, State, vconst, VNONE, NOLAB

sys.setrecursionlimit(20000)


class Run(object):
    pass


_progs = {}


def program():
    p = _progs.get('p')
    if p is None:
        p = _progs['p'] = Program()
        p.purity = Purity(p)
    return p


def analyse(fname, monitors_factory, setup, track=True, maxpasses=4, pre_tracked=(), exclude=None, inline=None,
            verbose=False, want=None, summarise=(), boolloops=False):
    """interpret function fname from the state built by setup(I, st, fid, func);
    repeat with more tracked facts until the set is stable"""
    prog = program()
    f = prog.func(fname)
    tracked = set(pre_tracked)
    noise = set()
    sums = {}
    for ps in range(maxpasses):
        mons = monitors_factory()
        I = Interp(prog, mons, inline or prog.purity.inline, Models(), tracked=set(tracked))
        I.noise_terms |= noise
        I.summarise = set(summarise)
        I.boolloops = boolloops
        I.summaries = sums
        st = State()
        fid = ('R',)
        I.funcstack = [f]
        I.fidfunc[fid] = f
        I.funcs_seen.add(f.qual)
        setup(I, st, fid, f)
        for m in mons:
            m.start(I, st)
        for p in f.params:
            if (fid, p) not in st.env:
                st.env[(fid, p)] = Val(leaf('arg:' + p), oid=('arg', p), lab=NOLAB)
        if f.vararg:
            st.env[(fid, f.vararg)] = Val(app('tuple'), elts=())
        if f.kwarg:
            st.env[(fid, f.kwarg)] = Val(app('dict'))
        t0 = time.time()
        o = I.block(f.body, [st], fid, f)
        I.wall = time.time() - t0
        new = set()
        if track:
            for t, sites in I.cond_sites.items():
                if I.is_noise(t) or t in tracked or (exclude and exclude(t)):
                    continue
                per = {}
                for fd, x in sites:
                    per.setdefault(fd, set()).add(x)
                for fd, xs in per.items():
                    if len(xs) >= 2 and (want is None or want(I, t, fd)):
                        new.add(t)
                        break
        if verbose:
            print('pass', ps, 'wall %.1f' % I.wall, I.stats, 'tracked', len(new), file=sys.stderr)
        noise |= I.noise_terms
        if new <= tracked or not track:
            break
        tracked |= new
    R = Run()
    R.I = I
    R.out = o
    R.mons = mons
    R.tracked = tracked
    R.func = f
    R.fid = fid
    return R


def open_record(I, st, name):
    rec = ('open', name)
    base = Val(leaf(name))
    st.heap[rec] = {'*open': base, '*methods': ()}
    return Val(leaf(name), rec=rec)
