"""P18: the trust-region radius grows only after successful steps and stays positive."""
from sv import driver as D, terms as T
from . import drive

RADIUS_OF = {'bcdfo_repair_Y_': 3, 'bcdfo_augment_Y_': 4, 'bcdfo_replace_in_Y_': 9}     # argument that is the radius
SOLVE = 'sqpdfo_solve_TR_bc_'
SOLVE_RADIUS = 4
EXTRA = ('sqpdfo_swap_in_Y_', 'sqpdfo_find_smallf_')
MIN = ('call:min_', 'call:min', 'call:minimum', 'call:numpy.minimum')
MAX = ('call:max_', 'call:max', 'call:maximum', 'call:numpy.maximum')


def num(t):
    return T._num(t) if t.op == 'const' else None


def parts(I, t):
    return [p for p in I.phi_parts.get(t, ()) if p is not t]


class Radius(drive.InMain):
    """mon state: (enlarged at (site) or None, accepted in this iteration, before the step of this iteration)"""
    name = 'radius'

    def setup(self, prog):
        super().setup(prog)
        self.olds = set()
        self.rads = set()
        self.nodes = {}

    def start(self, I, st):
        st.mon[self.name] = (None, False, True)

    def mkey(self, I, v):
        return v

    def cur(self, st, role):
        v = self.var(st, role)
        return v.t if v is not None else None

    # -- not larger than the radius or the step ---------------------------------------
    def below(self, I, t, seen=frozenset()):
        """t is at most a radius of the run, or at most a fraction below one of the length of a step"""
        if t in seen or t in self.olds:
            return True
        s = seen | {t}
        if t.op in MIN:
            return any(self.below(I, a, s) or self.length(a) for a in T_args(t))
        if t.op in MAX:
            return all(self.below(I, a, s) for a in T_args(t))
        if t.op == 'mul':
            return any(self.fraction(I, t.args[k]) and self.limited(I, t.args[1 - k], s) for k in (0, 1))
        if t.op == 'div':
            c = num(t.args[1])
            return (c is not None and c >= 1 or t.args[1].op.startswith('call:sqrt')) and self.below(I, t.args[0], s)
        if t.op == 'phi':
            ps = parts(I, t)
            return bool(ps) and all(self.below(I, p, s) or self.length(p, I) for p in ps)
        return False

    def limited(self, I, t, s):
        """t is at most a radius or the length of a step"""
        if t.op in MAX:
            return all(self.limited(I, a, s) for a in T_args(t))
        if t.op in MIN:
            return any(self.limited(I, a, s) for a in T_args(t))
        return self.length(t) or self.below(I, t, s)

    def length(self, t, I=None):
        return t.op.startswith('call:norm') or t.op.startswith('call:numpy.linalg.norm') or \
            t.op == 'phi' and I is None and any(p.op.startswith('call:norm') for p in self.I.phi_parts.get(t, ()))

    def fraction(self, I, t, seen=frozenset()):
        """t is at most a constant below one"""
        if t in seen:
            return True
        c = num(t)
        if c is not None:
            return c < 1
        s = seen | {t}
        if t.op in MIN:
            return any(self.fraction(I, a, s) for a in T_args(t))
        if t.op in MAX:
            return all(self.fraction(I, a, s) for a in T_args(t))
        if t.op == 'phi':
            ps = parts(I, t)
            return bool(ps) and all(self.fraction(I, p, s) for p in ps)
        return False

    # -- derived from positive values -------------------------------------------------
    def positive(self, I, t, seen=None):
        seen = {} if seen is None else seen
        if t in seen:
            return seen[t]
        seen[t] = True
        seen[t] = r = self._positive(I, t, seen)
        return r

    def _positive(self, I, t, seen):
        if t in self.olds:
            return True
        c = num(t)
        if c is not None:
            return c > 0
        if self.length(t):
            return True
        if t.op in MIN:
            return all(self.positive(I, a, seen) for a in T_args(t))
        if t.op in MAX:
            return any(self.positive(I, a, seen) for a in T_args(t))
        if t.op in ('mul', 'div', 'add'):
            return all(self.positive(I, a, seen) for a in t.args)
        if t.op.startswith('call:sqrt') or t.op in ('call:abs', 'call:copy'):
            return True
        if t.op == 'phi':
            ps = parts(I, t)
            return bool(ps) and all(self.positive(I, p, seen) for p in ps)
        if t.op == 'index' and t.args[0].op.startswith('call:'):
            return t.args[0].op in self.pos_calls
        return False

    pos_calls = ('call:bcdfo_projgrad_',)

    def improved(self, I, t):
        """t is a radius in which the interpolation set was improved"""
        return t in self.rads or t.op == 'phi' and any(p in self.rads for p in parts(I, t))

    def on_call(self, I, st, node, name, func, args, kwargs, fid):
        if self.mainfid is None or self.main not in I.funcstack:
            return None
        if name in RADIUS_OF:
            v = drive.argval(func, name, RADIUS_OF[name], args, kwargs)
            if v is not None and st.mon[self.name][2]:
                self.rads.add(v.t)
        elif name == SOLVE:
            self.event(I, node, 'used')
            v = drive.argval(func, name, SOLVE_RADIUS, args, kwargs)
            d = self.cur(st, 'delta')
            if v is None or d is None or v.t is not d:
                self.fail(I, node, 'the step is computed with another radius than the trust-region radius', 'used')
            big, acc, pre = st.mon[self.name]
            if big is not None and not self.improved(I, d):
                self.fail(I, self.nodes[big], 'the radius may be enlarged before the step, to a value in which the interpolation '
                          'set was not improved', 'grow')
            st.mon[self.name] = (None, False, False)
        return None

    def on_bind(self, I, st, node, name, old, new, fid):
        if I.funcstack[-1] is not self.main:
            return new
        self.I = I
        if name == self.names['delta']:
            if old is None:
                self.olds.add(new.t)
                return new
            self.olds.add(old.t)
            if new.t is old.t:
                return new
            self.event(I, node, 'update')
            if not self.positive(I, new.t):
                self.fail(I, node, 'the radius is set to a value not derived from a positive radius, step length or threshold',
                          'update')
            big, acc, pre = st.mon[self.name]
            if not self.below(I, new.t):
                self.nodes[node._site] = node
                self.event(I, node, 'grow')
                st.mon[self.name] = (node._site, acc, pre)
        elif name == self.names['i_xbest'] and old is not None:
            m = self.cur(st, 'm')
            big, acc, pre = st.mon[self.name]
            if m is not None and new.t is m and not pre:
                st.mon[self.name] = (big, True, pre)
        return new

    def on_backedge(self, I, st, node, fid):
        if node is self.loop:
            big, acc, pre = st.mon[self.name]
            if big is not None and not acc:
                self.fail(I, self.nodes[big], 'the radius may be enlarged in an iteration whose trial point is not accepted', 'grow')
            st.mon[self.name] = (None, False, True)
    

def T_args(t):
    out = []
    for a in t.args:
        out += list(a.args) if a.op in ('tuple', 'list') else [a]
    return out


def run(ctx, prog):
    ctx.rule('grow', 'where the new value of the radius is not at most the old radius or a fraction below one of the step length, '
                     'the trial point becomes the iterate in the same iteration, or the value is the radius in which the '
                     'interpolation set was improved before the step')
    ctx.rule('update', 'each new value of the radius is derived from positive constants, radii, step lengths and thresholds by '
                       'operations that keep it positive')
    ctx.rule('used', 'the step is computed with the current radius')
    m = Radius()
    m.setup(prog)
    drive.run([m], summarise=drive.summarisable(prog, ()) + EXTRA)
    m.report(ctx)
    ctx.require('grow', 2)
    ctx.require('update', 3)
    ctx.require('used', 1)
