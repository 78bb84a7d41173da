"""Obligations, findings, evidence and the command-line protocol of the checks."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ctx(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.rules = {}          # rule -> text
        self.ob = {}             # rule -> list of (construct, where)
        self.bad = []            # (rule, construct, where, msg)
        self.notes = {}
        self.assumptions = []
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules[name] = text
        self.ob.setdefault(name, [])

    def ok(self, rule, construct, where=''):
        self.ob[rule].append((construct, where))

    def fail(self, rule, construct, where, msg):
        self.ob[rule].append((construct, where))
        k = (rule, construct)
        if k not in [(r, c) for r, c, _, _ in self.bad]:
            self.bad.append((rule, construct, where, msg))

    def expect(self, cond, rule, construct, where, msg):
        if cond:
            self.ok(rule, construct, where)
        else:
            self.fail(rule, construct, where, msg)

    def require(self, rule, minimum):
        """fewer instances than confirmed by hand: the rule would pass vacuously"""
        n = len(set(c for c, _ in self.ob.get(rule, [])))
        if n < minimum:
            from .prog import AnalysisBroken
            raise AnalysisBroken('rule %s matched %d instance(s), at least %d expected' % (rule, n, minimum))

    def note(self, k, v):
        self.notes[k] = v


def known():
    """lines 'finding: property=P17 rule=R construct=C | text' (fixed: lines suppress nothing)"""
    r = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding:'):
                    head, _, text = l[len('finding:'):].partition('|')
                    d = {}
                    for w in head.split():
                        k, _, v = w.partition('=')
                        d[k] = v
                    r.append((d['property'], d['rule'], d['construct'], text.strip()))
    return r


def finish(ctx, prog, level='other'):
    kn = {(p, r, c): t for p, r, c, t in known()}
    viol, old = [], []
    for rule, c, where, msg in ctx.bad:
        key = (ctx.pid, rule, c.replace(' ', '_'))
        (old if key in kn else viol).append((rule, c, where, msg))
    ev = os.environ.get('SQPDFO_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    nob = sum(len(v) for v in ctx.ob.values())
    per = {}
    for r, v in ctx.ob.items():
        s = sorted(set(v))
        per[r] = {'rule': ctx.rules[r], 'instances': len(v), 'distinct': len(s),
                  'violating': len([b for b in ctx.bad if b[0] == r]),
                  'sites': ['%s %s' % (w, c) for c, w in s[:40]]}
    rep = os.path.join(ev, 'replay', '%s.txt' % ctx.pid)
    with open(rep, 'w') as f:
        f.write('property %s, source digest %s\n' % (ctx.pid, prog.digest if prog else '?'))
        for rule, c, where, msg in viol:
            f.write('%s: %s: [%s] %s: %s\n' % (where, ctx.pid, rule, c, msg))
            f.write('    rule: %s\n' % ctx.rules[rule])
        f.write('\nto repeat: cd /verif && python3 check.py %s\n' % ctx.pid)
    doc = {'property': ctx.pid, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
           'coverage': {'explanation': 'Static decision from the source of the package (digest %s). Obligations are '
                        'rule instances found in the current source; each was decided on this run.'
                        % (prog.digest[:16] if prog else '?'),
                        'obligations': nob, 'discharged': nob - len(ctx.bad),
                        'checker_cmd': 'cd /verif && python3 check.py %s' % ctx.pid,
                        'modules': len(prog.mods) if prog else 0,
                        'functions': len(prog.funcs) if prog else 0,
                        'rules': per},
           'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(viol)}
    doc['coverage'].update(ctx.notes)
    tmp = os.path.join(ev, '%s.json.tmp' % ctx.pid)
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(ev, '%s.json' % ctx.pid))
    for rule, c, where, msg in old:
        print('KNOWN-FINDING: property=%s %s [%s] %s: %s' % (ctx.pid, where, rule, c, msg))
    for rule, c, where, msg in viol:
        print('%s: [%s] %s: %s' % (where, rule, c, msg))
    print('%s: %d obligations, %d violation(s), %d known finding(s), %.1f s' % (
        ctx.pid, nob, len(viol), len(old), time.time() - ctx.t0))
    for r, d in sorted(per.items()):
        print('  %-28s %4d instances' % (r, d['instances']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rep))
        return 1
    return 0
