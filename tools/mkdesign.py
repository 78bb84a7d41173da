#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_body.md, the property texts below, the check modules and the planted bugs."""
import ast
import importlib.util
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = json.load(open(V + '/tools/design_words.json'))


def strings(path):
    """ctx.rule calls and assumptions of a check, from its source"""
    rules, ass = [], []
    for n in ast.walk(ast.parse(open(path).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule' and len(n.args) == 2:
            try:
                rules.append((n.args[0].value, ast.literal_eval(n.args[1])))
            except Exception:
                pass
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == 'assumptions':
            for e in getattr(n.value, 'elts', ()):
                try:
                    ass.append(ast.literal_eval(e))
                except Exception:
                    pass
    return rules, ass


def main():
    m = json.load(open(V + '/MANIFEST.json'))
    claimed = {c['property']: c for c in m['checks']}
    na = {c['property']: c['reason'] for c in m['not_applicable']}
    out = [open(V + '/tools/design_body.md').read(), '## Per property\n']
    for l in open(V + '/properties.jsonl'):
        p = json.loads(l)
        i = p['id']
        out.append('### %s %s\n' % (i, p['title']))
        if i not in claimed:
            out.append('Not applicable: %s\n' % na[i])
            continue
        out.append('Method: %s.  %s\n' % (claimed[i]['technique'], W['words'].get(i, '')))
        r, a = strings(V + '/checks/%s.py' % i.lower())
        out += ['* `%s`: %s' % x for x in r]
        if a:
            out.append('\nAssumed: ' + '; '.join(a) + '.')
        out.append('\nBounds: %s Cost: %s.\n' % (claimed[i]['level_note'].split(' Decided on')[0], W['cost'].get(i, 'about a minute')))
    out.append(open(V + '/tools/design_tail.md').read())
    out.append('## Planted bugs\n\nEach lies in `seeded/<id>/`; the check of its property catches it (`tools/run_seeded.py`) '
               'unless marked.\n')
    out.append('| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|')
    res = W['caught']
    for b in sorted(os.listdir(V + '/seeded')):
        x = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
        out.append('| %s | %s | %s | %s | %s |' % (b, x['property'], x['what_it_breaks'], x['needs'],
                                                   res.get(b, x['property'])))
    open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')


main()
