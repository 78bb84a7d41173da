#!/usr/bin/env python3
"""run_seeded.py [-a] [ID...]: which checks catch which planted bug (in scratch copies, in parallel).
-a: every check on every bug, otherwise the check of the bug's property only."""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bug, props):
    d = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.check_call('cp -a /repo %s/r && cd %s/r && git checkout -q -- . && git apply %s/seeded/%s/patch.diff'
                              % (d, d, V, bug), shell=True)
        res = {}
        for p in props:
            r = subprocess.run(['timeout', '900', 'python3', 'check.py', p], cwd=V, text=True, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT,
                               env=dict(os.environ, SQPDFO_REPO=d + '/r', SQPDFO_EVIDENCE=d + '/ev'))
            hit = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
            first = [l for l in r.stdout.splitlines() if ': [' in l][:1]
            res[p] = ('CAUGHT' if hit else ('quiet' if r.returncode == 0 else 'BROKEN %d' % r.returncode),
                      first[0][:230] if first else r.stdout[-200:] if r.returncode not in (0, 1) else '')
        return bug, res
    finally:
        subprocess.call(['rm', '-rf', d])


def main():
    a = sys.argv[1:]
    allp = '-a' in a
    a = [x for x in a if x != '-a']
    claimed = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    bugs = a or sorted(os.listdir(V + '/seeded'))
    with cf.ThreadPoolExecutor(7) as ex:
        fs = []
        for b in bugs:
            m = json.load(open('%s/seeded/%s/meta.json' % (V, b)))
            ps = claimed if allp else [m['property']]
            if allp:
                for p in ps:
                    fs.append((m['property'], ex.submit(one, b, [p])))
            else:
                fs.append((m['property'], ex.submit(one, b, ps)))
        for prop, f in fs:
            b, res = f.result()
            for p, (k, t) in res.items():
                if allp and k == 'quiet' and p != prop:
                    continue
                print('%-28s %s %-8s %s' % (b, p + ('*' if p == prop else ' '), k, t), flush=True)


if __name__ == '__main__':
    main()
