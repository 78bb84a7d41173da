#!/usr/bin/env python3
"""Builds one planted bug folder from a specification and confirms it.

spec file (python): ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Works in a scratch copy of /repo under /tmp; writes /verif/seeded/<ID>/ only when everything is confirmed.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()


def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def script(name, root):
    s = open('/opt/vp/' + name).read().replace('/repo', root)
    if 'import_check.py' in s:
        s = s.replace('/opt/vp/import_check.py', script('import_check.py', root))
    p = root + '.' + name
    open(p, 'w').write(s)
    return p


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    root = tempfile.mkdtemp(prefix='plant')
    shutil.rmtree(root)
    subprocess.check_call(['cp', '-a', '/repo', root])
    try:
        sh('git checkout -q -- .', root)
        d = root + '.demo'
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(ns['DEMO'])
        open(d + '/demo.sh', 'w').write(
            '#!/bin/bash\n# exit 0: the property held in this run\n'
            'here=$(cd "$(dirname "$0")" && pwd)\nroot=$PWD\nwork=$(mktemp -d)\ntrap \'rm -rf "$work"\' EXIT\n'
            'export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Nehalem PYTHONPATH="$root"\n'
            'cd "$work" && timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        r = sh('bash %s/demo.sh' % d, root)
        if r.returncode:
            print(r.stdout[-3000:])
            return 'demo fails on the unchanged tree'
        for f, old, new in ns['EDITS']:
            p = os.path.join(root, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return '%s: old text occurs %d times' % (f, s.count(old))
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = sh('git diff', root).stdout
        # removed lines must be lines of the original repository
        own = removed = 0
        for f in set(e[0] for e in ns['EDITS']):
            bl = sh('git blame -l -s HEAD -- ' + f, root).stdout.splitlines()
            fd = sh('git diff -U0 -- ' + f, root).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
                a, n = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
                for i in range(a, a + n):
                    removed += 1
                    if not bl[i - 1].lstrip('^').startswith(BASE[:30]):
                        own += 1
                        print('  not original: ', bl[i - 1][:120])
        if own or not removed:
            return 'changes %d lines that are not of the original repository (%d removed)' % (own, removed)
        r = sh('bash ' + script('build.sh', root), root)
        if r.returncode:
            return 'does not build: ' + r.stdout[-800:]
        out = root + '.json'
        sh('bash %s %s' % (script('test.sh', root), out), root)
        o = json.load(open(out))
        miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(o['passed'])
        if miss:
            return 'tests fail: %s' % sorted(miss)[:4]
        r = sh('bash %s/demo.sh' % d, root)
        if not r.returncode:
            return 'demo passes with the change'
        tail = r.stdout.strip().splitlines()[-1:]
        t = '/verif/seeded/' + ns['ID']
        os.makedirs(t, exist_ok=True)
        open(t + '/patch.diff', 'w', newline='').write(diff)
        shutil.copy(d + '/demo.py', t)
        shutil.copy(d + '/demo.sh', t)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(t + '/meta.json', 'w'), indent=1)
        return 'ok ' + str(tail)
    finally:
        subprocess.call('rm -rf %s %s.*' % (root, root), shell=True)


if __name__ == '__main__':
    for s in sys.argv[1:]:
        print(os.path.basename(s), main(s))
