"""claim.py ID <<< JSON {technique, note, words, cost}: registers a check in mkmanifest and design_words"""
import json, sys
pid = sys.argv[1]
d = json.load(sys.stdin)
p = '/verif/tools/mkmanifest.py'
s = open(p).read()
if "    '%s': (" % pid not in s:
    s = s.replace("    'P11': (", "    %r: (%r,\n            %r),\n    'P11': (" % (pid, d['technique'], d['note']), 1)
    open(p, 'w').write(s)
p = '/verif/tools/design_words.json'
w = json.load(open(p))
w['words'][pid] = d['words']
w['cost'][pid] = d['cost']
json.dump(w, open(p, 'w'), indent=1, sort_keys=True)
