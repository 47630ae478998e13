"""writes DESIGN.md: design_head.md + table of planted bugs (from seeded/*/meta.json)"""
import glob
import json
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
s = open(os.path.join(V, 'tools', 'design_head.md')).read()
kf = [json.loads(l) for l in open(os.path.join(V, 'known_findings.jsonl')) if l.strip()]
t = '| property | commit | what failed |\n|---|---|---|\n' + ''.join(
    '| %s | %s | %s |\n' % (d['property'], d['commit'][:7], d['what'].split(' ', 3)[3] if d['what'].startswith('fixed:') else d['what']) for d in kf)
s = s.replace('@DEFECTS@', t)
import sys
sys.path.insert(0, os.path.join(V, 'tools'))
import refactor, refactors  # noqa
S = refactor.SETS
s = s.replace('@NREF@', '%d edit sets with %d edits' % (len(S), sum(len(e) for _, e in S.values())))
rows = []
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    rows.append((m['property'], os.path.basename(d), m['needs'], m['what_it_breaks']))
s = s.replace('@PLANTS@', '| property | change | needs | breaks | caught by |\n|---|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s | %s |\n' % (p, n, a, b, p) for p, n, a, b in sorted(rows)))
s = s.replace('@MORE@\n', '')
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
