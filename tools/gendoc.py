"""Authoring aid: fill the generated tables of DESIGN.md (between the marker comments) from props.py, known_findings.txt and seeded/."""
import glob
import json
import os
import re
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import props

rows = ['| id | property | functions decided (patterns) | storage | tables | rules |', '|---|---|---|---|---|---|']
for p in props.P:
    c = p['contracts']
    rows.append('| %s | %s | %s | %s | %s | %s |' % (p['id'], p['title'], ', '.join('`%s`' % x.replace('ASAPy.', '') for x in c[:6]) + (' +%d' % (len(c) - 6) if len(c) > 6 else '') or '-',
                                                 'yes' if p['alias'] else '-', 'yes' if p['globals'] else '-', ', '.join(p['rules']) or '-'))
table = '\n'.join(rows)
rows = ['| planted change | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs']))
seeded = '\n'.join(rows)
path = os.path.join(ROOT, 'DESIGN.md')
s = open(path).read()
for name, text in (('properties', table), ('seeded', seeded)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda m: m.group(1) + text + '\n' + m.group(2), s, flags=re.S)
n = sum(l.startswith('fixed:') for l in open(os.path.join(ROOT, 'known_findings.txt')))
s = re.sub(r'known_findings.txt`: \d+ defects', 'known_findings.txt`: %d defects' % n, s)
open(path, 'w').write(s)
