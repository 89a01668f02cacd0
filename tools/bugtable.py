"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(top + '/DESIGN.md').read()
i = s.index('## 5. Planted bugs')
rows = []
for m in sorted(glob.glob(top + '/seeded/*/meta.json')):
    d = json.load(open(m))
    one = lambda t: ' '.join(t.split()).replace('|', '\\|')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], one(d['needs']), one(d.get('caught', d['property'] + ' quick'))))
s = s[:i] + '''## 5. Planted bugs

Every one compiles, passes the 1163 stable tests and has a demonstration (`seeded/<id>/`).

| id | property | needs | caught by |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(top + '/DESIGN.md', 'w').write(s)
