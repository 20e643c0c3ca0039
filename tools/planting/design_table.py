"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..')
rows = {}
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m['needs']))
p = os.path.join(root, 'DESIGN.md')
t = open(p).read()
mark = '<!-- table -->'
t = t[:t.index(mark) + len(mark)] + '\n\n| change | property, caught by | needs |\n|---|---|---|\n'
for k in sorted(rows):
    for n, w in rows[k]:
        t += '| %s | %s | %s |\n' % (n, k, w.replace('\n', ' ').replace('|', '/'))
open(p, 'w').write(t)
