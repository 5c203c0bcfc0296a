"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand)."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    cut = lambda s: re.sub(r'\s+', ' ', str(s)).replace('|', '/')[:150]
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], cut(m['needs']), m['property']))
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- table -->', '<!-- end of table -->'
s = s.replace('@@TABLE@@', a + '\n' + b)
i, j = s.index(a), s.index(b)
s = s[:i] + a + '\n' + '\n'.join(rows) + '\n' + s[j:]
open(p, 'w').write(s)
print(len(rows) - 2, 'planted bugs')
