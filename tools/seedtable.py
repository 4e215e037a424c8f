"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append((m['property'], os.path.basename(os.path.dirname(p)), m['needs'], m['what_it_breaks']))
tab = ['| caught by | planted bug | needs | breaks |', '|---|---|---|---|'] + ['| %s | %s | %s | %s |' % r for r in sorted(rows)]
d = open(here + '/DESIGN.md').read()
a, b = '<!-- seeds -->', '<!-- /seeds -->'
i, j = d.index(a) + len(a), d.index(b)
open(here + '/DESIGN.md', 'w').write(d[:i] + '\n' + '\n'.join(tab) + '\n' + d[j:])
print(len(rows), 'planted bugs')
