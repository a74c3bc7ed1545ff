"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d[:-1]), m['property'], m['needs'].replace('|', '/')))
p = here + '/DESIGN.md'
s = open(p).read()
i = s.index('| Plant | Caught by')
open(p, 'w').write(s[:i] + '| Plant | Caught by | Needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
