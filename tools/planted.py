# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import glob, json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for f in sorted(glob.glob(d + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks']))
t = open(d + '/DESIGN.md').read()
a, b = t.index('## Planted bugs'), t.index('## Findings')
head = t[a:b].split('| change |')[0]
t = t[:a] + head + '| change | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n\n' + t[b:]
open(d + '/DESIGN.md', 'w').write(t)
