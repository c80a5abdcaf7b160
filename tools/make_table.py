"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(x.strip() for x in open(os.path.join(here, 'tools', 'missed.txt'))) if os.path.exists(os.path.join(here, 'tools', 'missed.txt')) else set()
rows = ['| bug | needs | breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    name = f.split(os.sep)[-2]
    t = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s |' % (name, t(m['needs']), t(m['what_it_breaks']), 'none' if name in MISSED else m['property']))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read().split('<!-- table -->')[0]
open(p, 'w').write(s + '<!-- table -->\n' + '\n'.join(rows) + '\n')
