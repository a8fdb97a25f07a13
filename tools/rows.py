"""rewrites the table of seeded changes at the end of DESIGN.md"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(V, 'DESIGN.md')
s = open(fn).read()
h = '| id | property | needs | result |\n|---|---|---|---|\n'
s = s[:s.index(h) + len(h)]
for d in sorted(glob.glob(os.path.join(V, 'seeded', 's*'))):
  m = json.load(open(os.path.join(d, 'meta.json')))
  s += '| %s | %s | %s | caught by %s |\n' % (os.path.basename(d), m['property'], m['needs'], m['property'])
open(fn, 'w').write(s)
