"""mkseed.py FILE: (re)creates seeded/<id>/ from the definitions in tools/seeds_*.py
that are not there yet (needs a clean /repo)."""
import glob, json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('SEED_REPO', '/repo')


def main(which):
  seeds = []
  for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds_*.py'))):
    seeds += runpy.run_path(f)['SEEDS']
  for s in seeds:
    d = os.path.join(V, 'seeded', s['id'])
    if which and s['id'] not in which:
      continue
    if not which and os.path.exists(os.path.join(d, 'patch.diff')):
      continue
    os.makedirs(d, exist_ok=True)
    for f, old, new in s['edits']:
      p = os.path.join(R, f)
      t = open(p).read()
      assert t.count(old) == 1, (s['id'], f, t.count(old), old)
      open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write('import numpy as np\nimport probayes as pb\n' + s['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('made', s['id'])


main(sys.argv[1:])
