"""expected.py [PROP ...]: records which obligations the verifier proves on this tree"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(V, 'expected.json')
exp = json.load(open(fn)) if os.path.exists(fn) else {}
props = sys.argv[1:] or [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
for p in props:
  ev = json.load(open(os.path.join(V, 'evidence', p + '.json')))
  d = {k: v['status'] for k, v in ev['coverage']['contracts'].items()}
  old = exp.get(p, {})
  if ev['tier'] == 'quick':
    d = dict({k: v for k, v in old.items() if k not in d}, **d)
  exp[p] = d
json.dump(exp, open(fn, 'w'), indent=1, sort_keys=True)
