"""rewrites the fixed entries of known_findings.json from the fix: commits of /repo"""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(V, 'known_findings.json')
k = json.load(open(fn))
m = json.load(open(os.path.join(V, 'tools', 'fixed_map.json')))
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
k['fixed'] = []
for l in out.splitlines():
  h, s = l.split(' ', 1)
  if s.startswith('fix:'):
    if s not in m:
      print('unmapped:', s); continue
    k['fixed'].append('fixed: property=%s %s %s' % (m[s][0], h, m[s][1]))
json.dump(k, open(fn, 'w'), indent=1)
