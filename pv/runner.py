"""Decides one property: runs every obligation of it, replays counter-models,
writes evidence and replay files, prints the verdict."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFG = {
    'quick': dict(budget=70., paths=800, hard=150., tests=1.0, total=520.),
    'thorough': dict(budget=240., paths=3000, hard=500., tests=10.0, total=1e9),
}
SIZES_THOROUGH = ((2, 3, 2, 1, 3), (1, 1, 1, 1, 1), (3, 2, 4, 2, 2))


def jsonable(x):
  if isinstance(x, dict):
    return {str(k): jsonable(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [jsonable(v) for v in x]
  if isinstance(x, np.ndarray):
    return {'array': x.tolist(), 'dtype': str(x.dtype)}
  if isinstance(x, np.generic):
    return x.item()
  if isinstance(x, (int, float, str, bool)) or x is None:
    return x
  return repr(x)


def unjson(x):
  if isinstance(x, dict):
    if set(x) == {'array', 'dtype'}:
      return np.array(x['array'], dtype=x['dtype'])
    return {k: unjson(v) for k, v in x.items()}
  if isinstance(x, list):
    return [unjson(v) for v in x]
  return x


def rng_for(ob, seed, k=0):
  h = hashlib.sha256(('%s/%s/%s/%s' % (ob.prop, ob.name, seed, k)).encode()).digest()
  return np.random.default_rng(int.from_bytes(h[:8], 'little'))


def _replay(E, ob, cexs, out, origin, seed):
  """concrete runs of counter-models; True if one fails"""
  for i, v in enumerate(cexs or []):
    st, info, used = E.run_concrete(ob, v, rng_for(ob, seed, ('r', i)))
    out['replays'] += 1
    if st in ('failed', 'raised'):
      out['violation'] = dict(origin=origin, status=st, info=info, inputs=jsonable(v))
      return True
  return False


def only_budget(rs):
  """everything explored was proved; only the exploration is incomplete"""
  return all(r.status in ('done', 'infeasible') and all(s == 'proved' for _, s, _, _ in r.checks)
             for r in rs)


def sym_task(ob, tier, seed):
  from . import engine as E, solver as S, loader
  cfg = CFG[tier]
  out = dict(kind='sym', name=ob.name, goals=0, proved=0, refuted=0, unknown=0, paths=0,
             status='', detail=[], replays=0, violation=None, bounded_goals=0, layerB=[],
             functions=[], refutations=[], samples=[], infeasible=0)
  t0 = time.time()

  def run(layer, sizes=None):
    if sizes:
      ob.sizes = sizes
    rs, complete = E.run_symbolic(ob, layer, cfg['paths'], cfg['budget'] * ob.weight)
    good = complete
    reached = set()
    for r in rs:
      for n, s, cex, d in r.checks:
        if s == 'proved':
          reached.add(n)
      if r.status not in ('done', 'infeasible'):
        good = False
      if any(s != 'proved' for _, s, _, _ in r.checks):
        good = False
    ndone = sum(r.status == 'done' for r in rs)
    if not ndone or not sum(len(r.checks) for r in rs):
      good = False
    return rs, good, complete, ndone

  rs, good, complete, ndone = run('A')
  out['paths'] = len(rs)
  for r in rs:
    out['infeasible'] += r.status == 'infeasible'
    for n, s, cex, d in r.checks:
      out['goals'] += 1
      out[{'proved': 'proved', 'refuted': 'refuted'}.get(s, 'unknown')] += 1
      if s == 'proved' and len(out['samples']) < 3:
        out['samples'].append('%s/%s [%s]' % (ob.name, n, d))
  out['status'] = 'proved' if good else 'open'
  if not good:
    if not complete:
      out['detail'].append('exploration budget reached after %d paths' % len(rs))
    if not ndone:
      out['detail'].append('no path of the contract ran to its end')
    for r in rs:
      if r.status not in ('done', 'infeasible'):
        d = '%s: %s' % (r.status, r.detail)
        if d not in out['detail'] and len(out['detail']) < 8:
          out['detail'].append(d)
        if _replay(E, ob, r.cex, out, 'A/' + r.status, seed):
          break
      bad = False
      for n, s, cex, d in r.checks:
        if s != 'proved':
          if len(out['detail']) < 8:
            out['detail'].append('%s %s: %s' % (n, s, d[:160]))
          if s == 'refuted' and _replay(E, ob, cex, out, 'A/' + n, seed):
            bad = True
            break
      if bad:
        break
    if out['violation'] is None and not any(r.status == 'lost' for r in rs) and \
       not only_budget(rs):
      # finite instances: sums and quantifiers are expanded, models are exact
      sets = (ob.sizes,) if tier == 'quick' else (ob.sizes,) + SIZES_THOROUGH[1:]
      allgood = True
      for sizes in sets:
        rsB, goodB, completeB, ndoneB = run('B', sizes)
        out['bounded_goals'] += sum(len(r.checks) for r in rsB)
        out['layerB'].append(dict(sizes=list(sizes), paths=len(rsB), complete=completeB, proved=goodB))
        allgood = allgood and goodB
        for r in rsB:
          if out['violation']:
            break
          if r.status not in ('done', 'infeasible'):
            d = 'B ' + '%s: %s' % (r.status, r.detail)
            if d not in out['detail'] and len(out['detail']) < 12:
              out['detail'].append(d)
            _replay(E, ob, r.cex, out, 'B/' + r.status, seed)
          for n, s, cex, d in r.checks:
            if out['violation']:
              break
            if s != 'proved':
              if len(out['detail']) < 12:
                out['detail'].append('B %s %s: %s' % (n, s, d[:160]))
            if s == 'refuted':
              if not _replay(E, ob, cex, out, 'B/' + n, seed):
                out['refutations'].append(dict(check=n, goal=d, inputs=jsonable((cex or [None])[0])))
        if out['violation']:
          break
      if allgood:
        out['status'] = 'bounded-proof'
  if any(r.status == 'lost' for r in rs):
    out['status'] = 'lost'
  out['functions'] = sorted(loader.ENTERED)
  out['stats'] = dict(S.STATS)
  out['wall'] = time.time() - t0
  return out


def conc_task(ob, tier, seed):
  from . import engine as E
  n = max(3, int(ob.tests * CFG[tier]['tests'] * getattr(ob, 'more', 1)))
  out = dict(kind='conc', name=ob.name, runs=0, ok=0, discards=0, checks=0, violation=None,
             distinct=0, lost=False)
  seen = set()
  t0 = time.time()
  k = 0
  limit = 60. if tier == 'quick' else 250.
  while out['ok'] < n and k < 30 * n and time.time() - t0 < limit:
    st, info, used = E.run_concrete(ob, None, rng_for(ob, seed, k))
    k += 1
    out['runs'] += 1
    if st == 'ok':
      out['ok'] += 1
      out['checks'] += info
      seen.add(hashlib.md5(repr(jsonable(used)).encode()).hexdigest())
    elif st == 'discard':
      out['discards'] += 1
    elif st == 'lost':
      out['lost'] = True
      break
    else:
      out['violation'] = dict(origin='C/random', status=st, info=info, inputs=jsonable(used),
                              draw=k - 1)
      break
  out['distinct'] = len(seen)
  out['wall'] = time.time() - t0
  return out


def _child(fn, ob, tier, seed, conn):
  try:
    sys.setrecursionlimit(20000)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    res = fn(ob, tier, seed)
  except BaseException as e:
    res = dict(kind=fn.__name__[:4].strip('_'), name=ob.name, error='%s: %s' % (type(e).__name__, e),
               tb=traceback.format_exc()[-2000:])
  try:
    conn.send(res)
  finally:
    conn.close()
    os._exit(0)


def schedule(tasks, tier, seed, jobs, until=None):
  """tasks: (fn, ob); each in its own forked process with a hard limit; proof
  tasks not started by the time `until` are left undecided"""
  ctx = mp.get_context('fork')
  pend = list(tasks)
  live = []
  results = []
  while pend or live:
    while pend and len(live) < jobs:
      fn, ob = pend.pop(0)
      if until and time.time() > until and (fn is sym_task or time.time() > until + 200.):
        results.append((fn, ob, dict(name=ob.name, error='time of the check used up')))
        continue
      r, w = ctx.Pipe(False)
      p = ctx.Process(target=_child, args=(fn, ob, tier, seed, w))
      p.start()
      w.close()
      live.append((p, r, fn, ob, time.time()))
    time.sleep(0.02)
    nxt = []
    for p, r, fn, ob, t in live:
      if r.poll():
        try:
          results.append((fn, ob, r.recv()))
        except EOFError:
          results.append((fn, ob, dict(name=ob.name, error='worker died')))
        p.join(5)
        if p.is_alive():
          p.kill()
      elif not p.is_alive():
        results.append((fn, ob, dict(name=ob.name, error='worker died (exit %s)' % p.exitcode)))
      elif time.time() - t > CFG[tier]['hard'] * max(1., ob.weight) or \
           (until and time.time() > until + (100. if fn is sym_task else 250.)):
        p.kill()
        p.join()
        results.append((fn, ob, dict(name=ob.name, error='hard time limit')))
      else:
        nxt.append((p, r, fn, ob, t))
    live = nxt
  return results


def known_findings(prop):
  fn = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(fn):
    return []
  with open(fn) as f:
    return [k for k in json.load(f).get('findings', []) if k['property'] == prop]


def check_property(prop, tier, seed, only=None, verbose=False):
  from . import engine as E, loader
  t0 = time.time()
  mods = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, 'props')))
          if f.endswith('.py') and not f.startswith('_')]
  for m in mods:
    importlib.import_module('props.' + m)
  obs = [o for o in E.OBS.get(prop, []) if (tier == 'thorough' or not o.thorough)
         and (only is None or o.name in only)]
  if not obs:
    print('ERROR: no obligations for', prop)
    return 2
  try:
    loader.real('')
    loader.sym('')
  except Exception as e:
    print('ERROR: package does not import: %s: %s' % (type(e).__name__, e))
    return 2
  tasks = [(sym_task, o) for o in sorted(obs, key=lambda o: -o.weight) if not o.conc_only]
  tasks += [(conc_task, o) for o in obs]
  until = t0 + CFG[tier]['total']
  results = schedule(tasks, tier, seed, int(os.environ.get('PV_JOBS', '8')), until)
  sym = {o.name: r for fn, o, r in results if fn is sym_task}
  conc = {o.name: r for fn, o, r in results if fn is conc_task}
  # obligations the verifier could not decide on this tree get a deeper bounded
  # stand-in: many more concrete runs of the same contract
  open_ = [o for o in obs if o.name in sym and not conc.get(o.name, {}).get('violation')
           and (sym[o.name].get('error') or (sym[o.name]['status'] == 'open' and not sym[o.name]['violation']))]
  for o in open_:
    o.more = 8
  for fn, o, r in schedule([(conc_task, o) for o in open_], tier, seed + 1000003, int(os.environ.get('PV_JOBS', '8')),
                           until):
    if not r.get('error'):
      for k in ('runs', 'ok', 'discards', 'checks', 'distinct', 'wall'):
        r[k] = r.get(k, 0) + conc.get(o.name, {}).get(k, 0)
      conc[o.name] = r
  kf = known_findings(prop)
  exp = expected().get(prop, {})
  violations, known, summary = [], [], {}
  rdir = os.path.join(HERE, 'evidence', 'replay')
  os.makedirs(rdir, exist_ok=True)
  for f in os.listdir(rdir):
    if f.startswith(prop + '-'):
      os.unlink(os.path.join(rdir, f))
  errors = []
  for o in obs:
    s, k = sym.get(o.name), conc.get(o.name)
    v = None
    for r in (s, k):
      if r and r.get('violation') and v is None:
        v = r['violation']
    if s is None:
      status = 'concrete-only'
    elif s.get('error'):
      status = 'undecided'
      errors.append('%s: %s' % (o.name, s['error']))
    else:
      status = {'proved': 'proved', 'bounded-proof': 'bounded-proof', 'open': 'undecided',
                'lost': 'lost'}[s['status']]
    if k and k.get('error'):
      errors.append('%s: %s' % (o.name, k['error']))
    summary[o.name] = status
    nofail = False
    if v is None and s and not s.get('error') and s['refutations'] and \
       exp.get(o.name) == 'proved' and s.get('stats'):
      v = dict(origin='refuted', status='refuted', info=s['refutations'][0]['check'],
               inputs=s['refutations'][0]['inputs'], goal=s['refutations'][0]['goal'])
      nofail = True
    if v is not None:
      hit = [f for f in kf if f['obligation'] == o.name and f['match'] in v['info']]
      if hit:
        known.append(hit[0])
        summary[o.name] = 'known-finding'
        continue
      path = os.path.join(rdir, '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]+', '_', o.name).strip('_')))
      with open(path, 'w') as f:
        json.dump(dict(property=prop, obligation=o.name, contract=o.doc, violation=v,
                       replayed=not nofail, no_failing_input_found=nofail,
                       detail=(s or {}).get('detail', []),
                       how='cd /verif && ./check.sh --replay %s' % path), f, indent=1)
      violations.append((o.name, path, v, nofail))
      summary[o.name] = 'VIOLATED'
  if verbose:
    for o in obs:
      s, k = sym.get(o.name), conc.get(o.name)
      print('%-34s %-14s goals %s/%s paths %s %.1fs | conc %s ok %s disc %.1fs %s' % (
          o.name, summary[o.name], (s or {}).get('proved'), (s or {}).get('goals'),
          (s or {}).get('paths'), (s or {}).get('wall', 0.), (k or {}).get('ok'),
          (k or {}).get('discards'), (k or {}).get('wall', 0.), (s or {}).get('layerB') or ''))
      for r in (s, k):
        if r and r.get('error'):
          print('    ERROR', r['error'], r.get('tb', ''))
      for d in (s or {}).get('detail', [])[:4]:
        print('    ', d[:300])
      for r in (s, k):
        if r and r.get('violation'):
          print('     !!', json.dumps(r['violation'])[:700])
  wall = time.time() - t0
  write_evidence(prop, tier, seed, obs, sym, conc, summary, violations, known, errors, wall)
  # each listed finding whose obligation was run is announced
  for f in kf:
    if f in known:
      print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
  for name, path, v, nofail in violations:
    print('obligation %s: %s %s' % (name, v['status'], v['info']))
    print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if nofail else ''))
  n = {}
  for s in summary.values():
    n[s] = n.get(s, 0) + 1
  print('%s %s: %s (%.1f s)' % (prop, tier, ', '.join('%d %s' % (v, k) for k, v in sorted(n.items())), wall))
  if violations:
    return 1
  # vacuity: at least one obligation of the property must have been exercised
  if not any((sym.get(o.name) or {}).get('proved') or (conc.get(o.name) or {}).get('ok') for o in obs):
    print('ERROR: nothing was checked')
    return 2
  return 0


def expected():
  fn = os.path.join(HERE, 'expected.json')
  if not os.path.exists(fn):
    return {}
  with open(fn) as f:
    return json.load(f)


TRUSTED = [
    'z3 4.x Python API / cvc5 1.1.2 (back ends) and the engine in /verif/pv (own symbolic executor and VC generator)',
    'CPython 3.12 semantics for control flow, classes, dicts, strings (executed, not modelled)',
    'assumed contracts on numpy: the element-wise definitions in /verif/pv/symnp.py and /verif/pv/values.py (cross-checked concretely on every run)',
    'binary64 arithmetic treated as real arithmetic inside obligations (rounding, overflow and NaN not modelled; exp/log underflow thresholds are)',
]


def write_evidence(prop, tier, seed, obs, sym, conc, summary, violations, known, errors, wall):
  goals = sum(r.get('goals', 0) for r in sym.values())
  proved = sum(r.get('proved', 0) for r in sym.values())
  funcs = set()
  st = {}
  for r in sym.values():
    funcs.update(r.get('functions', []))
    for k, v in (r.get('stats') or {}).items():
      st[k] = st.get(k, 0) + v
  import z3
  cov = dict(
      obligations=goals, discharged=proved,
      checker_cmd='cd /verif && VERIF_SEED=%d ./check.sh %s %s' % (seed, prop, tier),
      trusted_base=TRUSTED,
      back_ends=dict(z3=z3.get_version_string(), solver_queries=st.get('queries', 0),
                     unsat=st.get('unsat', 0), sat=st.get('sat', 0), unknown=st.get('unknown', 0),
                     cvc5_second_opinion=st.get('cvc5', 0), syntactic=st.get('syntactic', 0),
                     solver_seconds=round(st.get('time', 0.), 2)),
      functions_executed_under_contract=sorted(funcs),
      contracts={o.name: dict(
          status=summary[o.name],
          statement=' '.join(o.doc.split()),
          paths=(sym.get(o.name) or {}).get('paths', 0),
          goals=(sym.get(o.name) or {}).get('goals', 0),
          proved=(sym.get(o.name) or {}).get('proved', 0),
          **({'bound': o.bounded} if o.bounded else {}),
          **({'stand_in': 'concrete runs only: ' + o.conc_only} if o.conc_only else {}),
          **({'open': (sym.get(o.name) or {}).get('detail', [])[:4],
              'finite_instances': (sym.get(o.name) or {}).get('layerB', [])}
             if summary[o.name] not in ('proved', 'concrete-only') else {})) for o in obs},
      bounded_stand_ins=[o.name for o in obs if summary[o.name] != 'proved'],
      finite_instance_goals=sum(r.get('bounded_goals', 0) for r in sym.values()),
      concrete_cross_check=dict(
          runs=sum(r.get('runs', 0) for r in conc.values()),
          accepted=sum(r.get('ok', 0) for r in conc.values()),
          distinct=sum(r.get('distinct', 0) for r in conc.values()),
          assertions=sum(r.get('checks', 0) for r in conc.values())),
      counter_models_replayed=sum(r.get('replays', 0) for r in sym.values()),
      samples=[x for r in sym.values() for x in r.get('samples', [])][:10],
      known_findings=[k['what'] for k in known],
      worker_errors=errors,
  )
  ev = dict(property=prop, tier=tier, seed=seed,
            level=LEVEL.get(prop, 'proof'), coverage=cov,
            assumptions=TRUSTED + sorted({a for o in obs for a in ASSUME.get(prop, [])}),
            wall_s=round(wall, 2), violations=len(violations))
  d = os.path.join(HERE, 'evidence')
  os.makedirs(d, exist_ok=True)
  with open(os.path.join(d, prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)


LEVEL = {}
ASSUME = {}


def replay(path):
  from . import engine as E
  with open(path) as f:
    r = json.load(f)
  for m in sorted(os.listdir(os.path.join(HERE, 'props'))):
    if m.endswith('.py') and not m.startswith('_'):
      importlib.import_module('props.' + m[:-3])
  ob = [o for o in E.OBS[r['property']] if o.name == r['obligation']][0]
  v = unjson(r['violation']['inputs'])
  print('inputs:', v)
  st, info, used = E.run_concrete(ob, v)
  print(st, info)
  return 1 if st in ('failed', 'raised') else 0


def main(argv):
  import argparse
  ap = argparse.ArgumentParser()
  ap.add_argument('prop', nargs='?')
  ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--only', action='append')
  ap.add_argument('--replay')
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args(argv)
  if a.replay:
    return replay(a.replay)
  seed = int(os.environ.get('VERIF_SEED', '1'))
  return check_property(a.prop, a.tier, seed, a.only, a.v)
