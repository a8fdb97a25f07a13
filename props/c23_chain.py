"""C23: samplers of stochastic processes are Markov chains.

The state of a sampler is the last sample accepted; since the first sample is
always accepted whatever it is, the steps after it start from arbitrary states:
what holds for the second and third step holds, by induction, for every step."""
import collections
import math
import numpy as np
from fractions import Fraction
from pv.engine import obligation, instance
from pv import terms as T
from pv.values import wrap, to_poly
from props._contracts import rescale_contract, div_contract
from props._pd import den, pscale, is_log


NAMES = ['x', 'x_y']


def _opaque(c, name, like, log=False):
  """an arbitrary function of scalars with values between 2**-6 and 2**6 (or
  logarithms from -4 to 4): in concrete runs, like"""
  if not c.symbolic:
    f = lambda *a: min(max(like(*a), 2.**-6), 2.**6)
    return (lambda *a: math.log(f(*a))) if log else f
  lo, hi = (T.const(-4), T.const(4)) if log else (T.const(Fraction(1, 64)), T.const(64))

  def facts(args):
    v = T.app(name, args)
    return [T.le(lo, v), T.le(v, hi)]
  c.path.reg.app[name] = facts
  return lambda *a: wrap(T.app(name, tuple(to_poly(x) for x in a)), 'f', True)


def _target(c, names, ps, extra=()):
  """an arbitrary positive probability function; -> what to set, probability"""
  f = _opaque(c, 'P', lambda *a: sum((i + 1) * (x - i) ** 2 for i, x in enumerate(a)) / 16. + .1, ps == 'log')
  at = lambda vals: f(*[vals[v] for v in list(names) + list(extra)])
  return (lambda **kw: at(kw)), at


def _tran(c, names, kind, log):
  """forward and reverse transition functions of values and primed values"""
  f = _opaque(c, 'Q', lambda *a: sum((i + 1) * (x - i) ** 2 for i, x in enumerate(a)) / 32. + .1, log)
  g = _opaque(c, 'R', lambda *a: sum((2 * i + 1) * (x + i) ** 2 for i, x in enumerate(a)) / 32. + .2, log)
  keys = list(names) + [v + "'" for v in names]
  fwd, rev = [lambda vals, h=h: h(*[vals[k] for k in keys]) for h in (f, g)]
  if kind == 'none':
    return None, None, None
  sc = (lambda f: lambda vals: c.exp(f(vals))) if log else (lambda f: f)
  if kind == 'one':
    return (lambda **kw: fwd(kw)), sc(fwd), sc(fwd)
  return ((lambda **kw: fwd(kw)), (lambda **kw: rev(kw))), sc(fwd), sc(rev)


def _proposals(c, names, n):
  return [{v: c.real('d%d_%s' % (i, v), lo=-2, hi=2) for v in names} for i in range(n)]


def _process(c, names, ps, tran, sub, steps):
  """-> process, names conditioned on; deltas are those of steps in turn"""
  RV, RF, SP = c.mod('rv').RV, c.mod('rf').RF, c.mod('sp').SP
  rvs = [RV(v, vtype=float, vset=(-1000., 1000.)) for v in names]
  fld = RF(*rvs)
  if sub:
    proc = SP(RF(RV('z', vtype=float, vset=(-1000., 1000.))), fld)
  else:
    proc = SP(fld)
  todo = list(steps)
  fun, num2 = _target(c, names, ps, ['z'] if sub else [])
  proc.set_prob(fun, **({'pscale': 'log'} if ps == 'log' else {}))
  q, fwd, rev = _tran(c, names, tran, ps == 'log' and not sub)
  obj = fld if sub else proc
  if q is not None:
    obj.set_tran(q)
  obj.set_delta(lambda: obj.Delta(**todo.pop(0)))
  if sub:
    proc.set_tran(fld)
    proc.set_delta(fld)
  return proc, num2, fwd, rev


def chain(c, n, scores, tran, scale, sub, steps=3):
  """each sample proposes to move from the current state; the state becomes the
  proposal if the score reaches the threshold drawn, or else remains; the
  first proposal is always accepted"""
  names = NAMES[:n]
  c.stub('sp_utils', 'rescale', rescale_contract(c))
  c.stub('sp_utils', 'div_prob', div_contract(c))
  ds = _proposals(c, names, steps)
  proc, num, fwd, rev = _process(c, names, scale, tran, sub, ds)
  proc.set_scores(scores)
  state = {v: c.real('s_' + v, lo=-5, hi=5) for v in names}
  extra = {'z': c.real('z', lo=-2, hi=2)} if sub else {}
  args = [dict(state)] + ([dict(extra)] if sub else [])
  gen = proc.sampler(*args) if c.choice('stop', [0, 1]) else proc.sampler(*args, stop=steps)
  lin = c.exp if scale == 'log' else lambda v: v
  out = []
  states = []
  for i in range(steps):
    r = next(gen)
    out.append(r)
    prop = {v: state[v] + ds[i][v] for v in names}
    both = {**state, **{v + "'": prop[v] for v in names}}
    for v in names:
      c.check('from', c.eq(r.q[v], state[v]))
      c.check('to', c.eq(r.q[v + "'"], prop[v]))
      c.check('proposal', c.eq(r.p[v], prop[v]))
    c.check('probability', c.eq(r.p.prob, num({**prop, **extra})))
    c.check('step', list(r.q.marg) == [v + "'" for v in names] and list(r.q.cond) == list(names))
    if tran == 'two':
      c.check('reverse step', list(r.r.marg) == list(names) and list(r.r.cond) == [v + "'" for v in names])
      c.check('reverse probability', c.eq(c.exp(r.r.prob) if is_log(r.r.pscale) else r.r.prob, rev(both)))
    if i == 0:
      c.check('first', r.o is None and r.u is True and r.v is r.p)
      state = prop
      states.append(state)
      continue
    for v in names:
      c.check('state', c.eq(r.o[v], state[v]))
    c.check('state probability', c.eq(r.o.prob, num({**state, **extra})))
    if scores == 'gibbs':
      acc = True
      c.check('always', r.u is True)
    else:
      d = c.draw(i)
      c.check('drawn', d is not None and c.all(c.eq(d[0], 0), c.eq(d[1], 1)))
      c.check('threshold', c.eq(r.t, d[2]))
      want = c.div(lin(num({**prop, **extra})), lin(num({**state, **extra})))
      if scores == 'hastings' and tran == 'two':
        want = c.div(c.mul(want, rev(both)), fwd(both))
      c.check('score', c.eq(r.s, c.minimum(1., want)))
      c.check('verdict', (r.u is True) == bool(r.s >= r.t) and (r.u is True or r.u is None))
      acc = r.u is True
    c.check('outcome', r.v is (r.p if acc else r.o))
    state = prop if acc else state
    states.append(state)
  c.check('count', proc.get_counter(0) == steps)
  if sub:
    return
  s = proc(out)
  c.check('updates', list(s.u) == [r.u for r in out])
  for i in range(steps):
    for v in names:
      c.check('summary', c.eq(c.at(s.v[v], i), states[i][v]))
    c.check('summary probability', c.eq(c.at(s.v.prob, i), num(states[i])))


for _n in (1, 2):
  for _s, _t in (('metropolis', 'one'), ('hastings', 'one'), ('hastings', 'two'), ('gibbs', 'one'), ('metropolis', 'two')):
    for _l in ('linear', 'log'):
      for _u in (False, True):
        if not (_u and (_s, _t) not in (('hastings', 'two'), ('metropolis', 'one')) or _n == 2 and _l == 'log'):
          instance('C23', chain, n=_n, scores=_s, tran=_t, scale=_l, sub=_u, tag='%d,%s,%s,%s%s' % (_n, _s, _t, _l, ',roots' if _u else ''), bounded='three steps, by induction every one')


def _run(c, gen, proc, state, ds, num, names, at=0, first=True):
  """one more sample, of a Metropolis chain: -> state after it"""
  r = next(gen)
  prop = {v: state[v] + ds[v] for v in names}
  for v in names:
    c.check('from', c.eq(r.q[v], state[v]))
    c.check('proposal', c.eq(r.p[v], prop[v]))
  if first:
    c.check('first', r.o is None and r.u is True)
    return r, prop
  for v in names:
    c.check('state', c.eq(r.o[v], state[v]))
  c.check('score', c.eq(r.s, c.minimum(1., c.div(num(prop), num(state)))))
  c.check('verdict', (r.u is True) == bool(r.s >= r.t) and (r.u is True or r.u is None))
  c.check('outcome', r.v is (r.p if r.u is True else r.o))
  return r, (prop if r.u is True else state)


def interleaved(c, order):
  """samplers of the same process do not affect each other"""
  names = NAMES[:1]
  c.stub('sp_utils', 'div_prob', div_contract(c))
  ds = _proposals(c, names, len(order))
  proc, num, _, _ = _process(c, names, 'linear', 'one', False, ds)
  proc.set_scores('metropolis')
  states = [{v: c.real('s%d_%s' % (k, v), lo=-5, hi=5) for v in names} for k in range(2)]
  gens = [None, None]
  seen = [0, 0]
  if c.choice('early', [0, 1]):
    gens = [proc.sampler(dict(states[k])) for k in range(2)]
  for i, k in enumerate(order):
    if gens[k] is None:
      gens[k] = proc.sampler(dict(states[k]))
    _, states[k] = _run(c, gens[k], proc, states[k], ds[i], num, names, first=not seen[k])
    seen[k] += 1
    for j in range(2):
      if gens[j] is not None:
        c.check('count', proc.get_counter(gens[j]) == seen[j])


for _o in ('0101', '0011', '0110'):
  instance('C23', interleaved, order=[int(x) for x in _o], tag=_o, bounded='two samplers, four steps')


def walks(c, pieces, stop):
  """walks along a sampler continue where the walk before them ended, and take
  as many samples as asked for until the sampler stops"""
  names = NAMES[:1]
  c.stub('sp_utils', 'div_prob', div_contract(c))
  total = sum(pieces) if stop is None else min(stop, sum(pieces))
  ds = _proposals(c, names, sum(pieces) + 2)
  proc, num, _, _ = _process(c, names, 'linear', 'one', False, ds)
  proc.set_scores('metropolis')
  state = {'x': c.real('s', lo=-5, hi=5)}
  gen = proc.sampler(dict(state), **({} if stop is None else {'stop': stop}))
  k = 0
  for m in pieces:
    got = proc.walk(gen, stop=m)
    want = m if stop is None else min(m, stop - k)
    c.check('as many', len(got) == want)
    for r in got:
      prop = {'x': state['x'] + ds[k]['x']}
      c.check('from', c.eq(r.q['x'], state['x']))
      c.check('to', c.eq(r.p['x'], prop['x']))
      c.check('before', r.o is None if k == 0 else c.eq(r.o['x'], state['x']))
      c.check('outcome', r.v is (r.p if r.u is True else r.o))
      state = prop if r.u is True else state
      k += 1
    if stop is None:
      c.check('count', proc.get_counter(0) == k)
  c.check('total', k == total)
  if stop is not None:
    rest = list(gen)
    c.check('stops', len(rest) == stop - k)


for _p, _s in (([2, 1], None), ([1, 2], 3), ([1, 0, 1], None), ([3], 2), ([1], 3), ([2, 1, 1], 3)):
  instance('C23', walks, pieces=_p, stop=_s, tag='%s,%s' % (_p, _s), bounded='at most three steps')


def rejection(c, n, suffix, sub=False, steps=2):
  """proposals drawn at random are proposed, evaluated, scored, and compared
  with thresholds each; summaries comprise the ones not rejected"""
  names = NAMES[:n]
  RV, RF, SP = c.mod('rv').RV, c.mod('rf').RF, c.mod('sp').SP
  fld = RF(*[RV(v, vtype=float, vset=(-2., 3.)) for v in names])
  proc = SP(RF(RV('z', vtype=float, vset=(-1000., 1000.))), fld) if sub else SP(fld)
  extra = {'z': c.real('z', lo=-2, hi=2)} if sub else {}
  fun, num1 = _target(c, names, 'linear', ['z'] if sub else [])
  num = lambda vals: num1({**vals, **extra})
  q = _opaque(c, 'Q', lambda *a: sum((i + 1) * (x - i) ** 2 for i, x in enumerate(a)) / 32. + .1)
  proc.set_prob(fun)
  (fld if sub else proc).set_prop(lambda **kw: q(*[kw[v] for v in names]))
  if sub:
    proc.set_prop(fld)
  proc.set_scores(lambda opqr: opqr.p.prob)
  hi = c.real('hi', lo=1, hi=50)
  proc.set_thresh(c.mod('sp_utils').metropolis_thresh, low=0., high=hi)
  proc.set_update(lambda stu: bool(stu.s >= stu.t))
  kw = {} if suffix else {'suffix': False}
  gen = proc.sampler({0}, *([dict(extra)] if sub else []), **kw, **({'stop': steps} if c.choice('stop', [0, 1]) else {}))
  out = proc.walk(gen, stop=steps)
  c.check('count', len(out) == steps)
  kept = []
  for r in out:
    x = {v: r.q[v + ("'" if suffix else '')] for v in names}
    for v in names:
      c.check('inside', c.all(x[v] >= -2., x[v] <= 3.))
      c.check('evaluated', c.eq(r.p[v], x[v]))
    c.check('proposal probability', c.eq(r.q.prob, q(*[x[v] for v in names])))
    c.check('probability', c.eq(r.p.prob, num(x)))
    c.check('score', c.eq(r.s, num(x)))
    c.check('threshold', c.all(r.t >= 0., r.t <= hi))
    c.check('verdict', r.u == bool(num(x) >= r.t))
    c.check('nothing else', r.o is None and r.r is None)
    if r.u:
      c.check('outcome', r.v is r.p)
      kept.append((r, x))
  c.check('differ', len(set(id(r.p) for r in out)) == steps)
  if sub:
    return
  s = proc(out)
  c.check('kept', list(s.u) == [True] * len(kept))
  if not kept:
    c.check('none', s.p is None and s.q is None)
    return
  c.check('scores', len(s.s) == len(kept) and len(s.t) == len(kept))
  for i, (r, x) in enumerate(kept):
    at = lambda a: c.at(a, i) if np.ndim(a) else a
    for v in names:
      c.check('summary', c.eq(at(s.p[v]), x[v]))
      c.check('summary of proposals', c.eq(at(s.q[v + ("'" if suffix else '')]), x[v]))
    c.check('summary probability', c.eq(at(s.p.prob), num(x)))
    c.check('summary of scores', c.all(c.eq(s.s[i], r.s), c.eq(s.t[i], r.t)))


for _n in (1, 2):
  for _x in (True, False):
    for _u in (False, True):
      instance('C23', rejection, n=_n, suffix=_x, sub=_u, tag='%d,%s%s' % (_n, _x, ',roots' if _u else ''), bounded='two steps')


def plain(c, n, steps=2):
  """samplers of processes without proposals evaluate distributions afresh"""
  names = NAMES[:n]
  RV, RF, SP = c.mod('rv').RV, c.mod('rf').RF, c.mod('sp').SP
  proc = SP(RF(*[RV(v, vtype=float, vset=(-2., 3.)) for v in names]))
  fun, num = _target(c, names, 'linear')
  proc.set_prob(fun)
  how = c.choice('how', ['none', 'set', 'int'])
  gen = proc.sampler() if how == 'none' else proc.sampler({0}, stop=steps) if how == 'set' else proc.sampler(steps)
  out = [next(gen) for _ in range(steps)]
  if how != 'none':
    c.check('stops', len(list(gen)) == 0)
  for r in out:
    x = {v: r[v] for v in names}
    for v in names:
      c.check('inside', c.all(x[v] >= -2., x[v] <= 3.))
    c.check('probability', c.eq(r.prob, num(x)))
  s = proc(out)
  for i, r in enumerate(out):
    for v in names:
      c.check('summary', c.eq(c.at(s[v], i), r[v]))
    c.check('summary probability', c.eq(c.at(s.prob, i), r.prob))


for _n in (1, 2):
  instance('C23', plain, n=_n, tag='%d' % _n, bounded='two steps')
