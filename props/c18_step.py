"""C18: transitional probabilities and sampling of successors."""
import numpy as np
from pv.engine import obligation, instance
from props._contracts import rescale_contract
from props._pd import den, pscale, is_log, SCALES

X, X1 = 'mu', "mu'"   # a name of more than one letter


def _set(c, k):
  vs = [c.int('u0', lo=-50, hi=50)]
  for i in range(1, k):
    vs.append(vs[-1] + c.int('g%d' % i, lo=1, hi=9))
  return vs


def _matrix(c, k, ps, name='m'):
  """square matrix of numbers denoting transition probabilities, columns (of
  predecessors) adding up to one; -> array, denoted probabilities"""
  if k > 9:
    raise ValueError
  P = [[None] * k for _ in range(k)]
  for j in range(k):
    rest = 1.
    for i in range(k - 1):
      P[i][j] = c.real('%s%d%d' % (name, i, j), lo=2.**-12, hi=1. / k)
      rest = rest - P[i][j]
    P[k - 1][j] = rest
  if is_log(ps):
    f = lambda p: c.log(p) - ps.real
  elif c.symbolic and hasattr(ps, 'e') or ps != 1.:
    f = lambda p: c.div(p, ps)
  else:
    f = lambda p: p
  return c.stack([[f(p) for p in row] for row in P]), P


def _had(c, x, vs, ps, rest=True):
  """the variable may have had another transition, used before"""
  was = c.choice('was', [None, 'pair', 'call'])
  k = len(vs)
  u = np.log(1. / k) if is_log(ps) else 1. / k
  if was == 'pair':
    A, B = np.full((k, k), u), np.full((k, k), u)
    A[0], B[0] = u * 2, u / 2
    x.set_tran((A, B))
    x.step(vs[0], vs[1])
    x.step(vs[0], vs[1], reverse=True)
  elif was == 'call':
    x.set_tran(lambda succ, pred: 0. * succ + u, order={X: 'pred', X1: 'succ'})
    x.set_tfun((lambda succ, pred: succ, lambda succ, pred: succ), order={X: 'pred', X1: 'succ'})
    x.step(vs[0], vs[1])
    x.set_tfun(None)


def matrix_lookup(c, k, pred, succ, scale='log'):
  """the conditional probability of a transition is the entry at the row of the
  successor and the column of the predecessor"""
  RV = c.mod('rv').RV
  ps = pscale(c, scale)
  vs = _set(c, k)
  M, P = _matrix(c, k, ps)
  x = RV(X, vset=list(vs), vtype=int, pscale=ps)
  _had(c, x, vs, ps)
  x.set_tran(M)

  def pick(kind, name):
    if kind == 'all':
      return list(range(k)), None
    if kind == 'scalar':
      i = c.choice(name, list(range(k)))
      return i, vs[i]
    idx = [c.choice('%s%d' % (name, j), list(range(k))) for j in range(2)]
    return idx, c.stack([vs[i] for i in idx])
  if pred == 'all':
    ip, iq = list(range(k)), list(range(k))
    d = x.step()
  else:
    ip, vp = pick(pred, 'p')
    iq, vq = pick(succ, 'q')
    d = x.step(vp, vq) if c.choice('call', [0, 1]) == 1 else x.step((vp, vq))
  sp, sq = isinstance(ip, int), isinstance(iq, int)
  got = d
  for a, i in enumerate([iq] if sq else iq):
    for b, j in enumerate([ip] if sp else ip):
      at = [] if sq else [a]
      at += [] if sp else [b]
      c.check('entry', c.eq(c.at(d.prob, *at) if at else d.prob, M[i, j]))
      c.check('succ', c.eq(c.at(got[X1], *([a] + [0] * (len(at) - 1))) if not sq else got[X1], vs[i]))
      c.check('pred', c.eq(c.at(got[X], *([0] * (len(at) - 1) + [b])) if not sp else got[X], vs[j]))
  c.check('names', list(d.marg) == [X1] and list(d.cond) == [X] and c.eq(d.pscale, ps))


for _p, _q in (('all', 'all'), ('scalar', 'scalar'), ('array', 'scalar'), ('scalar', 'array'), ('array', 'array')):
  instance('C18', matrix_lookup, k=3, pred=_p, succ=_q, tag='%s,%s' % (_p, _q), bounded='three states')


def _stepper(c, x, who):
  """steps of the variable, or of the field of it alone"""
  if who == 'variable':
    return x.step
  if who == 'reverse':
    return lambda p, q=None: x.step(p, *([] if q is None else [q]), reverse=True)
  return lambda p, q=None: c.mod('rf').RF(x).step({X: p}, q)


def matrix_sample(c, k, scale, how, who='variable'):
  """a successor sampled at level u of the conditional CMF is the state at
  which the sum of the conditional probabilities first exceeds u"""
  c.stub('rv', 'rescale', rescale_contract(c))
  RV = c.mod('rv').RV
  ps = pscale(c, scale)
  vs = _set(c, k)
  M, P = _matrix(c, k, ps)
  x = RV(X, vset=list(vs), vtype=int, pscale=ps)
  _had(c, x, vs, ps)
  x.set_tran(M if who != 'reverse' else (_matrix(c, k, ps, 'other')[0], M))
  step = _stepper(c, x, who)
  j = c.choice('j', list(range(k)))
  if how == 'level':
    u = c.real('u', lo=0., hi=1., hi_open=True)
    d = step(vs[j], {u})
    s, p = c.at(d[X1], 0), c.at(d.prob, 0)
    c.check('one', c.eq(c.shape(d.prob)[0], 1))
  elif how == 'random':
    d = step(vs[j], {0}) if c.choice('given', [0, 1]) else step(vs[j])
    s, p = d[X1], d.prob
    u = c.unit_draw()
  elif how == 'randoms':
    d = step(vs[j], {-2})
    i = c.choice('i', [0, 1])
    s, p = c.at(d[X1], i), c.at(d.prob, i)
    u = c.unit_draw()
    u = None if u is None else c.at(u, i)
    c.check('two', c.eq(c.shape(d.prob)[0], 2))
  else:
    d = step(vs[j], {3})
    s, p, u = c.at(d[X1], 1), c.at(d.prob, 1), .5
    c.check('three', c.eq(c.shape(d.prob)[0], 3))
  if not c.symbolic and u is not None:  # rounding decides ties
    c.assume(all(abs(u - sum(P[i][j] for i in range(l))) > 1e-9 for l in range(1, k)))
  acc = 0.
  for i in range(k):
    if u is None:  # drawn in some other way: only consistency is decided
      c.check('prob', c.implies(c.same(s, vs[i]), c.eq(p, M[i, j])))
      continue
    nxt = acc + P[i][j]
    inside = c.all(c.le(acc, u), c.lt(u, nxt)) if i < k - 1 else c.le(acc, u)
    c.check('state', c.iff(inside, c.same(s, vs[i])))
    c.check('prob', c.implies(inside, c.eq(p, M[i, j])))
    acc = nxt
  c.check('pred', c.eq(d[X], vs[j]))


for _s in SCALES:
  for _h in ('level', 'random', 'randoms', 'spaced'):
    _k = 2 if _s == 'offset' or (_s == 'log' and _h == 'random') else 3
    instance('C18', matrix_sample, k=_k, scale=_s, how=_h, bounded='two or three states')
    if _s == 'one' and _h != 'level':
      for _w in ('field', 'reverse'):
        instance('C18', matrix_sample, k=2, scale=_s, how=_h, who=_w, tag='%s,%s' % (_w, _h), bounded='two states')


@obligation('C18', bounded='two states')
def matrix_pair(c):
  """of a pair of matrices the first serves forward and the second reverse
  transitions; Boolean states are ordered False, True"""
  RV = c.mod('rv').RV
  A, _ = _matrix(c, 2, 1., 'a')
  B, _ = _matrix(c, 2, 1., 'b')
  x = RV(X, vtype=bool)
  x.set_tran((A, B))
  p, q = c.choice('p', [False, True]), c.choice('q', [False, True])
  c.check('forward', c.eq(x.step(p, q).prob, A[int(q), int(p)]))
  c.check('reverse', c.eq(x.step(p, q, reverse=True).prob, B[int(q), int(p)]))
  x.set_tran(A)
  c.check('single', c.eq(x.step(p, q).prob, A[int(q), int(p)]))


def scalar_tran(c, scale, pred, succ):
  """a scalar transitional is the probability of every transition within the
  interval, and transitions out of it have none"""
  RV = c.mod('rv').RV
  ps = pscale(c, scale)
  a = c.real('a', lo=-1000, hi=1000)
  w = c.real('w', lo=2.**-20, hi=1000)
  t = c.real('t', lo=-20, hi=20) if is_log(ps) else c.real('t', lo=2.**-10, hi=20)
  x = RV(X, vset=[a, a + w], vtype=float, pscale=ps)
  x.set_tran(t)
  n, m = c.extent('n'), c.extent('m')
  vp = c.array('p', (n,), lo=-2500, hi=2500) if pred == 'array' else c.real('p', lo=-2500, hi=2500)
  vq = c.array('q', (m,), lo=-2500, hi=2500) if succ == 'array' else c.real('q', lo=-2500, hi=2500)
  ins = lambda v: c.all(c.le(a, v), c.le(v, a + w))
  if c.symbolic and is_log(ps) and pred == succ == 'scalar':  # else floating point overflow to -inf
    c.assume(c.any(ins(vp), ins(vq)))
  d = x.step(vp, vq)
  c.check('names', list(d.marg) == [X1] and list(d.cond) == [X] and c.eq(d.pscale, ps))
  zero = (lambda v: c.le(v, -1e300)) if is_log(ps) else (lambda v: c.eq(v, 0.))

  def entry(i, j):
    at = ([i] if succ == 'array' else []) + ([j] if pred == 'array' else [])
    q = c.at(vq, i) if succ == 'array' else vq
    p = c.at(vp, j) if pred == 'array' else vp
    g = c.at(d.prob, *at) if at else d.prob
    inside = c.all(ins(p), ins(q))
    return c.ite(inside, c.eq(g, t), zero(g)) if c.symbolic else (c.eq(g, t) if inside else zero(g))
  c.check('entry', c.forall((m if succ == 'array' else 1, n if pred == 'array' else 1), entry))
  if succ == 'array' and pred == 'array':
    c.check('shape', c.all(c.eq(c.shape(d.prob)[0], m), c.eq(c.shape(d.prob)[1], n), d.dims[X1] == 0, d.dims[X] == 1))


for _s in ('one', 'log', 'offset'):
  for _p, _q in (('scalar', 'scalar'), ('array', 'scalar'), ('scalar', 'array'), ('array', 'array')):
    instance('C18', scalar_tran, scale=_s, pred=_p, succ=_q)


@obligation('C18')
def scalar_level(c):
  """a successor sampled at level u under a scalar transitional lies at the
  fraction u of the interval, in transformed space where there is one"""
  import sympy
  RV = c.mod('rv').RV
  k = c.choice('ufun', ['none', 'exp', 'nocov'])
  u = c.real('u', lo=0., hi=1.)
  if k == 'exp':
    la = c.real('la', lo=-5, hi=5)
    lb = la + c.real('lw', lo=2.**-6, hi=5)
    a, b = c.exp(la), c.exp(lb)
  else:
    a = c.real('a', lo=1., hi=100)
    b = a + c.real('w', lo=2.**-6, hi=100)
  x = RV(X, vset=[a, b], vtype=float)
  if k == 'exp':
    x.set_ufun(sympy.log(x[:]))
  elif k == 'nocov':
    x.set_ufun(2 * x[:], no_ucov=True)
  x.set_tran(1.)
  d = x.step(a, {u})
  if k == 'exp':
    c.check('level', c.eq(d[X1], c.exp(la + c.mul(u, lb - la))))
  else:
    c.check('level', c.eq(d[X1], a + c.mul(u, b - a)))


def callable_tran(c, scale, pred, succ):
  """a callable transitional is evaluated for every pair of predecessor and
  successor; of a pair the second serves reverse transitions"""
  RV = c.mod('rv').RV
  ps = pscale(c, scale)
  k, j = c.real('k', lo=-5, hi=5), c.real('j', lo=-5, hi=5)
  f = lambda succ, pred: succ * k + pred * j
  g = lambda succ, pred: succ * j - pred
  x = RV(X, vset=[-10., 10.], vtype=float, pscale=ps)
  multi = c.choice('multi', [False, True])
  x.set_tran((f, g) if multi else f, order={X: 'pred', X1: 'succ'})
  n, m = c.extent('n'), c.extent('m')
  vp = c.array('p', (n,), lo=-10, hi=10) if pred == 'array' else c.real('p', lo=-10, hi=10)
  vq = c.array('q', (m,), lo=-10, hi=10) if succ == 'array' else c.real('q', lo=-10, hi=10)
  rev = c.choice('reverse', [False, True])
  d = x.step(vp, vq, reverse=rev)

  def entry(i, l):
    at = ([i] if succ == 'array' else []) + ([l] if pred == 'array' else [])
    q = c.at(vq, i) if succ == 'array' else vq
    p = c.at(vp, l) if pred == 'array' else vp
    v = c.at(d.prob, *at) if at else d.prob
    want = q * j - p if rev and multi else q * k + p * j
    return c.eq(v, want)
  c.check('entry', c.forall((m if succ == 'array' else 1, n if pred == 'array' else 1), entry))
  c.check('names', list(d.marg) == [X1] and list(d.cond) == [X] and c.eq(d.pscale, ps))


for _p, _q in (('scalar', 'scalar'), ('array', 'scalar'), ('scalar', 'array'), ('array', 'array')):
  instance('C18', callable_tran, scale='log', pred=_p, succ=_q)


@obligation('C18')
def callable_sample(c):
  """successors under a callable transitional are the inverse conditional CDF
  at the level given, or at levels between the conditional CDF of the limits"""
  RV = c.mod('rv').RV
  a = c.real('a', lo=-100, hi=100)
  w = c.real('w', lo=1., hi=100)
  x = RV(X, vset=[a, a + w], vtype=float)
  x.set_tran(lambda succ, pred: succ * 0. + 1., order={X: 'pred', X1: 'succ'})
  k = c.real('k', lo=2.**-6, hi=5)
  # the CDF and its inverse are arbitrary increasing linear functions here
  x.set_tfun((lambda succ, pred: succ * k + pred, lambda succ, pred: (succ - pred) * 2. + k),
             order={X: 'pred', X1: 'succ'})
  who = c.choice('who', ['variable', 'field'])
  step = _stepper(c, x, who)
  p = c.real('p', lo=-100, hi=100)
  how = c.choice('how', ['level', 'spaced', 'random', 'randoms'][who == 'field':])
  if how == 'level':
    u = c.real('u', lo=0., hi=1.)
    d = step(p, {u})
    c.check('level', c.eq(c.at(d[X1], 0), (u - p) * 2. + k))
  else:
    lo, hi = c.mul(a, k) + p, c.mul(a + w, k) + p
    inv = lambda u: (u - p) * 2. + k
    d = step(p, {dict(spaced=3, random=0, randoms=-3)[how]})
    s = d[X1]
    if how == 'spaced':
      c.check('spaced', c.all(c.eq(c.at(s, 0), inv(lo)), c.eq(c.at(s, 2), inv(hi)),
                              c.eq(c.at(s, 1), inv((lo + hi) * .5))))
    else:
      for v in [s] if how == 'random' else [c.at(s, i) for i in range(3)]:
        c.check('random', c.all(c.le(inv(lo), v, 1e-9), c.le(v, inv(hi), 1e-9)))
  c.check('pred', c.eq(d[X], p))


@obligation('C18')
def uniform_function(c):
  """uniform_prob is constant over the set or interval given and zero elsewhere"""
  f = c.mod('rv_utils').uniform_prob
  kind = c.choice('kind', ['interval', 'set'])
  log = c.choice('log', [False, True])
  kw = dict(pscale=0j) if log else {}
  zero = (lambda v: c.le(v, -1e300)) if log else (lambda v: c.eq(v, 0.))
  t = c.real('t', lo=2.**-10, hi=20)
  n = c.extent('n')
  if kind == 'interval':
    a = c.real('a', lo=-100, hi=100)
    b = a + c.real('w', lo=1., hi=100)
    lims = [b, a] if c.choice('swap', [False, True]) else [a, b]
    q = c.array('q', (n,), lo=-300, hi=300)
    v = c.real('v', lo=-300, hi=300)
    ins = lambda e: c.all(c.le(a, e), c.le(e, b))
  else:
    lims = [c.int('u0', lo=-9, hi=9), c.int('u1', lo=-9, hi=9)]
    q = c.array('q', (n,), kind='i', lo=-9, hi=9)
    v = c.int('v', lo=-9, hi=9)
    ins = lambda e: c.any(c.same(e, lims[0]), c.same(e, lims[1]))
  r = f(q, prob=t, inside=lims, **kw)
  ok = lambda g, e: (c.ite(ins(e), c.eq(g, t), zero(g)) if c.symbolic else c.eq(g, t) if ins(e) else zero(g))
  c.check('array', c.forall(n, lambda i: ok(c.at(r, i), c.at(q, i))))
  c.check('scalar', ok(f(v, prob=t, inside=lims, **kw), v))
  d = f(v, inside=lims, **kw)
  c.check('default', c.implies(ins(v), c.eq(d, 0. if log else 1.)))
