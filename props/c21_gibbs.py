"""C21: conditional sampling of fields."""
import collections
import numpy as np
from pv.engine import obligation, instance
from pv import terms as T
from pv.values import SymArray, to_poly, to_array, wrap, elementwise, num_of, is_sym


class Normal:
  """scipy.stats.norm: an increasing distribution function of the deviate from
  loc in units of scale, with values between 0 and 1, and its inverse"""

  def __init__(self, c):
    self.c = c
    self.p, self.q = [], []
    reg = c.path.reg
    reg.app['Phi'] = self._phi
    reg.app['PhiInv'] = self._inv

  def _pair(self, a, b):
    """a = (d, s) of Phi, b = (p, s) of PhiInv"""
    f, g = T.app('Phi', a), T.app('PhiInv', b)
    same = T.eq(a[1], b[1])
    return [T.implies(T.band(same, T.le(f, b[0])), T.le(a[0], g)),
            T.implies(T.band(same, T.le(b[0], f)), T.le(g, a[0]))]

  def _phi(self, a):
    f = T.app('Phi', a)
    out = [T.le(T.ZERO, f), T.le(f, T.ONE)]
    for b in self.p:
      g = T.app('Phi', b)
      same = T.eq(a[1], b[1])
      out += [T.implies(T.band(same, T.le(a[0], b[0])), T.le(f, g)),
              T.implies(T.band(same, T.le(b[0], a[0])), T.le(g, f))]
    for b in self.q:
      out += self._pair(a, b)
    if a not in self.p:
      self.p.append(a)
    return out

  def _inv(self, b):
    out = []
    g = T.app('PhiInv', b)
    for a in self.p:
      out += self._pair(a, b)
    for a in self.q:
      f = T.app('PhiInv', a)
      out += [T.implies(T.band(T.eq(a[0], b[0]), T.eq(a[1], b[1])), T.eq(f, g))]
    if b not in self.q:
      self.q.append(b)
    return out

  def _map(self, f, x, *args):
    ar = [to_poly(a) for a in args]
    if type(x) is SymArray or isinstance(x, (np.ndarray, list, tuple)):
      return elementwise(lambda e: f(num_of(e), *ar), 'f', to_array(x))
    return wrap(f(to_poly(x), *ar), 'f', True)

  def cdf(self, x, loc=0., scale=1.):
    return self._map(lambda v, l, s: T.app('Phi', (T.sub(v, l), s)), x, loc, scale)

  def ppf(self, q, loc=0., scale=1.):
    return self._map(lambda v, l, s: T.add(l, T.app('PhiInv', (v, s))), q, loc, scale)


class _Stats:
  pass


def normal_dist(c):
  """the standard library's norm, or its contract in symbolic runs"""
  if not c.symbolic:
    import scipy.stats
    return scipy.stats.norm
  n = Normal(c)
  mod = _Stats()
  mod.stats = _Stats()
  mod.stats.norm = n
  c.stub('cond_cov', 'scipy', mod)
  return n


def _moments(c, n):
  """mean, positive definite covariance, limits"""
  mean = [c.real('m%d' % i, lo=-2, hi=2) for i in range(n)]
  cov = [[None] * n for _ in range(n)]
  for i in range(n):
    for j in range(i + 1):
      cov[i][j] = cov[j][i] = c.real('v%d' % i, lo=.25, hi=4) if i == j else \
          c.real('c%d%d' % (i, j), lo=-2, hi=2)
  lims = []
  for i in range(n):
    lo = c.real('l%d' % i, lo=-3, hi=0)
    lims.append([lo, c.real('h%d' % i, lo=0.5, hi=3)])
  return mean, cov, lims


def _cond(c, mean, cov, vals, i):
  """conditional mean and variance of variable i given the others"""
  n = len(mean)
  rest = [j for j in range(n) if j != i]
  if n == 1:
    return mean[0], cov[0][0]
  if n == 2:
    j, = rest
    b = c.div(cov[i][j], cov[j][j])
    return mean[i] + c.mul(b, vals[j] - mean[j]), cov[i][i] - c.mul(b, cov[i][j])
  j, k = rest
  det = c.mul(cov[j][j], cov[k][k]) - c.mul(cov[j][k], cov[j][k])
  bj = c.div(c.mul(cov[i][j], cov[k][k]) - c.mul(cov[i][k], cov[j][k]), det)
  bk = c.div(c.mul(cov[i][k], cov[j][j]) - c.mul(cov[i][j], cov[j][k]), det)
  m = mean[i] + c.mul(bj, vals[j] - mean[j]) + c.mul(bk, vals[k] - mean[k])
  return m, cov[i][i] - c.mul(bj, cov[i][j]) - c.mul(bk, cov[i][k])


def _posdef(c, cov):
  n = len(cov)
  for i in range(n):
    for j in range(i):
      c.assume(c.le(.01, c.mul(cov[i][i], cov[j][j]) - c.mul(cov[i][j], cov[i][j])))
  if n == 3:
    a, b, d = cov[0][0], cov[1][1], cov[2][2]
    x, y, z = cov[0][1], cov[0][2], cov[1][2]
    det = c.mul(a, c.mul(b, d) - c.mul(z, z)) - c.mul(x, c.mul(x, d) - c.mul(y, z)) + \
        c.mul(y, c.mul(x, z) - c.mul(b, y))
    c.assume(c.le(.01, det))


def cond_sample(c, n, i, how):
  """a variable sampled conditionally lies within its limits, at the level drawn
  of its normal distribution given the other values, truncated to the limits"""
  CondCov = c.mod('cond_cov').CondCov
  norm = normal_dist(c)
  mean, cov, lims = _moments(c, n)
  _posdef(c, cov)
  cc = CondCov(c.stack(mean), c.stack(cov), c.stack(lims))
  vals = [None if j == i else c.real('x%d' % j, lo=-3, hi=3) for j in range(n)]
  m, s2 = _cond(c, mean, cov, vals, i)
  s = c.np().sqrt(s2)
  lo, hi = lims[i]
  if not c.symbolic:  # representable probabilities of the limits
    c.assume(abs(lo - m) < 5 * s and abs(hi - m) < 5 * s)
  num = {'random': 0, 'randoms': -2, 'many': 3}[how]
  v = cc.interp(*[{num} if j == i else vals[j] for j in range(n)])
  pl, ph = norm.cdf(lo, loc=m, scale=s), norm.cdf(hi, loc=m, scale=s)
  if how == 'random':
    a, b, u = c.draw()
    c.check('scalar', c.is_scalar(v))
    c.check('uniform', c.all(c.eq(a, pl), c.eq(b, ph)))
    c.check('level', c.eq(v, norm.ppf(u, loc=m, scale=s)))
    c.check('limits', c.all(c.le(lo, v, 1e-6), c.le(v, hi, 1e-6)))
    return
  k = abs(num)
  c.check('number', c.eq(c.shape(v)[0], k))
  for e in range(k):
    if how == 'many':
      u = pl + c.mul(ph - pl, e / 2.)
    else:
      a, b, us = c.draw()
      c.check('uniform', c.all(c.eq(a, pl), c.eq(b, ph)))
      u = c.at(us, e)
    w = c.at(v, e)
    c.check('level', c.eq(w, norm.ppf(u, loc=m, scale=s), 1e-6))
    c.check('limits', c.all(c.le(lo, w, 1e-6), c.le(w, hi, 1e-6)))


for _n in (2, 3):
  for _i in range(_n):
    for _h in ('random', 'randoms', 'many'):
      if _n < 3 or _h == 'random':
        instance('C21', cond_sample, n=_n, i=_i, how=_h, tag='%d,%d,%s' % (_n, _i, _h), bounded='%d variables' % _n)


def unknowns(c):
  """exactly one variable is sampled at a time"""
  CondCov = c.mod('cond_cov').CondCov
  normal_dist(c)
  mean, cov, lims = _moments(c, 2)
  _posdef(c, cov)
  cc = CondCov(c.stack(mean), c.stack(cov), c.stack(lims))
  c.rejects('none', lambda: cc.interp(c.real('x', lo=-3, hi=3), 1.))
  c.rejects('both', lambda: cc.interp({0}, {0}))


instance('C21', unknowns, bounded='2 variables')


NAMES = ['x', 'xy', 'y', 'yx']


def _field(c, n, **kw):
  RV, RF = c.mod('rv').RV, c.mod('rf').RF
  return RF(*[RV(v, vtype=float, vset=(-100., 100.)) for v in NAMES[:n]])


def _preds(c, n):
  p = {v: c.real('p_' + v, lo=-1, hi=1) for v in NAMES[:n]}
  order = c.choice('order', [0, 1])
  return p, collections.OrderedDict((v, p[v]) for v in (NAMES[:n] if order else NAMES[:n][::-1]))


def _update(c, names):
  """a function of the other values of each variable"""
  a = {v: c.real('a_' + v, lo=-2, hi=2) for v in names}
  b = {v: c.real('b_' + v, lo=-2, hi=2) for v in names}

  def value(vals, unknown):
    r = b[unknown]
    for k, v in enumerate(names):
      if v != unknown:
        r = r + c.mul(a[unknown] + k, vals[v])
    return r
  return value


def each_in_turn(c, n, tsteps, by):
  """variables are replaced one after another, each given the latest values of
  all the others, tsteps of them at a time in the order of the field"""
  names = NAMES[:n]
  f = _field(c, n)
  p, given = _preds(c, n)
  value = _update(c, names)
  shift = c.real('shift', lo=-1, hi=1)

  def cond(unknown=None, shift=None, **kwds):
    return value(kwds, unknown) + shift
  kw = {'tsteps': tsteps} if tsteps else {}
  f.set_tfun(cond, shift=shift, **kw)
  cur, at = dict(p), 0
  k = tsteps or n
  for _ in range(2 * -(-n // k) + 1):
    if by == 'step':
      d = f.step(given, {0}) if c.choice('given%d' % _, [0, 1]) else f.step(given)
      c.check('names', set(d.marg) == {v + "'" for v in names} and set(d.cond) == set(names))
      for v in names:
        c.check('pred', c.eq(d[v], cur[v]))
      c.check('certain', c.eq(d.prob, 1.))
      new = {v: d[v + "'"] for v in names}
    else:
      out = f.eval_tfun(given)
      c.check('names', set(out) == set(names))
      new = {v: out[v] for v in names}
    for v in names[at:at + k]:
      cur[v] = value(cur, v) + shift
    at = 0 if at + k >= n else at + k
    for v in names:
      c.check('succ', c.eq(new[v], cur[v]))
    if by == 'step':  # keep values within the domain
      p = {v: c.real('p%d_%s' % (_, v), lo=-1, hi=1) for v in names}
      cur = dict(p)
    given = collections.OrderedDict((v, cur[v]) for v in given)


for _n in (2, 3):
  for _t in [None] + list(range(1, _n)):
    for _by in ('step', 'eval'):
      instance('C21', each_in_turn, n=_n, tsteps=_t, by=_by, tag='%d,%s,%s' % (_n, _t, _by), bounded='%d variables' % _n)


MOMENTS = {2: ([[0.5, -1.], [[2., .5], [.5, 1.]]], [[0., 0.], [[1., -.75], [-.75, 2.]]]),
           3: ([[0.5, -1., 0.], [[1., .25, .5], [.25, 2., -.5], [.5, -.5, 1.]]],)}


def cond_contract(c, norm):
  """CondCov, see cond_sample: one value drawn"""
  class CondCov:
    def __init__(self, mean, cov, lims):
      self.mean, self.cov, self.lims = [float(m) for m in mean], [[float(e) for e in r] for r in cov], np.array(lims)

    def interp(self, *args, cond_pdf=False):
      i = [k for k, a in enumerate(args) if isinstance(a, set)]
      c.check('pre:CondCov', len(i) == 1 and len(args) == len(self.mean) and args[i[0]] == {0} and not cond_pdf)
      i = i[0]
      vals = [None if k == i else c.at(a) for k, a in enumerate(args)]
      m, s2 = _cond(c, self.mean, self.cov, vals, i)
      s = c.np().sqrt(s2)
      lo, hi = [norm.cdf(float(self.lims[i][e]), loc=m, scale=s) for e in (0, 1)]
      return norm.ppf(c.np().random.uniform(lo, hi), loc=m, scale=s)
  return CondCov


def normal_field(c, n, k, tsteps):
  """a field of multivariate normal transition steps by sampling its variables
  from their conditional distributions given the latest values of the others"""
  import scipy.stats
  norm = normal_dist(c)
  if c.symbolic:
    c.stub('rf', 'CondCov', cond_contract(c, norm))
  RV, RF = c.mod('rv').RV, c.mod('rf').RF
  names = NAMES[:n]
  mean, cov = MOMENTS[n][k]
  lims = {v: (-3. - i / 4., 2. + i / 4.) for i, v in enumerate(names)}
  f = RF(*[RV(v, vtype=float, vset=lims[v]) for v in names])
  kw = {'tsteps': tsteps} if tsteps else {}
  if c.choice('was', [False, True]):  # another transition before, used
    f.set_tran(scipy.stats.multivariate_normal, [0.] * n, np.eye(n).tolist())
    f.step({v: -1. for v in names}, {0})
  f.set_tran(scipy.stats.multivariate_normal, mean, cov, **kw)
  base = c.ndraws()
  p = {v: c.real('p_' + v, lo=-3, hi=2) for v in names}
  given = collections.OrderedDict((v, p[v]) for v in (names if c.choice('order', [0, 1]) else names[::-1]))
  d = f.step(given, {0}) if c.choice('given', [0, 1]) else f.step(given)
  cur = dict(p)
  for i, v in enumerate(names):
    w = d[v + "'"]
    if i >= (tsteps or n):
      c.check('kept', c.eq(w, p[v]))
      continue
    m, s2 = _cond(c, mean, cov, [cur[u] for u in names], i)
    s = c.np().sqrt(s2)
    lo, hi = lims[v]
    if not c.symbolic:
      c.assume(abs(lo - m) < 5 * s and abs(hi - m) < 5 * s)
    c.check('drawn', c.draw(base + i) is not None)
    a, b, u = c.draw(base + i)
    c.check('uniform', c.all(c.eq(a, norm.cdf(lo, loc=m, scale=s)), c.eq(b, norm.cdf(hi, loc=m, scale=s))))
    c.check('level', c.eq(w, norm.ppf(u, loc=m, scale=s)))
    c.check('limits', c.all(c.le(lo, w, 1e-6), c.le(w, hi, 1e-6)))
    cur[v] = w
  for v in names:
    c.check('pred', c.eq(d[v], p[v]))
  c.check('names', set(d.marg) == {v + "'" for v in names} and set(d.cond) == set(names))


for _n in (2, 3):
  for _k in range(len(MOMENTS[_n])):
    for _t in (None, 1):
      instance('C21', normal_field, n=_n, k=_k, tsteps=_t, tag='%d,%d,%s' % (_n, _k, _t), bounded='%d variables, fixed moments' % _n)
