"""C01-C03: probability scales."""
import math
from pv.engine import obligation, instance, TINY
from props._contracts import rescale_contract

LOGMAX = math.log(1.7976931348623157e+308)


def scale(c, name, kind, B=200, O=300):
  """a scale of the given kind -> (scale, log-offset term); linear scales are
  positive floats, log scales complex numbers (offset negated when the
  imaginary part is non-zero)"""
  if kind == 'lin':
    s = c.real(name, lo=2.**-B, hi=2.**B)
    return s, c.log(s)
  re = c.real(name + '_re', lo=-O, hi=O)
  if kind == 'log':
    return c.cplx(re, 0.), re
  im = c.real(name + '_im', lo=1e-6, hi=10)
  if kind == 'neg+':
    return c.cplx(re, im), -re
  return c.cplx(re, -im), -re


KINDS = ['lin', 'log', 'neg+', 'neg-']


@obligation('C01')
def eval_real(c):
  """evaluating a positive real scale returns that scale, as a linear one"""
  ps = c.mod('pscales')
  s = c.real('s', lo=2.**-200, hi=2.**200)
  r = ps.eval_pscale(s)
  c.check('linear', not c.is_complex(r))
  c.check('value', c.eq(r, s))
  k = c.int('k', lo=1, hi=10**9)
  rk = ps.eval_pscale(k)
  c.check('linear-int', not c.is_complex(rk))
  c.check('value-int', c.eq(rk, k))


@obligation('C01')
def eval_complex(c):
  """evaluating any complex scale keeps it logarithmic with the same offset"""
  ps = c.mod('pscales')
  re = c.real('re', lo=-300, hi=300)
  im = c.real('im', lo=-10, hi=10)
  r = ps.eval_pscale(c.cplx(re, im))
  c.check('log', c.is_complex(r))
  c.check('value', c.eq(r, c.cplx(re, im)))


@obligation('C01')
def eval_named(c):
  """None is linear 1; 'log', 'ln', 0 and 0. are the log scale with offset 0"""
  ps = c.mod('pscales')
  r = ps.eval_pscale(None)
  c.check('none', not c.is_complex(r) and r == 1.)
  for z in ('log', 'ln', 0, 0., 0j):
    r = ps.eval_pscale(z)
    c.check('zero', c.is_complex(r) and r == 0j)
  one = ps.eval_pscale(1)
  c.check('one', not c.is_complex(one) and one == 1.)
  for bad in ('lin', 'x', (1., 2.), [0.]):
    c.rejects('reject', lambda: ps.eval_pscale(bad), ValueError)


@obligation('C01')
def offsets(c):
  """the log offset and the coefficient of a scale agree: coef = exp(offset)"""
  ps = c.mod('pscales')
  kind = c.choice('kind', KINDS)
  s, off = scale(c, 's', kind)
  c.check('offset', c.eq(ps.logp_offs(s), off))
  k = ps.prob_coef(s)
  if kind == 'lin':
    c.check('coef', c.eq(k, s))
  else:
    c.check('coef', c.eq(k, c.exp(off)))


def _shape(c, rank):
  return tuple(c.extent('n%d' % i) for i in range(rank))


def _log_spec(c, p, r):
  return c.all(c.implies(c.le(TINY, p), c.eq(r, c.log(p))),
               c.implies(c.lt(p, TINY), c.all(c.eq(c.exp(r), 0.), c.lt(r, -1e300))))


@obligation('C01', bounded='array rank <= 3')
def log_of_prob(c):
  """log_prob is the logarithm where the probability is representable and
  stands for probability zero (finite, exponentiating to 0) elsewhere"""
  ps = c.mod('pscales')
  rank = c.choice('rank', [0, 1, 2, 3])
  if rank == 0:
    p = c.real('p0', lo=0, np_=c.choice('np', [False, True]))
    c.check('scalar', _log_spec(c, p, ps.log_prob(p)))
    return
  sh = _shape(c, rank)
  p = c.array('p', sh, lo=0)
  q = c.copy(p)
  r = ps.log_prob(p)
  c.check('shape', c.all(*[c.eq(a, b) for a, b in zip(c.shape(r), sh)]))
  c.check('element', c.forall(sh, lambda *i: _log_spec(c, c.at(p, *i), c.at(r, *i))))
  c.check('frame', c.forall(sh, lambda *i: c.eq(c.at(p, *i), c.at(q, *i))))


def _exp_spec(c, v, r):
  return c.all(c.implies(c.le(v, 700.), c.eq(r, c.exp(v))),
               c.implies(c.lt(709.79, v), c.lt(1e300, r)))


@obligation('C01', bounded='array rank <= 3')
def exp_of_logp(c):
  """exp_logp is the exponential, saturating instead of overflowing"""
  ps = c.mod('pscales')
  rank = c.choice('rank', [0, 1, 2, 3])
  if rank == 0:
    v = c.real('v0', lo=-2000, hi=2000, np_=c.choice('np', [False, True]))
    c.check('scalar', _exp_spec(c, v, ps.exp_logp(v)))
    return
  sh = _shape(c, rank)
  v = c.array('v', sh, lo=-2000, hi=2000)
  w = c.copy(v)
  r = ps.exp_logp(v)
  c.check('shape', c.all(*[c.eq(a, b) for a, b in zip(c.shape(r), sh)]))
  c.check('element', c.forall(sh, lambda *i: _exp_spec(c, c.at(v, *i), c.at(r, *i))))
  c.check('frame', c.forall(sh, lambda *i: c.eq(c.at(v, *i), c.at(w, *i))))


def _resc_elem(c, v, r, k1, k2, s1, o1, s2, o2):
  if k1 == 'lin' and k2 == 'lin':
    return c.eq(c.mul(s2, r), c.mul(s1, v))
  if k1 == 'lin':
    return c.all(c.implies(c.le(TINY, v), c.close(r + o2, c.log(v) + o1, 1e-300)),
                 c.implies(c.lt(v, TINY), c.eq(c.exp(r), 0.)))
  if k2 == 'lin':
    return c.eq(r, c.exp(v + o1 - o2))
  return c.close(r + o2, v + o1, 1e-300)


@obligation('C01', bounded='array rank <= 2', weight=2.)
def rescale_denotation(c):
  """rescale(v, s1, s2) is the value which, read on scale s2, denotes the same
  probability as v read on scale s1; shape kept, argument untouched"""
  ps = c.mod('pscales')
  k1 = c.choice('k1', KINDS)
  k2 = c.choice('k2', KINDS)
  s1, o1 = scale(c, 's1', k1)
  s2, o2 = scale(c, 's2', k2)
  rng = dict(lo=0, hi=2.**100) if k1 == 'lin' else dict(lo=-80, hi=60)
  if k1 != 'lin' and k2 == 'lin':
    c.assume(c.all(c.le(o1 - o2, 500.), c.le(-500., o1 - o2)))
  if k1 != 'lin' or k2 != 'lin':
    # offsets are equal or differ by a normal number
    c.assume(c.any(c.same(o1, o2), c.le(1e-300, o1 - o2), c.le(1e-300, o2 - o1)))
  rank = c.choice('rank', [0, 1, 2])
  if rank == 0:
    v = c.real('v', **rng)
    r = ps.rescale(v, s1, s2)
    c.check('scalar', _resc_elem(c, v, r, k1, k2, s1, o1, s2, o2))
    return
  sh = _shape(c, rank)
  v = c.array('v', sh, **rng)
  w = c.copy(v)
  r = ps.rescale(v, s1, s2)
  c.check('shape', c.all(*[c.eq(a, b) for a, b in zip(c.shape(r), sh)]))
  c.check('element', c.forall(sh, lambda *i: _resc_elem(c, c.at(v, *i), c.at(r, *i), k1, k2, s1, o1, s2, o2)))
  c.check('frame', c.forall(sh, lambda *i: c.eq(c.at(v, *i), c.at(w, *i))))


@obligation('C01')
def rescale_defaults(c):
  """with one scale the source scale is linear 1; with none, nothing changes"""
  ps = c.mod('pscales')
  n = c.extent('n')
  v = c.array('v', (n,), lo=0, hi=1e6)
  r = ps.rescale(v)
  c.check('none', c.forall(n, lambda i: c.eq(c.at(r, i), c.at(v, i))))
  s, o = scale(c, 's', c.choice('k', KINDS[:2]))
  a = ps.rescale(v, s)
  b = ps.rescale(v, 1., s)
  d = ps.rescale(v, None, s)
  c.check('one', c.forall(n, lambda i: c.all(c.eq(c.at(a, i), c.at(b, i)), c.eq(c.at(a, i), c.at(d, i)))))


@obligation('C01')
def rescale_roundtrip(c):
  """linear -> any scale -> linear gives the probability back (0 stays 0)"""
  ps = c.mod('pscales')
  n = c.extent('n')
  p = c.array('p', (n,), lo=0, hi=1e6, where=lambda e, i: c.any(c.same(e, 0), c.le(1e-100, e)))
  k = c.choice('k', KINDS)
  s, o = scale(c, 's', k)
  if k != 'lin':
    c.assume(c.any(c.same(o, 0), c.le(1e-300, o), c.le(o, -1e-300)))
  r = ps.rescale(ps.rescale(p, None, s), s, None)
  c.check('back', c.forall(n, lambda i: c.eq(c.at(r, i), c.at(p, i))))
  z = c.real('z', lo=1e-100, hi=1e6)
  y = ps.rescale(ps.rescale(z, None, s), s, None)
  c.check('back-scalar', c.eq(y, z))


@obligation('C01')
def rescale_monotone(c):
  """rescaling never reverses the order of two probabilities"""
  ps = c.mod('pscales')
  k1 = c.choice('k1', KINDS)
  k2 = c.choice('k2', KINDS)
  s1, o1 = scale(c, 's1', k1)
  s2, o2 = scale(c, 's2', k2)
  rng = dict(lo=0, hi=2.**100) if k1 == 'lin' else dict(lo=-80, hi=60)
  if k1 != 'lin' and k2 == 'lin':
    c.assume(c.all(c.le(o1 - o2, 500.), c.le(-500., o1 - o2)))
  if k1 != 'lin' or k2 != 'lin':
    # offsets are equal or differ by a normal number
    c.assume(c.any(c.same(o1, o2), c.le(1e-300, o1 - o2), c.le(1e-300, o2 - o1)))
  n = c.extent('n')
  v = c.array('v', (n,), **rng)
  r = ps.rescale(v, s1, s2)
  c.check('order', c.forall((n, n), lambda i, j: c.implies(
      c.le(c.at(v, i), c.at(v, j)), c.le(c.at(r, i), c.at(r, j), tol=1e-9))))


@obligation('C01')
def rescale_integers(c):
  """integer arrays are rescaled as the reals they denote"""
  ps = c.mod('pscales')
  n = c.extent('n')
  v = c.array('v', (n,), lo=0, hi=1000, kind='i')
  s = c.real('s', lo=2.**-100, hi=2.**100)
  r = ps.rescale(v, 1., s)
  c.check('lin', c.forall(n, lambda i: c.eq(c.mul(s, c.at(r, i)), c.at(v, i))))
  q = ps.rescale(v, 1., 0j)
  c.check('log', c.forall(n, lambda i: c.implies(c.le(1, c.at(v, i)), c.eq(c.at(q, i), c.log(c.at(v, i))))))


@obligation('C01')
def safe_sqrt(c):
  """real_sqrt squares back to its argument and is 0 for values <= 0"""
  ps = c.mod('pscales')
  n = c.extent('n')
  v = c.array('v', (n,), lo=-100, hi=1e9, where=lambda e, i: c.any(c.le(e, 0), c.le(1e-200, e)))
  r = ps.real_sqrt(v)
  spec = lambda x, y: c.all(c.implies(c.lt(0, x), c.all(c.lt(0, y), c.eq(c.mul(y, y), x))),
                            c.implies(c.le(x, 0), c.eq(y, 0)))
  c.check('elem', c.forall(n, lambda i: spec(c.at(v, i), c.at(r, i))))
  x = c.real('x', lo=-100, hi=1e9)
  c.assume(c.any(c.le(x, 0), c.le(1e-200, x)))
  c.check('scalar', spec(x, ps.real_sqrt(x)))


# ---------------------------------------------------------------- C02
def _combos(c, m):
  return [scale(c, 's%d' % i, c.choice('k%d' % i, KINDS[:3])) + (i,) for i in range(m)]


def scale_product(c, m, nk):
  """the scale of a product carries the sum of the factors' log offsets (the
  product of their coefficients when all are linear)"""
  ps = c.mod('pscales')
  kinds = [c.choice('k%d' % i, KINDS[:nk]) for i in range(m)]
  ss = [scale(c, 's%d' % i, k) for i, k in enumerate(kinds)]
  use = c.choice('use', [None, True, False])
  r = ps.prod_pscale([s for s, _ in ss], use) if use is not None else ps.prod_pscale([s for s, _ in ss])
  want_log = use if use is not None else any(k != 'lin' for k in kinds)
  c.check('kind', c.is_complex(r) == want_log)
  tot = 0.
  for s, o in ss:
    tot = tot + o
  if want_log:
    c.check('offset', c.close(ps.logp_offs(r), tot, 1e-300))
  else:
    e = 1.
    for (s, o), k in zip(ss, kinds):
      e = c.mul(e, s if k == 'lin' else c.exp(o))
    c.check('coef', c.eq(r, e))


def _prod_spec(c, vals, ss, kinds, r, rs_, rk, ro):
  """r on scale (rk, ro) denotes the product of vals on their scales"""
  logs = [k != 'lin' for k in kinds]
  if rk == 'lin' and any(logs):
    tot, nz, z = -ro, [], []
    for v, (s, o), k in zip(vals, ss, kinds):
      tot = tot + o + (c.log(v) if k == 'lin' else v)
      if k == 'lin':
        nz.append(c.lt(0, v))
        z.append(c.same(v, 0))
    return c.all(c.implies(c.all(*nz), c.eq(r, c.exp(tot))), c.implies(c.any(*z), c.eq(r, 0)))
  if rk == 'lin':
    e = 1.
    for v, (s, o), k in zip(vals, ss, kinds):
      e = c.mul(e, c.mul(s, v) if k == 'lin' else c.exp(v + o))
    return c.eq(c.mul(rs_, r), e)
  tot = 0.
  zero = []
  for v, (s, o), k in zip(vals, ss, kinds):
    if k == 'lin':
      tot = tot + c.log(v) + o
      zero.append(c.le(TINY, v))
    else:
      tot = tot + v + o
  return c.implies(c.all(*zero), c.close(r + ro, tot, 1e-290))


def _values(c, i, k, sh, zero=True):
  rng = dict(lo=0, hi=2.**60) if k == 'lin' else dict(lo=-60, hi=40)
  # linear probabilities are 0 or not so small that a product underflows
  if sh is None:
    v = c.real('v%d' % i, **rng)
    if k == 'lin':
      c.assume(c.any(c.same(v, 0) if zero else False, c.le(2.**-100, v)))
    return v
  if k == 'lin':
    rng['where'] = lambda e, i: c.any(c.same(e, 0), c.le(2.**-100, e))
  return c.array('v%d' % i, sh, **rng)


def product_rule(c, m, nk, arr, unit=False):
  """prod_rule returns the product of the denoted probabilities on the scale
  that it reports, for any mixture of linear and log scaled factors"""
  ps = c.mod('pscales')
  kinds = [c.choice('k%d' % i, KINDS[:nk]) for i in range(m)]
  ss = [scale(c, 's%d' % i, k) for i, k in enumerate(kinds)] if not unit else \
       [(1., 0.) if k == 'lin' else (0j, 0.) for k in kinds]
  n = c.extent('n') if arr else None
  vals = [_values(c, i, k, (n,) if arr else None, i == 0) for i, k in enumerate(kinds)]
  p, rs_ = ps.prod_rule(*vals, pscales=[s for s, _ in ss])
  rk = 'log' if c.is_complex(rs_) else 'lin'
  c.check('kind', (rk == 'log') == any(k != 'lin' for k in kinds))
  ro = ps.logp_offs(rs_)
  if arr:
    c.check('shape', c.eq(c.shape(p)[0], n))
    c.check('element', c.forall(n, lambda i: _prod_spec(
        c, [c.at(v, i) for v in vals], ss, kinds, c.at(p, i), rs_, rk, ro)))
  else:
    c.check('scalar', _prod_spec(c, vals, ss, kinds, c.at(p), rs_, rk, ro))


for _m, _nk in ((1, 4), (2, 3), (3, 2)):
  instance('C02', scale_product, m=_m, nk=_nk, weight=2. if _m == 3 else 1., thorough=_m == 3, bounded='%d factor(s)' % _m)
  for _arr in (False, True):
    instance('C02', product_rule, m=_m, nk=_nk, arr=_arr, weight=2. if _m == 3 else 1.,
             tag='%d,%s' % (_m, 'array' if _arr else 'scalar'), thorough=_m == 3,
             bounded='%d factor(s), scalars or rank 1' % _m)


def product_rule_target(c, tk):
  """an explicitly requested output scale, or requested log output, is the one
  the product is expressed on"""
  ps = c.mod('pscales')
  m = 2
  kinds = [c.choice('k%d' % i, KINDS[:2]) for i in range(m)]
  ss = [scale(c, 's%d' % i, k, 100, 100) for i, k in enumerate(kinds)]
  n = c.extent('n')
  vals = [_values(c, i, k, (n,)) for i, k in enumerate(kinds)]
  kw = {'pscales': [s for s, _ in ss]}
  c.stub('pscales', 'rescale', rescale_contract(c))
  if tk.startswith('use'):
    kw['use_logp'] = tk == 'use-log'
    p, t = ps.prod_rule(*vals, **kw)
    tk = tk[4:]
    c.check('kind', c.is_complex(t) == (tk == 'log'))
    to = ps.logp_offs(t)
  else:
    t, to = scale(c, 't', tk, 100, 100)
    tot = ss[0][1] + ss[1][1]
    for d in (tot, tot - to):
      c.assume(c.any(c.same(d, 0), c.le(1e-300, d), c.le(d, -1e-300)))
    p, t2 = ps.prod_rule(*vals, pscale=t, **kw)
    c.check('scale', c.eq(t2, t))
  c.check('element', c.forall(n, lambda i: _prod_spec(
      c, [c.at(v, i) for v in vals], ss, kinds, c.at(p, i), t, tk, to)))


instance('C02', product_rule, m=3, nk=2, arr=True, unit=True, tag='3,unit-scales',
         bounded='3 factors, rank 1, unit scales')
for _tk in ('lin', 'log', 'use-log', 'use-lin'):
  instance('C02', product_rule_target, tk=_tk, bounded='2 factors')


@obligation('C02')
def product_rule_broadcast(c):
  """factors over different axes multiply element by element after broadcast"""
  ps = c.mod('pscales')
  n, m = c.extent('n'), c.extent('m')
  log = c.choice('log', [False, True])
  rng = dict(lo=-60, hi=40) if log else dict(lo=0, hi=2.**60)
  a = c.array('a', (n, 1), **rng)
  b = c.array('b', (1, m), **rng)
  d = c.array('d', (n, m), **rng)
  s = [0j] * 3 if log else [1.] * 3
  p, t = ps.prod_rule(a, b, d, pscales=s)
  c.check('scale', c.is_complex(t) == log and t == s[0])
  f = (lambda x, y, z: x + y + z) if log else (lambda x, y, z: c.mul(c.mul(x, y), z))
  c.check('element', c.forall((n, m), lambda i, j: c.eq(
      c.at(p, i, j), f(c.at(a, i, 0), c.at(b, 0, j), c.at(d, i, j)))))
  if not log:
    p2, t2 = ps.prod_rule(a, b, d)
    c.check('default', c.forall((n, m), lambda i, j: c.eq(c.at(p2, i, j), c.at(p, i, j))))


@obligation('C02')
def product_rule_mismatch(c):
  """a scale list of another length than the factors is rejected"""
  ps = c.mod('pscales')
  a, b = c.real('a', lo=0), c.real('b', lo=0)
  c.rejects('short', lambda: ps.prod_rule(a, b, pscales=[1.]), AssertionError, ValueError, IndexError)
  c.rejects('long', lambda: ps.prod_rule(a, b, pscales=[1., 1., 1.]), AssertionError, ValueError, IndexError)


# ---------------------------------------------------------------- C03
def _quot(c, x, kx, sx, ox, y, ky, sy, oy):
  a = c.mul(sx, x) if kx == 'lin' else c.exp(x + ox)
  b = c.mul(sy, y) if ky == 'lin' else c.exp(y + oy)
  return a, b


@obligation('C03', weight=2.)
def quotient(c):
  """div_prob returns, on the dividend's scale, the quotient of the denoted
  probabilities wherever the divisor is representable, and never divides by
  zero"""
  ps = c.mod('pscales')
  c.stub('pscales', 'rescale', rescale_contract(c))
  kx = c.choice('kx', KINDS[:3])
  ky = c.choice('ky', KINDS[:3])
  sx, ox = scale(c, 'sx', kx, 80, 60)
  sy, oy = scale(c, 'sy', ky, 80, 60)
  n = c.extent('n')
  x = c.array('x', (n,), **(dict(lo=0, hi=2.**60) if kx == 'lin' else dict(lo=-60, hi=40)))
  y = c.array('y', (n,), **(dict(lo=0, hi=2.**60) if ky == 'lin' else dict(lo=-60, hi=40)))
  r = ps.div_prob(x, y, sx, sy)
  c.check('shape', c.eq(c.shape(r)[0], n))

  def elem(i):
    a, b = _quot(c, c.at(x, i), kx, sx, ox, c.at(y, i), ky, sy, oy)
    m = c.maximum(TINY, b)
    ri = c.at(r, i)
    if kx == 'lin':
      return c.eq(c.mul(c.mul(sx, ri), m), a)
    return c.implies(c.le(2.**-900, c.div(a, m)), c.close(ri + ox, c.log(c.div(a, m)), 1e-290))
  c.check('element', c.forall(n, elem))


@obligation('C03')
def quotient_linear(c):
  """on the default linear scale the quotient times the divisor is the
  dividend; 0/0 is 0"""
  ps = c.mod('pscales')
  n, m = c.extent('n'), c.extent('m')
  x = c.array('x', (n, m), lo=0, hi=2.**60)
  y = c.array('y', (n, 1), lo=0, hi=2.**60, where=lambda e, i, j: c.any(c.same(e, 0), c.le(TINY, e)))
  r = ps.div_prob(x, y)
  c.check('element', c.forall((n, m), lambda i, j: c.all(
      c.implies(c.le(TINY, c.at(y, i, 0)), c.eq(c.mul(c.at(r, i, j), c.at(y, i, 0)), c.at(x, i, j))),
      c.implies(c.eq(c.at(x, i, j), 0), c.eq(c.at(r, i, j), 0)),
      c.le(0, c.at(r, i, j)))))


@obligation('C03')
def quotient_target(c):
  """an explicit output scale - including log offset 0 - is honoured"""
  ps = c.mod('pscales')
  c.stub('pscales', 'rescale', rescale_contract(c))
  kx = c.choice('kx', KINDS[:2])
  sx, ox = scale(c, 'sx', kx, 80, 60)
  sy, oy = scale(c, 'sy', kx, 80, 60)
  t = c.choice('t', ['zero', 'lin', 'log'])
  if t == 'zero':
    tt, to = 0j, 0.
  else:
    tt, to = scale(c, 'tt', t, 80, 60)
  x = c.real('x', **(dict(lo=2.**-60, hi=2.**60) if kx == 'lin' else dict(lo=-40, hi=40)))
  y = c.real('y', **(dict(lo=2.**-60, hi=2.**60) if kx == 'lin' else dict(lo=-40, hi=40)))
  r = ps.div_prob(x, y, sx, sy, pscale=tt)
  a, b = _quot(c, x, kx, sx, ox, y, kx, sy, oy)
  if t == 'lin':
    c.check('value', c.eq(c.mul(c.mul(tt, r), b), a))
  else:
    c.check('value', c.close(r + to, c.log(c.div(a, b)), 1e-290))


@obligation('C03')
def quotient_inverse(c):
  """dividing a product by one factor gives the other factor back"""
  ps = c.mod('pscales')
  c.stub('pscales', 'rescale', rescale_contract(c))
  n = c.extent('n')
  log = c.choice('log', [False, True])
  rng = dict(lo=-60, hi=40) if log else dict(lo=2.**-60, hi=2.**60)
  x = c.array('x', (n,), **rng)
  y = c.array('y', (n,), **rng)
  s = 0j if log else 1.
  p, t = ps.prod_rule(x, y, pscales=[s, s])
  r = ps.div_prob(p, y, t, s)
  c.check('inverse', c.forall(n, lambda i: c.eq(c.at(r, i), c.at(x, i))))
