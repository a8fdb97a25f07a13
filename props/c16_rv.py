"""C16: MCMC acceptance; C17: probabilities of random variables."""
import collections
import numpy as np
from pv.engine import obligation, instance, TINY
from props._contracts import rescale_contract, div_contract, declare
from props._pd import OD, den, pscale, is_log, SCALES

opqr = collections.namedtuple('opqr', ['o', 'p', 'q', 'r'])
stuv = collections.namedtuple('stuv', ['s', 't', 'u', 'v'])


# ---------------------------------------------------------------- C16
def _scalar(c, name, ps, lo=2.**-40):
  """a scalar distribution with a positive probability"""
  v = c.real(name, lo=-30, hi=30) if is_log(ps) else c.real(name, lo=lo, hi=1.)
  d = c.mod('pd').PD('x', {'x': c.real('x_' + name)}, prob=v, pscale=ps)
  return d, den(c, v, ps)


def metropolis_ratio(c, scale):
  """the Metropolis score is min(1, p(successor)/p(predecessor))"""
  m = c.mod('sp_utils')
  c.stub('sp_utils', 'rescale', rescale_contract(c))
  c.stub('sp_utils', 'div_prob', div_contract(c))
  ps = pscale(c, scale)
  (o, po), (p, pp) = _scalar(c, 'o', ps), _scalar(c, 'p', ps)
  s = m.metropolis_scores(opqr(o, p, None, None), pscale=ps)
  c.check('score', c.eq(s, c.minimum(1., c.div(pp, po))))
  c.check('first', m.metropolis_scores(opqr(None, p, None, None), pscale=ps) is None)


def hastings_ratio(c, scale):
  """the Metropolis-Hastings score is min(1, p(succ) q(pred|succ) / (p(pred)
  q(succ|pred)))"""
  m = c.mod('sp_utils')
  c.stub('sp_utils', 'rescale', rescale_contract(c))
  c.stub('sp_utils', 'div_prob', div_contract(c))
  ps = pscale(c, scale)
  (o, po), (p, pp), (q, pq), (r, pr) = [_scalar(c, n, ps) for n in 'opqr']
  s = m.hastings_scores(opqr(o, p, q, r), pscale=ps)
  c.check('score', c.eq(s, c.minimum(1., c.div(c.mul(pp, pr), c.mul(po, pq)))))
  s = m.hastings_scores(opqr(o, p, q, None), pscale=ps)
  c.check('symmetric', c.eq(s, c.minimum(1., c.div(pp, po))))
  c.check('first', m.hastings_scores(opqr(None, p, q, r), pscale=ps) is None)


for _s in SCALES:
  instance('C16', metropolis_ratio, scale=_s)
  instance('C16', hastings_ratio, scale=_s)


@obligation('C16')
def impossible_moves(c):
  """a successor of zero probability, or from which the predecessor cannot be
  proposed, has score zero"""
  m = c.mod('sp_utils')
  (o, po), (p, pp), (q, pq) = [_scalar(c, n, 1.) for n in 'opq']
  PD = c.mod('pd').PD
  z = PD('x', {'x': c.real('x')}, prob=0., pscale=1.)
  c.check('metropolis', c.eq(m.metropolis_scores(opqr(o, z, None, None), pscale=1.), 0.))
  c.check('hastings', c.eq(m.hastings_scores(opqr(o, z, q, q), pscale=1.), 0.))
  c.check('irreversible', c.eq(m.hastings_scores(opqr(o, p, q, z), pscale=1.), 0.))
  s = m.hastings_scores(opqr(o, p, z, c.choice('reverse', [q, None])), pscale=1.)  # a proposal that cannot be made
  c.check('limits', s is None or c.all(c.le(0., s), c.le(s, 1.)))


@obligation('C16')
def decision(c):
  """a move is accepted if and only if its score reaches the threshold, the
  first always, and Gibbs moves always"""
  m = c.mod('sp_utils')
  s, t = c.real('s', lo=0, hi=1), c.real('t', lo=0, hi=1)
  for f in (m.metropolis_update, m.hastings_update):
    got = f(stuv(s, t, None, None))
    c.check('accept', c.iff(bool(got), c.le(t, s)))
    c.check('first', bool(f(stuv(None, t, None, None))))
  c.check('gibbs', bool(m.gibbs_update(stuv(s, t, None, None))))
  for f in (m.metropolis_thresh, m.hastings_thresh):
    u = f()
    c.check('threshold', c.all(c.is_scalar(u), c.le(0., u), c.le(u, 1.)))
  c.check('table', sorted(m.MCMC_SAMPLERS) == ['gibbs', 'hastings', 'metropolis'])
  for k, v in m.MCMC_SAMPLERS.items():
    c.check('wired', v == tuple(getattr(m, '%s_%s' % (k, n)) for n in ('scores', 'thresh', 'update')))


# ---------------------------------------------------------------- C17
def _zero(c, v, ps):
  """v denotes probability zero"""
  if is_log(ps):
    return c.le(v, -1e300)
  return c.eq(v, 0.)


def _prob_is(c, got, ps, inside, want):
  return c.ite(inside, c.eq(den(c, got, ps), want), _zero(c, got, ps)) if c.symbolic else (
      c.eq(den(c, got, ps), want) if inside else _zero(c, got, ps))


def interval_default(c, scale, ka, kb):
  """without a given probability the density is one over the length inside
  the interval and zero outside"""
  c.stub('rv', 'rescale', rescale_contract(c))
  RV = c.mod('rv').RV
  a = c.real('a', lo=-1000, hi=1000)
  w = c.real('w', lo=2.**-20, hi=1000)
  ps = pscale(c, scale)
  x = declare(c, RV, float, [(a,) if ka else a, (a + w,) if kb else a + w], pscale=ps)
  c.check('pscale', c.eq(x.pscale, ps))

  def ins(v):
    return c.all(c.lt(a, v) if ka else c.le(a, v), c.lt(v, a + w) if kb else c.le(v, a + w))
  probe = c.choice('probe', ['a', 'b', 'free'])
  v = a if probe == 'a' else a + w if probe == 'b' else c.real('v', lo=-2500, hi=2500)
  d = x(v)
  c.check('scalar', c.all(_prob_is(c, d.prob, ps, ins(v), c.div(1., w)), c.eq(d['x'], v), c.eq(d.pscale, ps)))
  n = c.extent('n')
  q = c.array('q', (n,), lo=-2500, hi=2500)
  d = x(q)
  c.check('array', c.forall(n, lambda i: c.all(
      _prob_is(c, c.at(d.prob, i), ps, ins(c.at(q, i)), c.div(1., w)), c.eq(c.at(d['x'], i), c.at(q, i)))))
  c.check('name', list(d.marg) == ['x'] and not d.cond and d.dims['x'] == 0)


for _s in SCALES:
  for _a, _b in ((False, False), (True, True), (True, False)):
    instance('C17', interval_default, scale=_s, ka=_a, kb=_b, tag='%s,%s,%s' % (
        _s, 'open' if _a else 'closed', 'open' if _b else 'closed'))


def _logd_is(c, got, ps, want):
  """the probability denoted is the exponential of the floating point number want"""
  return c.close(den(c, got, ps), float(np.exp(want)), 1e-9)


def _logprob_is(c, got, ps, inside, want):
  if not c.symbolic:
    return _logd_is(c, got, ps, want) if inside else _zero(c, got, ps)
  return c.ite(inside, _logd_is(c, got, ps, want), _zero(c, got, ps))


def discrete_default(c, scale):
  """without a given probability every element of the set has probability one
  over the size of the set, and anything else has none"""
  c.stub('rv', 'rescale', rescale_contract(c))
  RV = c.mod('rv').RV
  ps = pscale(c, scale)
  k = c.choice('k', [1, 2, 3, 5])
  vs = [c.int('u0', lo=-50, hi=50)]
  for i in range(1, k):
    vs.append(vs[-1] + c.int('g%d' % i, lo=1, hi=9))
  x = declare(c, RV, int, list(vs), pscale=ps)
  ins = lambda v: c.any(*[c.same(v, u) for u in vs])
  d = x()
  c.check('all', c.all(*[c.all(c.eq(c.at(d['x'], i), vs[i]), _logd_is(c, c.at(d.prob, i), ps, -np.log(k))) for i in range(k)]))
  c.check('size', c.eq(d.size, k))
  v = c.int('v', lo=-60, hi=100)
  c.check('scalar', _logprob_is(c, x(v).prob, ps, ins(v), -np.log(k)))
  n = c.extent('n')
  q = c.array('q', (n,), kind='i', lo=-60, hi=100)
  d = x(q)
  c.check('array', c.forall(n, lambda i: _logprob_is(c, c.at(d.prob, i), ps, ins(c.at(q, i)), -np.log(k))))


for _s in SCALES:
  instance('C17', discrete_default, scale=_s, bounded='domains of up to 5 integers')


def bernoulli(c, scale):
  """a Boolean variable given probability b is True with b, False with 1-b"""
  c.stub('rv', 'rescale', rescale_contract(c))
  RV = c.mod('rv').RV
  ps = pscale(c, scale)
  b = c.choice('bias', ['half', 'free'])
  b = .5 if b == 'half' else c.real('b', lo=2.**-10, hi=1. - 2.**-10)
  if c.symbolic and not isinstance(b, float) or b != .5:
    c.assume(c.any(c.lt(b, .4999), c.lt(.5001, b)))
  if is_log(ps):
    off = ps.real
    given = c.log(b) - off
  else:
    given = c.div(b, ps)
  x = RV('x', vtype=bool, prob=given, pscale=ps)
  d = x()
  c.check('values', [bool(v) for v in d['x']] == [False, True])
  c.check('both', c.all(c.eq(den(c, c.at(d.prob, 0), ps), 1 - b), c.eq(den(c, c.at(d.prob, 1), ps), b)))
  for v in (True, False):
    d = x(v)
    c.check('single', c.all(c.eq(den(c, d.prob, ps), b if v else 1 - b), bool(d['x']) == v))


for _s in SCALES:
  instance('C17', bernoulli, scale=_s, tests=6)


def bernoulli_samples(c, scale):
  """random values of a Boolean variable are drawn with the probability it was
  last given, as many as requested"""
  import types
  c.stub('rv', 'rescale', rescale_contract(c))
  RV = c.mod('rv').RV
  ps = pscale(c, scale)
  asked = []

  class Frozen:
    def __init__(self, p):
      self.p = p

    def rvs(self, size=None):
      asked.append((self.p, size))
      return 1 if size is None else np.arange(size) % 3 == 1

  c.stub('sympy_prob', 'scipy', types.SimpleNamespace(stats=types.SimpleNamespace(bernoulli=Frozen)))
  b = c.choice('bias', [1. / 16, .25, .75, .375])
  given = c.log(b) - ps.real if is_log(ps) else c.div(b, ps)
  was = c.choice('was', ['no', 'same', 'other', 'half'])
  if was == 'no':
    x = RV('x', vtype=bool, prob=given, pscale=ps)
  else:
    p0 = {'same': given, 'other': .125, 'half': .5}[was]
    x = RV('x', vtype=bool, prob=p0, pscale=ps if was == 'same' else 1.)
    x({0}), x({-3})
    del asked[:]
    x.set_prob(given, pscale=ps)
  n = c.choice('n', [0, -1, -5, -7])
  d = x({n})
  v = [bool(d['x'])] if not n else [bool(u) for u in d['x']]
  c.check('number', len(v) == max(1, -n))
  c.check('type', n == 0 or np.asarray(d['x']).dtype == bool)
  c.check('probs', c.all(*[c.eq(den(c, d.prob if not n else c.at(d.prob, i), ps), b if v[i] else 1 - b) for i in range(len(v))]))
  if c.symbolic:
    if asked:  # drawn by scipy
      c.check('asked', len(asked) == 1 and c.close(asked[0][0], b, 1e-6) and asked[0][1] in ((-n,) if n else (None, 1)))
      c.check('values', v == [i % 3 == 1 for i in range(-n)] if n else v == [True])
    del asked[:]
  else:
    _frequency(c, x, b)
  x.set_prob(.5, pscale=1.)
  if c.symbolic:
    x({n}), x(), x({0})
    c.check('half', not asked)
  else:
    _frequency(c, x, .5)


def _frequency(c, x, b):
  """the number of true values among many is within 7 standard deviations"""
  state = np.random.get_state()
  np.random.seed(7)
  k = int(np.sum(x({-3000})['x'])), sum(bool(x({0})['x']) for i in range(60))
  np.random.set_state(state)
  c.check('frequency', all(abs(m - n * b) < 7 * np.sqrt(n * b * (1 - b)) + 1 for m, n in zip(k, (3000, 60))))


for _s in SCALES:
  instance('C17', bernoulli_samples, scale=_s, tests=10)


def _given(c, x, f, ps, *args, **kwds):
  """x with the probability f, which may replace another one used before"""
  was = c.choice('was', ['no', 'function', 'log', 'scipy', 'constant'])
  if was == 'function':
    x.set_prob(lambda q, m: q * m, pscale=2., m=-3.)
  elif was == 'log':
    x.set_prob(lambda q, m: q * m, -3., pscale=0j)
  elif was == 'scipy':
    import scipy.stats
    x.set_prob(scipy.stats.norm, 1., 2., pscale=1.)
  elif was == 'constant':
    x.set_prob(.25, pscale=1.)
  if was in ('function', 'log'):
    x(.5)
  x.set_prob(f, *args, pscale=ps, **kwds)
  return x


@obligation('C17')
def given_function(c):
  """a given probability function is evaluated at the values, with its
  constant arguments, on the scale stated"""
  RV = c.mod('rv').RV
  ps = pscale(c, c.choice('scale', SCALES))
  k, j = c.real('k', lo=-5, hi=5), c.real('j', lo=-5, hi=5)
  f = lambda x, k: x * k + j
  x = _given(c, RV('x', vset=[-10., 10.], vtype=float), f, ps, k=k)
  n = c.extent('n')
  q = c.array('q', (n,), lo=-10, hi=10)
  d = x(q)
  c.check('array', c.forall(n, lambda i: c.all(c.eq(c.at(d.prob, i), c.at(q, i) * k + j), c.eq(c.at(d['x'], i), c.at(q, i)))))
  v = c.real('v', lo=-10, hi=10)
  d = x(v)
  c.check('scalar', c.all(c.eq(d.prob, v * k + j), c.eq(d.pscale, ps)))
  n = c.extent('m', lo=2)
  d = x({n})
  c.check('sampled', c.forall(n, lambda i: c.all(
      c.close(c.at(d['x'], i), c.div(i * 20, n - 1) - 10, 1e-9), c.close(c.at(d.prob, i), c.at(d['x'], i) * k + j, 1e-9))))


def rescaled(c, s0, s1):
  """evaluating a probability with a requested scale gives the same
  probability on that scale; a scale set later replaces the earlier one"""
  c.stub('prob', 'rescale', rescale_contract(c))
  P = c.mod('prob').Prob
  p0, p1 = pscale(c, s0, 'p0'), pscale(c, s1, 'p1')
  k = c.real('k', lo=1. / 8, hi=1)
  x = P(lambda x: x * k, pscale=p0)
  n = c.extent('n')
  q = c.array('q', (n,), lo=-20, hi=-.1) if is_log(p0) else c.array('q', (n,), lo=.1, hi=1)
  f = c.choice('call', ['eval_prob', 'call'])
  r = x.eval_prob(q, pscale=p1) if f == 'eval_prob' else x(q, pscale=p1)
  c.check('same', c.forall(n, lambda i: c.eq(den(c, c.at(r, i), p1), den(c, c.at(q, i) * k, p0))))
  r = x.eval_prob(q) if f == 'eval_prob' else x(q)
  c.check('native', c.forall(n, lambda i: c.eq(c.at(r, i), c.at(q, i) * k)))
  x.set_prob(lambda x: x, pscale=p1)
  c.check('reset', c.all(c.eq(x.pscale, p1), x.logp == is_log(p1)))
  x.set_prob(lambda x: x * 2)
  c.check('kept', c.all(c.eq(x.pscale, p1), x.logp == is_log(p1)))


for _s in SCALES:
  for _t in SCALES:
    instance('C17', rescaled, s0=_s, s1=_t)


def transformed(c, scale, ufun):
  """an interval variable uniform under a change of variable (no_ucov) has at x
  the density |du/dx| over the length in the transformed space"""
  import sympy
  c.stub('rv', 'rescale', rescale_contract(c))
  RV = c.mod('rv').RV
  ps = pscale(c, scale)
  if ufun == 'log':
    la = c.real('la', lo=-5, hi=5)
    lb = la + c.real('lw', lo=2.**-6, hi=5)
    a, b = c.exp(la), c.exp(lb)
    length, der = lb - la, lambda v: c.div(1., v)
  elif ufun == 'reciprocal':
    rb = c.real('rb', lo=2.**-6, hi=5)
    ra = rb + c.real('rw', lo=2.**-6, hi=5)
    a, b = c.div(1., ra), c.div(1., rb)
    length, der = ra - rb, lambda v: c.div(1., c.mul(v, v))
  else:
    a = c.real('a', lo=1., hi=100)
    w = c.real('w', lo=2.**-6, hi=100)
    b, length, der = a + w, 2 * w, lambda v: 2.
  c.assume(c.le(2.**-20, b - a))
  x = RV('x', vset=[a, b], vtype=float, pscale=ps)
  x.set_ufun({'log': lambda u: sympy.log(u), 'reciprocal': lambda u: 1 / u, 'linear': lambda u: 3 - 2 * u}[ufun](x[:]),
             no_ucov=True)
  v = c.real('v', lo=2.**-9, hi=2.**15, gen=lambda r: r.uniform(float(a), float(b)))
  c.assume(c.all(c.le(a, v), c.le(v, b)))
  n = c.extent('n')
  q = c.array('q', (n,), lo=2.**-9, hi=2.**15)
  if c.symbolic:
    c.assume(c.forall(n, lambda i: c.all(c.le(a, c.at(q, i)), c.le(c.at(q, i), b))))
  else:
    q = np.clip(q, a, b)
  d = x(q)
  same = (lambda s, t: c.close(s, t, 1e-9)) if ufun == 'linear' else c.eq
  c.check('density', c.forall(n, lambda i: same(c.mul(den(c, c.at(d.prob, i), ps), length), der(c.at(q, i)))))
  c.check('scalar', same(c.mul(den(c, x(v).prob, ps), length), der(v)))
  c.check('length', c.all(c.eq(x.vlims[0], a), c.eq(x.vlims[1], b), c.eq(x.length, b - a)))


for _s in ('one', 'log'):
  for _u in ('log', 'reciprocal', 'linear'):
    instance('C17', transformed, scale=_s, ufun=_u, tests=6)


@obligation('C17')
def transformed_area(c):
  """otherwise an interval variable with a transformation is uniform in the
  transformed space, with the probability of one over the length there"""
  import sympy
  c.stub('rv', 'rescale', rescale_contract(c))
  RV = c.mod('rv').RV
  ps = pscale(c, c.choice('scale', SCALES))
  la = c.real('la', lo=-5, hi=5)
  lw = c.real('lw', lo=2.**-6, hi=5)
  a, b = c.exp(la), c.exp(la + lw)
  c.assume(c.le(2.**-20, b - a))
  x = RV('x', vset=[a, b], vtype=float, pscale=ps)
  x.set_ufun(sympy.log(x[:]))
  t = c.real('t', lo=0, hi=1)
  v = c.exp(la + t * lw)
  c.check('inside', c.eq(c.mul(den(c, x(v).prob, ps), lw), 1.))
  c.check('outside', c.all(_zero(c, x(b + b - a).prob, ps), _zero(c, x(a - (b - a)).prob, ps)))


def _quantile_drawn(c, base, r, ppf, lo, hi, n=None):
  """the values drawn are the quantiles of probabilities drawn evenly between
  lo and hi (nothing is said when several draws were made)"""
  if c.ndraws() != base + 1:
    return
  a, b, v = c.draw(base)

  def one(r, v):
    t = c.div(v - a, b - a)
    return c.any(c.close(r, ppf(lo + c.mul(t, hi - lo)), 1e-6), c.close(r, ppf(hi - c.mul(t, hi - lo)), 1e-6))
  c.check('evenly', one(r, v) if n is None else c.forall(n, lambda i: one(c.at(r, i), c.at(v, i))))


def scipy_given(c, kind, scale, by):
  """a scipy distribution gives its density (mass) or, on the log scale, its log
  density at the values, with the constants given; requested values are
  its quantiles between those of the limits"""
  import scipy.stats
  RV = c.mod('rv').RV
  ps = 0j if scale == 'log' else 1.
  loc, k = c.real('loc', lo=-5, hi=5), c.real('k', lo=.125, hi=5)
  ca, cb, qa = c.real('ca', lo=.125, hi=1), c.real('cb', lo=-1, hi=1), c.real('qa', lo=-3, hi=3)
  pdf = lambda x: x * k + loc
  lpdf = lambda x: x * loc - k
  cdf = lambda x: (x - loc) * ca + cb * k
  ppf = lambda u: u * qa + loc - k * 3
  sent, want = [], (loc, k)

  def method(f):
    def call(self, x, loc, scale):
      sent.append(c.all(c.eq(loc, want[0]), c.eq(scale, want[1])))
      return f(x)
    return call
  base = scipy.stats.rv_continuous if kind == 'pdf' else scipy.stats.rv_discrete
  methods = {kind: method(pdf), 'log' + kind: method(lpdf), 'cdf': method(cdf), 'ppf': method(ppf)}

  class Frozen:  # with its constants
    def __init__(self, *args, **kwds):
      for key, f in methods.items():
        setattr(self, key, lambda x, f=f: f(self, x, *args, **kwds))

  Dist = type('Dist', (base,), dict(methods, __call__=lambda self, *args, **kwds: Frozen(*args, **kwds)))
  if by == 'position':
    args, kwds = (loc, k), {}
  elif by == 'name':
    args, kwds = (), {'loc': loc, 'scale': k}
  else:
    args, kwds = (loc,), {'scale': k}
  a = c.real('a', lo=-100, hi=100)
  w = c.real('w', lo=2.**-10, hi=100)
  oa, ob = c.choice('open', [(0, 0), (1, 0), (0, 1), (1, 1)])
  vset = [(a,) if oa else a, (a + w,) if ob else a + w]
  if c.choice('how', ['init', 'set']) == 'init':
    x = RV('x', float, vset, Dist(), *args, pscale=ps, **kwds)
  else:
    x = _given(c, RV('x', float, vset, pscale=ps), Dist(), ps, *args, **kwds)
  c.check('pscale', c.eq(x.pscale, ps))
  f = pdf if scale == 'one' else lpdf
  v = c.real('v', lo=-100, hi=100)
  d = x(v)
  c.check('scalar', c.all(c.eq(d.prob, f(v)), c.eq(d['x'], v), c.eq(d.pscale, ps)))
  n = c.extent('n')
  q = c.array('q', (n,), lo=-100, hi=100)
  d = x(q)
  c.check('array', c.forall(n, lambda i: c.all(c.eq(c.at(d.prob, i), f(c.at(q, i))), c.eq(c.at(d['x'], i), c.at(q, i)))))
  lo, hi = cdf(a), cdf(a + w)
  m = c.extent('m', lo=2)
  d = x({m})
  gaps = m - 1 if not oa + ob else m + oa + ob - 1
  quantile = lambda i: ppf(lo + c.div((hi - lo) * (i + oa), gaps))
  same = lambda s, t: c.close(s, t, 1e-9)
  c.check('quantiles', c.forall(m, lambda i: c.all(
      same(c.at(d['x'], i), quantile(i)), same(c.at(d.prob, i), f(c.at(d['x'], i))))))
  base = c.ndraws()
  d = x({0})
  _quantile_drawn(c, base, d['x'], ppf, lo, hi)
  u, v = ppf(lo), ppf(hi)
  c.check('draw', c.all(c.any(c.all(c.le(u, d['x'] + 1e-9), c.le(d['x'], v + 1e-9)), c.all(c.le(v, d['x'] + 1e-9), c.le(d['x'], u + 1e-9))),
                        same(d.prob, f(d['x']))))
  base = c.ndraws()
  j = c.extent('j')
  d = x({-j})
  _quantile_drawn(c, base, d['x'], ppf, lo, hi, j)
  c.check('draws', c.all(c.eq(c.shape(d['x'])[0], j), c.forall(j, lambda i: same(c.at(d.prob, i), f(c.at(d['x'], i))))))
  c.check('constants', c.all(*sent))


for _k in ('pdf', 'pmf'):
  for _s in ('one', 'log'):
    for _b in ('position', 'name', 'both'):
      instance('C17', scipy_given, kind=_k, scale=_s, by=_b, tests=8)


NAMED = {  # distribution, density, log density if not by the density, domain
    'Normal': (lambda s, x: s.Normal(x, 1, 2), lambda c, v: .19947114020071635 * c.exp(-.125 * (v - 1) * (v - 1)),
               lambda c, v: -.125 * (v - 1) * (v - 1) - 1.612085713764618, (-50, 50)),
    'Normal floats': (lambda s, x: s.Normal(x, 1., .5), lambda c, v: .7978845608028654 * c.exp(-2. * (v - 1) * (v - 1)),
                      lambda c, v: -2. * (v - 1) * (v - 1) - .22579135264472744, (-20, 20)),
    'Exponential': (lambda s, x: s.Exponential(x, 3), lambda c, v: 3. * c.exp(-3. * v), None, (0, 40)),
    'Beta': (lambda s, x: s.Beta(x, 2, 3), lambda c, v: 12. * v * (1 - v) * (1 - v), None, (2.**-9, 1 - 2.**-9)),
    'Pareto': (lambda s, x: s.Pareto(x, 1, 3), lambda c, v: 3 * c.div(1., v * v * v * v), None, (1, 100)),
    'Laplace': (lambda s, x: s.Laplace(x, 2, 4), lambda c, v: .125 * c.exp(-.25 * c.maximum(v - 2, 2 - v)),
                lambda c, v: -.25 * c.maximum(v - 2, 2 - v) - 2.0794415416798357, (-20, 20)),
}


def sympy_given(c, name, scale):
  """a sympy distribution gives its density, or the logarithm of it on the log
  scale, at the values"""
  import sympy.stats
  RV = c.mod('rv').RV
  make, dens, logd, (lo, hi) = NAMED[name]
  ps = 0j if scale == 'log' else 1.
  x = RV('x', float, [float(lo), float(hi)], pscale=ps)
  x.set_prob(make(sympy.stats, x[:]))
  ok = lambda p, v: c.close(p, logd(c, v), 1e-9) if logd and scale == 'log' else c.close(den(c, p, ps), dens(c, v), 1e-9)
  v = c.real('v', lo=lo, hi=hi)
  d = x(v)
  c.check('scalar', c.all(ok(d.prob, v), c.eq(d['x'], v), c.eq(d.pscale, ps)))
  n = c.extent('n')
  q = c.array('q', (n,), lo=lo, hi=hi)
  d = x(q)
  c.check('array', c.forall(n, lambda i: c.all(ok(c.at(d.prob, i), c.at(q, i)), c.eq(c.at(d['x'], i), c.at(q, i)))))


for _n in NAMED:
  for _s in ('one', 'log'):
    instance('C17', sympy_given, name=_n, scale=_s, tests=6)


@obligation('C17', tests=40, conc_only='inverses solved by sympy have powers of expressions of unknown sign')
def sympy_quantiles(c):
  """values requested of a variable given a sympy distribution are its quantiles,
  equally spaced in probability between those of the limits"""
  import sympy.stats
  RV = c.mod('rv').RV
  a = c.real('a', lo=0, hi=2)
  w = c.real('w', lo=2.**-6, hi=2)
  x = RV('x', float, [a, a + w])
  x.set_prob(sympy.stats.Exponential(x[:], 3))
  cdf = lambda v: 1 - c.exp(-3. * v)
  m = c.extent('m', lo=2)
  lo, hi = cdf(a), cdf(a + w)
  d = x({m})
  c.check('quantiles', c.forall(m, lambda i: c.close(cdf(c.at(d['x'], i)), lo + c.div((hi - lo) * i, m - 1), 1e-9)))
  d = x({0})
  c.check('draw', c.all(c.le(lo - 1e-9, cdf(d['x'])), c.le(cdf(d['x']), hi + 1e-9)))
