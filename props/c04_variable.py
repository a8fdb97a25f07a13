"""C04-C07: grids, variable domains, evaluation of variables, deltas."""
import numpy as np
from pv.engine import obligation, instance, TINY
from props._contracts import declare

TINYGAP = 1e-6


def spread(c, base, r, a, b, n=None, f=None):
  """what was drawn since base lies between a and b as evenly as the generator
  draws: its place between a and b is that of the one draw made between the
  limits drawn from (nothing is said when several draws were made)"""
  if c.ndraws() != base + 1:
    return
  lo, hi, v = c.draw(base)
  f = f or (lambda x: x)

  def one(r, v):
    t = c.mul(v - lo, b - a)
    tol = {} if c.symbolic else dict(tol=1e-6)
    return c.any(c.eq(c.mul(f(r) - a, hi - lo), t, **tol), c.eq(c.mul(b - f(r), hi - lo), t, **tol))
  c.check('evenly', one(r, v) if n is None else c.forall(n, lambda i: one(c.at(r, i), c.at(v, i))))


def grid(c, ex0, ex1):
  """uniform(v0, v1, n) is the equally spaced grid of n points whose ends are
  v0 and v1 where included and one step inside where excluded"""
  vt = c.mod('vtypes')
  v0 = c.real('v0', lo=-1000, hi=1000)
  w = c.real('w', lo=TINYGAP, hi=1000)
  v1 = v0 + w
  n = c.extent('n')
  r = vt.uniform(v0, v1, n, ex0, ex1)
  c.check('size', c.eq(c.shape(r)[0], n))
  x = lambda i: c.at(r, i)
  c.check('inside', c.forall(n, lambda i: c.all(c.le(v0, x(i), tol=1e-9), c.le(x(i), v1, tol=1e-9))))
  c.check('excluded', c.forall(n, lambda i: c.all(
      c.lt(v0, x(i)) if ex0 else True, c.lt(x(i), v1) if ex1 else True)))
  if ex0 or ex1:
    den = n + 1 if ex0 and ex1 else n
    k0 = 1 if ex0 else 0
    c.check('points', c.forall(n, lambda i: c.eq(c.mul(x(i) - v0, den), c.mul(w, i + k0))))
  else:
    c.check('points', c.implies(c.lt(1, n), c.forall(n, lambda i: c.eq(c.mul(x(i) - v0, n - 1), c.mul(w, i)))))
    c.check('single', c.implies(c.same(n, 1), c.forall(n, lambda i: c.eq(x(i) * 2, v0 + v1))))
  c.check('increasing', c.forall(n, lambda i: c.implies(c.lt(i + 1, n), c.lt(x(i), x(i + 1)) if c.symbolic else x(i) < r[min(i + 1, n - 1)])))


for _a in (False, True):
  for _b in (False, True):
    instance('C04', grid, ex0=_a, ex1=_b, tag='%s,%s' % ('open' if _a else 'closed', 'open' if _b else 'closed'))


@obligation('C04')
def grid_random(c):
  """zero asks for one random scalar and -n for n random values in the range"""
  vt = c.mod('vtypes')
  v0 = c.real('v0', lo=-1000, hi=1000)
  w = c.real('w', lo=TINYGAP, hi=1000)
  v1 = v0 + w
  ex0, ex1 = c.choice('ex0', [False, True]), c.choice('ex1', [False, True])
  for z in (0, None):
    m = c.ndraws()
    s = vt.uniform(v0, v1, z, ex0, ex1)
    c.check('scalar', c.is_scalar(s))
    spread(c, m, s, v0, v1)
    c.check('in', c.all(c.le(v0, s, tol=1e-9), c.le(s, v1, tol=1e-9)))
  n = c.extent('n')
  m = c.ndraws()
  r = vt.uniform(v0, v1, -n, ex0, ex1)
  spread(c, m, r, v0, v1, n)
  c.check('size', c.eq(c.shape(r)[0], n))
  c.check('inside', c.forall(n, lambda i: c.all(c.le(v0, c.at(r, i), tol=1e-9), c.le(c.at(r, i), v1, tol=1e-9))))


@obligation('C04')
def grid_defaults(c):
  """the default range is the closed unit interval"""
  vt = c.mod('vtypes')
  n = c.extent('n', lo=2)
  r = vt.uniform(n=n)
  c.check('size', c.eq(c.shape(r)[0], n))
  c.check('points', c.forall(n, lambda i: c.eq(c.mul(c.at(r, i), n - 1), i)))
  s = vt.uniform()
  c.check('scalar', c.is_scalar(s) and bool(c.all(c.le(0., s), c.le(s, 1.))))


# ---------------------------------------------------------------- C05
def _fvset(a, b, ka, kb):
  return [(a,) if ka else a, (b,) if kb else b]


def float_domain(c, ka, kb):
  """limits, length, log-volume and membership of an interval variable follow
  from the interval, whichever order its ends are given in"""
  V = c.mod('variable').Variable
  a = c.real('a', lo=-1000, hi=1000)
  w = c.real('w', lo=TINYGAP, hi=1000)
  b = a + w
  order = c.choice('order', [0, 1])
  vs = _fvset(a, b, ka, kb)
  x = declare(c, V, float, vs if not order else vs[::-1])
  c.check('lims', c.all(c.eq(x.vlims[0], a), c.eq(x.vlims[1], b)))
  c.check('ulims', c.all(c.eq(x.ulims[0], a), c.eq(x.ulims[1], b)))
  c.check('length', c.eq(x.length, w))
  c.check('lhv', c.eq(x.lhv, c.log(w)))
  c.check('finite', bool(x.isfinite))
  c.check('ends', isinstance(x.vset[0], tuple) == ka and isinstance(x.vset[1], tuple) == kb)
  n = c.extent('n')
  q = c.array('q', (n,), lo=-2500, hi=2500)
  ins = x.inside(q)

  def want(v):
    return c.all(c.lt(a, v) if ka else c.le(a, v), c.lt(v, b) if kb else c.le(v, b))
  c.check('inside', c.forall(n, lambda i: c.iff(c.at(ins, i), want(c.at(q, i)))))
  s = c.choice('probe', ['a', 'b', 'free'])
  v = a if s == 'a' else b if s == 'b' else c.real('v', lo=-2500, hi=2500)
  c.check('inside-scalar', c.iff(x.inside(v), want(v)))


for _a in (False, True):
  for _b in (False, True):
    instance('C05', float_domain, ka=_a, kb=_b, tag='%s,%s' % ('open' if _a else 'closed', 'open' if _b else 'closed'))


@obligation('C05')
def float_tuple(c):
  """a two-value tuple is the open interval between its values"""
  V = c.mod('variable').Variable
  a = c.real('a', lo=-1000, hi=1000)
  b = c.real('b', lo=-1000, hi=1000)
  c.assume(c.any(c.lt(a, b - TINYGAP), c.lt(b, a - TINYGAP)))
  x = V('x', vtype=float, vset=(a, b))
  lo, hi = c.ite(c.lt(a, b), a, b), c.ite(c.lt(a, b), b, a)
  c.check('lims', c.all(c.eq(x.vlims[0], lo), c.eq(x.vlims[1], hi)))
  v = c.real('v', lo=-1500, hi=1500)
  c.check('inside', c.iff(x.inside(v), c.all(c.lt(lo, v), c.lt(v, hi))))
  c.check('not-ends', c.all(c.neg(x.inside(a)), c.neg(x.inside(b))))
  c.check('vset', len(x.vset) == 2 and all(isinstance(e, tuple) and len(e) == 1 for e in x.vset))
  c.check('ordered', c.all(c.eq(x.vset[0][0], lo), c.eq(x.vset[1][0], hi)))


@obligation('C05')
def float_unbounded(c):
  """the default real line contains every number and is not finite"""
  V = c.mod('variable').Variable
  x = V('x', vtype=float)
  v = c.real('v')
  c.check('inside', x.inside(v))
  c.check('infinite', not x.isfinite)
  c.check('lims', x.vlims[0] == -np.inf and x.vlims[1] == np.inf)


@obligation('C05', bounded='domains of 1 to 4 integers')
def int_domain(c):
  """an integer variable has as many elements as its set and contains exactly
  those"""
  V = c.mod('variable').Variable
  k = c.choice('k', [1, 2, 3, 4])
  vs = [c.int('u0', lo=-50, hi=50)]
  for i in range(1, k):
    vs.append(vs[-1] + c.int('g%d' % i, lo=1, hi=9))
  kind = c.choice('kind', ['list', 'array'])
  vset = list(vs) if kind == 'list' else c.stack(vs)
  x = declare(c, V, int, vset) if kind == 'list' else V('x', vset, int)
  c.check('length', x.length == k)
  c.check('lhv', c.eq(x.lhv, float(np.log(k))))
  c.check('lims', c.all(c.eq(x.vlims[0], vs[0]), c.eq(x.vlims[1], vs[-1])))
  v = c.int('v', lo=-60, hi=100)
  c.check('inside', c.iff(x.inside(v), c.any(*[c.same(v, u) for u in vs])))
  n = c.extent('n')
  q = c.array('q', (n,), kind='i', lo=-60, hi=100)
  ins = x.inside(q)
  c.check('inside-array', c.forall(n, lambda i: c.iff(c.at(ins, i), c.any(*[c.same(c.at(q, i), u) for u in vs]))))


@obligation('C05', tests=60, conc_only='numpy set membership on large sets is an external algorithm')
def large_int_domain(c):
  """membership is decided value by value, also for repeated values and large
  sparse sets"""
  V = c.mod('variable').Variable
  k = c.int('k', lo=1, hi=60)
  step = c.choice('step', [1, 3, 10**6, 10**9])
  x = V('x', vtype=int, vset=[int(i * step) for i in range(k)])
  n = c.int('n', lo=1, hi=6)
  q = c.array('q', (n,), kind='i', lo=-3, hi=6)
  mult = c.choice('mult', [1, step])
  q = q * mult
  ins = x.inside(q)
  s = set(i * step for i in range(k))
  c.check('inside', [bool(b) for b in ins] == [int(v) in s for v in q])


@obligation('C05')
def bool_domain(c):
  """a variable is by default a Boolean with both truth values"""
  V = c.mod('variable').Variable
  x = V('x')
  c.check('type', x.vtype is bool)
  c.check('set', list(x.vset) == [False, True] and x.length == 2)
  c.check('lhv', c.eq(x.lhv, float(np.log(2))))


@obligation('C05')
def inferred(c):
  """without a type, the type of a variable is that of the values of its set;
  intervals with infinite or parenthesised ends are real"""
  V = c.mod('variable').Variable
  i, j = c.int('i', lo=-50, hi=50), c.int('w', lo=1, hi=9)
  a, w = c.real('a', lo=-1000, hi=1000), c.real('wr', lo=TINYGAP, hi=1000)
  kind = c.choice('kind', ['ints', 'set', 'range', 'array', 'reals', 'tuple', 'open', 'half', 'line', 'ray', 'bools', 'mixed', 'mixed2', 'none'])
  if kind in ('mixed', 'mixed2'):
    try:
      V('x', vset=[i, a + w] if kind == 'mixed' else [a, True])
      c.check('refused', False)
    except TypeError:
      pass
    return
  if kind in ('ints', 'set', 'range', 'array'):
    vs = [i, i + j] if kind == 'ints' else [2, 5, 9] if kind == 'set' else [3, 4, 5] if kind == 'range' else [-1, 4]
    x = V('x', vset=vs if kind == 'ints' else set(vs) if kind == 'set' else range(3, 6) if kind == 'range' else np.array(vs[::-1]))
    c.check('type', x.vtype is int)
    c.check('set', c.all(len(x.vset) == len(vs), *[c.same(p, q) for p, q in zip(x.vset, vs)]))
    c.check('length', x.length == len(vs))
    return
  if kind == 'bools':
    x = V('x', vset=c.choice('which', [[False, True], {True, False}]))
    c.check('type', x.vtype is bool and list(x.vset) == [False, True] and x.length == 2)
    return
  if kind == 'none':
    x = V('x', vtype=c.choice('declared', [float, int]))
    c.check('declared', x.vtype is not bool)
    return
  if kind == 'ray':
    a = 2.5
  b = a + w
  oo = float('inf')
  vs = {'reals': [a, b], 'tuple': (a, b), 'open': [(a,), (b,)], 'half': [a, (b,)], 'line': [-oo, oo], 'ray': [(a,), oo]}[kind]
  x = V('x', vset=vs)
  c.check('type', x.vtype is float)
  lo, hi = (-oo, oo) if kind == 'line' else (a, oo) if kind == 'ray' else (a, b)
  c.check('lims', c.all(x.vlims[0] == lo if kind == 'line' else c.eq(x.vlims[0], lo), x.vlims[1] == hi if kind in ('line', 'ray') else c.eq(x.vlims[1], hi)))
  c.check('finite', bool(x.isfinite) == (kind not in ('line', 'ray')))
  v = c.real('v', lo=-2500, hi=2500)
  left = True if kind == 'line' else c.lt(a, v) if kind in ('tuple', 'open', 'ray') else c.le(a, v)
  right = True if kind in ('line', 'ray') else c.lt(v, b) if kind in ('tuple', 'open', 'half') else c.le(v, b)
  c.check('inside', c.iff(x.inside(v), c.all(left, right)))


@obligation('C05')
def no_aliasing(c):
  """declaring a variable neither alters the caller's set nor a variable
  declared earlier from the same set"""
  V = c.mod('variable').Variable
  a = c.int('a', lo=-100, hi=100)
  vs = [a, a + 1]
  x = V('x', vtype=int, vset=vs)
  y = V('y', vtype=float, vset=vs)
  c.check('caller', len(vs) == 2 and all(isinstance(v, int) for v in vs))
  c.check('first', all(isinstance(v, int) for v in x.vset))
  c.check('second', all(isinstance(v, float) for v in y.vset))
  c.check('values', c.all(c.eq(x.vset[0], a), c.eq(x.vset[1], a + 1), c.eq(y.vlims[0], a), c.eq(y.vlims[1], a + 1)))


@obligation('C05')
def transformed_domain(c):
  """with a transformation, limits are kept and length is measured in the
  transformed space"""
  V = c.mod('variable').Variable
  nps = c.np()
  a = c.real('a', lo=2.**-10, hi=100)
  w = c.real('w', lo=TINYGAP, hi=1000)
  x = declare(c, V, float, [a, a + w], ufun=(((nps.log, nps.exp),), {}))
  c.check('lims', c.all(c.eq(x.vlims[0], a), c.eq(x.vlims[1], a + w)))
  c.check('ulims', c.all(c.eq(x.ulims[0], c.log(a)), c.eq(x.ulims[1], c.log(a + w))))
  c.check('length', c.eq(x.length, c.log(a + w) - c.log(a)))
  v = c.real('v', lo=-10, hi=2000)
  c.check('inside', c.iff(x.inside(v), c.all(c.le(a, v), c.le(v, a + w))))


# ---------------------------------------------------------------- C06
def eval_float(c, ka, kb):
  """n values of an interval variable are the n-point grid over its domain,
  all inside it; a random request yields values inside its limits"""
  V = c.mod('variable').Variable
  a = c.real('a', lo=-1000, hi=1000)
  w = c.real('w', lo=TINYGAP, hi=1000)
  b = a + w
  x = declare(c, V, float, _fvset(a, b, ka, kb))
  n = c.extent('n')
  d = x.evaluate({n})
  r = d['x']
  c.check('name', d.name == 'x')
  c.check('size', c.eq(c.shape(r)[0], n))
  ins = x.inside(r)
  c.check('inside', c.forall(n, lambda i: c.any(c.at(ins, i), *(
      [] if c.symbolic else [not ka and c.eq(c.at(r, i), a), not kb and c.eq(c.at(r, i), b)]))))
  den = n + 1 if ka and kb else n if ka or kb else n - 1
  k0 = 1 if ka else 0
  c.check('points', c.implies(c.lt(1, n), c.forall(n, lambda i: c.eq(c.mul(c.at(r, i) - a, den), c.mul(w, i + k0)))))
  m = c.ndraws()
  q = x.evaluate({-n})['x']
  spread(c, m, q, a, b, n)
  c.check('rsize', c.eq(c.shape(q)[0], n))
  c.check('rinside', c.forall(n, lambda i: c.all(c.le(a, c.at(q, i), tol=1e-9), c.le(c.at(q, i), b, tol=1e-9))))
  for z in ({0}, None):
    m = c.ndraws()
    s = x.evaluate(z)['x']
    spread(c, m, s, a, b)
    c.check('scalar', c.is_scalar(s))
    c.check('sinside', c.all(c.le(a, s, tol=1e-9), c.le(s, b, tol=1e-9)))


for _a in (False, True):
  for _b in (False, True):
    instance('C06', eval_float, ka=_a, kb=_b, tag='%s,%s' % ('open' if _a else 'closed', 'open' if _b else 'closed'))


@obligation('C06')
def eval_transformed(c):
  """with a log transformation the grid is uniform in log space"""
  V = c.mod('variable').Variable
  nps = c.np()
  a = c.real('a', lo=2.**-10, hi=100)
  w = c.real('w', lo=2.**-10, hi=1000)
  b = a + w
  x = declare(c, V, float, [a, b], ufun=(((nps.log, nps.exp),), {}))
  n = c.extent('n', lo=2)
  r = x.evaluate({n})['x']
  c.check('size', c.eq(c.shape(r)[0], n))
  t = lambda i: c.log(a) + c.div(c.mul(i, c.log(b) - c.log(a)), n - 1)
  c.check('points', c.forall(n, lambda i: c.eq(c.at(r, i), c.exp(t(i)))))
  m = c.ndraws()
  s = x.evaluate({0})['x']
  spread(c, m, s, c.log(a), c.log(b), f=c.log)
  m = c.ndraws()
  q = x.evaluate({-n})['x']
  spread(c, m, q, c.log(a), c.log(b), n, c.log)


@obligation('C06')
def eval_given(c):
  """given values are passed through unchanged, by name or bare"""
  V = c.mod('variable').Variable
  kind = c.choice('kind', [float, int, bool])
  x = V('x', vtype=kind)
  n = c.extent('n')
  v = c.array('v', (n,), kind={float: 'f', int: 'i', bool: 'b'}[kind])
  form = c.choice('form', ['bare', 'name', 'key'])
  d = x.evaluate(v if form == 'bare' else {'x': v} if form == 'name' else {x: v})
  r = d['x']
  c.check('size', c.eq(c.shape(r)[0], n))
  c.check('same', c.forall(n, lambda i: c.iff(c.at(r, i), c.at(v, i)) if kind is bool else c.eq(c.at(r, i), c.at(v, i))))
  c.check('keys', list(d.keys()) == ['x'])


@obligation('C06', bounded='domains of 1 to 4 integers')
def eval_int(c):
  """a discrete variable evaluates to its whole set; {n} cycles through it in
  order; random requests only yield members"""
  V = c.mod('variable').Variable
  k = c.choice('k', [1, 2, 3, 4])
  vs = [c.int('u0', lo=-50, hi=50)]
  for i in range(1, k):
    vs.append(vs[-1] + c.int('g%d' % i, lo=1, hi=9))
  x = declare(c, V, int, list(vs))
  r = x.evaluate()['x']
  c.check('all', c.all(c.eq(c.shape(r)[0], k), *[c.eq(c.at(r, i), u) for i, u in enumerate(vs)]))
  n = c.extent('n')
  q = x.evaluate({n})['x']
  c.check('size', c.eq(c.shape(q)[0], n))
  c.check('cycle', c.forall(n, lambda i: c.all(*[c.implies(c.same(c.mod_(i, k), j), c.eq(c.at(q, i), u))
                                                for j, u in enumerate(vs)])))
  m = lambda v: c.any(*[c.eq(v, u) for u in vs])
  s = x.evaluate({0})['x']
  c.check('scalar', c.all(c.is_scalar(s), m(s)))
  t = x.evaluate({0})['x']
  ds = c.idraws()
  if len(ds) == 2:
    # every value is drawn, one as often as another: as many draws as values, and
    # different ones give different values
    c.check('evenly', c.all(*[c.eq(h - l, k) for l, h, _ in ds]))
    c.check('each', c.iff(c.eq(s, t), c.eq(ds[0][2], ds[1][2])))
  p = x.evaluate({-n})['x']
  c.check('rsize', c.eq(c.shape(p)[0], n))
  c.check('rmember', c.forall(n, lambda i: m(c.at(p, i))))
  if not c.symbolic:
    cnt = [sum(1 for v in p if v == u) for u in vs]
    c.check('balanced', max(cnt) - min(cnt) <= 1)


@obligation('C06', tests=60, conc_only='what is drawn over all outcomes of the generator: counted over all permutations it may draw')
def eval_few(c):
  """a request for n random values of a discrete set favours none of them: over
  all the orders the generator may draw each value comes as often as another,
  at every place"""
  import itertools
  V = c.mod('variable').Variable
  k = c.choice('k', [1, 2, 3, 4])
  n = c.choice('n', [1, 2, 3, 4])
  kind = c.choice('kind', ['int', 'bool'] if k == 2 else ['int'])
  x = V('x', vtype=bool) if kind == 'bool' else V('x', vtype=int, vset=[3 * i for i in range(k)])
  real = np.random.permutation
  todo, count, runs = [()], {}, 0
  try:
    while todo:
      pre, used = todo.pop(), []

      def perm(a):
        m = int(a) if np.ndim(a) == 0 else len(a)
        ps = list(itertools.permutations(range(m)))
        j = len(used)
        if j >= len(pre):
          todo.extend(pre + tuple(u for u in used[len(pre):]) + (q,) for q in ps[1:])
        p = np.array(pre[j] if j < len(pre) else ps[0], dtype=int)
        used.append(tuple(p))
        return p if np.ndim(a) == 0 else np.asarray(a)[p]
      np.random.permutation = perm
      state = len(c.feed.idraws) + len(c.feed.draws)
      v = x.evaluate({-n})['x']
      if len(c.feed.idraws) + len(c.feed.draws) != state:
        return
      runs += 1
      c.check('size', np.shape(v) == (n,))
      for i, e in enumerate(v):
        count[i, int(e)] = count.get((i, int(e)), 0) + 1
  finally:
    np.random.permutation = real
  c.check('evenly', len(count) == n * k and len(set(count.values())) == 1)


@obligation('C06')
def eval_bool(c):
  """Boolean variables behave as the two-element set False, True"""
  V = c.mod('variable').Variable
  x = V('x', vtype=bool)
  r = x.evaluate()['x']
  c.check('all', c.all(c.eq(c.shape(r)[0], 2), c.neg(c.at(r, 0)), c.at(r, 1)))
  n = c.extent('n')
  q = x.evaluate({n})['x']
  c.check('size', c.eq(c.shape(q)[0], n))
  c.check('cycle', c.forall(n, lambda i: c.iff(c.at(q, i), c.same(c.mod_(i, 2), 1))))
  p = x.evaluate({-n})['x']
  c.check('rsize', c.eq(c.shape(p)[0], n))


@obligation('C06')
def eval_infinite(c):
  """sampling an unbounded interval is refused rather than invented"""
  V = c.mod('variable').Variable
  x = V('x', vtype=float)
  n = c.int('n', lo=-5, hi=5)
  c.rejects('refused', lambda: x.evaluate({n}), AssertionError, ValueError, OverflowError)


# ---------------------------------------------------------------- C07
def _lims(c):
  a = c.real('a', lo=-100, hi=100)
  w = c.real('w', lo=2.**-6, hi=100)
  return a, a + w


def _delta_spec(c, v, d, r, a, b, ka, kb):
  """bounded step on [a, b] with open ends ka/kb"""
  t = v + d
  below = c.le(t, a) if ka else c.lt(t, a)
  above = c.le(b, t) if kb else c.lt(b, t)
  inside = c.all(c.neg(below), c.neg(above))
  return c.all(
      c.implies(inside, c.eq(r, t)),
      c.implies(below, c.eq(r, v if ka else a)),
      c.implies(above, c.eq(r, v if kb else b)))


def delta_bounded(c, ka, kb, arr):
  """a bounded step from inside the domain stays inside it: it moves by delta,
  stops at a closed end, and is refused at an open end"""
  V = c.mod('variable').Variable
  a, b = _lims(c)
  x = declare(c, V, float, _fvset(a, b, ka, kb))
  d = c.real('d', lo=-300, hi=300)
  # a default that an explicit step must override
  hit = c.choice('hit', ['free', 'low', 'high'])
  how = c.choice('how', ['scalar', 'Delta', 'default'])
  if how == 'default':
    x.set_delta(d, bound=True)
    kw = {}
  else:
    kw = dict(delta=d if how == 'scalar' else x.Delta(d), bound=True)
    if c.choice('default', [False, True]):
      x.set_delta(0.25)
  inr = lambda v: c.all(c.lt(a, v) if ka else c.le(a, v), c.lt(v, b) if kb else c.le(v, b))
  if not arr:
    v = c.real('v', lo=-300, hi=300) if hit == 'free' else a - d if hit == 'low' else b - d
    c.assume(inr(v))
    if not c.symbolic:
      # the step lands on the end up to rounding only
      c.assume(hit == 'free' or v + d == (a if hit == 'low' else b))
    r = x.apply_delta(v, **kw)
    c.check('step', _delta_spec(c, v, d, r, a, b, ka, kb))
    c.check('inside', c.any(x.inside(r), False if c.symbolic else (not ka and c.eq(r, a)) or (not kb and c.eq(r, b))))
    return
  n = c.extent('n')
  v = c.array('v', (n,), lo=-300, hi=300, where=lambda e, i: inr(e),
              gen=lambda r, s: float(a) + (float(b) - float(a)) * r.random(s))
  u = c.copy(v)
  r = x.apply_delta(v, **kw)
  c.check('size', c.eq(c.shape(r)[0], n))
  c.check('step', c.forall(n, lambda i: _delta_spec(c, c.at(u, i), d, c.at(r, i), a, b, ka, kb)))
  c.check('frame', c.forall(n, lambda i: c.eq(c.at(u, i), c.at(v, i))))


for _a in (False, True):
  for _b in (False, True):
    for _r in (False, True):
      instance('C07', delta_bounded, ka=_a, kb=_b, arr=_r, tests=40, tag='%s,%s,%s' % (
          'open' if _a else 'closed', 'open' if _b else 'closed', 'array' if _r else 'scalar'))


@obligation('C07')
def delta_free(c):
  """an unbounded step adds delta exactly, or does nothing when there is none"""
  V = c.mod('variable').Variable
  kind = c.choice('kind', ['f', 'i'])
  x = V('x', vtype=float) if kind == 'f' else V('x', vtype=int, vset=[0, 1, 2, 3])
  d = c.real('d', lo=-300, hi=300) if kind == 'f' else c.int('d', lo=-300, hi=300)
  n = c.extent('n')
  v = c.array('v', (n,), lo=-300, hi=300, kind=kind)
  r = x.apply_delta(v, d)
  c.check('add', c.forall(n, lambda i: c.eq(c.at(r, i), c.at(v, i) + d)))
  s = c.at(v, 0)
  c.check('add-scalar', c.eq(x.apply_delta(s, x.Delta(d)), s + d))
  q = x.apply_delta(v)
  c.check('none', c.forall(n, lambda i: c.eq(c.at(q, i), c.at(v, i))))
  c.check('dict', c.eq(c.at(x.apply_delta({'x': v}, d), 0), s + d))
  x.set_delta(d)
  c.check('default', c.eq(c.at(x.apply_delta(v), 0), s + d))
  x.set_delta()
  c.check('unset', c.eq(c.at(x.apply_delta(v), 0), s))


@obligation('C07')
def delta_int_bounded(c):
  """bounded integer steps stay within the limits and keep integer type"""
  V = c.mod('variable').Variable
  lo = c.int('lo', lo=-20, hi=20)
  w = c.int('wi', lo=1, hi=20)
  x = V('x', vtype=int, vset=[lo, lo + w])
  d = c.int('d', lo=-50, hi=50)
  n = c.extent('n')
  v = c.array('v', (n,), kind='i', lo=-20, hi=40, where=lambda e, i: c.all(c.le(lo, e), c.le(e, lo + w)),
              gen=lambda r, s: r.integers(int(lo), int(lo + w) + 1, size=s))
  r = x.apply_delta(v, d, bound=True)
  clip = lambda t: c.ite(c.lt(t, lo), lo, c.ite(c.lt(lo + w, t), lo + w, t))
  c.check('clip', c.forall(n, lambda i: c.eq(c.at(r, i), clip(c.at(v, i) + d))))


@obligation('C07')
def delta_random(c):
  """a list delta is drawn from the symmetric range, a tuple delta is the step
  or its negative; the drawn value is the one that is added"""
  V = c.mod('variable').Variable
  kind = c.choice('kind', ['f', 'i'])
  x = V('x', vtype=float) if kind == 'f' else V('x', vtype=int, vset=[0, 1, 2, 3])
  d = c.real('d', lo=2.**-8, hi=300) if kind == 'f' else c.int('d', lo=1, hi=300)
  m = c.ndraws()
  e = x.eval_delta((d,))
  c.check('sign', c.any(c.eq(e[0], d), c.eq(e[0], -d)))
  e2 = x.eval_delta((d,))
  if c.ndraws() == m + 2:
    # each sign half of the time: the middle of the range of the draw tells them apart
    (l1, h1, u1), (l2, h2, u2) = c.draw(m), c.draw(m + 1)
    s1, s2 = u1 * 2 - (l1 + h1), u2 * 2 - (l2 + h2)
    low, high = (lambda s: c.lt(s, 0)), (lambda s: c.lt(0, s))
    c.check('halves', c.all(
        c.implies(c.any(c.all(low(s1), low(s2)), c.all(high(s1), high(s2))), c.eq(e[0], e2[0])),
        c.implies(c.any(c.all(low(s1), high(s2)), c.all(high(s1), low(s2))), c.eq(e[0], -e2[0]))))
  m, k = c.ndraws(), len(c.idraws())
  f = x.eval_delta([d])
  c.check('range', c.all(c.le(-d, f[0], tol=1e-9), c.le(f[0], d, tol=1e-9)))
  if kind == 'f':
    spread(c, m, f[0], -d, d)
  else:
    f2 = x.eval_delta([d])
    ds = c.idraws()[k:]
    if len(ds) == 2:
      # as many draws as whole numbers in the range, different ones for different steps
      c.check('evenly', c.all(*[c.eq(h - l, d * 2 + 1) for l, h, _ in ds]))
      c.check('each', c.iff(c.eq(f[0], f2[0]), c.eq(ds[0][2], ds[1][2])))
  n = c.extent('n')
  v = c.array('v', (n,), lo=-300, hi=300, kind=kind)
  r = x.apply_delta(v, (d,))
  c.check('one-step', c.any(c.forall(n, lambda i: c.eq(c.at(r, i), c.at(v, i) + d)),
                            c.forall(n, lambda i: c.eq(c.at(r, i), c.at(v, i) - d))))
  q = x.apply_delta(v, [d])
  c.check('within', c.forall(n, lambda i: c.all(c.le(c.at(v, i) - d, c.at(q, i), tol=1e-9),
                                                c.le(c.at(q, i), c.at(v, i) + d, tol=1e-9))))
  c.check('shared', c.forall(n, lambda i: c.eq(c.at(q, i) - c.at(v, i), c.at(q, 0) - c.at(v, 0), tol=1e-6)))
  if not c.symbolic:
    c.check('type', r.dtype.kind == kind and q.dtype.kind == kind and x.apply_delta(v, float(d)).dtype.kind == kind)


@obligation('C07')
def delta_transformed(c):
  """with a transformation the step is taken in the transformed space"""
  V = c.mod('variable').Variable
  nps = c.np()
  x = V('x', vtype=float, vset=(0.001, 1000.))
  x.set_ufun((nps.log, nps.exp))
  d = c.real('d', lo=-2, hi=2)
  n = c.extent('n')
  v = c.array('v', (n,), lo=0.01, hi=100)
  r = x.apply_delta(v, d)
  c.check('mult', c.forall(n, lambda i: c.eq(c.at(r, i), c.mul(c.at(v, i), c.exp(d)))))


@obligation('C07')
def delta_bool(c):
  """a Boolean step of 1 flips, of 2 keeps"""
  V = c.mod('variable').Variable
  x = V('x', vtype=bool)
  n = c.extent('n')
  v = c.array('v', (n,), kind='b')
  r = x.apply_delta(v, 1)
  c.check('flip', c.forall(n, lambda i: c.iff(c.at(r, i), c.neg(c.at(v, i)))))
  r = x.apply_delta(v, True)
  c.check('flip-bool', c.forall(n, lambda i: c.iff(c.at(r, i), c.neg(c.at(v, i)))))
  r = x.apply_delta(v, 2)
  c.check('keep', c.forall(n, lambda i: c.iff(c.at(r, i), c.at(v, i))))


@obligation('C07')
def delta_zero(c):
  """an explicit zero step leaves the values alone whatever the default is"""
  V = c.mod('variable').Variable
  kind = c.choice('kind', ['f', 'i'])
  x = V('x', vtype=float) if kind == 'f' else V('x', vtype=int, vset=[0, 1, 2, 3])
  x.set_delta(c.choice('dflt', [3, [3], (3,)]))
  n = c.extent('n')
  v = c.array('v', (n,), lo=-300, hi=300, kind=kind)
  r = x.apply_delta(v, 0)
  c.check('same', c.forall(n, lambda i: c.eq(c.at(r, i), c.at(v, i))))
  c.check('value', c.eq(x.eval_delta(0)[0], 0))


@obligation('C07')
def delta_scaled(c):
  """the default step is multiplied by the length when scaling was requested,
  an explicitly given one never is"""
  V = c.mod('variable').Variable
  a, b = _lims(c)
  w = b - a
  x = declare(c, V, float, [a, b])
  d = c.real('d', lo=2.**-6, hi=2)
  form = c.choice('form', ['scalar', 'list', 'tuple'])
  scale = c.choice('scale', [False, True])
  x.set_delta({'scalar': d, 'list': [d], 'tuple': (d,)}[form], scale=scale)
  m = c.mul(d, w) if scale else d
  ok = lambda e: {'scalar': lambda: c.eq(e, m), 'tuple': lambda: c.any(c.eq(e, m), c.eq(e, -m)),
                  'list': lambda: c.all(c.le(-m, e, tol=1e-6), c.le(e, m, tol=1e-6))}[form]()
  c.check('eval', ok(x.eval_delta()[0]))
  n = c.extent('n')
  v = c.array('v', (n,), lo=-300, hi=300)
  r = x.apply_delta(v)
  c.check('apply', c.forall(n, lambda i: ok(c.at(r, i) - c.at(v, i)) if c.symbolic else True))
  if not c.symbolic:
    c.check('apply-c', all(ok(e) for e in np.round(r - v, 9)))
  if not c.symbolic and scale and form == 'list':
    # the whole scaled range is used
    es = [abs(float(x.eval_delta()[0])) for _ in range(60)]
    c.check('spread', max(es) > 0.5 * float(m))
  g = c.real('g', lo=-5, hi=5)
  c.check('explicit', c.eq(x.eval_delta(g)[0], g))


@obligation('C07', tests=40)
def delta_bool_random(c):
  """a random delta flips a Boolean value with the probability stated: if and
  only if a uniform draw lies below it"""
  V = c.mod('variable').Variable
  x = V('x', vtype=bool, vset=[False, True])
  p = c.real('p', lo=0, hi=1)
  v = c.choice('v', [False, True])
  r = x.apply_delta(v, c.choice('form', [list, tuple])([p]))
  u = c.unit_draw()
  if u is not None:
    c.check('flip', c.iff(c.lt(u, p), bool(r) != v))
  n = c.extent('n')
  vs = c.array('vs', (n,), kind='b')
  m = c.ndraws()
  q = x.apply_delta(vs, [p])
  d = c.draw(m) if c.ndraws() == m + 1 else None
  if d is not None and d[0] == 0 and d[1] == 1:
    c.check('flips', c.forall(n, lambda i: c.iff(c.lt(c.at(d[2], i), p), c.neg(c.iff(c.at(q, i), c.at(vs, i))))))
