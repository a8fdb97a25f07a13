"""C19: joint evaluation of random fields."""
import numpy as np
from pv.engine import obligation, instance
from props._contracts import rescale_contract, prod_rule_contract
from props._pd import OD, den, pscale, is_log, SCALES

SETS = {'y': [1, 2, 5]}


def _rvs(c, names, scales, simple=False):
  """variables with given probability functions k*v+j, on the scales given
  (y takes integer values of a set, the others real ones of an interval)"""
  RV = c.mod('rv').RV
  out, fun = [], {}
  for v, ps in zip(names, scales):
    k, j = c.real('k_' + v, lo=2.**-4, hi=2), c.real('j_' + v, lo=2.**-4, hi=2)
    f = (lambda k, j: lambda q: q * k + j)(k, j)
    if simple:
      f = lambda q: q + 1.
    if v in SETS:
      r = RV(v, vset=SETS[v], vtype=int)
    else:
      r = RV(v, vset=[0., 10.], vtype=float)
    r.set_prob(f, pscale=ps)
    out.append(r)
    fun[v] = f
  return out, fun


def _spec(c, v, kind):
  """-> (what to pass, extent or None for a scalar, value at i or None if sampled)"""
  if kind == 'scalar':
    s = c.choice('s_' + v, SETS[v]) if v in SETS else c.real('s_' + v, lo=0, hi=10)
    return s, None, lambda i: s
  if kind == 'array':
    n = c.extent('n_' + v)
    if v in SETS:
      q = c.array('q_' + v, (n,), kind='i', lo=1, hi=5)
    else:
      q = c.array('q_' + v, (n,), lo=0, hi=10)
    return q, n, lambda i: c.at(q, i)
  if kind == 'none':
    if v in SETS:
      return None, len(SETS[v]), lambda i: (c.at(c.stack(SETS[v]), i))
    return None, None, None
  if kind == 'draw':
    return {0}, None, None
  n = 3
  return {n}, n, None


def _at(c, arr, axes, idx):
  """element of arr where axis a of a variable is at its index; other axes have
  size one"""
  sh = c.shape(arr)
  if not sh:
    return arr
  pos = [0] * len(sh)
  for k, a in axes.items():
    if a is not None and a < len(sh):
      pos[a] = idx[k]
  for a in range(len(sh)):
    if a not in [axes[k] for k in axes]:
      c.check('singleton', c.eq(sh[a], 1))
  return c.at(arr, *pos)


def _num(c, v, s):
  """the probability denoted, or its logarithm on logarithmic scales"""
  return v + s.real if is_log(s) else den(c, v, s)


def _check(c, d, names, specs, want, ps, share=(), num=_num):
  """d is over names, holds the values specified along one axis each (shared:
  one for all), and its probability at every combination denotes want"""
  c.check('marg', set(d.marg) == set(names) and not d.cond)
  c.check('pscale', c.eq(d.pscale, ps))
  axes = {v: d.dims.get(v) for v in names}
  used = [a for v, a in axes.items() if a is not None and v not in share]
  used += list({axes[v] for v in share if axes[v] is not None})
  c.check('axes', len(set(used)) == len(used))
  ext, rep = [], []
  for v in names:
    n = specs[v][1]
    if n is None:
      c.check('scalar', c.is_scalar(d[v]) and axes[v] is None)
      continue
    if axes[v] is None:
      c.check('one', c.all(c.eq(n, 1), *([c.eq(s, 1) for s in c.shape(d[v])])))
    else:
      c.check('extent', c.eq(c.shape(d[v])[axes[v]], n))
    if v in share and rep and any(r in share for r in rep):
      continue
    ext.append(n)
    rep.append(v)

  def full(idx):
    i = dict(zip(rep, idx))
    j = [i[r] for r in rep if r in share]
    return {v: i[v] if v in i else j[0] if v in share and j else 0 for v in names}

  def val(v, i):
    return d[v] if specs[v][1] is None else _at(c, d[v], {v: axes[v]}, i)

  def holds(*idx):
    i = full(idx)
    vs = {v: val(v, i) for v in names}
    given = [c.same(vs[v], specs[v][2](i[v])) if v in SETS else c.eq(vs[v], specs[v][2](i[v]))
             for v in names if specs[v][2] is not None]
    return c.all(c.eq(num(c, _at(c, d.prob, axes, i), ps), want(vs)), *given)
  c.check('joint', c.forall(tuple(ext), holds) if ext else holds())


KINDS = ['scalar', 'array', 'none', 'draw', 'many']


def _used(c, rf, names):
  """the field may have been evaluated before, at other values"""
  was = c.choice('was', [None, 'scalars', 'arrays', 'sampled'])
  if was == 'scalars':
    rf({v: 2 for v in names})
  elif was == 'arrays':
    rf({v: np.array([1, 5, 2, 2])[:2 + i] for i, v in enumerate(names)})
  elif was == 'sampled':
    rf({0})


def independent(c, scale, kx):
  """without a joint probability the probability of a field is the product of
  the probabilities of its variables at every combination of values"""
  c.stub('rf_utils', 'rescale', rescale_contract(c))
  c.stub('rf_utils', 'prod_rule', prod_rule_contract(c))
  names = 'xyz'
  ps = pscale(c, scale)
  rvs, fun = _rvs(c, names, [ps] * 3)
  rf = c.mod('rf').RF(*rvs)
  kinds = [kx] + [c.choice('kind_' + v, KINDS) for v in 'yz']
  specs = {v: _spec(c, v, k) for v, k in zip(names, kinds)}
  d = rf({v: specs[v][0] for v in names})

  def want(vs):
    ws = [_num(c, fun[v](vs[v]), ps) for v in names]
    w = ws[0]
    for u in ws[1:]:
      w = w + u if is_log(ps) else c.mul(w, u)
    return w
  _check(c, d, names, specs, want, rf.pscale)


for _s in SCALES:
  for _k in KINDS:
    instance('C19', independent, scale=_s, kx=_k, tests=12)


def _product(c, names, fun, ps):
  def want(vs):
    ws = [_num(c, fun[v](vs[v]), ps) for v in names]
    w = ws[0]
    for u in ws[1:]:
      w = w + u if is_log(ps) else c.mul(w, u)
    return w
  return want


def shared(c, scale, pair, kind):
  """variables given values together share an axis and are paired
  element by element, a scalar with every element"""
  c.stub('rf_utils', 'rescale', rescale_contract(c))
  c.stub('rf_utils', 'prod_rule', prod_rule_contract(c))
  names = 'xyz'
  ps = pscale(c, scale)
  rvs, fun = _rvs(c, names, [ps] * 3)
  rf = c.mod('rf').RF(*rvs)
  third = [v for v in names if v not in pair][0]
  specs, given = {}, None
  n = c.extent('n')

  def arr(v):
    if v in SETS:
      q = c.array('q_' + v, (n,), kind='i', lo=1, hi=5)
    else:
      q = c.array('q_' + v, (n,), lo=0, hi=10)
    return q, n, lambda i: c.at(q, i)
  if kind in ('many', 'draw'):
    given = {3} if kind == 'many' else {0}
    for v in pair:
      specs[v] = (given, 3 if kind == 'many' else None, None)
  else:
    for v, w in zip(pair, ('first', 'second')):
      specs[v] = arr(v) if kind in ('arrays', w) else _spec(c, v, 'scalar')
    given = c.choice('container', [tuple, list])([specs[v][0] for v in pair])
  specs[third] = _spec(c, third, c.choice('third', ['scalar', 'array', 'many']))
  key = c.choice('key', ['str', 'objects'])
  key = ','.join(pair) if key == 'str' else tuple(rvs[names.index(v)] for v in pair)
  items = [(key, given), (third, specs[third][0])]
  if c.choice('order', [0, 1]):
    items = items[::-1]
  _used(c, rf, names)
  d = rf(OD(items))
  _check(c, d, names, specs, _product(c, names, fun, ps), rf.pscale,
         share=tuple(v for v in pair if specs[v][1] is not None))


for _s in ('one', 'log'):
  for _p in ('xz', 'zx', 'xy', 'zy', 'yz'):
    for _k in ('arrays', 'first', 'second', 'many', 'draw', 'scalars'):
      instance('C19', shared, scale=_s, pair=_p, kind=_k, tests=4)


def addressed(c, order, by):
  """values may be given by name, keyword or variable, in any order; variables
  left out take all the values of their set, or one sampled from the interval"""
  c.stub('rf_utils', 'rescale', rescale_contract(c))
  c.stub('rf_utils', 'prod_rule', prod_rule_contract(c))
  names = 'xyz'
  rvs, fun = _rvs(c, names, [1.] * 3)
  how = c.choice('how', ['args', 'and'])
  rf = c.mod('rf').RF(*rvs) if how == 'args' else rvs[0] & rvs[1] & rvs[2]
  c.check('names', rf.keylist == list(names) and rf.name == 'x,y,z')
  _used(c, rf, names)
  specs, items = {}, []
  for v in order:
    k = c.choice('kind_' + v, ['scalar', 'array', 'out'])
    if k == 'out':
      specs[v] = (None, None, None)
    else:
      specs[v] = _spec(c, v, k)
      items.append((v, specs[v][0]))
  out = [v for v in names if v not in dict(items)]
  if by == 'keyword':
    d = rf(**dict(items))
  elif by == 'object':
    d = rf(OD((rvs[names.index(v)], q) for v, q in items))
  else:
    d = rf(OD(items))
  # left out: one sample of every variable of a field with real variables
  _check(c, d, names, specs, _product(c, names, fun, 1.), 1.)
  for v in out:
    if v in SETS:
      c.check('member', c.any(*[c.same(d[v], s) for s in SETS[v]]))
    else:
      c.check('interval', c.all(c.le(0., d[v]), c.le(d[v], 10.)))


for _o in ('xyz', 'zxy', 'yzx'):
  for _b in ('dict', 'keyword', 'object'):
    instance('C19', addressed, order=_o, by=_b, tests=6)


@obligation('C19', tests=20)
def strangers(c):
  """values for a variable that is not in the field are refused however they
  are given, and so are values for the wrong number of variables"""
  names = c.choice('names', ['xy', ('x', 'xy'), ('ab', 'b')])
  rvs, fun = _rvs(c, names, [1., 1.]) if names == 'xy' else ([c.mod('rv').RV(n, vtype=float, vset=[0., 1.]) for n in names], None)
  rf = c.mod('rf').RF(*rvs)
  a, b = names
  s = c.real('s', lo=0, hi=1)
  n = c.extent('n')
  v = c.array('v', (n,), lo=0, hi=1)
  other = c.choice('other', ['u', 'a', 'y_', 'bx'])
  form = c.choice('form', ['key', 'keyword', 'first', 'last', 'middle', 'only', 'few', 'many'])
  q = {'key': {a: s, other: s}, 'keyword': {a: s, other: s},
       'first': {other + ',' + a: [v, v], b: s}, 'last': {a + ',' + other: [v, v], b: s},
       'middle': {','.join([a, other, b]): [v, v, v]}, 'only': {other: v},
       'few': {a + ',' + b: [v]}, 'many': {a + ',' + b: [v, v, v]}}[form]
  c.rejects('refused', (lambda: rf(**q)) if form == 'keyword' else lambda: rf(q))


def _logp(c, v, s):
  if is_log(s):
    return v + s.real
  return c.log(v) + (0. if isinstance(s, float) and s == 1. else c.log(s))


def _joint(c, fun, scales, out):
  """the product of the probabilities denoted, or its logarithm if out and a
  factor are logarithmic"""
  def want(vs):
    if not any(map(is_log, scales)):
      w = 1.
      for v, s in zip(fun, scales):
        w = c.mul(w, den(c, fun[v](vs[v]), s))
      return w
    w = 0.
    for v, s in zip(fun, scales):
      w = w + _logp(c, fun[v](vs[v]), s)
    return w if is_log(out) else c.exp(w)
  return want


def given_scale(c, s0, s1):
  """a scale requested for a field of variables on another scale is the one its
  probability is expressed on"""
  c.stub('rf_utils', 'rescale', rescale_contract(c))
  c.stub('rf_utils', 'prod_rule', prod_rule_contract(c))
  names = 'xz'
  p0, p1 = pscale(c, s0, 'p0'), pscale(c, s1, 'p1')
  rvs, fun = _rvs(c, names, [p0] * 2, simple=True)
  rf = c.mod('rf').RF(*rvs)
  rf.set_prob(pscale=p1)
  specs = {'x': _spec(c, 'x', c.choice('kind', ['scalar', 'array'])), 'z': _spec(c, 'z', 'array')}
  d = rf({v: specs[v][0] for v in names})
  c.check('scale', c.eq(rf.pscale, p1))
  _check(c, d, names, specs, _joint(c, fun, [p0, p0], p1), p1, num=_num if is_log(p0) else den)


for _s in SCALES:
  for _t in SCALES:
    instance('C19', given_scale, s0=_s, s1=_t)


def mixed(c, s0, s1):
  """variables on different scales: the product of what they denote"""
  c.stub('rf_utils', 'rescale', rescale_contract(c))
  c.stub('rf_utils', 'prod_rule', prod_rule_contract(c))
  names = 'xz'
  p0, p1 = pscale(c, s0, 'p0'), pscale(c, s1, 'p1')
  rvs, fun = _rvs(c, names, [p0, p1], simple=True)
  rf = c.mod('rf').RF(*rvs)
  specs = {'x': _spec(c, 'x', c.choice('kind', ['scalar', 'array'])), 'z': _spec(c, 'z', 'array')}
  d = rf({v: specs[v][0] for v in names})
  c.check('scale', is_log(rf.pscale) == (is_log(p0) or is_log(p1)))
  _check(c, d, names, specs, _joint(c, fun, [p0, p1], rf.pscale), rf.pscale)


for _s in SCALES:
  for _t in SCALES:
    if _s != _t:
      instance('C19', mixed, s0=_s, s1=_t)


def joint_function(c, how):
  """a joint probability function is evaluated at every combination of values
  of its variables, by name or in the order stated, with its constants"""
  names = 'xyz'
  rvs, _ = _rvs(c, names, [1.] * 3)
  rf = c.mod('rf').RF(*rvs)
  ps = pscale(c, c.choice('scale', SCALES))
  k = c.real('k', lo=-2, hi=2)
  f = lambda x, y, z: x * k + y * y - z * 3
  if c.choice('before', [0, 1]):  # another function, used before
    rf.set_prob(lambda z, y, x, m: x * y * z * m, order={'z': 0, 'y': 1, 'x': 2}, pscale=2., m=3.)
    rf({v: 2 for v in names})
  if how == 'name':
    rf.set_prob(f, pscale=ps)
  elif how == 'permuted':
    rf.set_prob(lambda z, x, y: f(x, y, z), pscale=ps)
  elif how == 'order':
    rf.set_prob(lambda a, b, q: f(b, q, a), order={'z': 0, 'x': 1, 'y': 2}, pscale=ps)
  else:
    rf.set_prob(lambda x, y, z, m: f(x, y, z) + m, m=k, pscale=ps)
  specs = {v: _spec(c, v, c.choice('kind_' + v, ['scalar', 'array', 'many'])) for v in names}
  d = rf({v: specs[v][0] for v in names})
  want = (lambda v: f(v['x'], v['y'], v['z']) + k) if how == 'constant' else (lambda v: f(v['x'], v['y'], v['z']))
  _check(c, d, names, specs, want, ps, num=lambda c, v, s: v)


for _h in ('name', 'permuted', 'order', 'constant'):
  instance('C19', joint_function, how=_h, tests=8)


def identically(c, scale):
  """evaluated as independent and identically distributed samples the
  probability is the product over the samples of the variables named"""
  c.stub('rf_utils', 'rescale', rescale_contract(c))
  c.stub('rf_utils', 'prod_rule', prod_rule_contract(c))
  names = 'xz'
  ps = pscale(c, scale)
  rvs, fun = _rvs(c, names, [ps] * 2)
  rf = c.mod('rf').RF(*rvs)
  n, m = c.extent('n', lo=2), c.extent('m', lo=2)
  x, z = c.array('x', (n,), lo=0, hi=10), c.array('z', (n if c.choice('joint', [0, 1]) else m,), lo=0, hi=10)
  one = _product(c, names, fun, ps)
  acc = c.sum if is_log(ps) else c.prod
  if c.shape(z)[0] is n:
    iid = c.choice('iid', ['all', 'names'])
    d = rf({'x,z': (x, z)}, iid=True if iid == 'all' else ['x', 'z'])
    want = acc((n,), lambda i: one({'x': c.at(x, i), 'z': c.at(z, i)}))
    c.check('product', c.eq(_num(c, d.prob, d.pscale), want))
    c.check('values', d['x'] == {n} and d['z'] == {n})
  else:
    d = rf({'x': x, 'z': z}, iid='x' if c.choice('list', [0, 1]) else ['x'])
    c.check('product', c.forall((m,), lambda j: c.eq(
        _num(c, c.at(d.prob, j), d.pscale), acc((n,), lambda i: one({'x': c.at(x, i), 'z': c.at(z, j)})))))
    c.check('values', c.all(d['x'] == {n}, c.forall((m,), lambda j: c.eq(c.at(d['z'], j), c.at(z, j)))))
  c.check('marg', set(d.marg) == {'x', 'z'})


for _s in SCALES:
  instance('C19', identically, scale=_s)


def multivariate(c, scale):
  """a multivariate scipy distribution is evaluated at the vector of the
  values of the variables in the order of the field, for every combination"""
  from scipy.stats._multivariate import multi_rv_generic
  names = 'xyz'
  rvs, _ = _rvs(c, names, [1.] * 3)
  rf = c.mod('rf').RF(*rvs)
  k = c.real('k', lo=1, hi=2)
  f = lambda v: v[..., 0] * k + v[..., 1] * v[..., 2] * 3
  g = lambda v: v[..., 0] + v[..., 1] * k - v[..., 2] * 3

  class Frozen:
    def __init__(self, a):
      self.a = a

    def pdf(self, v):
      return f(v) + self.a

    def logpdf(self, v):
      return g(v) + self.a

  class Generic(multi_rv_generic):
    def __call__(self, a):
      return Frozen(a)
  a = c.real('a', lo=0, hi=1)
  ps = 0j if scale == 'log' else 1.
  rf.set_prob(Generic(), a, pscale=ps)
  specs = {v: _spec(c, v, c.choice('kind_' + v, ['scalar', 'array'])) for v in names}
  d = rf({v: specs[v][0] for v in names})
  h = (lambda x, y, z: x + y * k - z * 3 + a) if scale == 'log' else (lambda x, y, z: x * k + y * z * 3 + a)
  _check(c, d, names, specs, lambda v: h(v['x'], v['y'], v['z']), ps, num=lambda c, v, s: v)


for _s in ('one', 'log'):
  instance('C19', multivariate, scale=_s)


@obligation('C19', tests=6)
def single(c):
  """a field of one variable has the probability of the variable"""
  RF = c.mod('rf').RF
  ps = pscale(c, c.choice('scale', SCALES))
  v = c.choice('var', ['x', 'y'])
  rvs, fun = _rvs(c, v, [ps])
  rf = RF(rvs[0]) if c.choice('how', [0, 1]) else RF(*rvs)
  specs = {v: _spec(c, v, c.choice('kind', ['scalar', 'array', 'none', 'draw', 'many']))}
  how = c.choice('by', ['dict', 'positional'])
  d = rf({v: specs[v][0]}) if how == 'dict' else rf(specs[v][0])
  c.check('scale', is_log(rf.pscale) == is_log(ps) and c.close(
      *[s.real if is_log(s) else s for s in (rf.pscale, ps)], 1e-9))
  _check(c, d, v, specs, lambda vs: fun[v](vs[v]), rf.pscale, num=lambda c, v, s: v)


def alike(c, by):
  """variables are told apart by their whole names, also where one name is
  part of another"""
  c.stub('rf_utils', 'rescale', rescale_contract(c))
  c.stub('rf_utils', 'prod_rule', prod_rule_contract(c))
  names = c.choice('names', [('mu', 'mu_x', 'x'), ('ab', 'b', 'a'), ('x1', 'x', 'x11')])
  rvs, fun = _rvs(c, names, [1.] * 3)
  rf = c.mod('rf').RF(*rvs)
  c.check('names', rf.keylist == list(names) and rf.name == ','.join(names))
  if by == 'pair':
    n = c.extent('n')
    arr = lambda v: (lambda q: (q, n, lambda i: c.at(q, i)))(c.array('q_' + v, (n,), lo=0, hi=10))
    pair = c.choice('pair', [(0, 1), (2, 1), (0, 2)])
    a, b = names[pair[0]], names[pair[1]]
    third = [v for v in names if v not in (a, b)][0]
    specs = {a: arr(a), b: arr(b), third: _spec(c, third, c.choice('third', ['scalar', 'array']))}
    d = rf({third: specs[third][0], a + ',' + b: (specs[a][0], specs[b][0])})
    _check(c, d, names, specs, _product(c, names, fun, 1.), 1., share=(a, b))
    return
  specs = {v: _spec(c, v, c.choice('kind_' + v, ['scalar', 'array'])) for v in names}
  items = OD((v, specs[v][0]) for v in (names if c.choice('order', [0, 1]) else names[::-1]))
  if by == 'iid':
    k = c.choice('k', [v for v in names])
    n = c.extent('m', lo=1)
    q = c.array('iid', (n,), lo=0, hi=10)
    items[k] = q
    specs[k] = (c.real('unused'), None, None)
    d = rf(items, iid=c.choice('list', [0, 1]) and [k] or k)
    rest = [v for v in names if v != k]
    c.check('marg', set(d.marg) == set(names) and d[k] == {n})
    ext = [specs[v][1] for v in rest if specs[v][1] is not None]

    def holds(*i):
      j = iter(i)
      vs = {v: specs[v][2](next(j) if specs[v][1] is not None else 0) for v in rest}
      pos = {v: t for v, t in zip([v for v in rest if specs[v][1] is not None], i)}
      want = c.prod((n,), lambda t: _product(c, names, fun, 1.)(dict(vs, **{k: c.at(q, t)})))
      return c.eq(_at(c, d.prob, {v: d.dims.get(v) for v in pos}, pos), want)
    c.check('product', c.forall(tuple(ext), holds) if ext else holds())
    return
  if by == 'function':
    args = ', '.join(names)
    f = eval('lambda %s: %s + 2 * %s * %s' % (args, names[0], names[1], names[2]))
    rf.set_prob(f)
    want = lambda v: v[names[0]] + c.mul(2 * v[names[1]], v[names[2]])
  else:
    want = _product(c, names, fun, 1.)
  d = rf(**items) if by == 'keyword' else rf(items)
  _check(c, d, names, specs, want, 1.)
  # evaluation without probability
  vals, dims = rf.evaluate(**items) if by == 'keyword' else rf.evaluate(items)
  c.check('evaluate', list(vals) == list(d) and all(dims.get(v) == d.dims.get(v) for v in names))
  for v in names:
    c.check('evaluated', c.all(len(c.shape(vals[v])) == len(c.shape(d[v])), c.forall(c.shape(d[v]), lambda *i: c.eq(
        c.at(vals[v], *i), c.at(d[v], *i))) if c.shape(d[v]) else c.eq(vals[v], d[v])))


for _b in ('dict', 'keyword', 'pair', 'function', 'iid'):
  instance('C19', alike, by=_b, tests=8)
