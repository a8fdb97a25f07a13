"""C24: stochastic dependences."""
import itertools
import numpy as np
from pv.engine import obligation, instance
from props._contracts import rescale_contract, prod_rule_contract
from props._pd import OD, den, pscale, is_log
from props.c19_rf import _at, _num, _rvs, _spec, SETS


def _stubs(c):
  for m in ('rf_utils', 'pd_utils', 'sd_utils'):
    c.stub(m, 'prod_rule', prod_rule_contract(c))
    c.stub(m, 'rescale', rescale_contract(c))


def _form(c, names, tag):
  """an arbitrary positive function of the values by name"""
  ks = {v: c.real('%s_%s' % (tag, v), lo=2.**-4, hi=2) for v in names}
  j = c.real(tag, lo=2.**-4, hi=2)

  def f(**kw):
    c.check('given', set(kw) == set(names))
    out = j
    for v in names:
      out = kw[v] * ks[v] + out
    return out
  return f


def _check(c, d, marg, cond, specs, want, ps, num=_num):
  """d is over marg given cond, holds the values specified along an axis each,
  and its probability at every combination denotes want"""
  names = list(marg) + list(cond)
  c.check('marg', list(d.marg) == list(marg))
  c.check('cond', list(d.cond) == list(cond))
  c.check('keys', sorted(d.keys()) == sorted(names))
  if ps is not None:
    c.check('pscale', c.eq(d.pscale, ps))
  axes = {v: d.dims.get(v) for v in names}
  used = [a for a in axes.values() if a is not None]
  c.check('axes', len(set(used)) == len(used))
  many = [v for v in names if specs[v][1] is not None]
  for v in names:
    n = specs[v][1]
    if n is None:
      c.check('scalar', c.is_scalar(d[v]) and axes[v] is None)
    elif axes[v] is None:
      c.check('one', c.all(c.eq(n, 1), *([c.eq(s, 1) for s in c.shape(d[v])])))
    else:
      c.check('extent', c.eq(c.shape(d[v])[axes[v]], n))

  def holds(*idx):
    i = dict(zip(many, idx))
    vs = {v: d[v] if v not in i else _at(c, d[v], {v: axes[v]}, i) for v in names}
    given = [c.same(vs[v], specs[v][2](i.get(v, 0))) if v in SETS else c.eq(vs[v], specs[v][2](i.get(v, 0)))
             for v in names if specs[v][2] is not None]
    return c.all(c.eq(num(c, _at(c, d.prob, axes, i), d.pscale), want(vs)), *given)
  ext = tuple(specs[v][1] for v in many)
  c.check('probability', c.forall(ext, holds) if ext else holds())


def _build(c, rvs, leafs, roots, how=None):
  """the dependence of leafs on roots, built in one way or another"""
  SD, RF = c.mod('sd').SD, c.mod('rf').RF
  how = c.choice('how', ['or', 'fields', 'bare']) if how is None else how
  ls, rs = [rvs[v] for v in leafs], [rvs[v] for v in roots]
  if how == 'or':
    a, b = ls[0], rs[0]
    for r in ls[1:]:
      a = a & r
    for r in rs[1:]:
      b = b & r
    return a | b
  if how == 'fields':
    return SD(RF(*ls), RF(*rs))
  return SD(ls[0] if len(ls) == 1 else RF(*ls), rs[0] if len(rs) == 1 else RF(*rs))


KINDS = ['scalar', 'array', 'none', 'draw', 'many']
SPLITS = [('x', 'y'), ('y', 'x'), ('xz', 'y'), ('y', 'xz'), ('zx', 'y'), ('x', 'yz')]


def _kinds(c, names, kinds):
  return {v: _spec(c, v, c.choice('kind_' + v, kinds)) for v in names}


def _used(c, sd, names, leafs, iid=False):
  """the dependence may have been evaluated before, in another way, with
  another probability"""
  was = c.choice('was', [None, 'conditional', 'joint'])
  if was is None:
    return
  g = eval('lambda %s: 0. * (%s) + .5' % (', '.join(names), ' + '.join(names)))
  sd.set_prob(g, pscale=1.)
  vals = {v: 1 if v in SETS else np.array([.5, 1., 2., 4.][:3 if v in leafs else 4]) for v in names}
  sd(vals, **({'joint': True} if was == 'joint' else {}), **({'iid': True} if iid else {}))


def conditional(c, leafs, roots, scale):
  """evaluating a dependence gives the distribution of its leafs conditional on
  its roots, with the probability function at each combination of values"""
  _stubs(c)
  names = leafs + roots
  ps = pscale(c, scale)
  rvs, _ = _rvs(c, sorted(names), [1.] * len(names), simple=True)
  rvs = dict(zip(sorted(names), rvs))
  sd = _build(c, rvs, leafs, roots)
  f = _form(c, names, 'f')
  _used(c, sd, names, leafs)
  sd.set_prob(f, pscale=ps)
  specs = _kinds(c, names, KINDS if len(names) == 2 else ['scalar', 'array', 'none'])
  d = sd({v: specs[v][0] for v in names})
  _check(c, d, leafs, roots, specs, lambda vs: f(**vs), ps, num=lambda c, v, s: v)
  if all(s[0] is not None and not isinstance(s[0], set) for s in specs.values()):
    vals, dims = sd.evaluate({v: specs[v][0] for v in names})
    c.check('evaluate', set(vals) == set(d) and all(dims.get(v) == d.dims.get(v) for v in names))
    for v in names:
      c.check('evaluated', c.forall(c.shape(d[v]), lambda *i: c.eq(c.at(vals[v], *i), c.at(d[v], *i)))
              if c.shape(d[v]) else c.eq(vals[v], d[v]))


for _l, _r in SPLITS:
  for _s in ('one', 'log'):
    instance('C24', conditional, leafs=_l, roots=_r, scale=_s, tag='%s|%s,%s' % (_l, _r, _s), tests=8)


def joint(c, leafs, roots, scales, prior):
  """joint evaluation multiplies by the probability of the roots"""
  _stubs(c)
  names = leafs + roots
  lf, rt = [pscale(c, s, 'ps%d' % i) for i, s in enumerate(scales)]
  rvs, fun = _rvs(c, sorted(names), [1. if prior == 'field' else rt if v in roots else 1. for v in sorted(names)])
  rvs = dict(zip(sorted(names), rvs))
  SD, RF = c.mod('sd').SD, c.mod('rf').RF
  field = RF(*[rvs[v] for v in roots])
  if prior == 'field':
    g = _form(c, roots, 'g')
    field.set_prob(g, pscale=rt)
    prior_num = lambda vs: g(**{v: vs[v] for v in roots})
  elif is_log(rt):
    prior_num = lambda vs: sum((fun[v](vs[v]) for v in roots[1:]), fun[roots[0]](vs[roots[0]]))
  else:
    def prior_num(vs):
      w = 1.
      for v in roots:
        w = c.mul(w, fun[v](vs[v]))
      return w
  sd = SD(RF(*[rvs[v] for v in leafs]), field)
  f = _form(c, names, 'f')
  _used(c, sd, names, leafs)
  sd.set_prob(f, pscale=lf)
  specs = _kinds(c, names, ['scalar', 'array'] if len(names) > 2 else ['scalar', 'array', 'none', 'draw', 'many'])
  d = sd({v: specs[v][0] for v in names}, joint=True)

  def want(vs):
    a, b = f(**vs), prior_num(vs)
    if is_log(lf) or is_log(rt):
      return (a if is_log(lf) else c.log(a)) + (b if is_log(rt) else c.log(b))
    return c.mul(a, b)
  _check(c, d, roots + leafs, '', specs, want, None)


for _l, _r in SPLITS[:4]:
  for _s in (('one', 'one'), ('log', 'log'), ('log', 'one')):
    for _p in ('independent', 'field'):
      instance('C24', joint, leafs=_l, roots=_r, scales=_s, prior=_p, tag='%s|%s,%s,%s,%s' % (_l, _r, *_s, _p), tests=6)


def identically(c, scale):
  """joint evaluation over identically distributed leafs multiplies the
  probabilities at all of their values once by that of the roots"""
  _stubs(c)
  ps = pscale(c, scale)
  rvs, fun = _rvs(c, 'xz', [1., ps])
  sd = rvs[0] | rvs[1]
  f = _form(c, 'xz', 'f')
  _used(c, sd, 'xz', 'x', True)
  sd.set_prob(f, pscale=ps)
  n = c.extent('n', lo=2)
  x = c.array('x', (n,), lo=0, hi=10)
  many = c.choice('many', [0, 1])
  z = c.array('z', (c.extent('m', lo=2),), lo=0, hi=10) if many else c.real('z', lo=0, hi=10)
  with_prior = c.choice('joint', [0, 1])
  d = sd({'x': x, 'z': z}, iid=True, **({'joint': True} if with_prior else {}))
  c.check('values', d['x'] == {n})
  acc = c.sum if is_log(ps) else c.prod

  def want(q):
    w = acc((n,), lambda i: f(x=c.at(x, i), z=q))
    if not with_prior:
      return w
    return w + fun['z'](q) if is_log(ps) else c.mul(w, fun['z'](q))
  c.check('names', sorted(list(d.marg) + list(d.cond)) == ['x', 'z'] and ('z' in d.marg) == bool(with_prior))
  if many:
    c.check('product', c.forall(c.shape(z), lambda j: c.all(
        c.eq(c.at(d['z'], j), c.at(z, j)), c.eq(_num(c, c.at(d.prob, j), d.pscale), want(c.at(z, j))))))
  else:
    c.check('product', c.all(c.eq(d['z'], z), c.eq(_num(c, d.prob, d.pscale), want(z))))


for _s in ('one', 'log'):
  instance('C24', identically, scale=_s, tests=8)


def parallel(c, scales, late):
  """dependences of the same leafs on different roots multiply"""
  _stubs(c)
  rvs, _ = _rvs(c, 'xyz', [1.] * 3, simple=True)
  x, y, z = rvs
  SD = c.mod('sd').SD
  s0, s1 = [pscale(c, s, 'ps%d' % i) for i, s in enumerate(scales)]
  zx, zy = z | x, z | y
  f, g = _form(c, 'zx', 'f'), _form(c, 'zy', 'g')
  if late:
    sd = SD(zx, zy)
  zx.set_prob(f, pscale=s0)
  zy.set_prob(g, pscale=s1)
  if not late:
    sd = SD(zx, zy)
  specs = _kinds(c, 'zxy', ['scalar', 'array', 'none'])
  d = sd({v: specs[v][0] for v in 'zxy'})

  def want(vs):
    a, b = f(z=vs['z'], x=vs['x']), g(z=vs['z'], y=vs['y'])
    if is_log(s0) or is_log(s1):
      return c.exp((a if is_log(s0) else c.log(a)) + (b if is_log(s1) else c.log(b)))
    return c.mul(a, b)
  _check(c, d, 'z', 'xy', specs, want, None)


for _s in (('one', 'one'), ('log', 'log'), ('one', 'log')):
  for _t in (False, True):
    instance('C24', parallel, scales=_s, late=_t, tag='%s,%s,%s' % (*_s, _t), tests=8)


def _expect(c, sd, leafs, roots):
  c.check('leafs', sd.leafs.keylist == list(leafs))
  c.check('roots', (sd.roots is None) if not roots else sd.roots.keylist == list(roots))
  c.check('stems', not sd.stems)
  c.check('name', sd.name == ','.join(leafs) + ('|' + ','.join(roots) if roots else ''))
  c.check('variables', sorted(sd.keylist) == sorted(list(leafs) + list(roots)))
  c.check('nodes', sorted(v.name for v in sd.nodes) == sorted(list(leafs) + list(roots)))
  c.check('edges', sorted((a.name, b.name) for a, b in sd.edges()) == sorted((r, l) for r in roots for l in leafs))


@obligation('C24', tests=4)
def structure(c):
  """operators and constructors condition what stands to the left on what stands
  to the right"""
  kind = c.choice('kind', ['stochastic', 'deterministic'])
  make = (lambda v: c.mod('rv').RV(v, vtype=float, vset=(0., 1.))) if kind == 'stochastic' else \
      (lambda v: c.mod('variable').Variable(v, vtype=float, vset=(0., 1.)))
  dep, fld = (c.mod('sd').SD, c.mod('rf').RF) if kind == 'stochastic' else (c.mod('dependence').Dependence, c.mod('field').Field)
  w, x, y, z = [make(v) for v in 'wxyz']
  cases = {
    'x|y': (lambda: x | y, 'x', 'y'),
    'y|x': (lambda: y | x, 'y', 'x'),
    'x&z|y': (lambda: (x & z) | y, 'xz', 'y'),
    'x|y&z': (lambda: x | (y & z), 'x', 'yz'),
    'x&w|z&y': (lambda: (x & w) | (z & y), 'xw', 'zy'),
    'x&(y|z)': (lambda: x & (y | z), 'xy', 'z'),
    'x&w&(y|z)': (lambda: (x & w) & (y | z), 'xwy', 'z'),
    'x&(y|z&w)': (lambda: x & (y | (z & w)), 'xy', 'zw'),
    'D(x)': (lambda: dep(x), 'x', ''),
    'D(xy)': (lambda: dep(fld(x, y)), 'xy', ''),
    'D(x,y)': (lambda: dep(x, y), 'x', 'y'),
    'D(xy,zw)': (lambda: dep(fld(x, y), fld(z, w)), 'xy', 'zw'),
    'D(x,y,z)': (lambda: dep(x, y, z), 'xy', 'z'),
    'D(w,x,y,z)': (lambda: dep(w, x, y, z), 'wxy', 'z'),
    'D(x,yw,z)': (lambda: dep(x, fld(y, w), z), 'xyw', 'z'),
  }
  fun, leafs, roots = cases[c.choice('case', list(cases))]
  sd = fun()
  c.check('type', isinstance(sd, dep))
  _expect(c, sd, leafs, roots)
  # operands are left as they were
  for v, r in zip('wxyz', (w, x, y, z)):
    c.check('operand', r.name == v)


@obligation('C24', tests=4)
def graph(c):
  """dependences of dependences unite their variables and edges: parallel ones
  share their leafs, separate ones keep theirs"""
  make = lambda v: c.mod('rv').RV(v, vtype=float, vset=(0., 1.))
  SD = c.mod('sd').SD
  w, x, y, z = [make(v) for v in 'wxyz']
  case = c.choice('case', ['parallel', 'separate', 'serial', 'three'])
  if case == 'parallel':
    sd = SD(z | x, z | y)
    leafs, roots, edges, stems = 'z', 'xy', 'xz yz', ''
  elif case == 'separate':
    sd = SD(x | y, w | z)
    leafs, roots, edges, stems = 'xw', 'yz', 'yx zw', ''
  elif case == 'three':
    sd = SD(z | x, z | y, z | w)
    leafs, roots, edges, stems = 'z', 'xyw', 'xz yz wz', ''
  else:
    sd = SD(z | x, x | y)
    leafs, roots, edges, stems = 'z', 'y', 'xz yx', None
  c.check('leafs', sd.leafs.keylist == list(leafs))
  c.check('roots', sd.roots.keylist == list(roots))
  c.check('edges', sorted(a.name + b.name for a, b in sd.edges()) == sorted(edges.split()))
  c.check('name', sd.name == '%s|%s' % (','.join(leafs), ','.join(roots)))
  if stems is not None:
    c.check('stems', ''.join(sd.stems) == stems)
