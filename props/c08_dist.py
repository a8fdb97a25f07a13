"""C08: construction of distributions; C15: pooling of distributions."""
import itertools
from pv.engine import obligation, instance
from props._contracts import rescale_contract
from props._pd import Lay, Made, OD, pat, vat, pscale, check_vars, is_log, normal
from props.c08_pd import perm_layouts, shared_layouts


def _all(keys, marg):
  return perm_layouts(keys, marg) + (shared_layouts(keys, marg) if len(keys) == 3 else [])


_LAYS = _all('x', 'x') + _all('xy', 'xy') + _all('xy', 'x') + _all('xyz', 'xy') + \
    perm_layouts('wxy', 'wx', 'w') + perm_layouts('wxy', 'x', 'wy') + perm_layouts('xy', 'x', 'xy')


def _given(c, lay, form):
  """values as the caller gives them"""
  ext, vals, given = {}, OD(), OD()
  axext = {}
  for k in lay.keys:
    a = lay.axes[k]
    if a is None:
      vals[k] = given[k] = c.real('s_' + k)
      continue
    if a not in axext:
      axext[a] = c.extent('n_%d' % a)
    ext[k] = axext[a]
    vals[k] = given[k] = c.array('v_' + k, (axext[a],))
    if form == 'row':
      given[k] = given[k].reshape((1, axext[a]))
    elif form == 'column':
      given[k] = given[k].reshape((axext[a], 1, 1))
  return ext, vals, given, tuple(axext[a] for a in sorted(axext))


def _structure(c, d, lay, ext, vals, shape):
  n = len(shape)
  c.check('ndim', (d.ndim or 0) == n and len(d.shape) == n)
  c.check('shape', c.all(*[c.eq(a, b) for a, b in zip(d.shape, shape)]))
  want = [ext[k] for k in lay.keys if k in ext]
  c.check('sizes', len(d.sizes) == len(want) and c.all(*[c.eq(a, b) for a, b in zip(d.sizes, want)]))
  tot = 1
  for s in shape:
    tot = c.mul(tot, s)
  c.check('size', c.eq(d.size, tot))
  c.check('keys', list(d.keys()) == list(lay.keys) and list(d.keylist) == list(lay.keys) and set(d.keyset) == set(lay.keys))
  c.check('dims', set(d.dims.keys()) == set(lay.keys) and all(d.dims[k] == lay.axes[k] for k in lay.keys))
  c.check('singletons', [bool(b) for b in d.aresingleton] == [lay.axes[k] is None for k in lay.keys])
  c.check('singleton', bool(d.issingleton) == (n == 0))
  for k in lay.keys:
    c.check('singleton-key', bool(d.singleton(k)) == (lay.axes[k] is None))
    if k in ext:
      sh = c.shape(d[k])
      c.check('rank', len(sh) == n)
      c.check('aligned', c.all(*[c.eq(s, ext[k] if a == lay.axes[k] else 1) for a, s in enumerate(sh)]))
      c.check('values', c.forall(ext[k], lambda i: c.eq(vat(c, d, k, i), c.at(vals[k], i))))
    else:
      c.check('scalar', c.eq(d[k], vals[k]))


def construction(c, kind, form):
  """a distribution lays each variable out along the axis given for it, and
  reports shape, sizes, scalars and names that agree with its values"""
  lay = c.choice('lay', _LAYS)
  ext, vals, given, shape = _given(c, lay, form)
  inorder = [a for a in (lay.axes[k] for k in lay.keys) if a is not None]
  explicit = True
  if inorder == list(range(len(inorder))):
    explicit = c.choice('explicit', [True, False])
  dims = OD((k, lay.axes[k]) for k in lay.keys)
  if explicit and c.choice('omit', [False, True]):
    for k in lay.keys:        # scalars need not be mentioned
      if lay.axes[k] is None:
        del dims[k]
  kw = dict(dims=dims) if explicit else {}
  before, bd = OD(given), OD(dims)
  if kind == 'dist':
    d = c.mod('distribution').Distribution(','.join(lay.keys), given, **kw)
  else:
    raw = c.array('p', shape, lo=0, hi=1) if shape else c.real('p', lo=0, hi=1)
    d = c.mod('pd').PD(lay.name, given, prob=raw, **kw)
    c.check('marg', list(d.marg.keys()) == lay.marg)
    c.check('cond', list(d.cond.keys()) == lay.cond)
    c.check('short', d.short_name == ','.join(lay.marg) + ('|' + ','.join(lay.cond) if lay.cond else ''))
    c.check('pscale', c.eq(d.pscale, 1.))
    if shape:
      c.check('prob', c.forall(list(shape), lambda *i: c.eq(c.at(d.prob, *i), c.at(raw, *i))))
    else:
      c.check('prob', c.eq(d.prob, raw))
  _structure(c, d, lay, ext, vals, shape)
  c.check('caller', list(given.keys()) == list(before.keys()) and all(given[k] is before[k] for k in before) and dims == bd)


for _k in ('dist', 'pd'):
  for _f in ('flat', 'row', 'column'):
    instance('C08', construction, kind=_k, form=_f)


@obligation('C08')
def prob_rejected(c):
  """probabilities that do not fit the values are refused"""
  lay = c.choice('lay', _all('x', 'x') + _all('xy', 'x') + shared_layouts('xyz', 'xyz') + perm_layouts('wx', 'wx', 'w'))
  ext, vals, given, shape = _given(c, lay, 'flat')
  dims = OD((k, lay.axes[k]) for k in lay.keys)
  what = c.choice('what', ['longer', 'missing-axis', 'extra-axis', 'scalar'])
  if what == 'longer':
    a = c.choice('a', list(range(len(shape))))
    m = c.extent('m')
    c.assume(c.neg(c.same(m, shape[a])))
    bad = c.array('p', tuple(m if i == a else s for i, s in enumerate(shape)), lo=0, hi=1)
  elif what == 'missing-axis':
    c.assume(len(shape) > 1)
    bad = c.array('p', shape[1:], lo=0, hi=1)
  elif what == 'extra-axis':
    bad = c.array('p', shape + (c.extent('m'),), lo=0, hi=1)
  else:
    bad = c.real('p', lo=0, hi=1)
  PD = c.mod('pd').PD
  c.rejects('init', lambda: PD(lay.name, given, dims=dims, prob=bad))
  d = PD(lay.name, given, dims=dims, prob=c.array('q', shape, lo=0, hi=1))

  def assign():
    d.prob = bad
  c.rejects('assign', assign)
  s = PD('u', {'u': c.real('u')}, prob=c.real('r', lo=0, hi=1))

  def assign2():
    s.prob = c.array('t', (c.extent('k'),), lo=0, hi=1)
  c.rejects('array-for-scalar', assign2)


@obligation('C08')
def dims_rejected(c):
  """axes that do not fit the values are refused"""
  n, m = c.extent('n'), c.extent('m')
  x, y, s = c.array('x', (n,)), c.array('y', (m,)), c.real('s')
  c.assume(c.neg(c.same(m, n)))
  what = c.choice('what', ['shared', 'missing', 'gap', 'scalar', 'matrix', 'list', 'reserved'])
  D = c.mod('distribution').Distribution
  kind = c.choice('kind', ['dist', 'pd'])
  PD = c.mod('pd').PD
  def mk(name, vals, **kw):
    return D(name, vals, **kw) if kind == 'dist' else PD(name, vals, **kw)
  if what == 'shared':
    c.rejects(what, lambda: mk('x,y', {'x': x, 'y': y}, dims={'x': 0, 'y': 0}))
  elif what == 'missing':
    c.rejects(what, lambda: mk('x,y', {'x': x, 'y': y}, dims={'x': 0}))
  elif what == 'gap':
    c.rejects(what, lambda: mk('x,y', {'x': x, 'y': y}, dims={'x': 0, 'y': 2}))
  elif what == 'scalar':
    c.rejects(what, lambda: mk('x,s', {'x': x, 's': s}, dims={'x': 0, 's': 1}))
    c.rejects(what, lambda: mk('x,s', {'x': x, 's': s}, dims={'x': 0, 's': 0}))
  elif what == 'matrix':
    c.assume(c.all(c.le(2, n), c.le(2, m)))
    z = c.array('z', (n, m))
    c.rejects(what, lambda: mk('z', {'z': z}, dims={'z': 0}))
  elif what == 'list':
    c.rejects(what, lambda: mk('z', {'z': [1., 2.]}, dims={'z': 0}))
  else:
    k = c.choice('k', ['attrs', 'prob', 'pscale'])
    c.rejects(what, lambda: D('x,' + k, OD([('x', x), (k, y)]), dims={'x': 0, k: 1}))


@obligation('C08', bounded='enumerated names')
def naming(c):
  """names list the marginal and then the conditional variables, with the
  values of scalars, and read back as the same variables"""
  u = c.mod('pd_utils')
  marg = c.choice('marg', [[], ['x'], ['x', 'y'], ['x', 'y', 'z']])
  cond = c.choice('cond', [[], ['u'], ['u', 'v']])
  c.assume(bool(marg) or bool(cond))
  deco = c.choice('deco', ['', '=[]', '=1.5', '={3}', '=a=b'])
  which = c.choice('which', ['none', 'marg', 'cond', 'all'])
  f = lambda k, side: k + (deco if which in (side, 'all') else '')
  M, C = OD((k, f(k, 'marg')) for k in marg), OD((k, f(k, 'cond')) for k in cond)
  s = u.margcond_str(M, C)
  c.check('str', s == ','.join(M.values()) + ('|' + ','.join(C.values()) if C else ''))
  m2, c2 = u.str_margcond(s)
  c.check('back', list(m2.items()) == list(M.items()) and list(c2.items()) == list(C.items()))
  m3, c3 = u.str_margcond('p(' + s + ')')
  c.check('paren', list(m3.items()) == list(M.items()) and list(c3.items()) == list(C.items()))
  c.check('keys', u.str2key(list(M.values())) == list(M) and all(u.str2key(v) == k for k, v in M.items()))
  c.rejects('twice', lambda: u.str_margcond(s + '|a|b'))
  c.rejects('unmatched', lambda: u.str_margcond('p' + s + ')'))
  c.rejects('reversed', lambda: u.str_margcond(')' + s + '('))


# ---------------------------------------------------------------- C15
def pooling(c, n, cond, kind):
  """adding single outcomes lists them with their probabilities, in order"""
  PD = c.mod('pd').PD
  ps = pscale(c, kind)
  keys = ['x', 'y']
  name = 'x|y' if cond else 'x,y'
  vals = [OD((k, c.real('%s%d' % (k, i))) for k in keys) for i in range(n)]
  pr = [c.real('p%d' % i, lo=0, hi=1) for i in range(n)]
  ds = [PD(name, OD(v), prob=p, pscale=ps) for v, p in zip(vals, pr)]
  e = ds[0] + ds[1] if n == 2 else c.mod('pd_utils').summate(*ds)
  c.check('marg', list(e.marg.keys()) == (['x'] if cond else keys) and list(e.cond.keys()) == (['y'] if cond else []))
  c.check('pscale', c.eq(e.pscale, ps))
  c.check('dims', e.dims['x'] == 0 and e.dims['y'] == 0 and c.shape(e.prob) == (n,))
  for i in range(n):
    c.check('prob', c.eq(c.at(e.prob, i), pr[i]))
    for k in keys:
      c.check('value', c.eq(c.at(e[k], i), vals[i][k]))


for _n in (2, 3, 5):
  for _c in (False, True):
    instance('C15', pooling, n=_n, cond=_c, kind='one' if _n != 3 else 'offset', bounded='%d outcomes' % _n)


@obligation('C15', bounded='3 outcomes')
def pooling_sets(c):
  """outcomes that stand for a number of samples add up to all samples"""
  PD = c.mod('pd').PD
  ns = [3, 4, 5]
  ds = [PD('x,y', OD([('x', {m}), ('y', c.real('y%d' % i))]), prob=c.real('p%d' % i, lo=0, hi=1)) for i, m in enumerate(ns)]
  e = c.mod('pd_utils').summate(*ds)
  c.check('set', e['x'] == {12} and e.dims['x'] is None)
  c.check('dims', e.dims['y'] == 0 and c.shape(e.prob) == (3,))
  for i in range(3):
    c.check('prob', c.eq(c.at(e.prob, i), ds[i].prob))
    c.check('value', c.eq(c.at(e['y'], i), ds[i]['y']))


def joining(c, lays, n, kind):
  """adding distributions that differ along one marginal axis joins them along
  it, whatever axes they are laid out along"""
  la = c.choice('la', lays)
  ps = pscale(c, kind)
  a = Made(c, la, ps, tag='p0')
  key = c.choice('key', [k for k in la.marg if la.axes[k] is not None and all(s in la.marg for s in a.share(k))])
  mine = a.share(key)
  ms = [a]
  for i in range(1, n):
    perm = c.choice('perm%d' % i, list(itertools.permutations(range(la.naxes)))) if i == 1 else tuple(range(la.naxes))
    lb = Lay(la.keys, la.marg, {k: None if ax is None else perm[ax] for k, ax in la.axes.items()})
    m = c.extent('m%d' % i)
    b = Made(c, lb, ps, tag='p%d' % i, ext={k: (m if k in mine else a.ext[k]) for k in a.ext},
             vals={k: (c.array('w%d_%s' % (i, k), (m,)) if k in mine else a.vals[k]) for k in la.keys})
    # different in value or number
    k0 = c.int('d%d' % i, lo=0)
    far = lambda u, v: c.any(c.lt(c.mul(1.1, u) + 1, v), c.lt(c.mul(1.1, v) + 1, u))
    u, v = lambda j: c.at(a.vals[key], j), lambda j: c.at(b.vals[key], j)
    if c.choice('how%d' % i, ['value', 'number']) == 'value':
      c.assume(c.all(c.lt(k0, a.ext[key]), c.lt(k0, m)))
      c.assume(c.all(c.le(0, u(k0)), c.le(0, v(k0)), far(u(k0), v(k0))))
    else:
      c.assume(c.neg(c.same(m, a.ext[key])))
    ms.append(b)
  e = ms[0].d + ms[1].d if n == 2 else c.mod('pd_utils').summate(*[m.d for m in ms])
  c.check('marg', set(e.marg) == set(la.marg) and set(e.cond) == set(la.cond))
  c.check('dims', all(e.dims[k] == la.axes[k] for k in la.keys))
  c.check('pscale', c.eq(e.pscale, ps))
  reps = a.axis_keys()
  rest = [k for k in reps if k not in mine]
  tot = 0
  for m in ms:
    for k in la.keys:
      if k in mine:
        off = tot
        c.check('joined', c.forall(m.ext[k], lambda i: c.eq(vat(c, e, k, i + off), c.at(m.vals[k], i))))
      elif k in a.ext:
        c.check('kept', c.all(c.eq(c.shape(e[k])[la.axes[k]], a.ext[k]), c.forall(a.ext[k], lambda i: c.eq(vat(c, e, k, i), c.at(a.vals[k], i)))))
      else:
        c.check('kept-scalar', c.eq(e[k], a.vals[k]))

    def spec(i, *r):
      off = tot
      full = m.full(dict(zip(rest, r)))
      return c.eq(pat(c, e, dict(full, **{s: i + off for s in mine})), m.p(dict(full, **{s: i for s in mine})))
    c.check('prob', c.forall([m.ext[key]] + [m.ext[k] for k in rest], spec))
    tot = tot + m.ext[key]
  c.check('extent', c.eq(c.shape(e.prob)[la.axes[key]], tot))


instance('C15', joining, lays=perm_layouts('xy', 'xy') + perm_layouts('xy', 'x'), n=2, kind='one', tag='xy', bounded='2 distributions')
instance('C15', joining, lays=perm_layouts('wxy', 'wx', 'w'), n=2, kind='log', tag='w=,x|y', bounded='2 distributions')
instance('C15', joining, lays=shared_layouts('xyz', 'xyz')[:3], n=2, kind='one', tag='shared', bounded='2 distributions')
instance('C15', joining, lays=perm_layouts('xy', 'xy'), n=3, kind='one', tag='xy,3', bounded='3 distributions')


@obligation('C15')
def joining_rejects(c):
  """distributions that differ along several axes, in their conditions, their
  variables or their scale are not added"""
  la = c.choice('la', perm_layouts('xy', 'xy'))
  a = Made(c, la, 1., tag='a')
  n2, m2 = c.extent('n2'), c.extent('m2')
  c.assume(c.all(c.neg(c.same(n2, a.ext['x'])), c.neg(c.same(m2, a.ext['y']))))
  what = c.choice('what', ['both', 'same', 'cond', 'vars', 'scale', 'three'])
  S = c.mod('pd_utils').summate
  if what == 'both':
    b = Made(c, la, 1., tag='b', ext={'x': n2, 'y': m2})
    c.rejects(what, lambda: a.d + b.d)
  elif what == 'same':
    b = Made(c, la, 1., tag='b', ext=a.ext, vals=a.vals)
    c.rejects(what, lambda: a.d + b.d)
  elif what == 'cond':
    p = Made(c, Lay('xy', 'x', la.axes), 1., tag='p', ext=a.ext)
    b = Made(c, Lay('xy', 'x', la.axes), 1., tag='b', ext={'x': n2, 'y': m2}, vals={})
    c.rejects(what, lambda: p.d + b.d)
  elif what == 'vars':
    b = Made(c, Lay('xu', 'xu', dict(x=0, u=1)), 1., tag='b', ext={'x': n2})
    c.rejects(what, lambda: a.d + b.d)
  elif what == 'scale':
    b = Made(c, la, 0j, tag='b', ext={'x': n2, 'y': a.ext['y']}, vals={'y': a.vals['y']})
    c.rejects(what, lambda: a.d + b.d)
  else:
    b = Made(c, la, 1., tag='b', ext={'x': n2, 'y': a.ext['y']}, vals={'y': a.vals['y']})
    d = Made(c, la, 1., tag='d', ext={'x': a.ext['x'], 'y': m2}, vals={'x': a.vals['x']})
    c.rejects(what, lambda: S(a.d, b.d, d.d))


def _bin(c, v, edges, m):
  """cell of an increasing list of edges: the last edge that is not above v"""
  n = c.sum(m, lambda e: c.ite(c.le(c.at(edges, e), v), 1, 0))
  return c.maximum(0, c.minimum(m - 1, n - 1))


def rebinning(c, src, out, cond, kind):
  """redistributing a distribution over other variables adds up, in each cell
  of those, the probabilities of the outcomes that map there"""
  c.stub('pd', 'rescale', rescale_contract(c))
  ps = pscale(c, kind)
  keys = src + cond
  lay = c.choice('lay', perm_layouts(keys, src, cond if cond == 'z' else ''))
  m = Made(c, lay, ps, tag='p', hi=1.)
  sh = m.shape
  n = len(sh)
  ms = [c.extent('m_' + k) for k in out]
  edges = {k: c.array('e_' + k, (mm,)) for k, mm in zip(out, ms)}
  for k, mm in zip(out, ms):
    c.assume(c.forall([mm, mm], lambda i, j: c.implies(c.lt(i, j), c.lt(c.at(edges[k], i), c.at(edges[k], j)))))
  f = {k: c.array('f_' + k, sh) for k in out}
  dist = c.mod('distribution').Distribution(','.join(out), OD(edges))
  size = 1
  for s in sh:
    size = c.mul(size, s) if c.symbolic else size * s
  size = m.d.size if c.symbolic else size

  def unravel(i):
    if n == 1:
      return (i,)
    if c.symbolic:
      return c.np().unravel_index(i, sh)
    import numpy as np
    return np.unravel_index(int(i), sh)

  from props._pd import den

  def addend(i, *j):
    u = unravel(i)
    at = [c.same(_bin(c, c.at(f[k], *u), edges[k], mm), jj) for k, mm, jj in zip(out, ms, j)]
    if cond == 'v':
      at.append(c.same(u[lay.axes['v']], j[-1]))
    return c.ite(c.all(*at), den(c, c.at(m.raw, *u), ps), 0.)
  c.loop('remarginalise', 'rem_prob', addend)
  e = m.d.remarginalise(dist, OD(f)) if c.choice('form', [True, False]) else m.d.remarginalise(dist, **f)
  vals, ext = dict(edges), dict(zip(out, ms))
  if cond:
    vals[cond] = m.vals[cond]
  if cond == 'v':
    ext['v'] = m.ext['v']
  check_vars(c, e, list(out), list(cond), vals, ext)
  c.check('pscale', c.eq(e.pscale, ps))
  order = list(out) + (['v'] if cond == 'v' else [])

  def spec(*j):
    want = c.sum(size, lambda i: addend(i, *j))
    r = c.eq(pat(c, e, dict(zip(order, j))), want)
    return c.implies(normal(c, want), r) if is_log(ps) else r
  c.check('mass', c.forall([ext[k] for k in order], spec))


instance('C15', rebinning, src='x', out='a', cond='', kind='one')
instance('C15', rebinning, src='xy', out='a', cond='', kind='one')
instance('C15', rebinning, src='x', out='a', cond='', kind='log')
instance('C15', rebinning, src='xy', out='ab', cond='', kind='one')
instance('C15', rebinning, src='xy', out='ab', cond='z', kind='one')
instance('C15', rebinning, src='x', out='a', cond='v', kind='one')
