"""C08-C14: distributions."""
import itertools
from pv.engine import obligation, instance, TINY
from props._contracts import rescale_contract, prod_rule_contract
from props._pd import Lay, Made, OD, pat, vat, den, pscale, probs, check_vars, normal, SCALES, is_log


def perm_layouts(keys, marg, scalars=''):
  out = []
  ks = [k for k in keys if k not in scalars]
  for p in itertools.permutations(range(len(ks))):
    ax = dict(zip(ks, p))
    ax.update({k: None for k in scalars})
    out.append(Lay(keys, marg, ax))
  return out


def shared_layouts(keys, marg):
  return [Lay(keys, marg, dict(zip(keys, p))) for p in
          ((0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 0), (0, 1, 0), (1, 0, 1))]


# ---------------------------------------------------------------- C09
def _marg_spec(c, m, e, out):
  """e is m with the variables in out summed away"""
  lay = m.lay
  keep = [k for k in lay.keys if k not in out]
  check_vars(c, e, [k for k in lay.marg if k not in out], lay.cond, m.vals,
             {k: m.ext[k] for k in keep if k in m.ext})
  reps = [k for k in m.axis_keys()]
  kr = [k for k in reps if k not in out]
  orr = [k for k in reps if k in out]
  ke, oe = [m.ext[k] for k in kr], [m.ext[k] for k in orr]

  def spec(*i):
    rep = dict(zip(kr, i))
    full = m.full(rep)
    want = c.sum(oe, lambda *j: m.p(dict(full, **m.full(dict(zip(orr, j)))))) if orr else m.p(full)
    r = c.eq(pat(c, e, {k: full[k] for k in keep if k in full}), want)
    return c.implies(normal(c, want), r) if is_log(m.ps) else r
  c.check('sum', c.forall(ke, spec) if kr else spec())


def marginalise(c, kind, lays):
  """summing variables out leaves, at every value of the others, the sum of the
  probabilities over the removed ones"""
  c.stub('pd', 'rescale', rescale_contract(c))
  lay = c.choice('lay', lays)
  ps = pscale(c, kind)
  m = Made(c, lay, ps)
  opts = []
  free = [k for k in lay.marg if lay.axes[k] is not None]
  for r in range(1, len(free) + 1):
    for s in itertools.combinations(free, r):
      # an axis is removed as a whole
      if all(set(m.share(k)) <= set(s) for k in s):
        opts.append(s)
  if lay.naxes == 0 or not opts:
    c.assume(False)
  out = c.choice('out', opts)
  if set(out) >= {k for k in lay.keys if lay.axes[k] is not None} and len(lay.keys) == len(out):
    c.assume(False)     # summing everything leaves no distribution
  how = c.choice('how', ['marginalise', 'marginal'])
  keep = [k for k in lay.marg if k not in out]
  if how == 'marginal' and (not keep or any(set(m.share(k)) & set(lay.cond) for k in keep)):
    c.assume(False)
  arg = list(out) if how == 'marginalise' else keep
  if len(arg) == 1:
    arg = c.choice('form', [arg, arg[0]])
  e = getattr(m.d, how)(arg)
  _marg_spec(c, m, e, out)


for _k in SCALES[:3]:
  instance('C09', marginalise, kind=_k, lays=perm_layouts('xyz', 'xyz'), tag='%s,xyz' % _k, weight=2.)
  instance('C09', marginalise, kind=_k, lays=perm_layouts('xyz', 'xy'), tag='%s,xy|z' % _k)
  instance('C09', marginalise, kind=_k, lays=perm_layouts('wxyz', 'wxy', 'w'), tag='%s,w=,xy|z' % _k)
  instance('C09', marginalise, kind=_k, lays=shared_layouts('xyz', 'xyz') + shared_layouts('xyz', 'xy'), tag='%s,shared' % _k)
instance('C09', marginalise, kind='offset', lays=perm_layouts('xy', 'xy'), tag='offset,xy')
instance('C09', marginalise, kind='offset', lays=perm_layouts('xyz', 'xyz'), tag='offset,xyz', thorough=True, weight=2.)
instance('C09', marginalise, kind='offset', lays=perm_layouts('xyz', 'xy'), tag='offset,xy|z', thorough=True)
instance('C09', marginalise, kind='one', lays=perm_layouts('wxyz', 'wxyz'), tag='one,wxyz', thorough=True, weight=2.)


@obligation('C09')
def shared_axis_rejected(c):
  """a variable cannot be summed out without those sharing its axis, nor a
  scalar, nor a conditional variable"""
  lay = c.choice('lay', shared_layouts('xyz', 'xyz'))
  m = Made(c, lay, 1.)
  k = c.choice('k', list('xyz'))
  c.assume(len(m.share(k)) > 1)
  c.rejects('shared', lambda: m.d.marginalise(k))
  s = Made(c, Lay('wxy', 'wx', dict(w=None, x=0, y=1)), 1., tag='q')
  c.rejects('scalar', lambda: s.d.marginalise('w'))
  c.rejects('conditional', lambda: s.d.marginalise('y'))
  c.rejects('unknown', lambda: s.d.marginalise('u'))


# ---------------------------------------------------------------- C10
def medium(c, v):
  """well inside the range of normal floating point numbers"""
  return c.all(c.le(1e-100, v), c.le(v, 1e100))


def _cond_spec(c, m, e, keys, g=None):
  """e is m conditioned on keys: divided by the sum over the other marginal
  variables, at every value of keys and of the conditional variables"""
  lay = m.lay
  check_vars(c, e, [k for k in lay.marg if k not in keys], lay.cond + list(keys), m.vals, m.ext)
  reps = m.axis_keys()
  sr = [k for k in reps if k in lay.marg and k not in keys]
  se = [m.ext[k] for k in sr]

  def total(rep):
    return c.sum(se, lambda *j: m.p(m.full(dict(rep, **dict(zip(sr, j))))))

  def guard(tot):
    if g is None:
      return medium(c, tot)
    return c.all(medium(c, tot), medium(c, c.div(tot, g)))

  def spec(*i):
    rep = dict(zip(reps, i))
    full = m.full(rep)
    tot = total(rep)
    got = pat(c, e, full)
    mine = m.p(full)
    h = guard(tot)
    if is_log(m.ps):
      # above the floor of tiny probabilities
      h = c.all(h, c.le(1e-200, c.div(mine, tot)))
    return c.implies(h, c.eq(c.mul(got, tot), mine))
  c.check('ratio', c.forall([m.ext[k] for k in reps], spec))
  if not is_log(m.ps) and g is None:
    # normalised: what remains sums to one wherever it has any mass
    gr = [k for k in reps if k not in sr]

    def unit(*i):
      rep = dict(zip(gr, i))
      got = c.sum(se, lambda *j: pat(c, e, m.full(dict(rep, **dict(zip(sr, j))))))
      return c.implies(guard(total(rep)), c.eq(got, 1.))
    c.check('unit', c.forall([m.ext[k] for k in gr], unit) if gr else unit())


def conditionalise(c, kind, lays, nmin=1, scal=False):
  """conditioning divides the joint probability by the probability of the
  variables conditioned on, and leaves a distribution that sums to one"""
  c.stub('pd', 'rescale', rescale_contract(c))
  lay = c.choice('lay', lays)
  ps = pscale(c, kind)
  m = Made(c, lay, ps, nmin=nmin)
  free = [k for k in lay.marg]
  opts = []
  for r in range(1, len(free)):
    for s in itertools.combinations(free, r):
      rest = [k for k in free if k not in s]
      # axes move as a whole, scalars are conditioned on together
      if all(set(m.share(k)) <= set(s) for k in s) and all(lay.axes[k] is not None for k in rest) and \
         all(not set(m.share(k)) & set(lay.cond) for k in rest):
        opts.append(s)
  if not opts:
    c.assume(False)
  keys = list(c.choice('keys', opts))
  g = None
  if scal:
    reps = m.axis_keys()
    g = c.sum([m.ext[k] for k in reps], lambda *j: m.p(m.full(dict(zip(reps, j)))))
    c.assume(medium(c, g))
  e = m.d.conditionalise(keys if len(keys) > 1 else keys[0])
  _cond_spec(c, m, e, keys, g)


for _k in SCALES:
  instance('C10', conditionalise, kind=_k, lays=perm_layouts('xy', 'xy'), tag='%s,xy' % _k)
_LOGW = 'the maximum subtracted before exponentiating leaves sums of shifted exponentials the solver does not relate'
for _k in SCALES[:3]:
  instance('C10', conditionalise, kind=_k, lays=perm_layouts('wxy', 'wxy', 'w'), tag='%s,w=,xy' % _k, scal=True, nmin=2,
           **(dict(conc_only=_LOGW, tests=200) if _k == 'log' else {}))
for _k in ['one', 'log']:
  instance('C10', conditionalise, kind=_k, lays=perm_layouts('xyz', 'xyz'), tag='%s,xyz' % _k, weight=2., nmin=2)
  instance('C10', conditionalise, kind=_k, lays=perm_layouts('xyz', 'xy'), tag='%s,xy|z' % _k, nmin=2)
  if _k == 'log':
    instance('C10', conditionalise, kind=_k, lays=perm_layouts('wxyz', 'wxy', 'w'), tag='%s,w=,xy|z' % _k, nmin=2, scal=True,
             conc_only=_LOGW, tests=200)
  else:
    for _i, _l in enumerate(perm_layouts('wxyz', 'wxy', 'w')):
      instance('C10', conditionalise, kind=_k, lays=[_l], tag='%s,w=,xy|z,%d' % (_k, _i), nmin=2, scal=True, weight=2.)
  instance('C10', conditionalise, kind=_k, lays=shared_layouts('xyz', 'xyz'), tag='%s,shared' % _k)
  instance('C10', conditionalise, kind=_k, lays=perm_layouts('xyz', 'xyz'), tag='%s,xyz,1' % _k, weight=4., thorough=True)


# ---------------------------------------------------------------- C11
def _two(c, la, lb, pa, pb_):
  """factors with common values for their common variables"""
  a = Made(c, la, pa, tag='a')
  ext, vals = {}, {}
  for k in la.keys:
    if k in lb.keys:
      vals[k] = a.vals[k]
      if k in a.ext:
        ext[k] = a.ext[k]
  b = Made(c, lb, pb_, tag='b', ext=ext, vals=vals)
  return a, b


def _prod_spec(c, ms, e, tol=False):
  marg = [k for m in ms for k in m.lay.marg]
  cond = []
  vals, ext, share = {}, {}, {}
  for m in ms:
    for k in m.lay.keys:
      vals.setdefault(k, m.vals[k])
      if k in m.ext:
        ext.setdefault(k, m.ext[k])
        share.setdefault(k, set()).update(m.share(k))
    for k in m.lay.cond:
      if k not in marg and k not in cond:
        cond.append(k)
  check_vars(c, e, marg, cond, vals, ext)
  reps, rep_of = [], {}
  for k in marg + cond:
    if k in ext:
      r = [x for x in reps if x in share[k] or k in share[x]]
      rep_of[k] = r[0] if r else k
      if not r:
        reps.append(k)

  def spec(*i):
    at = dict(zip(reps, i))
    idx = {k: at[r] for k, r in rep_of.items()}
    want = ms[0].p({k: idx[k] for k in ms[0].ext})
    for m in ms[1:]:
      want = c.mul(want, m.p({k: idx[k] for k in m.ext}))
    got = pat(c, e, idx)
    r = c.eq(got, want)
    if tol:
      r = c.implies(c.all(*([c.le(1e-100, m.p({k: idx[k] for k in m.ext})) for m in ms])), r)
    return r
  c.check('product', c.forall([ext[k] for k in reps], spec) if reps else spec())


def _orders(marg, cond, scalars=''):
  return perm_layouts(marg + cond, marg, scalars)


def product(c, shapes, kinds, out=None, swap=True):
  """the product of distributions has, at every value of the variables, the
  product of their probabilities, over the union of their marginal variables
  conditioned on what remains conditional"""
  c.stub('pd_utils', 'prod_rule', prod_rule_contract(c))
  la = c.choice('la', _orders(*shapes[0]))
  lb = c.choice('lb', _orders(*shapes[1]))
  pa, pb_ = pscale(c, kinds[0], 'pa'), pscale(c, kinds[1], 'pb')
  a, b = _two(c, la, lb, pa, pb_)
  ms = [a, b]
  if swap and c.choice('swap', [False, True]):
    ms = [b, a]
  if out is None:
    e = ms[0].d * ms[1].d
  else:
    po = pscale(c, out, 'po')
    e = c.mod('pd_utils').product(ms[0].d, ms[1].d, pscale=po)
    c.check('pscale', c.eq(e.pscale, po))
  _prod_spec(c, ms, e, tol=len({is_log(pa), is_log(pb_)} | ({is_log(po)} if out else set())) > 1)


_LIN = ('one', 'one')
for _t, _s in {
    'x*y': (('x', ''), ('y', '')),
    'x|y*y': (('x', 'y'), ('y', '')),
    'x|yz*yz': (('x', 'yz'), ('yz', '')),
    'x|yz*y|z': (('x', 'yz'), ('y', 'z')),
    'x|z*y|z': (('x', 'z'), ('y', 'z')),
    'xw|y*y': (('xw', 'y'), ('y', '')),
    'x|y*yz': (('x', 'y'), ('yz', '')),
    'x|y*y|z': (('x', 'y'), ('y', 'z')),
    'xw|y*y|z': (('xw', 'y'), ('y', 'z')),
    'x|zy*y|z': (('x', 'zy'), ('y', 'z')),
    'x|y=*y=': (('x', 'y', 'y'), ('y', '', 'y')),
    'x|yz=*y|z=': (('x', 'yz', 'z'), ('y', 'z', 'z')),
    'x=|y*y': (('x', 'y', 'x'), ('y', '')),
    'x=*y=': (('x', '', 'x'), ('y', '', 'y')),
    'x|zu*y|uz': (('x', 'zu'), ('y', 'uz')),
}.items():
  instance('C11', product, shapes=_s, kinds=_LIN, tag=_t)
for _a in SCALES:
  for _b in SCALES:
    if (_a, _b) != ('one', 'one'):
      instance('C11', product, shapes=(('x', 'y'), ('y', '')), kinds=(_a, _b), tag='x|y*y:%s*%s' % (_a, _b),
               thorough=(_a, _b) not in (('log', 'log'), ('coef', 'one'), ('offset', 'offset'), ('one', 'log'), ('log', 'coef')))
for _a, _b, _o in (('one', 'one', 'log'), ('one', 'one', 'coef'), ('log', 'log', 'one'), ('log', 'log', 'offset'), ('one', 'log', 'log')):
  instance('C11', product, shapes=(('x', ''), ('y', '')), kinds=(_a, _b), out=_o, tag='x*y:%s*%s->%s' % (_a, _b, _o))
  instance('C11', product, shapes=(('x', '', 'x'), ('y', '', 'y')), kinds=(_a, _b), out=_o, tag='x=*y=:%s*%s->%s' % (_a, _b, _o))


def _shared2(kind):
  """layouts with a shared axis of x,y,z and of a second factor over some of them"""
  out = []
  for p in ((0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 0), (0, 1, 0), (1, 0, 1)):
    ax = dict(zip('xyz', p))
    for cond in ('', 'x', 'y', 'z', 'xz', 'yz', 'xy', 'xyz'):
      used = sorted({ax[k] for k in cond})
      for first in (0, 1):
        a2 = {'w': 0 if first else len(used)}
        a2.update({k: used.index(ax[k]) + first for k in cond})
        out.append((Lay('xyz', 'xyz', ax), Lay('w' + cond, 'w', a2)))
  return out


def product_shared(c, kind):
  """variables sharing an axis in a factor share it in the product"""
  c.stub('pd_utils', 'prod_rule', prod_rule_contract(c))
  la, lb = c.choice('lay', _shared2(kind))
  pa, pb_ = pscale(c, kind, 'pa'), pscale(c, kind, 'pb')
  a, b = _two(c, la, lb, pa, pb_)
  ms = [a, b] if c.choice('swap', [False, True]) else [b, a]
  _prod_spec(c, ms, ms[0].d * ms[1].d)


for _k in ('one', 'log'):
  instance('C11', product_shared, kind=_k, tests=60)


def product_chain(c, kind):
  """a chain of conditional distributions multiplies to the joint one"""
  c.stub('pd_utils', 'prod_rule', prod_rule_contract(c))
  ps = [pscale(c, kind, 'p%d' % i) for i in range(3)]
  a, b = _two(c, c.choice('la', _orders('x', 'y')), c.choice('lb', _orders('y', 'z')), ps[0], ps[1])
  d = Made(c, Lay('z', 'z', {'z': 0}), ps[2], tag='d', ext={'z': b.ext['z']}, vals={'z': b.vals['z']})
  ms = c.choice('order', list(itertools.permutations([a, b, d])))
  _prod_spec(c, list(ms), c.mod('pd_utils').product(*[m.d for m in ms]))


for _k in ('one', 'log', 'coef'):
  instance('C11', product_chain, kind=_k, bounded='3 factors')


@obligation('C11')
def product_rejects(c):
  """factors are rejected which share a marginal variable, whose common
  variables differ in value or number, or whose conditions differ"""
  n = c.extent('n')
  z1 = c.array('z1', (n,))
  z2 = c.array('z2', (n,))
  k = c.int('k', lo=0)
  c.assume(c.lt(k, n))
  far = lambda u, v: c.any(c.lt(c.mul(1.1, u) + 1, v), c.lt(c.mul(1.1, v) + 1, u))
  c.assume(c.all(c.le(0, c.at(z1, k)), c.le(0, c.at(z2, k)), far(c.at(z1, k), c.at(z2, k))))
  a = Made(c, Lay('xz', 'x', dict(x=0, z=1)), 1., tag='a', ext={'z': n}, vals={'z': z1})
  what = c.choice('what', ['cond-cond', 'cond-marg', 'size', 'scalar-array', 'scalar', 'marg', 'other'])
  if what == 'cond-cond':
    b = Made(c, Lay('yz', 'y', dict(y=0, z=1)), 1., tag='b', ext={'z': n}, vals={'z': z2})
  elif what == 'cond-marg':
    b = Made(c, Lay('z', 'z', dict(z=0)), 1., tag='b', ext={'z': n}, vals={'z': z2})
  elif what == 'size':
    m = c.extent('m')
    c.assume(c.neg(c.same(m, n)))
    b = Made(c, Lay('yz', 'y', dict(y=0, z=1)), 1., tag='b', ext={'z': m})
  elif what == 'scalar-array':
    b = Made(c, Lay('zy', c.choice('mc', ['y', 'zy']), dict(y=0, z=None)), 1., tag='b')
  elif what == 'scalar':
    u, v = c.real('u', lo=0), c.real('v', lo=0)
    c.assume(far(u, v))
    a = Made(c, Lay('xz', 'x', dict(x=0, z=None)), 1., tag='a1', vals={'z': u})
    b = Made(c, Lay('yz', 'y', dict(y=0, z=None)), 1., tag='b', vals={'z': v})
  elif what == 'marg':
    b = Made(c, Lay('xz', c.choice('mc', ['x', 'xz']), dict(x=1, z=0)), 1., tag='b', ext=a.ext, vals=a.vals)
  else:
    b = Made(c, Lay('yu', 'y', dict(y=0, u=1)), 1., tag='b')
  c.rejects('ab', lambda: a.d * b.d)
  c.rejects('ba', lambda: b.d * a.d)


def product_iid(c, kind):
  """distributions of sets of samples under the same conditions multiply into
  the distribution of all of the samples, condition by condition"""
  c.stub('pd_utils', 'prod_rule', prod_rule_contract(c))
  la = c.choice('la', _orders('x', 'yz', 'x'))
  lb = c.choice('lb', _orders('x', 'yz', 'x'))
  ps = [pscale(c, kind, 'p%d' % i) for i in range(2)]
  a = Made(c, la, ps[0], tag='a', vals={'x': {3}})
  other = c.choice('same', [True, False])
  b = Made(c, lb, ps[1], tag='b', vals=dict(a.vals, x={4}), ext=a.ext)
  e = a.d * b.d
  c.check('size', e['x'] == {7})
  a.vals['x'] = {7}
  check_vars(c, e, ['x'], ['y', 'z'], a.vals, a.ext)
  c.check('product', c.forall([a.ext['y'], a.ext['z']], lambda j, k: c.eq(
      pat(c, e, dict(y=j, z=k)), c.mul(a.p(dict(y=j, z=k)), b.p(dict(y=j, z=k))))))


for _k in ('one', 'log'):
  instance('C11', product_iid, kind=_k)


def product_sets(c, kind, shapes):
  """the number of samples of a factor is that of the product, condition by
  condition, beside what the other factor describes"""
  c.stub('pd_utils', 'prod_rule', prod_rule_contract(c))
  la, lb = [c.choice('l%d' % i, _orders(*s)) for i, s in enumerate(shapes)]
  ps = [pscale(c, kind, 'p%d' % i) for i in range(2)]
  sets = dict(x={3}, w={c.choice('w', [1, 5])})
  a = Made(c, la, ps[0], tag='a', vals=sets)
  shared = {k: v for k, v in a.vals.items() if k in lb.keys}
  b = Made(c, lb, ps[1], tag='b', vals=dict(sets, **shared), ext=a.ext)
  ms = [a, b] if c.choice('swap', [False, True]) else [b, a]
  e = ms[0].d * ms[1].d
  for m in (a, b):
    for k in m.lay.keys:
      if k in sets:
        c.check('samples', e[k] == sets[k] and e.dims.get(k) is None)
  vals = dict(a.vals, **b.vals)
  ext = dict(a.ext, **b.ext)
  marg = a.lay.marg + b.lay.marg
  check_vars(c, e, marg, [k for k in a.lay.cond + b.lay.cond if k not in marg], vals, ext)
  free = sorted(ext)

  def spec(*i):
    at = dict(zip(free, i))
    return c.eq(pat(c, e, at), c.mul(a.p({k: at[k] for k in a.ext}), b.p({k: at[k] for k in b.ext})))
  c.check('product', c.forall([ext[k] for k in free], spec) if free else spec())


for _k in ('one', 'log'):
  for _t, _s in {
      'x|y*y': (('x', 'y', 'x'), ('y', '')),
      'xz|y*y': (('xz', 'y', 'x'), ('y', '')),
      'x|y*wz|y': (('x', 'y', 'x'), ('wz', 'y', 'w')),
      'x*w': (('x', '', 'x'), ('w', '', 'w')),
      'x*y': (('x', '', 'x'), ('y', '')),
      'xw|y*y=': (('xw', 'y', 'xwy'), ('y', '', 'y')),
  }.items():
    instance('C11', product_sets, kind=_k, shapes=_s, tag='%s:%s' % (_t, _k))


# ---------------------------------------------------------------- C12
def _same_spec(c, m, e, tag='', eq=None):
  """e maps every value of the variables to the probability m does"""
  check_vars(c, e, m.lay.marg, m.lay.cond, m.vals, m.ext, tag)
  reps = m.axis_keys()

  def spec(*i):
    full = m.full(dict(zip(reps, i)))
    return (eq or c.eq)(pat(c, e, full), m.p(full))
  c.check(tag + 'prob', c.forall([m.ext[k] for k in reps], spec) if reps else spec())


def all_layouts(keys, marg):
  return perm_layouts(keys, marg) + (shared_layouts(keys, marg) if len(keys) == 3 else [])


def redim(c, lays, kind):
  """laying the variables out along other axes, in any order, changes no
  probability of any of their values"""
  lay = c.choice('lay', lays)
  m = Made(c, lay, pscale(c, kind))
  reps = m.axis_keys()
  perm = c.choice('perm', list(itertools.permutations(range(len(reps)))))
  to = {k: perm[lay.axes[k]] for k in m.ext}
  ks = list(m.ext)
  order = c.choice('order', [ks, ks[::-1]])
  dims = OD((k, to[k]) for k in order)
  if c.choice('scalars', [False, True]):
    dims.update({k: None for k in lay.keys if k not in m.ext})
  e = m.d.redim(dims)
  c.check('dims', all(e.dims[k] == to[k] for k in m.ext))
  _same_spec(c, m, e)


for _k in ('one', 'log'):
  instance('C12', redim, lays=perm_layouts('xyz', 'xy'), kind=_k, tag='xy|z,%s' % _k, thorough=_k == 'log')
  instance('C12', redim, lays=perm_layouts('wxy', 'wx', 'w'), kind=_k, tag='w=,x|y,%s' % _k)
  instance('C12', redim, lays=shared_layouts('xyz', 'xyz'), kind=_k, tag='shared,%s' % _k)


@obligation('C12')
def rekey(c):
  """renaming variables changes their names only"""
  lay = c.choice('lay', all_layouts('xyz', 'xy') + perm_layouts('xyz', 'xz', 'x'))
  m = Made(c, lay, 1.)
  kmap = c.choice('map', [{'x': 'u'}, {'z': 'u'}, {'x': 'y', 'y': 'x'}, {'x': 'y', 'y': 'z', 'z': 'x'}, {'y': 'u', 'z': 'v'}, {}])
  e = m.d.rekey(kmap)
  f = lambda k: kmap.get(k, k)
  check_vars(c, e, [f(k) for k in lay.marg], [f(k) for k in lay.cond], {f(k): v for k, v in m.vals.items()},
             {f(k): v for k, v in m.ext.items()})
  reps = m.axis_keys()

  def spec(*i):
    full = m.full(dict(zip(reps, i)))
    return c.eq(pat(c, e, {f(k): v for k, v in full.items()}), m.p(full))
  c.check('prob', c.forall([m.ext[k] for k in reps], spec))


@obligation('C12')
def rekey_rejects(c):
  """renaming onto a variable that is kept is refused"""
  lay = c.choice('lay', perm_layouts('xy', 'xy') + perm_layouts('xy', 'x') + perm_layouts('xy', 'xy', 'x') +
                 perm_layouts('xy', 'x', 'y'))
  m = Made(c, lay, 1.)
  kmap = c.choice('map', [{'x': 'y'}, {'y': 'x'}, {'x': 'u', 'y': 'u'}])
  c.rejects('clash', lambda: m.d.rekey(kmap))


def rescaled(c, k1, k2):
  """expressing the probabilities on another scale keeps what they denote"""
  c.stub('pd', 'rescale', rescale_contract(c))
  lay = c.choice('lay', perm_layouts('xy', 'x') + perm_layouts('xy', 'xy', 'y') + perm_layouts('x', 'x', 'x'))
  m = Made(c, lay, pscale(c, k1, 'pa'))
  t = pscale(c, k2, 'pb')
  e = m.d.rescaled(t)
  c.check('pscale', c.eq(e.pscale, t))
  if is_log(t) and not is_log(m.ps):
    _same_spec(c, m, e, eq=lambda got, want: c.implies(c.le(1e-100, want), c.eq(got, want)))
  else:
    _same_spec(c, m, e)


for _k in SCALES:
  for _l in SCALES:
    instance('C12', rescaled, k1=_k, k2=_l, thorough=_k == 'offset' or _l == 'offset')


def sorting(c, lays, kind):
  """sorting by a variable puts its values in increasing order and moves the
  probabilities, and the values of variables on the same axis, along"""
  lay = c.choice('lay', lays)
  m = Made(c, lay, pscale(c, kind))
  key = c.choice('key', list(lay.keys))
  e = m.d.sorted(key)
  if lay.axes[key] is None:
    _same_spec(c, m, e)
    return
  n = m.ext[key]
  c.check('sorted', c.forall([n, n], lambda i, j: c.implies(c.lt(i, j), c.le(
      vat(c, e, key, i), vat(c, e, key, j)))))
  c.check('names', set(e.marg) == set(lay.marg) and set(e.cond) == set(lay.cond) and
          all(e.dims[k] == lay.axes[k] for k in lay.keys))
  reps = m.axis_keys()
  mine = m.share(key)
  rest = [k for k in reps if k not in mine]
  for k in rest:
    for s in m.share(k):
      c.check('kept', c.forall(m.ext[s], lambda i: c.eq(vat(c, e, s, i), c.at(m.vals[s], i))))
  # every entry of the result is an entry of the original and conversely
  def moved(i, j, *r):
    a = dict(zip(rest, r))
    new, old = {}, {}
    for k, v in a.items():
      for s in m.share(k):
        new[s] = old[s] = v
    for s in mine:
      new[s], old[s] = i, j
    return c.all(*([c.eq(vat(c, e, s, i), c.at(m.vals[s], j)) for s in mine] + [c.eq(pat(c, e, new), m.p(old))]))
  ex = [m.ext[k] for k in rest]
  def every(i, j):
    return c.forall(ex, lambda *r: moved(i, j, *r)) if ex else moved(i, j)
  w = c.sorter(m.vals[key])
  if w:
    inr = lambda k: c.all(c.le(0, k), c.lt(k, n))
    c.check('from', c.forall(n, lambda i: c.all(inr(w[0](i)), every(i, w[0](i)))))
    c.check('onto', c.forall(n, lambda j: c.all(inr(w[1](j)), every(w[1](j), j))))
  else:
    c.check('from', c.forall(n, lambda i: c.exists(n, lambda j: every(i, j))))
    c.check('onto', c.forall(n, lambda j: c.exists(n, lambda i: every(i, j))))


for _k in ('one', 'log'):
  instance('C12', sorting, lays=perm_layouts('xyz', 'xy'), kind=_k, tag='xy|z,%s' % _k)
  instance('C12', sorting, lays=perm_layouts('wxy', 'wx', 'w'), kind=_k, tag='w=,x|y,%s' % _k)
  instance('C12', sorting, lays=shared_layouts('xyz', 'xyz'), kind=_k, tag='shared,%s' % _k)
instance('C12', sorting, lays=perm_layouts('x', 'x'), kind='one', tag='x')


def slicing(c, lays, keep):
  """fixing variables at values that occur once leaves the probabilities at
  those values"""
  lay = c.choice('lay', lays)
  m = Made(c, lay, 1.)
  reps = m.axis_keys()
  keys = c.choice('keys', [list(s) for r in (1, 2, 3) for s in itertools.combinations(list(m.ext), r)
                           if len({lay.axes[k] for k in s}) == len(s)])
  at, vals = {}, {}
  for k in keys:
    at[k] = c.int('i_' + k, lo=0)
    c.assume(c.lt(at[k], m.ext[k]))
    vals[k] = c.at(m.vals[k], at[k])
    c.assume(c.forall(m.ext[k], lambda i, k=k: c.implies(c.same(c.at(m.vals[k], i), vals[k]), c.same(i, at[k]))))
  e = m.d(vals, keepdims=True) if keep else m.d(vals)
  c.check('names', set(e.marg) == set(lay.marg) and set(e.cond) == set(lay.cond) and set(e.keys()) == set(lay.keys))
  fix = {}
  for k in keys:
    for s in m.share(k):
      fix[s] = at[k]
  for s in lay.keys:
    if s in fix:
      want = c.at(m.vals[s], fix[s])
      if keep:
        c.check('extent', c.eq(c.shape(e[s])[e.dims[s]], 1))
        c.check('value', c.eq(vat(c, e, s, 0), want))
      else:
        c.check('scalar', e.dims[s] is None)
        c.check('value', c.eq(e[s], want))
    elif s in m.ext:
      c.check('kept', c.all(c.eq(c.shape(e[s])[e.dims[s]], m.ext[s]), c.forall(m.ext[s], lambda i: c.eq(
          vat(c, e, s, i), c.at(m.vals[s], i)))))
    else:
      c.check('kept-scalar', c.eq(e[s], m.vals[s]))
  rest = [k for k in reps if k not in fix]

  def spec(*i):
    full = m.full(dict(zip(rest, i)))
    got = dict(full)
    if keep:
      got.update({s: 0 for s in fix})
    return c.eq(pat(c, e, got), m.p(dict(full, **fix)))
  c.check('prob', c.forall([m.ext[k] for k in rest], spec) if rest else spec())


for _p in (False, True):
  for _i, _l in enumerate(perm_layouts('xyz', 'xy')):
    instance('C12', slicing, lays=[_l], keep=_p, tag='xy|z,%d,%s' % (_i, 'keep' if _p else 'drop'), tests=8)
  instance('C12', slicing, lays=perm_layouts('wxy', 'wx', 'w'), keep=_p, tag='w=,x|y,%s' % ('keep' if _p else 'drop'))
  instance('C12', slicing, lays=shared_layouts('xyz', 'xyz'), keep=_p, tag='shared,%s' % ('keep' if _p else 'drop'))


@obligation('C12')
def slicing_missing(c):
  """a value which does not occur leaves nothing, one which occurs several
  times leaves all of its occurrences"""
  lay = c.choice('lay', perm_layouts('xy', 'xy') + shared_layouts('xyz', 'xyz'))
  m = Made(c, lay, 1.)
  key = c.choice('key', list(m.ext))
  v = c.real('v')
  c.assume(c.forall(m.ext[key], lambda i: c.neg(c.same(c.at(m.vals[key], i), v))))
  e = m.d({key: v})
  c.check('empty', c.eq(c.shape(e.prob)[e.dims[key]], 0))
  for k in m.ext:
    c.check('extents', c.eq(c.shape(e[k])[e.dims[k]], 0 if k in m.share(key) else m.ext[k]))


@obligation('C12')
def slicing_multiple(c):
  """a value which occurs several times keeps all of its occurrences, in order"""
  lay = c.choice('lay', perm_layouts('xy', 'xy') + shared_layouts('xyz', 'xyz'))
  m = Made(c, lay, 1.)
  key = c.choice('key', list(m.ext))
  p, q = c.int('p', lo=0, gen=lambda r: int(r.integers(0, 3))), c.int('q', lo=0, gen=lambda r: int(r.integers(1, 4)))
  c.assume(c.all(c.lt(p, q), c.lt(q, m.ext[key])))
  v = c.at(m.vals[key], p)
  c.assume(c.same(c.at(m.vals[key], q), v))
  c.assume(c.forall(m.ext[key], lambda i: c.implies(c.same(c.at(m.vals[key], i), v), c.any(c.same(i, p), c.same(i, q)))))
  e = m.d({key: v})
  c.check('two', c.eq(c.shape(e.prob)[e.dims[key]], 2))
  mine = m.share(key)
  rest = [k for k in m.axis_keys() if k not in mine]
  for j, at in ((0, p), (1, q)):
    for s in mine:
      c.check('value', c.eq(vat(c, e, s, j), c.at(m.vals[s], at)))

    def spec(*i):
      full = m.full(dict(zip(rest, i)))
      return c.eq(pat(c, e, dict(full, **{s: j for s in mine})), m.p(dict(full, **{s: at for s in mine})))
    c.check('prob', c.forall([m.ext[k] for k in rest], spec) if rest else spec())


@obligation('C12')
def lookup(c):
  """values looked up by key are those of the variables, together where they
  share an axis"""
  lay = c.choice('lay', perm_layouts('xyz', 'xy') + perm_layouts('wxy', 'wx', 'w') + shared_layouts('xyz', 'xyz'))
  m = Made(c, lay, 1.)
  keys = c.choice('keys', [list(s) for r in (1, 2, 3) for s in itertools.combinations(lay.keys, r)])
  got = m.d.lookup(keys)
  names = []
  for k in lay.keys:
    if k in keys:
      g = [s for s in m.share(k) if s in keys] or [k]
      if g not in names:
        names.append(g)
  c.check('names', list(got.keys()) == [','.join(g) for g in names])
  for g in names:
    v = got[','.join(g)]
    for s, x in zip(g, v if len(g) > 1 else [v]):
      if s in m.ext:
        c.check('value', c.all(c.eq(c.shape(x)[0], m.ext[s]), c.forall(m.ext[s], lambda i: c.eq(c.at(x, i), c.at(m.vals[s], i)))))
      else:
        c.check('scalar', c.eq(x, m.vals[s]))
  d = m.d.lookup(keys, as_dist=True)
  c.check('dist', list(d.keys()) == [k for k in lay.keys if k in keys])
  for side, ks in (('marg', lay.marg), ('cond', lay.cond)):
    names = {k for n in m.d(side) for k in n.split(',')}
    c.check('side', names == set(ks) or not ks)


# ---------------------------------------------------------------- C13
def iid_product(c, kind, lays):
  """the product along variables is, at every value of the others, the product
  of the probabilities over all values of those, on the scale reported"""
  lay = c.choice('lay', lays)
  ps = pscale(c, kind)
  m = Made(c, lay, ps)
  free = [k for k in lay.marg if lay.axes[k] is not None]
  opts = [s for r in range(1, len(free) + 1) for s in itertools.combinations(free, r)
          if all(set(m.share(k)) <= set(s) for k in s)]
  out = list(c.choice('out', opts))
  e = m.d.prod(out if len(out) > 1 else out[0])
  c.check('marg', set(e.marg.keys()) == set(lay.marg) and set(e.cond.keys()) == set(lay.cond))
  reps = m.axis_keys()
  kr, orr = [k for k in reps if k not in out], [k for k in reps if k in out]
  for k in out:
    c.check('set', e.dims.get(k) is None and len(e[k]) == 1)
    c.check('count', c.eq(list(e[k])[0], m.ext[k]))
  for k in lay.keys:
    if k in out:
      continue
    if k in m.ext:
      c.check('kept', c.all(c.eq(c.shape(e[k])[e.dims[k]], m.ext[k]), c.forall(m.ext[k], lambda i: c.eq(
          vat(c, e, k, i), c.at(m.vals[k], i)))))
    else:
      c.check('kept-scalar', c.eq(e[k], m.vals[k]))
  oe = [m.ext[k] for k in orr]

  def spec(*i):
    full = m.full(dict(zip(kr, i)))
    idx = lambda j: dict(full, **m.full(dict(zip(orr, j))))
    got = dict(full)
    if is_log(ps):
      # compared as logarithms
      n = e.ndim or 0
      pos = [None] * n
      for k, a in e.dims.items():
        if a is not None:
          pos[a] = full[k]
      def lraw(j):
        p2 = [None] * len(m.shape)
        for k, a in lay.axes.items():
          if a is not None:
            p2[a] = idx(j)[k]
        return c.at(m.raw, *p2) + ps.real
      return c.eq(c.at(e.prob, *pos) + e.pscale.real, c.sum(oe, lambda *j: lraw(j)))
    return c.eq(pat(c, e, got), c.prod(oe, lambda *j: m.p(idx(j))))
  if is_log(ps):
    c.check('scale', is_log(e.pscale))
  c.check('product', c.forall([m.ext[k] for k in kr], spec) if kr else spec())


def expectation(c, kind, lays, exponent=None):
  """expected values are the sums of value times probability divided by the
  total probability, at every value of the variables not averaged over"""
  c.stub('pd', 'rescale', rescale_contract(c))
  lay = c.choice('lay', lays)
  ps = pscale(c, kind)
  m = Made(c, lay, ps)
  opts = [None] + [s for r in range(1, len(lay.marg) + 1) for s in itertools.combinations(lay.marg, r)]
  keys = c.choice('keys', opts)
  sel = list(lay.marg) if keys is None else list(keys)
  kw = {} if exponent is None else {'exponent': exponent}
  e = m.d.expectation(**kw) if keys is None else m.d.expectation(list(keys) if len(keys) > 1 else keys[0], **kw)
  c.check('keys', set(e.keys()) == set(sel) | set(lay.cond))
  reps = m.axis_keys()
  axes = {lay.axes[k] for k in sel if lay.axes[k] is not None}
  sr = [k for k in reps if lay.axes[k] in axes]
  kr = [k for k in reps if lay.axes[k] not in axes]
  pw = lambda v: v if exponent is None else 1. if exponent == 0 else c.mul(v, v)
  for k in sel:
    if lay.axes[k] is None:
      c.check('scalar', c.eq(e[k], pw(m.vals[k])))
      continue
    if not kr:
      c.check('scalar-shape', c.shape(e[k]) == ())
    else:
      c.check('shape', len(c.shape(e[k])) == len(kr))
      c.check('extents', c.all(*[c.eq(n, m.ext[r]) for n, r in zip(c.shape(e[k]), kr)]))

    def spec(*i):
      rep = dict(zip(kr, i))
      full = lambda j: m.full(dict(rep, **dict(zip(sr, j))))
      se = [m.ext[r] for r in sr]
      tot = c.sum(se, lambda *j: m.p(full(j)))
      num = c.sum(se, lambda *j: c.mul(m.p(full(j)), pw(c.at(m.vals[k], full(j)[k]))))
      got = c.at(e[k], *[rep[r] for r in kr])
      return c.implies(c.le(1e-100, tot), c.eq(c.mul(got, tot), num, tol=1e-6))
    c.check('mean', c.forall([m.ext[r] for r in kr], spec) if kr else spec())
  for k in lay.cond:
    if k in m.ext:
      c.check('cond', c.forall(m.ext[k], lambda i: c.eq(c.at(e[k], *[
          i if a == lay.axes[k] else 0 for a in range(len(c.shape(e[k])))]), c.at(m.vals[k], i))))
    else:
      c.check('cond-scalar', c.eq(e[k], m.vals[k]))


for _k in ('one', 'log'):
  instance('C13', iid_product, kind=_k, lays=perm_layouts('xyz', 'xy'), tag='xy|z,%s' % _k)
  instance('C13', iid_product, kind=_k, lays=perm_layouts('wxy', 'wx', 'w'), tag='w=,x|y,%s' % _k)
  instance('C13', iid_product, kind=_k, lays=shared_layouts('xyz', 'xyz'), tag='shared,%s' % _k)
instance('C13', iid_product, kind='offset', lays=perm_layouts('xy', 'xy'), tag='xy,offset')
instance('C13', iid_product, kind='coef', lays=perm_layouts('xy', 'xy'), tag='xy,coef')
for _k in SCALES:
  instance('C13', expectation, kind=_k, lays=perm_layouts('xy', 'xy'), tag='xy,%s' % _k)
for _k in ('one', 'log'):
  for _i, _l in enumerate(perm_layouts('xyz', 'xy')):
    instance('C13', expectation, kind=_k, lays=[_l], tag='xy|z,%d,%s' % (_i, _k), tests=8)
  instance('C13', expectation, kind=_k, lays=perm_layouts('wxy', 'wx', 'w'), tag='w=,x|y,%s' % _k)
  instance('C13', expectation, kind=_k, lays=shared_layouts('xyz', 'xyz'), tag='shared,%s' % _k)
for _e in (0, 2):
  instance('C13', expectation, kind='one', exponent=_e, lays=perm_layouts('xy', 'xy'), tag='xy^%d' % _e)


def quantile(c, rank):
  """a quantile of a distribution over increasing values lies between the
  neighbouring values at which the cumulative probability passes it"""
  n = c.extent('n', lo=1)
  v = c.array('v', (n,))
  up = c.choice('up', [True, False])
  c.assume(c.forall([n, n], lambda i, j: c.implies(c.lt(i, j), c.lt(c.at(v, i), c.at(v, j)) if up else
                                                 c.lt(c.at(v, j), c.at(v, i)))))
  p = c.array('p', (n,), lo=0, hi=1)
  tot = c.sum(n, lambda i: c.at(p, i))
  c.assume(c.le(1e-3, tot))
  q = c.real('q', lo=0, hi=1)
  d = c.mod('pd').PD('x', {'x': v}, prob=p)
  r = d.quantile(q)['x']
  cum = lambda k: c.sum(n, lambda i: c.ite(c.le(i, k), c.at(p, i), 0.))
  le = (lambda a, b: c.le(a, b, tol=1e-9)) if up else (lambda a, b: c.le(b, a, tol=1e-9))

  def spec(i):
    t = c.mul(q, tot)
    last = c.same(i + 1, n)
    gap = 1e-12
    lo_ok = c.any(c.same(i, 0), c.le(cum(i) + gap, t))
    hi_ok = c.any(last, c.le(t + gap, cum(i + 1)))
    nxt = c.ite(last, c.at(v, i), c.at(v, c.ite(last, i, i + 1) if c.symbolic else (i if last else i + 1)))
    return c.implies(c.all(lo_ok, hi_ok), c.all(le(c.at(v, i), r), le(r, nxt)))
  c.check('between', c.forall(n, spec))
  both = d.quantile([q, 0.5])
  c.check('list', len(both) == 2 and c.eq(both[0]['x'], r))


instance('C13', quantile, rank=1, tests=80, tag='x', conc_only='interpolation inside a cell picked by a cumulative sum over a symbolic extent')


# ---------------------------------------------------------------- C14
def division(c, kinds, lays, by):
  """dividing a joint distribution by the distribution of some of its variables
  conditions on those: at every value, the quotient of the probabilities"""
  c.stub('pscales', 'rescale', rescale_contract(c))
  la = c.choice('la', lays)
  pa, pb_ = pscale(c, kinds[0], 'pa'), pscale(c, kinds[1], 'pb')
  a = Made(c, la, pa, tag='a')
  keys = c.choice('by', by)
  kb = list(keys) + la.cond
  axes = [la.axes[k] for k in kb if la.axes[k] is not None]
  used = sorted(set(axes))
  perm = c.choice('perm', list(itertools.permutations(range(len(used)))))
  lb = Lay(c.choice('order', [kb, kb[::-1]]), keys, {k: None if la.axes[k] is None else perm[used.index(la.axes[k])] for k in kb})
  b = Made(c, lb, pb_, tag='b', ext={k: a.ext[k] for k in kb if k in a.ext}, vals={k: a.vals[k] for k in kb})
  e = a.d / b.d
  check_vars(c, e, [k for k in la.marg if k not in keys], la.cond + list(keys), a.vals, a.ext)
  c.check('pscale', c.eq(e.pscale, pa))
  reps = a.axis_keys()

  def spec(*i):
    full = a.full(dict(zip(reps, i)))
    num, den_ = a.p(full), b.p({k: full[k] for k in b.ext})
    g = medium(c, den_)
    if is_log(pa):
      g = c.all(g, c.le(1e-100, c.div(num, den_)))
    return c.implies(g, c.eq(c.mul(pat(c, e, full), den_), num))
  c.check('quotient', c.forall([a.ext[k] for k in reps], spec) if reps else spec())


for _k in SCALES:
  for _l in SCALES:
    for _b in ('x', 'y') if 'offset' in (_k, _l) else ('xy',):
      instance('C14', division, kinds=(_k, _l), lays=perm_layouts('xy', 'xy'), by=list(_b), tag='xy/%s,%s/%s' % (_b, _k, _l),
               thorough='offset' in (_k, _l) and _k != _l)
for _k in ('one', 'log'):
  instance('C14', division, kinds=(_k, _k), lays=perm_layouts('xyz', 'xyz'), by=['x', 'yz', 'xz'], tag='xyz/,%s' % _k)
  instance('C14', division, kinds=(_k, _k), lays=perm_layouts('xyz', 'xy'), by=['x', 'y'], tag='xy|z/x|z,%s' % _k)
  instance('C14', division, kinds=(_k, _k), lays=perm_layouts('wxy', 'wxy', 'w'), by=['w', 'wx', 'y'], tag='w=,xy/,%s' % _k)
  instance('C14', division, kinds=(_k, _k), lays=perm_layouts('wxy', 'wx', 'wy'), by=['w'], tag='w=,x|y=/w=|y=,%s' % _k)
  for _i, _l in enumerate(shared_layouts('xyz', 'xyz')):
    instance('C14', division, kinds=(_k, _k), lays=[_l], by=['x', 'y', 'xy', 'xz', 'yz', 'z'], tag='shared,%d,%s' % (_i, _k), tests=8)


@obligation('C14')
def division_rejects(c):
  """division by a distribution with other conditions, over other values or
  over variables that are not marginal is refused"""
  a = Made(c, Lay('xyz', 'xy', c.choice('axes', [dict(x=0, y=1, z=2), dict(x=1, y=2, z=0)])), 1., tag='a')
  n = a.ext['z']
  z2 = c.array('z2', (n,))
  k = c.int('k', lo=0)
  c.assume(c.lt(k, n))
  far = lambda u, v: c.any(c.lt(c.mul(1.1, u) + 1, v), c.lt(c.mul(1.1, v) + 1, u))
  z1 = a.vals['z']
  c.assume(c.all(c.le(0, c.at(z1, k)), c.le(0, c.at(z2, k)), far(c.at(z1, k), c.at(z2, k))))
  what = c.choice('what', ['cond', 'values', 'size', 'unknown', 'nocond', 'scalar'])
  if what == 'cond':
    b = Made(c, Lay('xu', 'x', dict(x=0, u=1)), 1., tag='b', ext={'x': a.ext['x']}, vals={'x': a.vals['x']})
  elif what == 'nocond':
    b = Made(c, Lay('x', 'x', dict(x=0)), 1., tag='b', ext={'x': a.ext['x']}, vals={'x': a.vals['x']})
  elif what == 'values':
    b = Made(c, Lay('xz', 'x', dict(x=0, z=1)), 1., tag='b', ext={'x': a.ext['x'], 'z': n}, vals={'x': a.vals['x'], 'z': z2})
  elif what == 'size':
    m = c.extent('m')
    c.assume(c.neg(c.same(m, n)))
    b = Made(c, Lay('xz', 'x', dict(x=0, z=1)), 1., tag='b', ext={'x': a.ext['x'], 'z': m}, vals={'x': a.vals['x']})
  elif what == 'unknown':
    b = Made(c, Lay('uz', 'u', dict(u=0, z=1)), 1., tag='b', ext={'z': n}, vals={'z': z1})
  else:
    b = Made(c, Lay('xz', 'x', dict(x=None, z=None)), 1., tag='b')
  c.rejects('refused', lambda: a.d / b.d)


# ------------------------------------------------------------ C08-C15: names
NAMINGS = [dict(w='n', x='nn', y='mu', z='mu_n', v='s2', u='nnn'),
           dict(w='ab', x='b', y='a', z='abc', v='bc', u='cab')]


def other_names(c, op, lays, kind='one'):
  """an operation does to variables of any names (names containing each other
  included) what it does to the same variables called x, y, z"""
  if op in ('marginalise', 'marginal', 'rescaled'):
    c.stub('pd', 'rescale', rescale_contract(c))
  lay = c.choice('lay', lays)
  slow = op in ('conditionalise', 'expectation')
  names = c.choice('names', NAMINGS[:1] if slow else NAMINGS)
  ps = pscale(c, kind)
  m = Made(c, lay, ps)
  pd = c.mod('pd')
  up = lambda ks: [names[k] for k in ks]
  d1 = m.d

  def twin(m):
    d = pd.PD(','.join(up(m.lay.marg)) + ('|' + ','.join(up(m.lay.cond)) if m.lay.cond else ''),
              OD((names[k], v) for k, v in m.vals.items()),
              dims=OD((names[k], m.lay.axes[k]) for k in m.lay.keys), prob=m.raw, pscale=m.ps)
    return d
  d2 = twin(m)

  def agree(a, b):
    if type(a).__name__ != 'PD':
      c.check('keys', {','.join(up(k.split(','))) for k in a} == set(b))
      for k in a:
        x, y = a[k], b[','.join(up(k.split(',')))]
        for x, y in zip(x, y) if ',' in k else [(x, y)]:
          c.check('value', near(x, y))
      return
    c.check('marg', up(a.marg) == list(b.marg))
    c.check('cond', up(a.cond) == list(b.cond))
    c.check('keys', up(a.keys()) == list(b.keys()))
    c.check('dims', {names[k]: i for k, i in a.dims.items()} == dict(b.dims))
    c.check('values', c.all(*[near(a[k], b[names[k]]) for k in a.keys()]))
    c.check('prob', near(a.prob, b.prob))
    c.check('pscale', c.eq(a.pscale, b.pscale))

  def near(x, y):
    if isinstance(x, set):
      return c.eq(list(x)[0], list(y)[0])
    if not c.is_array(x):
      return not c.is_array(y) and c.eq(x, y)
    s, t = c.shape(x), c.shape(y)
    return len(s) == len(t) and c.all(*[c.eq(i, j) for i, j in zip(s, t)],
                                      c.forall(s, lambda *i: c.eq(c.at(x, *i), c.at(y, *i))) if s else c.eq(x, y))
  agree(d1, d2)
  free = [k for k in lay.marg if lay.axes[k] is not None]
  fixed = [k for k in lay.marg if lay.axes[k] is None]
  key = c.choice('key', free)
  one = slow or c.choice('one', [True, False])
  arg = lambda f, k: f(k) if one else [f(k)]
  if op == 'marginalise':
    run = lambda d, f: d.marginalise(arg(f, key))
  elif op == 'marginal':
    run = lambda d, f: d.marginal([f(k) for k in fixed + [key]] if fixed else arg(f, key))
  elif op == 'conditionalise':
    run = lambda d, f: d.conditionalise([f(k) for k in fixed + [key]] if fixed else arg(f, key))
  elif op == 'redim':
    order = [k for k in lay.keys if k in m.ext]
    order = order[order.index(key):] + order[:order.index(key)]
    run = lambda d, f: d.redim(OD((f(k), order.index(k) if k in m.ext else None) for k in
                                  order + [k for k in lay.keys if k not in m.ext]))
  elif op == 'rekey':
    t = c.choice('to', ['u', 'swap'])
    run = lambda d, f: d.rekey({f(key): f('u')} if t == 'u' else {f(key): f(lay.keys[-1]), f(lay.keys[-1]): f(key)})
  elif op == 'rescaled':
    run = lambda d, f: d.rescaled(0j if one else 1.)
  elif op == 'sorted':
    run = lambda d, f: d.sorted(f(key))
  elif op == 'slicing':
    v = c.at(m.vals[key], 0)
    c.assume(c.forall(m.ext[key], lambda i: c.implies(c.same(c.at(m.vals[key], i), v), c.same(i, 0))))
    run = lambda d, f: d({f(key): v}, keepdims=one)
  elif op == 'lookup':
    run = lambda d, f: d.lookup([f(k) for k in fixed + [key]])
  elif op == 'prod':
    run = lambda d, f: d.prod(arg(f, key))
  elif op == 'expectation':
    run = lambda d, f: d.expectation(arg(f, key))
  elif op in ('division', 'product'):
    other = Made(c, Lay([key] + lay.cond if op == 'division' else lay.cond + ['v', 'u'], [key] if op == 'division' else
                        lay.cond + ['v'], {k: i for i, k in enumerate([key] + lay.cond if op == 'division' else lay.cond + ['v', 'u'])}),
                 ps, tag='q', ext={k: m.ext[k] for k in m.ext}, vals=m.vals)
    o2 = twin(other)
    if op == 'division':
      c.stub('pscales', 'rescale', rescale_contract(c))
      run = lambda d, f: d / (other.d if d is d1 else o2)
    else:
      c.stub('pd_utils', 'prod_rule', prod_rule_contract(c))
      run = lambda d, f: d * (other.d if d is d1 else o2) if one else (other.d if d is d1 else o2) * d
  elif op == 'summate':
    other = Made(c, lay, ps, tag='q', ext=m.ext, vals={k: v for k, v in m.vals.items() if k != key} |
                 {key: c.array('other', (m.ext[key],))})
    a0, b0 = c.at(m.vals[key], 0), c.at(other.vals[key], 0)
    c.assume(c.any(c.lt(c.mul(1.1, a0) + 1, b0), c.lt(c.mul(1.1, b0) + 1, a0)))
    c.assume(c.all(c.le(0, a0), c.le(0, b0)))
    o2 = twin(other)
    run = lambda d, f: d + (other.d if d is d1 else o2)
  a, b = run(d1, lambda k: k), run(d2, lambda k: names[k])
  agree(a, b)


for _p, _ops in (('C09', ('marginalise', 'marginal')), ('C10', ('conditionalise',)), ('C11', ('product',)),
                 ('C12', ('redim', 'rekey', 'rescaled', 'sorted', 'slicing', 'lookup')), ('C13', ('prod', 'expectation')),
                 ('C14', ('division',)), ('C15', ('summate',))):
  for _o in _ops:
    instance(_p, other_names, op=_o, lays=perm_layouts('xyz', 'xy')[:3:2] + ([] if _o in ('division', 'summate') else
                                                                       [Lay('wxz', 'wx', dict(w=None, x=1, z=0))]) +
             (perm_layouts('xyz', 'xyz')[2:3] if _o in ('marginalise', 'marginal', 'prod', 'lookup')
              else []), tag=_o)
for _p, _o in (('C10', 'conditionalise'), ('C13', 'expectation')):
  instance(_p, other_names, op=_o, lays=perm_layouts('xyz', 'xyz')[2:3], tag=_o + ',xyz')
