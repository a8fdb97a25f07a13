"""Denotation of a probability distribution object: a function from an index
assignment of its variables to the probability it denotes, independent of how
axes are laid out.  Contracts on distributions are stated over it."""
import collections
from pv.engine import TINY

OD = collections.OrderedDict


def is_log(s):
  return isinstance(s, complex) or type(s).__name__ == 'SymComplex'


def den(c, v, s):
  """probability denoted by stored number v on scale s"""
  if is_log(s):
    if isinstance(s, complex):
      return c.exp(v + (s.real if s.imag == 0 else -s.real))
    return c.exp(v + s.real)
  if not c.symbolic or not hasattr(s, 'e'):
    if s == 1.:
      return v
  return c.mul(v, s)


def normal(c, v):
  """v is in the range of normal floating point numbers"""
  return c.all(c.le(TINY, v), c.le(v, 1e300))


SCALES = ['one', 'coef', 'log', 'offset']


def pscale(c, kind, name='ps'):
  if kind == 'one':
    return 1.
  if kind == 'coef':
    return c.real(name, lo=2.**-20, hi=2.**20)
  if kind == 'log':
    return 0j
  return c.cplx(c.real(name, lo=-20, hi=20), 0.)


def probs(c, name, shape, ps, lo=0., hi=1.):
  """array (scalar for an empty shape) of numbers denoting probabilities"""
  if is_log(ps):
    lo, hi = -50., 0.
  if not shape:
    return c.real(name, lo=lo, hi=hi)
  return c.array(name, shape, lo=lo, hi=hi)


class Lay:
  """keys in declaration order, the marginal ones, axis per key (None: scalar)"""

  def __init__(self, keys, marg, axes):
    self.keys, self.marg = list(keys), [k for k in keys if k in marg]
    self.cond = [k for k in keys if k not in marg]
    self.axes = dict(axes)
    self.naxes = len({a for a in self.axes.values() if a is not None})

  def __repr__(self):
    return '%s|%s:%s' % (','.join(self.marg), ','.join(self.cond),
                         ''.join('-' if self.axes[k] is None else str(self.axes[k]) for k in self.keys))

  @property
  def name(self):
    return ','.join(self.marg) + ('|' + ','.join(self.cond) if self.cond else '')


class Made:
  """a constructed distribution with everything known about it"""

  def __init__(self, c, lay, ps=1., tag='p', vals=None, ext=None, lo=0., hi=1., prob=None, explicit=True,
               nmin=1):
    self.c, self.lay, self.ps = c, lay, ps
    self.ext, self.vals = {}, OD()
    axext = {}
    for k in lay.keys:
      a = lay.axes[k]
      if a is None:
        self.vals[k] = vals[k] if vals and k in vals else c.real('s_' + k)
        continue
      if a not in axext:
        axext[a] = ext[k] if ext and k in ext else c.extent('n_%s' % k, lo=nmin)
      self.ext[k] = axext[a]
      self.vals[k] = vals[k] if vals and k in vals else c.array('v_' + k, (axext[a],))
    self.shape = tuple(axext[a] for a in sorted(axext))
    self.raw = prob if prob is not None else probs(c, tag, self.shape, ps, lo, hi)
    m = c.mod('pd')
    given = OD(self.vals)
    dims = OD((k, lay.axes[k]) for k in lay.keys)
    if explicit:
      self.d = m.PD(lay.name, given, dims=dims, prob=self.raw, pscale=ps)
    else:
      self.d = m.PD(lay.name, given, prob=self.raw, pscale=ps)
    c.at_end(self.frame(c))

  def frame(self, c):
    """operations leave the distribution they are applied to as it was"""
    d = self.d
    about = lambda: (d.name, list(d.keys()), dict(d.dims), list(d.marg.items()), list(d.cond.items()), d.ndim)
    was, vals, prob, scale = about(), dict(d), d.prob, d.pscale

    def same(a, b):
      if a is b:
        return True
      if not c.is_array(b):
        return not c.is_array(a) and a == b if isinstance(b, set) else c.eq(a, b)
      sh = c.shape(b)
      return c.all(len(c.shape(a)) == len(sh), *[c.eq(u, v) for u, v in zip(c.shape(a), sh)],
                   c.forall(sh, lambda *i: c.eq(c.at(a, *i), c.at(b, *i))))

    def check():
      now = about()
      c.check('operand', all(a is b or a == b for a, b in zip(now[1:5], was[1:5])) if not c.symbolic else
              now[1] == was[1] and now[2] == was[2] and [k for k, _ in now[3]] == [k for k, _ in was[3]]
              and [k for k, _ in now[4]] == [k for k, _ in was[4]])
      c.check('operand', c.all(*[same(d[k], v) for k, v in vals.items()], same(d.prob, prob)))
      c.check('operand', scale is d.pscale or c.eq(d.pscale, scale))
    return check

  def p(self, idx):
    """denoted probability at an index assignment {key: index}"""
    pos = [None] * len(self.shape)
    for k, a in self.lay.axes.items():
      if a is not None:
        pos[a] = idx[k]
    return den(self.c, self.c.at(self.raw, *pos), self.ps)

  def axis_keys(self):
    """one representative key per axis, in axis order"""
    out = OD()
    for k in self.lay.keys:
      a = self.lay.axes[k]
      if a is not None and a not in out:
        out[a] = k
    return [out[a] for a in sorted(out)]

  def share(self, key):
    a = self.lay.axes[key]
    return [k for k in self.lay.keys if a is not None and self.lay.axes[k] == a]

  def full(self, rep):
    """index assignment for every key from one of the representatives"""
    out = {}
    for k, i in rep.items():
      for s in self.share(k):
        out[s] = i
    return out


def pat(c, d, idx):
  """denoted probability of a result distribution at an index assignment"""
  n = d.ndim or 0
  pos = [None] * n
  for k, a in d.dims.items():
    if a is None:
      continue
    if not isinstance(a, int) and not hasattr(a, '__index__'):
      c.fail('dims', repr(d.dims))
    if a < 0 or a >= n:
      c.fail('dims', '%r of %d' % (dict(d.dims), n))
    pos[a] = idx[k]
  if any(x is None for x in pos):
    c.fail('dims', 'axis without variable: %r' % (dict(d.dims),))
  return den(c, c.at(d.prob, *pos), d.pscale)


def vat(c, d, key, i):
  """i-th value of a variable of a distribution"""
  v = d[key]
  n = len(c.shape(v))
  if n == 0:
    return v
  pos = [0] * n
  a = d.dims[key]
  if a is None or a >= n:
    c.fail('dims', '%s has axis %r but %d dimensions' % (key, a, n))
  pos[a] = i
  return c.at(v, *pos)


def check_vars(c, d, marg, cond, vals, ext, tag=''):
  """d has exactly those marginal and conditional variables, with the given
  values along axes of the given extents"""
  c.check(tag + 'marg', set(d.marg.keys()) == set(marg))
  c.check(tag + 'cond', set(d.cond.keys()) == set(cond))
  c.check(tag + 'keys', set(d.keys()) == set(marg) | set(cond) and set(d.dims.keys()) >= {
      k for k in d.keys() if k in ext})
  for k in list(marg) + list(cond):
    if k not in ext:
      c.check(tag + 'scalar', d.dims.get(k) is None)
      c.check(tag + 'scalar-value', True if not c.is_scalar(vals[k]) else c.eq(d[k], vals[k]))
      continue
    a = d.dims[k]
    c.check(tag + 'axis', a is not None)
    c.check(tag + 'extent', c.all(c.eq(c.shape(d[k])[a], ext[k]),
                                  *([c.eq(c.shape(d.prob)[a], ext[k])] if c.is_array(d.prob) else [])))
    c.check(tag + 'values', c.forall(ext[k], lambda i: c.eq(vat(c, d, k, i), c.at(vals[k], i))))


def layouts3(marg, cond=''):
  """x, y, z on all axis orders, and with shared axes"""
  import itertools
  keys = marg + cond
  out = []
  for p in itertools.permutations(range(3)):
    out.append(Lay(keys, marg, dict(zip(keys, p))))
  for p in ((0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 0), (0, 1, 0), (1, 0, 1)):
    out.append(Lay(keys, marg, dict(zip(keys, p))))
  return out
