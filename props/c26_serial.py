"""C26: distributions survive serialisation."""
import os
import tempfile
import numpy as np
from pv.engine import obligation, instance
from props._pd import OD, Lay, Made, check_vars, vat, pscale, is_log, layouts3, SCALES


class _Data(np.ndarray):
  """a dataset with attributes"""


class _Group:
  """contract of h5py files: groups of arrays and their attributes, the keys in
  order of creation if tracked for the group, or else sorted"""

  def __init__(self, order):
    self._kept, self._order = {}, order

  def __setitem__(self, key, val):
    assert key not in self._kept
    if type(val) is np.ndarray:
      val = np.array(val).view(_Data)
      val.attrs = {}
    self._kept[key] = val

  def __getitem__(self, key):
    return self._kept[key]

  def create_group(self, name, track_order=False):
    assert name not in self._kept
    self._kept[name] = _Group(track_order)
    return self._kept[name]

  def keys(self):
    return list(self._kept) if self._order else sorted(self._kept)

  def items(self):
    return [(k, self._kept[k]) for k in self.keys()]

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False


class _H5:
  def __init__(self):
    self.files = {}

  def File(self, path, mode='r', track_order=False, **kw):
    if mode == 'w':
      self.files[path] = _Group(track_order)
    return self.files[path]


def _file(c):
  """-> (context giving the path of a scratch file)"""
  if c.symbolic:
    c.stub('pd_utils', 'h5py', _H5())

    class Here:
      def __enter__(self):
        return 'file'

      def __exit__(self, *a):
        return False
    return Here()

  class There:
    def __enter__(self):
      self.d = tempfile.TemporaryDirectory()
      return os.path.join(self.d.__enter__(), 'file.h5')

    def __exit__(self, *a):
      self.d.__exit__(*a)
      return False
  return There()


def _same(c, a, b, prob=True):
  """b is the distribution a"""
  c.check('type', type(a) is type(b))
  c.check('name', a.short_name == b.short_name)
  if prob:
    c.check('marg', list(a.marg) == list(b.marg) and list(a.cond) == list(b.cond))
  c.check('keys', set(a.keys()) == set(b.keys()))
  for k in a.keys():
    c.check('dims', b.dims.get(k) == a.dims.get(k) if a.dims.get(k) is not None else b.dims.get(k) is None)
    if isinstance(a[k], set):
      c.check('set', a[k] == b[k])
    elif not c.shape(a[k]):
      c.check('scalar', c.all(not c.shape(b[k]), c.eq(c.at(b[k]), a[k])))
    else:
      s = c.shape(a[k])
      c.check('shape', c.all(len(c.shape(b[k])) == len(s), *[c.eq(m, n) for m, n in zip(s, c.shape(b[k]))]))
      c.check('values', c.forall(s, lambda *i: c.eq(c.at(a[k], *i), c.at(b[k], *i))))
  if not prob:
    return
  c.check('pscale', c.all(is_log(a.pscale) == is_log(b.pscale), c.eq(a.pscale, b.pscale)))
  s = c.shape(a.prob)
  if not s:
    c.check('prob', c.all(not c.shape(b.prob), c.eq(c.at(b.prob), a.prob)))
  else:
    c.check('shape of prob', c.all(len(c.shape(b.prob)) == len(s), *[c.eq(m, n) for m, n in zip(s, c.shape(b.prob))]))
    c.check('prob', c.forall(s, lambda *i: c.eq(c.at(a.prob, *i), c.at(b.prob, *i))))


def _trip(c, how, *ds):
  m = c.mod('pd_utils')
  if how == 'memory':
    return m.deserialise(m.serialise(*ds))
  with _file(c) as path:
    if how == 'dist':
      m.write_dist(path, *ds)
      return m.read_dist(path)
    aux = {'aux data': {'q': c.array('q', (c.extent('nq'),)), 'a': c.array('a', (2, 3))}}
    m.write_serialised(path, m.serialise(*ds), aux)
    ser, got = m.read_serialised(path)
    c.check('aux', set(got) == {'aux data'} and set(got['aux data']) == {'q', 'a'})
    for k, v in aux['aux data'].items():
      c.check('aux shape', c.all(*[c.eq(m_, n) for m_, n in zip(c.shape(got['aux data'][k]), c.shape(v))]))
      c.check('aux values', c.forall(c.shape(v), lambda *i: c.eq(c.at(got['aux data'][k], *i), c.at(v, *i))))
    return m.deserialise(ser)


LAYS = [Lay('xyz', 'xyz', dict(x=0, y=1, z=2)), Lay('xyz', 'xy', dict(x=2, y=0, z=1)), Lay('xyz', 'x', dict(x=1, y=0, z=None)),
        Lay('zyx', 'zx', dict(x=0, y=None, z=None)), Lay('ba', 'ba', dict(b=None, a=None)), Lay('ba', 'b', dict(b=0, a=0)),
        Lay('xyz', 'yz', dict(x=None, y=0, z=0))]


def one(c, scale, how):
  """a distribution read is the one written, which remains as it was"""
  ps = pscale(c, scale) if scale != 'offset' else c.choice('ps', [2.5 + 0j, -3 + 0j, 1e-3 + 0j])
  lay = c.choice('lay', LAYS)
  a = Made(c, lay, ps).d
  before = {k: v for k, v in a.dims.items()}
  out = _trip(c, how, a)
  c.check('unchanged', dict(a.dims) == before)
  c.check('one', len(out) == 1)
  _same(c, a, out[0])


for _s in SCALES:
  for _h in ('memory', 'dist', 'parts'):
    instance('C26', one, scale=_s, how=_h, tests=12)


def kinds(c, how):
  """integers, truth values, and unspecified sets of values survive as such"""
  n = c.extent('n')
  PD = c.mod('pd').PD
  kind = c.choice('kind', ['int', 'bool', 'set', 'scalars', 'none'])
  p = c.array('p', (n,), lo=0, hi=1)
  if kind == 'int':
    a = PD('x,y=3', OD(x=c.array('x', (n,), kind='i'), y=3), dims=OD(x=0), prob=p)
  elif kind == 'bool':
    v = c.choice('v', [[True, False], [False], [False, True, False]])
    a = PD('x,y', OD(x=np.array(v), y=True), dims=OD(x=0), prob=c.array('p2', (len(v),), lo=0, hi=1))
  elif kind == 'set':
    m = c.choice('m', [0, 1, 2, 7])
    a = PD('x={%d},y' % m, OD(x={m}, y=c.array('y', (n,))), dims=OD(y=0), prob=p)
  elif kind == 'scalars':
    a = PD('x|y=2', OD(x=c.choice('sx', [True, False, 3]), y=2), prob=c.real('q', lo=0, hi=1))
  else:
    a = c.mod('distribution').Distribution('x,y', OD(x=c.array('x', (n, 1)), y=c.real('y')), dims=OD(x=0))
  before = {k: v for k, v in a.dims.items()}
  out = _trip(c, how, a)
  c.check('unchanged', dict(a.dims) == before)
  c.check('one', len(out) == 1)
  _same(c, a, out[0], prob=kind != 'none')
  for k in a.keys():
    kinds_ = [np.asarray(v[k]).dtype.kind for v in (a, out[0])] if not c.symbolic and not isinstance(a[k], set) else [0, 0]
    c.check('kind', kinds_[0] == kinds_[1])


for _h in ('memory', 'dist', 'parts'):
  instance('C26', kinds, how=_h, tests=24)


def several(c, how):
  """distributions are read in the order they were written"""
  a = Made(c, Lay('x', 'x', dict(x=0)), 1., tag='p').d
  b = Made(c, Lay('yz', 'y', dict(y=0, z=None)), 0j, tag='q').d
  d = Made(c, Lay('wk', 'wk', dict(w=1, k=0)), 2., tag='r').d
  order = c.choice('order', [(0, 1, 2), (1, 0, 2), (2, 1, 0), (1, 2)])
  ds = [(a, b, d)[i] for i in order]
  out = _trip(c, how, *ds)
  c.check('as many', len(out) == len(ds))
  for q, r in zip(ds, out):
    _same(c, q, r)


for _h in ('memory', 'dist', 'parts'):
  instance('C26', several, how=_h, tests=8)
