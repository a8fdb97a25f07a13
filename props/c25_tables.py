"""C25: tables of probabilities and frequencies."""
import itertools
import numpy as np
from pv.engine import obligation, instance
from props._pd import OD
from props.c24_dep import _at

VALS = {'x': [False, True], 'y': [1, 2, 5], 'z': [0.5, 1.5]}


def table(c, order, kinds, by):
  """a table sliced by values given by name is indexed by these values, along
  the dimensions specified"""
  f = c.mod('rf_utils').slice_by_keyvals
  names = 'xyz'[:len(order)]
  n = len(order)
  ext = [len(VALS[v]) for v in names]
  prob = c.array('p', tuple(ext), lo=0, hi=1)
  vals = OD((v, np.array(VALS[v]).reshape([-1 if i == j else 1 for j in range(n)])) for i, v in enumerate(names))
  many = [v for v, k in zip(order, kinds) if k == 'all']
  spec, sdims, at = OD(), OD(), {}
  for v, k in zip(order, kinds):
    if k == 'all':
      d = many.index(v)
      spec[v], sdims[v] = np.array(VALS[v]).reshape([-1 if d == j else 1 for j in range(len(many))]), d
    else:
      i = c.choice('i_' + v, range(len(VALS[v])))
      spec[v], sdims[v], at[v] = VALS[v][i], None, i
  kw = {'vals_dims': OD((v, i) for i, v in enumerate(names)), 'spec_dims': sdims}
  if by == 'partial':
    kw['spec_dims'] = OD((v, d) for v, d in sdims.items() if d is not None)
  elif by == 'guess':
    kw = {}
  r = f(spec, vals, prob, **kw)
  c.check('shape', c.shape(r) == tuple(len(VALS[v]) for v in many))
  for idx in itertools.product(*[range(len(VALS[v])) for v in many]):
    i = dict(at, **dict(zip(many, idx)))
    c.check('element', c.eq(c.at(r, *idx), c.at(prob, *[i[v] for v in names])))


for _o in ('x', 'xy', 'yx', 'xyz', 'zxy', 'yzx', 'zyx'):
  for _k in itertools.product(('all', 'one'), repeat=len(_o)):
    for _b in ('given', 'partial', 'guess'):
      instance('C25', table, order=_o, kinds=_k, by=_b, tag='%s,%s,%s' % (_o, '/'.join(_k), _b), tests=4)


def _data(c, rows, cols):
  return [tuple(c.choice('r%d_%d' % (i, j), [False, True]) for j in range(cols)) for i in range(rows)]


def _count(data, key):
  key = tuple(key)
  return sum(1 for row in data if row == key)


def frequencies(c, rows, cols, base):
  """counts of permutations are the numbers of rows equal to them, plus the
  baseline"""
  f = c.mod('likelihoods').bool_perm_freq
  data = _data(c, rows, cols)
  kw = {'base_freq': base} if base else {}
  r = f(np.array(data), **kw)
  c.check('shape', c.shape(r) == (2,) * cols)
  for k in itertools.product([0, 1], repeat=cols):
    c.check('count', c.eq(r[k], base + _count(data, map(bool, k))))
  labels = list('xyz'[:cols])
  fun, rel = f(np.array(data), labels, **kw)
  total = rows + base * 2 ** cols
  for k in itertools.product([0, 1], repeat=cols):
    c.check('relative', c.close(rel[k], (base + _count(data, map(bool, k))) / total, 1e-12))
  # as a probability function: at scalars, and along dimensions in any order
  for order in itertools.permutations(labels):
    spec = OD((v, np.array([False, True]).reshape([-1 if i == j else 1 for j in range(cols)])) for i, v in enumerate(order))
    p = fun(dims={v: i for i, v in enumerate(order)}, **spec)
    c.check('dims', c.shape(p) == (2,) * cols)
    for k in itertools.product([0, 1], repeat=cols):
      i = dict(zip(order, k))
      c.check('function', p[k] == rel[tuple(i[v] for v in labels)])
  for k in itertools.product([0, 1], repeat=cols):
    p = fun(dims={}, **{v: bool(j) for v, j in zip(labels, k)})
    c.check('scalar', np.size(p) == 1 and np.ravel(p)[0] == rel[k])


for _r, _c in ((1, 1), (4, 1), (3, 2), (2, 3)):
  for _b in (0, 1, 3):
    instance('C25', frequencies, rows=_r, cols=_c, base=_b, tests=6, bounded='at most four rows and three columns, all of them')


def many_rows(c, cols):
  f = c.mod('likelihoods').bool_perm_freq
  rows = c.int('rows', lo=1, hi=200)
  rng = np.random.RandomState(c.int('seed', lo=0, hi=2 ** 30))
  data = rng.rand(rows, cols) < .5
  r = f(data)
  for k in itertools.product([0, 1], repeat=cols):
    c.check('count', r[k] == sum(1 for row in data if tuple(row) == tuple(map(bool, k))))


for _c in (1, 2, 3, 4):
  instance('C25', many_rows, cols=_c, conc_only='counting loops over rows', tests=20)


@obligation('C25', conc_only='binary representation by strings', tests=60)
def binary(c):
  """integers and binary arrays, most significant first, convert into each other"""
  m = c.mod('likelihoods')
  n = c.int('n', lo=0, hi=2 ** 20)
  pad = c.int('pad', lo=0, hi=24)
  b = m.int_to_bin(n, pad)
  width = max(pad, len(bin(n)) - 2)
  c.check('width', b.dtype == bool and b.shape == (width,))
  c.check('bits', all(bool(b[i]) == bool(n >> (width - 1 - i) & 1) for i in range(width)))
  c.check('back', m.bin_to_int(b) == n)
  k = c.int('k', lo=0, hi=2 ** 20)
  for container in (list, tuple, np.array):
    bs = m.int_to_bin(container([n, k]), pad)
    w = max(pad, len(bin(max(n, k))) - 2)
    c.check('rows', bs.shape == (2, w))
    c.check('each', all(bool(bs[r, i]) == bool(v >> (w - 1 - i) & 1) for r, v in enumerate((n, k)) for i in range(w)))
    c.check('all back', list(m.bin_to_int(bs)) == [n, k])


@obligation('C25')
def integers(c):
  """binary arrays denote the sum of the powers of two of their bits"""
  m = c.mod('likelihoods')
  n = c.choice('n', [1, 2, 3, 4, 7])
  bits = [c.int('b%d' % i, lo=0, hi=1) for i in range(n)]
  want = 0
  for b in bits:
    want = want * 2 + b
  c.check('integer', c.eq(m.bin_to_int(c.stack(bits)), want))
