"""C22: expressions receive their arguments as declared."""
import itertools
import collections
import numpy as np
from pv.engine import obligation, instance


def _record(calls, tag=0):
  """a function recording what it is called with"""
  def f(*args, **kwds):
    calls.append((tag, args, kwds))
    return tag
  return f


def _same(c, got, want):
  """arguments passed are those wanted, by position and by name"""
  tag, args, kwds = got
  c.check('positions', len(args) == len(want[0]))
  c.check('names', set(kwds) == set(want[1]))
  for a, b in zip(args, want[0]):
    c.check('position', (a is None) if b is None else c.eq(a, b))
  for k in want[1]:
    c.check('name', c.eq(kwds[k], want[1][k]))


def _wrap(c, cls, f, *args, **kw):
  if cls == 'CF':  # a conditional function of a field of two variables
    RV = c.mod('rv').RV
    RF = c.mod('rf').RF
    return c.mod('cf').CF(RF(RV('x', vset=[0., 1.]), RV('y', vset=[0., 1.])), None, f, *args, **kw)
  return {'Expression': lambda: c.mod('expression').Expression, 'Prob': lambda: c.mod('prob').Prob,
          'Func': lambda: c.mod('func').Func}[cls]()(f, *args, **kw)


def _earlier(c, call, calls, vals):
  """the expression may have been called before, with other arguments"""
  if c.choice('earlier', [False, True]):
    call(collections.OrderedDict((k, -1.5 - i) for i, k in enumerate(list(vals) + ['w2', 'w3'])))
    del calls[:]


TARGETS = [0, 1, None, 'x', 'y', 'a']


def _contiguous(ts):
  i = sorted(t for t in ts if type(t) is int)
  s = [t for t in ts if t is not None]
  return len(set(map(repr, s))) == len(s) and (not i or set(i) == set(range(i[0], i[-1] + 1)))


def order(c, cls, first):
  """order: every argument named goes to its position, or is renamed, or is left
  out, and the others are passed as they are"""
  keys = ['x', 'y', 'z']
  maps = [m for m in itertools.product(TARGETS, TARGETS + ['z'], [0, 2, None, 'x', 'b', Ellipsis])
          if _contiguous([t for t in m if t is not Ellipsis])
          and m[0] == first and (m[2] is not Ellipsis or 'z' not in m)]
  m = c.choice('map', maps)
  mp = {k: t for k, t in zip(keys, m) if t is not Ellipsis}
  vals = {k: c.real('v_' + k) for k in keys + ['w']}
  if len(set(mp.values()) & {'w'}):
    return
  calls = []
  e = _wrap(c, cls, _record(calls), order=mp)
  _earlier(c, e, calls, vals)
  names = c.choice('given', [0, 1])
  if names:
    e(**vals)
  else:
    e(collections.OrderedDict(vals))
  n = max([t + 1 for t in mp.values() if type(t) is int], default=0)
  args = [None] * n
  kwds = {k: v for k, v in vals.items() if k not in mp}
  for k, t in mp.items():
    if type(t) is int:
      args[t] = vals[k]
    elif t is not None:
      kwds[t] = vals[k]
  c.check('once', len(calls) == 1)
  _same(c, calls[0], (args, kwds))


for _c in ('Expression', 'Prob', 'Func', 'CF'):
  for _f in TARGETS:
    instance('C22', order, cls=_c, first=_f, tag='%s,%s' % (_c, _f), bounded='three mapped arguments')


def delta(c, cls):
  """delta: primed names are passed as the difference from their unprimed, the
  others as they are"""
  calls = []
  vals = {k: c.real('v' + str(i)) for i, k in enumerate(["x", "x'", "y", "y'", 'w'])}
  maps = [{"x'": 0}, {"x'": 0, "y'": 1}, {"y'": 0, "x'": 1}, {"x'": 'y'}, {'x': 0, "x'": 1}, {"x'": 1, "x": 0},
          {"x'": 'd', 'y': 'x', "y'": 'e'}, {"x'": None, "y'": 0}, {"x'": 'y', 'y': 0}, {"x'": 'x', 'w': 'v'}]
  mp = c.choice('map', maps)
  e = _wrap(c, cls, _record(calls), delta=mp)
  _earlier(c, e, calls, vals)
  e(collections.OrderedDict(vals))
  want = {k: vals[k] - vals[k[:-1]] if k[-1] == "'" else vals[k] for k in mp}
  gone = set(mp) | {k[:-1] for k in mp if k[-1] == "'"}
  n = max([t + 1 for t in mp.values() if type(t) is int], default=0)
  args = [None] * n
  kwds = {k: v for k, v in vals.items() if k not in gone}
  for k, t in mp.items():
    if type(t) is int:
      args[t] = want[k]
    elif t is not None:
      kwds[t] = want[k]
  c.check('once', len(calls) == 1)
  _same(c, calls[0], (args, kwds))


for _c in ('Expression', 'Prob', 'Func', 'CF'):
  instance('C22', delta, cls=_c, tag=_c, bounded='the mappings listed')


def plain(c, cls):
  """constants given with the function come with the arguments of the call"""
  calls = []
  k, a, x, y = [c.real(n) for n in ('k', 'a', 'x', 'y')]
  how = c.choice('how', list(range(6)))
  f = _record(calls)
  e = _wrap(c, cls, f, *([a] if how in (2, 5) else []), **({'k': k} if how in (1, 3, 5) else {}))
  if how in (1, 3, 4):
    _earlier(c, e, calls, ['x', 'y'])
  elif c.choice('before', [False, True]):
    e(-2.5, -3.5, -4.5, w=-5.5)
    del calls[:]
  if how == 0:
    e(x, y)
    want = [x, y], {}
  elif how == 1:
    e(x, y=y)
    want = [x], {'k': k, 'y': y}
  elif how == 2:
    e(x, y)
    want = [a, x, y], {}
  elif how == 3:
    e({'x': x, 'y': y})
    want = [], {'x': x, 'y': y, 'k': k}
  elif how == 4:
    e({'x': x}, y=y) if cls != 'Prob' else e({'x': x, 'y': y})
    want = [], {'x': x, 'y': y}
  else:
    e(x=x, y=y)
    want = [a], {'x': x, 'y': y, 'k': k}
  c.check('once', len(calls) == 1)
  _same(c, calls[0], want)


for _c in ('Expression', 'Prob', 'Func', 'CF'):
  instance('C22', plain, cls=_c, tag=_c, bounded='two arguments')


def lambdas(c):
  """lambdas without parameters ignore named arguments, others receive them"""
  E = c.mod('expression').Expression
  calls = []
  note = lambda *a, **k: calls.append((0, a, k))
  x, y, k = c.real('x'), c.real('y'), c.real('k')
  how = c.choice('how', list(range(5)))
  if how == 0:
    c.check('constant', c.eq(E(lambda: k)({'x': x}), k))
    c.rejects('position', lambda: E(lambda: k)(x))
    return
  vals = {'x': x, 'y': y}
  if how == 1:
    E(lambda **kw: note(**kw))(vals)
  elif how == 2:
    E(lambda *, x, y: note(x=x, y=y))(vals)
  elif how == 3:
    E(lambda x, **kw: note(x=x, **kw))(vals)
  else:
    E(lambda *a: note(*a))(x, y)
  c.check('once', len(calls) == 1)
  _same(c, calls[0], ([x, y], {}) if how == 4 else ([], vals))


instance('C22', lambdas, bounded='two arguments')


def several(c, cls):
  """a tuple of functions is indexed by position (from either end), a
  dictionary by key, and calling it unindexed is refused"""
  calls = []
  n = c.choice('n', [1, 2, 3])
  x, k = c.real('x'), c.real('k')
  fs = tuple(_record(calls, i) for i in range(n))
  e = _wrap(c, cls, fs, k=k)
  i = c.choice('i', list(range(n)) + [-1])
  if c.choice('earlier', [False, True]):
    e[0](-1.5, w=2.5)
    del calls[:]
  c.check('result', e[i](x) == (i if i >= 0 else n - 1))
  c.check('which', calls[0][0] == (i if i >= 0 else n - 1))
  _same(c, calls[0], ([x], {'k': k}))
  c.check('number', len(e) == n)
  if cls != 'Func':
    c.check('multi', e.ismulti)
  c.rejects('unindexed', lambda: e(x))
  if cls != 'Expression':
    return
  d = _wrap(c, cls, {'p': fs[0], 'q': fs[-1]}, k=k)
  key = c.choice('key', ['p', 'q'])
  c.check('key', d[key]({'x': x}) == (0 if key == 'p' else n - 1))
  _same(c, calls[1], ([], {'x': x, 'k': k}))
  c.check('keys', len(d) == 2)


for _c in ('Expression', 'Func'):
  instance('C22', several, cls=_c, tag=_c, bounded='up to three functions')


def constant(c, cls):
  """what cannot be called is returned as it is"""
  kind = c.choice('kind', ['scalar', 'array', 'text'])
  v = c.real('v') if kind == 'scalar' else c.array('q', (c.extent('n'),)) if kind == 'array' else 'text'
  e = _wrap(c, cls, v)
  c.check('not callable', not e.callable and not e.ismulti)
  r = e()
  if kind == 'scalar':
    c.check('value', c.eq(r, v))
    c.check('scalar', e.isscalar)
  elif kind == 'array':
    c.check('shape', c.eq(c.shape(r)[0], c.shape(v)[0]))
    c.check('value', c.forall(c.shape(v), lambda i: c.eq(c.at(r, i), c.at(v, i))))
  else:
    c.check('value', r == 'text')
  c.rejects('arguments', lambda: e(1.))


instance('C22', constant, cls='Expression', tag='Expression')


def _value(c, x, y, z=None):
  v = c.mul(x, x) + 2 * y - c.mul(x, y)
  return v if z is None else v + 3 * c.mul(z, x)


def _symbolic(names):
  import sympy
  x, y = sympy.Symbol(names[0]), sympy.Symbol(names[1])
  e = x * x + 2 * y - x * y
  return e if len(names) < 3 else e + 3 * sympy.Symbol(names[2]) * x


def iconic(c, names, cls, how):
  """an expression of symbols evaluates to its value at the values given to the
  symbols by name, or by position in the order of their names"""
  E = c.mod('expr').Expr if cls == 'Expr' else c.mod('expression').Expression
  e = E(_symbolic(names))
  v = {n: c.real('v_' + n, lo=-4, hi=4) for n in names}
  if c.choice('earlier', [False, True]):
    e(**{n: -1.5 - i for i, n in enumerate(names)})
  if how == 'position':
    r = e(*[v[n] for n in sorted(names)])
  elif how == 'names':
    r = e(**v)
  else:
    d = {k: v[k] for k in c.choice('order', [list(names), list(names)[::-1]])}
    d0 = dict(d)
    r = e(d)
    c.check('argument left', list(d) == list(d0) and all(d[k] is d0[k] for k in d0))
  c.check('value', c.eq(r, _value(c, *[v[n] for n in names])))
  c.check('symbols', list(e.symbols) == sorted(names))


for _c in ('Expr', 'Expression'):
  for _n in (('x', 'y'), ('b', 'a'), ('mu', 'x', 'k')):
    for _h in ('position', 'names', 'dict'):
      instance('C22', iconic, cls=_c, names=_n, how=_h, tag='%s,%s,%s' % (_c, ''.join(_n), _h), bounded='one polynomial')


def iconic_arrays(c, layout, how):
  """.. elementwise over arrays"""
  e = c.mod('expression').Expression(_symbolic(('x', 'y')))
  n, m = c.extent('n'), c.extent('m')
  X = {'scalar': (), 'row': (n,), 'col': (n, 1), 'same': (n,)}
  Y = {'scalar': (n,), 'row': (n,), 'col': (1, m), 'same': ()}
  x = c.real('x', lo=-4, hi=4) if not X[layout] else c.array('x', X[layout], lo=-4, hi=4)
  y = c.real('y', lo=-4, hi=4) if not Y[layout] else c.array('y', Y[layout], lo=-4, hi=4)
  r = e(x, y) if how else e({'y': y, 'x': x})
  if layout == 'col':
    c.check('shape', c.all(c.eq(c.shape(r)[0], n), c.eq(c.shape(r)[1], m)))
    c.check('value', c.forall((n, m), lambda i, j: c.eq(c.at(r, i, j), _value(c, c.at(x, i, 0), c.at(y, 0, j)))))
    return
  c.check('shape', c.eq(c.shape(r)[0], n))
  at = lambda a, sh, i: c.at(a, i) if sh else a
  c.check('value', c.forall((n,), lambda i: c.eq(c.at(r, i), _value(c, at(x, X[layout], i), at(y, Y[layout], i)))))


for _l in ('scalar', 'row', 'col', 'same'):
  for _h in (0, 1):
    instance('C22', iconic_arrays, layout=_l, how=_h, tag='%s,%d' % (_l, _h), bounded='one polynomial')


def functional(c, kind):
  """each function of a functional is called with the inputs declared for it"""
  V = c.mod('variable').Variable
  F = c.mod('functional').Functional
  x, y, a, b = [V(n, vtype=float) for n in ('x', 'y', 'a', 'b')]
  f = F(a & b, x & y)
  vx, vy = c.real('vx', lo=-4, hi=4), c.real('vy', lo=-4, hi=4)
  vals = {'y': vy, 'x': vx}
  if kind == 'iconic':
    f.add_func(a, x[:] * x[:] + 1)
    f.add_func('b', x[:] - 2 * y[:])
    c.check('a', c.eq(f[a](vals), c.mul(vx, vx) + 1))
    c.check('b', c.eq(f['b'](vals), vx - 2 * vy))
    c.check('deps', f.deps[frozenset('a')] == {'x'} and f.deps[frozenset('b')] == {'x', 'y'})
    c.rejects('twice', lambda: f.add_func(a, x[:] + 3))
    c.rejects('mixed', lambda: f.add_func({'a': 'x'}, lambda x: x))
    return
  calls = []
  f.add_func({'a': 'y'}, _record(calls, 1))
  f.add_func({b: x}, _record(calls, 2), 7., k=2.)
  c.check('len', len(f) == 2)
  c.check('a', f['a'](vals) == 1)
  _same(c, calls[0], ([], {'y': vy}))
  c.check('b', f[b](**vals) == 2)
  _same(c, calls[1], ([7.], {'x': vx, 'k': 2.}))
  c.rejects('output', lambda: f.add_func({'x': 'y'}, _record(calls, 3)))
  c.rejects('input', lambda: F(a & b, x & y).add_func({'a': 'b'}, _record(calls, 3)))


for _k in ('iconic', 'function'):
  instance('C22', functional, kind=_k, tag=_k, bounded='two inputs and outputs')


def iconic_elements(c, layout, fixed):
  """.. whether or not numpy can evaluate the expression"""
  e = c.mod('expr').Expr(_symbolic(('x', 'y')))
  del e.efun[np.ndarray]
  X, Y, S = {'row': ((2,), (2,), (2,)), 'cols': ((2, 1), (1, 3), (2, 3)), 'rows': ((1, 3), (2, 1), (2, 3)),
             'x': ((3,), (), (3,)), 'y': ((), (3,), (3,)), 'grid': ((2, 2), (2, 2), (2, 2))}[layout]
  x = c.array('x', X, lo=-4, hi=4) if X else c.real('x', lo=-4, hi=4)
  y = c.array('y', Y, lo=-4, hi=4) if Y else c.real('y', lo=-4, hi=4)
  d = {'y': y, 'x': x}
  r = e(d) if fixed else e(x, y)
  c.check('argument left', d['x'] is x and d['y'] is y)
  c.check('shape', tuple(c.shape(r)) == S)
  at = lambda a, sh, ij: c.at(a, *[i if n > 1 else 0 for i, n in zip(ij[len(S) - len(sh):], sh)]) if sh else a
  for ij in itertools.product(*map(range, S)):
    c.check('value', c.eq(c.at(r, *ij), _value(c, at(x, X, ij), at(y, Y, ij))))


for _l in ('row', 'cols', 'rows', 'x', 'y', 'grid'):
  for _h in (0, 1):
    instance('C22', iconic_elements, layout=_l, fixed=_h, tag='%s,%d' % (_l, _h), bounded='one polynomial, up to six elements')
