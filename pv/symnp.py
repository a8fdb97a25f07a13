"""The `np` that the code under verification sees.

Concrete arguments go to numpy unchanged.  Calls with symbolic arguments are
interpreted by the functions below (the engine's assumed contract of numpy);
anything else raises Unsupported."""
import math
import numpy as _np
from . import terms as T
from .core import cur, Unsupported, NonFinite
from .values import (SymNum, SymBool, SymComplex, SymArray, MaskedView, SymSeq,
                     to_array, to_poly, to_bool, num_of, bool_of, wrap, kind_of,
                     elementwise, maybe_scalar, ext, unext, ext_eq, is_one, conv,
                     stack_list, nonzero1, argsort as _argsort, broadcast_shapes,
                     bcast_fn, is_sym, _numlike, check_nonzero, cast_scalar, _table,
                     nonzero_divisor, compare, _DT, concretise)


def dt_of(dt):
  if dt is None:
    return 'f'
  if dt in (float, 'float', 'float64', 'f'):
    return 'f'
  if dt in (int, 'int', 'int64', 'i'):
    return 'i'
  if dt in (bool, 'bool'):
    return 'b'
  try:
    k = _np.dtype(dt).kind
  except TypeError:
    raise Unsupported('dtype %r' % (dt,))
  if k in 'fiub':
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}[k]
  raise Unsupported('dtype %r' % (dt,))


def has_sym(x, depth=0):
  if is_sym(x) or type(x) is SymSeq:
    return True
  if depth < 4 and isinstance(x, (list, tuple, set)):
    return any(has_sym(y, depth + 1) for y in x)
  if depth < 4 and isinstance(x, dict):
    return any(has_sym(y, depth + 1) for y in x.values())
  if type(x) is slice:
    return any(has_sym(y) for y in (x.start, x.stop, x.step))
  if type(x) is _np.ndarray and x.dtype == object and x.size < 100:
    return any(has_sym(y) for y in x.ravel().tolist())
  return False


def concrete(x):
  """SymArray whose entries are all constant -> numpy array, else None"""
  if type(x) is SymArray:
    if any(type(n) is SymNum for n in x.shape):
      return None
    if int(_np.prod(x.shape)) > 4096:
      return None
    out = _np.empty(x.shape, dtype=_DT[x.dt])
    for i in _np.ndindex(*x.shape):
      e = x.fn(tuple(T.const(k) for k in i))
      if not e.is_const:
        return None
      out[i] = e.const if x.dt != 'f' else float(e.const)
    return out
  return None


def _conc(x):
  if type(x) is SymArray:
    c = concrete(x)
    return x if c is None else c
  if type(x) in (list, tuple):
    return type(x)(_conc(y) for y in x)
  return x


IMPL = {}


def impl(name=None):
  def deco(f):
    IMPL[name or f.__name__] = f
    return f
  return deco


class _Fn:
  def __init__(self, name, real, path):
    self.name, self.real, self.path = name, real, path

  def __call__(self, *args, **kw):
    f = IMPL.get(self.path)
    if f is not None and (self.path in ALWAYS or any(has_sym(a) for a in args) or
                          any(has_sym(a) for a in kw.values())):
      return f(*args, **kw)
    if f is None:
      args = tuple(_conc(a) for a in args)
      kw = {k: _conc(v) for k, v in kw.items()}
      if any(has_sym(a) for a in args) or any(has_sym(a) for a in kw.values()):
        raise Unsupported('np.%s on symbolic arguments' % self.path)
    return self.real(*args, **kw)

  def __getattr__(self, k):
    return getattr(self.real, k)


ALWAYS = {'ones', 'zeros', 'empty', 'full', 'random.uniform', 'random.randint',
          'random.permutation', 'random.normal', 'random.choice', 'random.rand',
          'random.random', 'random.random_sample', 'random.shuffle', 'isscalar', 'tile',
          'zeros_like', 'ones_like', 'empty_like', 'full_like'}


class ShimModule:
  def __init__(self, real, prefix=''):
    object.__setattr__(self, '_real', real)
    object.__setattr__(self, '_prefix', prefix)
    object.__setattr__(self, '_cache', {})

  def __getattr__(self, name):
    c = self._cache
    if name in c:
      return c[name]
    v = getattr(self._real, name)
    path = self._prefix + name
    if isinstance(v, type) or isinstance(v, (int, float, complex, str, type(None))):
      r = v
    elif type(v).__name__ == 'module':
      r = ShimModule(v, path + '.')
    elif callable(v):
      r = _Fn(name, v, path)
    else:
      r = v
    c[name] = r
    return r


np = ShimModule(_np)


# ------------------------------------------------------------- predicates
@impl()
def isscalar(x):
  t = type(x)
  if t in (SymNum, SymBool, SymComplex):
    return True
  if t in (SymArray, MaskedView, SymSeq):
    return False
  return _np.isscalar(x)


@impl()
def ndim(x):
  return to_array(x).ndim if not is_sym(x) or type(x) is not SymNum else 0


@impl()
def shape(x):
  return to_array(x).shape


@impl()
def size(x):
  return to_array(x).size


def _map1(x, g, dt):
  if type(x) is MaskedView:
    return x.map(g, dt)
  return maybe_scalar(elementwise(g, dt, to_array(x)))


@impl()
def isfinite(x):
  return _map1(x, lambda e: T.TRUE, 'b')


@impl()
def isinf(x):
  return _map1(x, lambda e: T.FALSE, 'b')


@impl()
def isnan(x):
  return _map1(x, lambda e: T.FALSE, 'b')


@impl()
def log(x):
  if type(x) is SymNum:
    # log of a non-positive value leaves the reals
    if not cur().fork(T.lt(T.ZERO, x.e)):
      raise NonFinite('log of a non-positive value')
  elif type(x) in (SymArray,):
    bs = [T.fresh_binder() for _ in x.shape]
    ok = T.mk_forall(bs, [ext(n) for n in x.shape],
                     T.lt(T.ZERO, num_of(x.fn(tuple(map(T.atom, bs))))))
    if not cur().fork(ok):
      raise NonFinite('log of a non-positive element')
  elif type(x) is MaskedView:
    bs = [T.fresh_binder() for _ in x.shape0]
    ix = tuple(map(T.atom, bs))
    ok = T.mk_forall(bs, [ext(n) for n in x.shape0],
                     T.implies(x.mask.fn(ix), T.lt(T.ZERO, num_of(x.fn(ix)))))
    if not cur().fork(ok):
      raise NonFinite('log of a non-positive element')
  return _map1(x, lambda e: T.mk_log(num_of(e)), 'f')


@impl()
def exp(x):
  return _map1(x, lambda e: T.mk_exp(num_of(e)), 'f')


@impl()
def sqrt(x):
  return _map1(x, lambda e: T.mk_sqrt(num_of(e)), 'f')


@impl()
def abs(x):
  if type(x) is SymComplex:
    return x.__abs__()
  k = x.dt if type(x) in (SymArray, MaskedView) else kind_of(x)
  return _map1(x, lambda e: T.ite(T.le(T.ZERO, num_of(e)), num_of(e), T.neg(num_of(e))), k)


IMPL['absolute'] = IMPL['fabs'] = abs


@impl()
def sign(x):
  k = x.dt if type(x) is SymArray else kind_of(x)
  return _map1(x, lambda e: T.ite(T.lt(T.ZERO, e), T.ONE,
                                  T.ite(T.lt(e, T.ZERO), T.const(-1), T.ZERO)), k)


@impl()
def floor(x):
  return _map1(x, lambda e: T.floor(num_of(e)), 'f')


@impl()
def ceil(x):
  return _map1(x, lambda e: T.neg(T.floor(T.neg(num_of(e)))), 'f')


@impl()
def square(x):
  k = x.dt if type(x) is SymArray else kind_of(x)
  return _map1(x, lambda e: T.mul(e, e), k)


@impl()
def negative(x):
  return -x


@impl()
def real(x):
  if type(x) is SymComplex:
    return SymNum(x.re, 'f', True)
  return x


@impl()
def imag(x):
  if type(x) is SymComplex:
    return wrap(x.im, 'f', True)
  return 0.


def _ufunc2(g, kd):
  def f(a, b, **kw):
    if kw:
      raise Unsupported('ufunc keywords')
    return maybe_scalar(elementwise(g, kd, to_array(a), to_array(b)))
  return f


def _joink(a, b):
  return 'f' if 'f' in (a, b) else 'i' if 'i' in (a, b) else 'b'


IMPL['maximum'] = _ufunc2(lambda a, b: T.pmax(num_of(a), num_of(b)), _joink)
IMPL['minimum'] = _ufunc2(lambda a, b: T.pmin(num_of(a), num_of(b)), _joink)
IMPL['fmax'], IMPL['fmin'] = IMPL['maximum'], IMPL['minimum']
IMPL['logical_and'] = _ufunc2(lambda a, b: T.band(bool_of(a), bool_of(b)), 'b')
IMPL['logical_or'] = _ufunc2(lambda a, b: T.bor(bool_of(a), bool_of(b)), 'b')
IMPL['logical_xor'] = _ufunc2(lambda a, b: T.bnot(T.iff(bool_of(a), bool_of(b))), 'b')
IMPL['logical_not'] = lambda a: _map1(a, lambda e: T.bnot(bool_of(e)), 'b')
for _n, _o in (('less', 'lt'), ('less_equal', 'le'), ('greater', 'gt'),
               ('greater_equal', 'ge'), ('equal', 'eq'), ('not_equal', 'ne')):
  IMPL[_n] = (lambda o: _ufunc2(lambda a, b: compare(num_of(a), num_of(b), o), 'b'))(_o)


def _ar(op):
  def f(a, b):
    a, b = to_array(a) if type(a) is _np.ndarray or type(a) in (list, tuple) else a, \
        to_array(b) if type(b) is _np.ndarray or type(b) in (list, tuple) else b
    import operator
    return getattr(operator, op)(a, b)
  return f


for _n, _o in (('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'),
               ('divide', 'truediv'), ('true_divide', 'truediv'), ('mod', 'mod'),
               ('remainder', 'mod'), ('floor_divide', 'floordiv'), ('power', 'pow')):
  IMPL[_n] = _ar(_o)


@impl()
def clip(x, lo, hi):
  r = x
  if lo is not None:
    r = IMPL['maximum'](r, lo)
  if hi is not None:
    r = IMPL['minimum'](r, hi)
  return r


@impl()
def where(c, *ab):
  if not ab:
    return to_array(c).nonzero()
  a, b = map(to_array, ab)
  k = _joink(a.dt, b.dt)

  def g(cc, x, y):
    cc = bool_of(cc)
    if k == 'b':
      return T.bite(cc, x, y)
    return T.ite(cc, num_of(x), num_of(y))
  return maybe_scalar(elementwise(g, k, to_array(c), a, b))


# ------------------------------------------------------------- reductions
def _red(name):
  def f(a, *args, **kw):
    if type(a) is MaskedView:
      return getattr(a, name)(*args, **kw)
    if type(a) in (list, tuple) and any(x is None for x in a):
      raise TypeError('unsupported operand type(s): NoneType')
    return getattr(to_array(a), name)(*args, **kw)
  return f


for _n, _m in (('sum', 'sum'), ('prod', 'prod'), ('product', 'prod'), ('mean', 'mean'),
               ('all', 'all'), ('any', 'any'), ('max', 'max'), ('min', 'min'),
               ('amax', 'max'), ('amin', 'min'), ('cumsum', 'cumsum')):
  if hasattr(_np, _n):
    IMPL[_n] = _red(_m)


@impl()
def dot(a, b):
  a, b = to_array(a), to_array(b)
  if a.ndim == 0 or b.ndim == 0:
    return a * b
  k1 = a.ndim - 1
  k2 = max(0, b.ndim - 2)
  if not ext_eq(a.shape[k1], b.shape[k2]):
    raise ValueError('shapes not aligned')
  n = ext(a.shape[k1])
  f, g = a.snap(), b.snap()
  sa = a.shape[:-1]
  sb = b.shape[:k2] + b.shape[k2+1:]

  def fn(idx):
    q = T.fresh_binder()
    ia = idx[:len(sa)] + (T.atom(q),)
    ib = list(idx[len(sa):])
    ib.insert(k2, T.atom(q))
    return T.mk_sum([q], [n], T.mul(num_of(f(ia)), num_of(g(tuple(ib)))))
  return maybe_scalar(SymArray(sa + sb, fn, _joink(a.dt, b.dt)))


IMPL['matmul'] = IMPL['inner'] = dot


@impl()
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
  r = isclose(a, b, rtol, atol)
  return r.all() if type(r) is SymArray else r


@impl()
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
  rt, at = to_poly(rtol), to_poly(atol)

  def g(x, y):
    x, y = num_of(x), num_of(y)
    d = T.sub(x, y)
    ab = lambda p: T.ite(T.le(T.ZERO, p), p, T.neg(p))
    if d is T.ZERO:
      return T.TRUE
    return T.le(ab(d), T.add(at, T.mul(rt, ab(y))))
  return maybe_scalar(elementwise(g, 'b', to_array(a), to_array(b)))


@impl()
def array_equal(a, b):
  a, b = to_array(a), to_array(b)
  if a.ndim != b.ndim:
    return False
  for p, q in zip(a.shape, b.shape):
    if not ext_eq(p, q):
      return False
  r = a == b
  return r.all() if type(r) is SymArray else r


# ------------------------------------------------------------- creation
def _shape(s):
  if type(s) in (SymArray, _np.ndarray):
    return tuple(s)
  if type(s) in (list, tuple):
    return tuple(s)
  return (s,)


def _const_arr(shp, e, k):
  return SymArray(_shape(shp), lambda idx: e, k)


def _one(k, v):
  return T.bconst(v) if k == 'b' else T.const(v)


@impl()
def ones(shape, dtype=None, order=None):
  k = dt_of(dtype)
  return _const_arr(shape, _one(k, 1), k)


@impl()
def zeros(shape, dtype=None, order=None):
  if dtype is not None and _np.dtype(dtype).kind in 'SUO':
    return _np.zeros(shape, dtype)
  k = dt_of(dtype)
  return _const_arr(shape, _one(k, 0), k)


@impl()
def empty(shape, dtype=None, order=None):
  if dtype is not None and _np.dtype(dtype).kind in 'SUO':
    return _np.empty(shape, dtype)
  k = dt_of(dtype)
  name = cur().fresh('uninit')
  if k == 'b':
    return SymArray(_shape(shape), lambda idx: T.bapp(name, idx), k)
  sort = T.INT if k == 'i' else T.REAL
  return SymArray(_shape(shape), lambda idx: T.app(name, idx, sort) if idx
                  else T.var(name, sort), k)


@impl()
def full(shape, fill_value, dtype=None, order=None):
  v = to_array(fill_value)
  k = v.dt if dtype is None else dt_of(dtype)
  e = conv(v.fn(()), v.dt, k)
  return _const_arr(shape, e, k)


@impl()
def ones_like(x, dtype=None):
  x = to_array(x)
  return ones(x.shape, dtype or _DT[x.dt])


@impl()
def zeros_like(x, dtype=None):
  x = to_array(x)
  return zeros(x.shape, dtype or _DT[x.dt])


@impl()
def empty_like(x, dtype=None):
  x = to_array(x)
  return empty(x.shape, dtype or _DT[x.dt])


@impl()
def full_like(x, v, dtype=None):
  x = to_array(x)
  return full(x.shape, v, dtype or _DT[x.dt])


@impl()
def tile(a, reps):
  if not has_sym(a) and not has_sym(reps) and _np.asarray(a).dtype.kind not in 'fiub':
    return _np.tile(a, reps)
  a = to_array(a)
  reps = _shape(reps)
  if a.ndim == 0:
    f, k = a.snap(), a.dt
    return SymArray(reps, lambda idx: f(()), k)
  nd = max(a.ndim, len(reps))
  reps = (1,) * (nd - len(reps)) + reps
  a = a.reshape((1,) * (nd - a.ndim) + a.shape)
  f = a.snap()
  ex = [ext(s) for s in a.shape]
  shape = tuple(unext(T.mul(e, ext(r))) for e, r in zip(ex, reps))

  def fn(idx):
    out = []
    for i, e, r in zip(idx, ex, reps):
      if is_one(r):
        out.append(i)
      elif e is T.ONE:
        out.append(T.ZERO)
      else:
        out.append(T.mod(i, e))
    return f(tuple(out))
  return SymArray(shape, fn, a.dt)


@impl()
def repeat(a, n, axis=None):
  a = to_array(a)
  if axis is None:
    a = a.reshape(-1)
    axis = 0
  axis = a._axes(axis)[0]
  f = a.snap()
  e = ext(n)
  shape = list(a.shape)
  shape[axis] = unext(T.mul(ext(shape[axis]), e))

  def fn(idx):
    idx = list(idx)
    idx[axis] = T.floordiv(idx[axis], e)
    return f(tuple(idx))
  return SymArray(tuple(shape), fn, a.dt)


@impl()
def array(x, dtype=None, copy=True, ndmin=0):
  if type(x) is _np.ndarray and x.dtype == object:
    pass
  if type(x) is MaskedView:
    if dtype is not None and dt_of(dtype) != x.dt:
      d = dt_of(dtype)
      k = x.dt
      return x.map(lambda e: conv(e, k, d), d)
    return x
  if type(x) is set:
    raise Unsupported('array of a set')
  a = to_array(x)
  d = a.dt if dtype is None else dt_of(dtype)
  k = a.dt
  f = a.snap()
  r = SymArray(a.shape, lambda idx: conv(f(idx), k, d), d)
  while r.ndim < ndmin:
    r = r.reshape((1,) + r.shape)
  return r


@impl()
def asarray(x, dtype=None):
  if type(x) is SymArray and (dtype is None or dt_of(dtype) == x.dt):
    return x
  return array(x, dtype)


IMPL['asanyarray'] = IMPL['ascontiguousarray'] = asarray


@impl()
def copy(x):
  if type(x) is MaskedView:
    return x
  return to_array(x).copy()


@impl()
def arange(*a, dtype=None):
  if len(a) == 1:
    lo, hi, st = 0, a[0], 1
  elif len(a) == 2:
    lo, hi, st = a[0], a[1], 1
  else:
    lo, hi, st = a
  pl, ph, ps = to_poly(lo), to_poly(hi), to_poly(st)
  k = 'f' if 'f' in (kind_of(lo), kind_of(hi), kind_of(st)) else 'i'
  if not nonzero_divisor(ps):
    raise ZeroDivisionError
  n = T.neg(T.floordiv(T.sub(pl, ph), ps)) if k == 'i' else \
      T.neg(T.floor(T.div(T.sub(pl, ph), ps)))
  if n.is_const:
    n = T.const(max(0, int(n.const)))
  elif cur().fork(T.lt(n, T.ZERO)):
    n = T.ZERO
  if dtype is not None:
    k = dt_of(dtype)
  return SymArray((unext(n),), lambda idx: T.add(pl, T.mul(ps, idx[0])), k)


@impl()
def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
  if retstep:
    raise Unsupported('linspace retstep')
  if type(a) in (SymArray, _np.ndarray) or type(b) in (SymArray, _np.ndarray):
    raise Unsupported('linspace of arrays')
  if kind_of(num) == 'f' and type(num) is not SymNum:
    raise TypeError("'float' object cannot be interpreted as an integer")
  pa, pb, n = to_poly(a), to_poly(b), to_poly(num)
  c = cur()
  if n.is_const:
    if n.const < 0:
      raise ValueError('Number of samples must be non-negative')
  elif c.fork(T.lt(n, T.ZERO)):
    raise ValueError('Number of samples must be non-negative')
  d = T.sub(n, T.ONE) if endpoint else n
  one = (d.const == 0) if d.is_const else c.fork(T.eq0(d))
  if one or (n.is_const and n.const == 0):
    r = SymArray((unext(n),), lambda idx: pa, 'f')
  elif not n.is_const and c.fork(T.eq0(n)):
    r = SymArray((0,), lambda idx: pa, 'f')
  else:
    step = T.div(T.sub(pb, pa), d)
    r = SymArray((unext(n),), lambda idx: T.add(pa, T.mul(step, idx[0])), 'f')
  if dtype is not None:
    return r.astype(dtype)
  return r


# ------------------------------------------------------------- structure
@impl()
def ravel(x, order='C'):
  if type(x) is MaskedView:
    return x
  return to_array(x).reshape(-1)


@impl()
def reshape(x, shape, order='C'):
  return to_array(x).reshape(shape)


@impl()
def transpose(x, axes=None):
  return to_array(x).transpose(*([axes] if axes is not None else []))


@impl()
def swapaxes(x, a, b):
  return to_array(x).swapaxes(a, b)


@impl()
def squeeze(x, axis=None):
  return to_array(x).squeeze(axis)


@impl()
def moveaxis(x, src, dst):
  x = to_array(x)
  src = list(src) if isinstance(src, (list, tuple)) else [src]
  dst = list(dst) if isinstance(dst, (list, tuple)) else [dst]
  n = x.ndim

  def norm(l):
    out = []
    for a in l:
      a = int(a)
      if a < -n or a >= n:
        raise _np.exceptions.AxisError(a, n)
      out.append(a % n)
    if len(set(out)) != len(out):
      raise ValueError('repeated axis in argument')
    return out
  src, dst = norm(src), norm(dst)
  if len(src) != len(dst):
    raise ValueError('`source` and `destination` arguments must have the same number of elements')
  order = [k for k in range(n) if k not in src]
  for d, s in sorted(zip(dst, src)):
    order.insert(d, s)
  return x.transpose(order)


@impl()
def rollaxis(x, axis, start=0):
  n = x.ndim
  axes = list(range(n))
  axes.remove(axis)
  if axis < start:
    start -= 1
  axes.insert(start, axis)
  return x.transpose(axes)


@impl()
def expand_dims(x, axis):
  x = to_array(x)
  axs = axis if isinstance(axis, (tuple, list)) else (axis,)
  nd = x.ndim + len(axs)
  axs = [int(a) % nd for a in axs]
  shape = []
  src = iter(x.shape)
  for d in range(nd):
    shape.append(1 if d in axs else next(src))
  return x.view(tuple(shape), lambda f, idx: f(tuple(i for d, i in enumerate(idx) if d not in axs)))


@impl()
def atleast_1d(x):
  x = to_array(x) if type(x) is not MaskedView else x
  if type(x) is SymArray and x.ndim == 0:
    return x.reshape((1,))
  return x


@impl()
def atleast_2d(x):
  x = to_array(x)
  if x.ndim == 0:
    return x.reshape((1, 1))
  if x.ndim == 1:
    return x.reshape((1, x.shape[0]))
  return x


@impl()
def broadcast_to(x, shape):
  x = to_array(x)
  s = broadcast_shapes([x.shape, _shape(shape)])
  return SymArray(s, bcast_fn(x, s), x.dt)


@impl()
def meshgrid(*xs, indexing='xy', **kw):
  xs = [to_array(x).reshape(-1) for x in xs]
  n = len(xs)
  order = list(range(n))
  if indexing == 'xy' and n >= 2:
    order[0], order[1] = 1, 0
  shape = tuple(xs[k].shape[0] for k in order)
  out = []
  for k, x in enumerate(xs):
    pos = order.index(k)
    f = x.snap()
    out.append(SymArray(shape, (lambda f, pos: lambda idx: f((idx[pos],)))(f, pos), x.dt))
  return out


@impl()
def concatenate(xs, axis=0):
  xs = [to_array(x) for x in xs]
  if axis is None:
    xs = [x.reshape(-1) for x in xs]
    axis = 0
  if any(x.ndim == 0 for x in xs):
    raise ValueError('zero-dimensional arrays cannot be concatenated')
  axis = xs[0]._axes(axis)[0]
  k = xs[0].dt
  for x in xs[1:]:
    k = _joink(k, x.dt)
    if x.ndim != xs[0].ndim:
      raise ValueError('all the input array dimensions must match')
    for d in range(x.ndim):
      if d != axis and not ext_eq(x.shape[d], xs[0].shape[d]):
        raise ValueError('all the input array dimensions except for the concatenation axis must match')
  fns = [x.snap() for x in xs]
  dts = [x.dt for x in xs]
  exs = [ext(x.shape[axis]) for x in xs]
  tot = T.ZERO
  offs = []
  for e in exs:
    offs.append(tot)
    tot = T.add(tot, e)
  shape = list(xs[0].shape)
  shape[axis] = unext(tot)

  def fn(idx):
    i = idx[axis]

    def at(j):
      jj = list(idx)
      jj[axis] = T.sub(i, offs[j])
      return conv(fns[j](tuple(jj)), dts[j], k)
    if i.is_const and all(o.is_const and e.is_const for o, e in zip(offs, exs)):
      for j in range(len(xs)):
        if offs[j].const <= i.const < offs[j].const + exs[j].const:
          return at(j)
    r = at(len(xs) - 1)
    for j in range(len(xs) - 2, -1, -1):
      c = T.lt(i, T.add(offs[j], exs[j]))
      r = T.bite(c, at(j), r) if k == 'b' else T.ite(c, at(j), r)
    return r
  return SymArray(tuple(shape), fn, k)


@impl()
def hstack(xs):
  xs = [atleast_1d(x) for x in xs]
  return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


@impl()
def vstack(xs):
  return concatenate([atleast_2d(x) for x in xs], 0)


@impl()
def append(a, b, axis=None):
  return concatenate([a, b], axis) if axis is not None else \
      concatenate([ravel(a), ravel(b)], 0)


@impl()
def stack(xs, axis=0):
  r = stack_list(list(xs))
  if axis != 0:
    r = moveaxis(r, 0, axis)
  return r


def _tri(m, k, lower):
  m = to_array(m)
  if m.ndim != 2:
    raise Unsupported('tril/triu of %d dimensions' % m.ndim)
  f, kk = m.snap(), to_poly(k)

  def fn(idx):
    d = T.sub(idx[1], idx[0])
    return T.ite(T.le(d, kk) if lower else T.le(kk, d), num_of(f(idx)), T.ZERO)
  return SymArray(m.shape, fn, m.dt)


@impl()
def tril(m, k=0):
  return _tri(m, k, True)


@impl()
def triu(m, k=0):
  return _tri(m, k, False)


@impl()
def broadcast_arrays(*xs, subok=False):
  xs = [to_array(x) for x in xs]
  s = broadcast_shapes([x.shape for x in xs])
  return tuple(broadcast_to(x, s) for x in xs)


@impl()
def delete(a, obj, axis=None):
  a = to_array(a)
  if axis is None:
    if a.ndim != 1:
      a = a.reshape(-1)
    axis = 0
  axis = a._axes(axis)[0]
  n = a.shape[axis]
  objs = obj if type(obj) in (list, tuple, _np.ndarray) else [obj]
  ps = [a._norm_index(o, n) for o in objs]
  if len(ps) != 1:
    if not all(p.is_const for p in ps):
      raise Unsupported('delete of several symbolic positions')
    r = a
    for p in sorted({int(p.const) for p in ps}, reverse=True):
      r = delete(r, p, axis)
    return r
  p = ps[0]
  f = a.snap()
  shape = list(a.shape)
  shape[axis] = unext(T.sub(ext(n), T.ONE))

  def fn(idx):
    j = list(idx)
    i = idx[axis]
    c = T.lt(i, p)
    j[axis] = i if c is T.TRUE else T.add(i, T.ONE) if c is T.FALSE else \
        T.ite(c, i, T.add(i, T.ONE))
    return f(tuple(j))
  return SymArray(tuple(shape), fn, a.dt)


@impl()
def diff(a, n=1, axis=-1):
  a = to_array(a)
  if n != 1 or a.ndim != 1:
    raise Unsupported('diff')
  return a[1:] - a[:-1]


@impl()
def nonzero(a):
  return to_array(a).nonzero()


@impl()
def argsort(a, axis=-1, kind=None):
  return _argsort(a)


@impl()
def sort(a, axis=-1):
  a = to_array(a)
  if len(a.shape) == 1 and isinstance(a.shape[0], int) and a.shape[0] == 2:
    return a if bool(a[0] <= a[1]) else a[::-1].copy()
  return a[_argsort(a)]


@impl()
def take(a, idx, axis=None):
  a = to_array(a)
  if axis is None:
    a = a.reshape(-1)
    axis = 0
  axis = a._axes(axis)[0]
  return a[tuple([slice(None)] * axis + [idx])]


@impl()
def isin(x, s, assume_unique=False, invert=False):
  x = to_array(x)
  s = to_array(s).reshape(-1)
  f = s.snap()
  n = ext(s.shape[0])

  def g(e):
    b = T.fresh_binder()
    r = T.mk_exists([b], [n], T.eq(num_of(f((T.atom(b),))), num_of(e)))
    return T.bnot(r) if invert else r
  return maybe_scalar(elementwise(g, 'b', x))


def _digitize_index(x, f, n, right):
  """number of bins b with b <= x (right False) for increasing bins"""
  b = T.fresh_binder()
  v = num_of(f((T.atom(b),)))
  c = T.lt(v, x) if right else T.le(v, x)
  return T.mk_sum([b], [n], T.b2i(c))


@impl()
def digitize(x, bins, right=False):
  bins = to_array(bins)
  f, n = bins.snap(), ext(bins.shape[0])
  c = cur()
  p, q = T.fresh_binder(), T.fresh_binder()
  P, Q = T.atom(p), T.atom(q)
  inc = T.mk_forall([p, q], [n, n], T.implies(T.le(P, Q), T.le(num_of(f((P,))), num_of(f((Q,))))))
  if not c.fork(inc):
    raise Unsupported('digitize with bins not increasing')
  return maybe_scalar(elementwise(lambda e: _digitize_index(num_of(e), f, n, right), 'i',
                                  to_array(x)))


@impl()
def indices(dimensions, dtype=int):
  es = [ext(s) for s in dimensions]
  n = len(es)

  def fn(idx):
    r = idx[1]
    if not idx[0].is_const:
      r = idx[n]
      for d in range(n - 2, -1, -1):
        r = T.ite(T.eq(idx[0], T.const(d)), idx[d + 1], r)
      return r
    return idx[1 + int(idx[0].const)]
  return SymArray((n,) + tuple(unext(e) for e in es), fn, 'i')


@impl()
def unravel_index(i, shape):
  ps = [ext(s) for s in shape]
  rem = to_poly(i)
  out = []
  for k in range(len(ps) - 1, 0, -1):
    out.append(wrap(T.mod(rem, ps[k]), 'i'))
    rem = T.floordiv(rem, ps[k])
  out.append(wrap(rem, 'i'))
  return tuple(out[::-1])


# ------------------------------------------------------------- random
def _draw(shape, sort, lo, hi, incl_hi, what):
  """fresh value(s) with lo <= v < hi (assumed contract of numpy.random);
  when lo == hi the value is lo"""
  c = cur()
  name = c.fresh('rnd')
  c.rands.append((name, what, shape, sort))
  r = _drawn(c, name, shape, sort, lo, hi)
  if what == 'uniform':
    c.draws.append((lo, hi, r))
  if what == 'randint':
    c.idraws.append((lo, hi, r))
  return r


def _drawn(c, name, shape, sort, lo, hi):
  def fact(v, idx):
    l, h = lo(idx), hi(idx)
    r = T.le(l, v)
    if sort == T.INT:
      return [T.band(r, T.lt(v, h))]
    fs = [T.band(r, T.bor(T.lt(v, h), T.band(T.eq(l, h), T.eq(v, l))))]
    if c.draw_gap:
      g = T.const(c.draw_gap)
      fs.append(T.bor(T.le(g, v), T.le(v, T.neg(g))))
    return fs
  if shape is None:
    v = T.var(name, sort)
    for f in fact(v, ()):
      c.assume(f)
    return wrap(v, 'i' if sort == T.INT else 'f', False)
  exs = [ext(s) for s in shape]

  def cb(args):
    inr = T.band(*[T.band(T.le(T.ZERO, i), T.lt(i, e)) for i, e in zip(args, exs)])
    return [T.implies(inr, f) for f in fact(T.app(name, args, sort), args)]
  c.reg.app[name] = cb
  c.reg.arrays.add(name)
  return SymArray(tuple(shape), lambda idx: T.app(name, idx, sort), 'i' if sort == T.INT else 'f')


@impl('linalg.inv')
def l_inv(a):
  a = to_array(a)
  n = a.shape[0] if a.ndim == 2 else None
  if a.ndim != 2 or not (isinstance(n, int) and a.shape[1] == n):
    raise _np.linalg.LinAlgError('not a square matrix')
  if n > 3:
    raise Unsupported('inverse of matrix of order %d' % n)
  f = a.snap()
  m = [[num_of(f((T.const(i), T.const(j)))) for j in range(n)] for i in range(n)]

  def det(m):
    if not m:
      return T.ONE
    d = T.ZERO
    for j in range(len(m)):
      t = T.mul(m[0][j], det([r[:j] + r[j+1:] for r in m[1:]]))
      d = T.add(d, t) if j % 2 == 0 else T.sub(d, t)
    return d
  d = det(m)
  if cur().fork(T.eq(d, T.ZERO)):
    raise _np.linalg.LinAlgError('Singular matrix')
  r = [[None] * n for _ in range(n)]
  for i in range(n):
    for j in range(n):
      t = det([row[:i] + row[i+1:] for k, row in enumerate(m) if k != j])
      r[i][j] = wrap(T.div(t if (i + j) % 2 == 0 else T.neg(t), d), 'f', True)
  return array(r) if n else _np.empty((0, 0))


@impl('random.uniform')
def r_uniform(low=0.0, high=1.0, size=None):
  if size is None and not (type(low) in (SymArray, _np.ndarray) or type(high) in (SymArray, _np.ndarray)):
    l, h = to_poly(low), to_poly(high)
    return _draw(None, T.REAL, lambda i: l, lambda i: h, False, 'uniform')
  if size is None:
    la, ha = to_array(low), to_array(high)
    sh = broadcast_shapes([la.shape, ha.shape])
    fl, fh = bcast_fn(la, sh), bcast_fn(ha, sh)
    return _draw(sh, T.REAL, lambda i: num_of(fl(i)), lambda i: num_of(fh(i)), False, 'uniform')
  sh = _shape(size)
  l, h = to_poly(low), to_poly(high)
  return _draw(sh, T.REAL, lambda i: l, lambda i: h, False, 'uniform')


@impl('random.randint')
def r_randint(low, high=None, size=None, dtype=int):
  if high is None:
    low, high = 0, low
  l, h = to_poly(low), to_poly(high)
  if not cur().fork(T.lt(l, h)):
    raise ValueError('low >= high')
  return _draw(None if size is None else _shape(size), T.INT, lambda i: l, lambda i: h,
               False, 'randint')


@impl('random.permutation')
def r_permutation(x):
  c = cur()
  if _numlike(x):
    n = ext(x)
    f = None
  else:
    a = to_array(x)
    n = ext(a.shape[0])
    f = a.snap()
  name, inv_ = c.fresh('perm'), c.fresh('iperm')
  c.rands.append((name, 'permutation', (unext(n),), T.INT))

  def facts_of(p, q):
    def facts(args):
      j, = args
      v = T.app(p, (j,), T.INT)
      return [T.implies(T.band(T.le(T.ZERO, j), T.lt(j, n)),
                        T.band(T.le(T.ZERO, v), T.lt(v, n),
                               T.eq(T.app(q, (v,), T.INT), j)))]
    return facts
  c.reg.app[name] = facts_of(name, inv_)
  c.reg.app[inv_] = facts_of(inv_, name)
  c.reg.arrays.add(name)
  if f is None:
    return SymArray((unext(n),), lambda idx: T.app(name, idx, T.INT), 'i')
  return SymArray(a.shape, lambda idx: f((T.app(name, idx[:1], T.INT),) + tuple(idx[1:])), a.dt)


@impl('random.normal')
def r_normal(loc=0., scale=1., size=None):
  raise Unsupported('random.normal')


@impl('random.rand')
def r_rand(*shape):
  return r_uniform(0., 1., shape if shape else None)


@impl('random.random')
def r_random(size=None):
  return r_uniform(0., 1., size)


IMPL['random.random_sample'] = r_random
IMPL['random.choice'] = IMPL['random.shuffle'] = r_normal
