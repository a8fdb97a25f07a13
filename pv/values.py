"""Symbolic Python/numpy values."""
import math
import numbers
import numpy as _np
from fractions import Fraction
from . import terms as T
from .core import cur, Unsupported, NonFinite, BoundHit, UNROLL

_DT = {'f': _np.dtype('float64'), 'i': _np.dtype('int64'), 'b': _np.dtype('bool')}


def is_sym(x):
  return type(x) in (SymNum, SymBool, SymComplex, SymArray, MaskedView)


def is_concrete_num(x):
  t = type(x)
  return t in (int, float, bool) or isinstance(x, (_np.number, _np.bool_)) and not is_sym(x)


def to_poly(x):
  """numeric python/numpy/symbolic scalar -> Poly"""
  t = type(x)
  if t is SymNum:
    return x.e
  if t is SymBool:
    return T.b2i(x.e)
  if t is T.Poly:
    return x
  if t in (int, bool):
    return T.const(x)
  if t is float:
    if x != x or x in (math.inf, -math.inf):
      raise NonFinite('constant %r' % x)
    return T.const(Fraction(x))
  if isinstance(x, (_np.integer, _np.bool_)):
    return T.const(int(x))
  if isinstance(x, _np.floating):
    return to_poly(float(x))
  if t is SymArray and not x.shape:
    return num_of(x.fn(()))
  if t is _np.ndarray and x.ndim == 0:
    return to_poly(x.item())
  if t is Fraction:
    return T.const(x)
  import sympy
  if isinstance(x, sympy.Integer):
    return T.const(int(x))
  if isinstance(x, sympy.Float):
    return T.const(Fraction(float(x)))
  raise Unsupported('to_poly(%s)' % t)


def num_of(e):
  return T.b2i(e) if isinstance(e, T.BoolE) else e


def to_bool(x):
  t = type(x)
  if t is SymBool:
    return x.e
  if t is SymNum:
    return T.bnot(T.eq0(x.e))
  if t is T.BoolE:
    return x
  if t in (bool, int, float) or isinstance(x, (_np.bool_, _np.number)):
    return T.bconst(bool(x))
  if t is SymArray and not x.shape:
    return bool_of(x.fn(()))
  raise Unsupported('to_bool(%s)' % t)


def bool_of(e):
  return e if isinstance(e, T.BoolE) else T.bnot(T.eq0(e))


def kind_of(x):
  """'f','i','b' of a scalar"""
  t = type(x)
  if t is SymNum:
    return x.t
  if t is SymBool or t is bool or isinstance(x, _np.bool_):
    return 'b'
  if t is int or isinstance(x, _np.integer):
    return 'i'
  return 'f'


def is_np_scalar(x):
  return isinstance(x, _np.generic) or (type(x) in (SymNum, SymBool) and x.np)


def wrap(e, t, np=True):
  """Poly/BoolE -> concrete scalar when constant, else symbolic scalar"""
  if isinstance(e, T.BoolE):
    if t == 'b':
      if e.is_const:
        return _np.bool_(e.const) if np else e.const
      return SymBool(e, np)
    e = T.b2i(e)
  if t == 'b':
    return wrap(bool_of(e), 'b', np)
  if e.is_const:
    if t == 'i':
      return _np.int64(int(e.const)) if np else int(e.const)
    c = e.const
    f = float(c)
    if Fraction(f) == c:
      return _np.float64(f) if np else f
    # not a binary64 value: keep it exact
  return SymNum(e, t, np)


class SymBool:
  __slots__ = ('e', 'np')
  __array_ufunc__ = None

  def __init__(self, e, np=True):
    self.e, self.np = e, np

  @property
  def __class__(self):
    return _np.bool_ if self.np else bool

  def __bool__(self):
    return cur().fork(self.e)

  def _bin(self, o, f):
    if type(o) in (SymArray, MaskedView):
      return NotImplemented
    try:
      return wrap(f(self.e, to_bool(o)), 'b', True)
    except Unsupported:
      return NotImplemented

  def __and__(self, o):
    return self._bin(o, T.band)
  __rand__ = __and__

  def __or__(self, o):
    return self._bin(o, T.bor)
  __ror__ = __or__

  def __xor__(self, o):
    return self._bin(o, lambda a, b: T.bnot(T.iff(a, b)))
  __rxor__ = __xor__

  def __invert__(self):
    return wrap(T.bnot(self.e), 'b', True)

  def _n(self):
    return SymNum(T.b2i(self.e), 'i', self.np)

  def __eq__(self, o):
    if type(o) in (bool, SymBool) or isinstance(o, _np.bool_):
      return wrap(T.iff(self.e, to_bool(o)), 'b', True)
    return self._n() == o

  def __ne__(self, o):
    r = self.__eq__(o)
    if r is NotImplemented:
      return r
    return ~r if type(r) is SymBool else (not r)

  def __hash__(self):
    return 0

  def __format__(self, spec):
    return '<b%d>' % self.e.id

  def __str__(self):
    return '<b%d>' % self.e.id
  __repr__ = __str__

  def all(self, *a, **k):
    return self

  def any(self, *a, **k):
    return self

  def astype(self, dt):
    from .symnp import dt_of
    return wrap(self.e, dt_of(dt))

  shape = ()
  ndim = 0
  size = 1
  dtype = _DT['b']

  def item(self):
    return SymBool(self.e, False)

  def __index__(self):
    return 1 if bool(self) else 0

  def __abs__(self):
    return self._n()


for _op in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
  def _mk(op):
    def f(self, o):
      return getattr(self._n(), '__%s__' % op)(o)

    def r(self, o):
      return getattr(self._n(), '__r%s__' % op)(o)
    return f, r
  _f, _r = _mk(_op)
  setattr(SymBool, '__%s__' % _op, _f)
  setattr(SymBool, '__r%s__' % _op, _r)
for _op in ('lt', 'le', 'gt', 'ge'):
  def _mk(op):
    def f(self, o):
      return getattr(self._n(), '__%s__' % op)(o)
    return f
  setattr(SymBool, '__%s__' % _op, _mk(_op))


def _numlike(x):
  t = type(x)
  return t in (SymNum, SymBool, int, float, bool) or isinstance(x, (_np.number, _np.bool_)) and not isinstance(x, _np.complexfloating)


def _sympy_bin(x, o, op, rev):
  import sympy
  import operator
  if not isinstance(o, sympy.Basic):
    return NotImplemented
  from . import symsympy
  f = getattr(operator, op)
  if isinstance(o, (symsympy.SymFloat, sympy.Float, sympy.Integer)):
    y = symsympy.value(o)
    return f(y, x) if rev else f(x, y)
  y = symsympy.const(x)
  return f(o, y) if rev else f(y, o)


def _isinf(x):
  return isinstance(x, (float, _np.floating)) and type(x) is not SymNum and \
      (x == math.inf or x == -math.inf)


def nonzero_divisor(p):
  """fork on p == 0; the zero side leaves the finite reals"""
  if p.is_const:
    if p.const == 0:
      return False
    return True
  return not cur().fork(T.eq0(p))


class SymNum:
  __slots__ = ('e', 't', 'np')
  __array_ufunc__ = None

  def __init__(self, e, t='f', np=False):
    self.e, self.t, self.np = e, t, np

  @property
  def __class__(self):
    if self.np:
      return _np.int64 if self.t == 'i' else _np.float64
    return int if self.t == 'i' else float

  # numpy scalar attributes
  @property
  def shape(self):
    if not self.np:
      raise AttributeError('shape')
    return ()

  @property
  def ndim(self):
    if not self.np:
      raise AttributeError('ndim')
    return 0

  @property
  def size(self):
    if not self.np:
      raise AttributeError('size')
    return 1

  @property
  def dtype(self):
    if not self.np:
      raise AttributeError('dtype')
    return _DT[self.t]

  def item(self):
    return SymNum(self.e, self.t, False)

  def tolist(self):
    return SymNum(self.e, self.t, False)

  def astype(self, dt):
    from .symnp import dt_of
    return cast_scalar(self, dt_of(dt))

  @property
  def real(self):
    return self

  @property
  def imag(self):
    return 0.

  def _bin(self, o, op):
    t = type(o)
    if t is SymComplex or (isinstance(o, complex) and not is_sym(o)):
      return NotImplemented if t is SymComplex else SymComplex(self.e, T.ZERO)._bin(o, op)
    if t is _np.ndarray:
      if o.ndim == 0:
        o = o.item()
      else:
        return getattr(to_array(o), '__r%s__' % op)(self)
    if t in (SymArray, MaskedView):
      return NotImplemented
    if not _numlike(o):
      return _sympy_bin(self, o, op, False)
    if _isinf(o):
      raise NonFinite('arithmetic with inf')
    return arith(self, o, op)

  def _rbin(self, o, op):
    t = type(o)
    if isinstance(o, complex) and not is_sym(o):
      return SymComplex(self.e, T.ZERO)._rbin(o, op)
    if t is _np.ndarray:
      if o.ndim == 0:
        o = o.item()
      else:
        return getattr(to_array(o), '__%s__' % op)(self)
    if t in (list, tuple, str):
      if op == 'mul':
        return o * self.__index__()
      return NotImplemented
    if not _numlike(o):
      return _sympy_bin(self, o, op, True)
    if _isinf(o):
      raise NonFinite('arithmetic with inf')
    return arith(o, self, op)

  def __neg__(self):
    return wrap(T.neg(self.e), self.t, self.np)

  def __pos__(self):
    return self

  def __abs__(self):
    return wrap(T.ite(T.le(T.ZERO, self.e), self.e, T.neg(self.e)), self.t, self.np)

  def _cmp(self, o, op):
    t = type(o)
    if t in (SymArray, MaskedView):
      return NotImplemented
    if t is _np.ndarray:
      if o.ndim == 0:
        o = o.item()
      else:
        rev = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[op]
        return getattr(to_array(o), '__%s__' % rev)(self)
    if t is SymComplex or (isinstance(o, complex) and not is_sym(o)):
      return NotImplemented if op not in ('eq', 'ne') else \
          getattr(SymComplex(self.e, T.ZERO), '__%s__' % op)(o)
    import sympy
    if isinstance(o, sympy.Basic):
      if o == sympy.oo:
        o = math.inf
      elif o == -sympy.oo:
        o = -math.inf
      elif isinstance(o, (sympy.Integer, sympy.Float)):
        o = float(o)
      else:
        return NotImplemented
    if not _numlike(o):
      if op == 'eq':
        return False
      if op == 'ne':
        return True
      return NotImplemented
    if isinstance(o, (float, _np.floating)) and not is_sym(o):
      if o != o:
        return op == 'ne'
      if o == math.inf:
        return op in ('lt', 'le', 'ne')
      if o == -math.inf:
        return op in ('gt', 'ge', 'ne')
    return wrap(compare(self.e, to_poly(o), op), 'b', self.np or is_np_scalar(o))

  def __hash__(self):
    return 7

  def __bool__(self):
    return cur().fork(T.bnot(T.eq0(self.e)))

  def __index__(self):
    """the engine's concretisation of a symbolic int (bounded)"""
    if self.t != 'i':
      raise TypeError("'float' object cannot be interpreted as an integer")
    return concretise(self.e)

  def __float__(self):
    raise Unsupported('float() of a symbolic value in native code')

  def __int__(self):
    raise Unsupported('int() of a symbolic value in native code')

  def __complex__(self):
    raise Unsupported('complex() of a symbolic value in native code')

  def __trunc__(self):
    return SymNum(T.trunc(self.e), 'i')

  def __floor__(self):
    return wrap(T.floor(self.e), 'i', False)

  def __ceil__(self):
    return wrap(T.neg(T.floor(T.neg(self.e))), 'i', False)

  def __round__(self, nd=None):
    raise Unsupported('round')

  def __format__(self, spec):
    return '<v%d>' % self.e.id

  def __str__(self):
    return '<v%d>' % self.e.id
  __repr__ = __str__

  # numpy-scalar style reductions
  def sum(self, *a, **k):
    return self
  max = min = mean = sum

  def is_integer(self):
    return wrap(T.eq(self.e, T.floor(self.e)), 'b', False)

  def reshape(self, *shape):
    return to_array(self).reshape(*shape)

  def ravel(self):
    return to_array(self).reshape(-1)

  def copy(self):
    return self


for _op in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
  def _mk(op):
    def f(self, o):
      return self._bin(o, op)

    def r(self, o):
      return self._rbin(o, op)
    return f, r
  _f, _r = _mk(_op)
  setattr(SymNum, '__%s__' % _op, _f)
  setattr(SymNum, '__r%s__' % _op, _r)
for _op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
  def _mk(op):
    def f(self, o):
      return self._cmp(o, op)
    return f
  setattr(SymNum, '__%s__' % _op, _mk(_op))


def concretise(p, limit=None):
  """fork on the value of an integer term; bounded"""
  if p.is_const:
    return int(p.const)
  c = cur()
  limit = UNROLL if limit is None else limit
  for v in range(0, limit + 1):
    if c.fork(T.eq(p, T.const(v))):
      return v
  if c.fork(T.eq(p, T.const(-1))):
    return -1
  raise BoundHit('value of a symbolic integer beyond %d' % limit)


def compare(a, b, op):
  if op == 'lt':
    return T.lt(a, b)
  if op == 'le':
    return T.le(a, b)
  if op == 'gt':
    return T.lt(b, a)
  if op == 'ge':
    return T.le(b, a)
  if op == 'eq':
    return T.eq(a, b)
  return T.bnot(T.eq(a, b))


def arith_e(a, b, ka, kb, op, check=None):
  """elementwise arithmetic on terms; returns (term, kind)"""
  k = 'f' if 'f' in (ka, kb) else 'i'
  if op == 'add':
    return T.add(a, b), k
  if op == 'sub':
    return T.sub(a, b), k
  if op == 'mul':
    return T.mul(a, b), k
  if op == 'truediv':
    return T.div(a, b), 'f'
  if op == 'floordiv':
    return T.floordiv(a, b), k
  if op == 'mod':
    return T.mod(a, b), k
  if op == 'pow':
    if b.is_const and b.const.denominator == 1 and abs(b.const) <= 16:
      return T.power(a, int(b.const)), k
    if b.is_const and b.const == Fraction(1, 2):
      return T.mk_sqrt(a), 'f'
    return T.mk_pow((a, b)), k
  raise Unsupported(op)


def arith(a, b, op):
  np = is_np_scalar(a) or is_np_scalar(b)
  pa, pb = to_poly(a), to_poly(b)
  if op in ('truediv', 'floordiv', 'mod'):
    if not nonzero_divisor(pb):
      if np:
        raise NonFinite('division by zero')
      raise ZeroDivisionError('float division by zero')
  if op == 'pow' and pb.is_const and pb.const < 0 and not nonzero_divisor(pa):
    raise NonFinite('0**negative')
  e, k = arith_e(pa, pb, kind_of(a), kind_of(b), op)
  return wrap(e, k, np)


def cast_scalar(x, dt, np=True):
  k = kind_of(x)
  if dt == 'b':
    return wrap(to_bool(x), 'b', np)
  p = to_poly(x)
  if dt == 'i' and k == 'f':
    return wrap(T.trunc(p), 'i', np)
  return wrap(p, dt, np)


class SymComplex:
  """python complex with symbolic real part (and usually constant imag part)"""
  __slots__ = ('re', 'im')
  __array_ufunc__ = None

  def __init__(self, re, im):
    self.re, self.im = re, im

  @property
  def __class__(self):
    return complex

  @property
  def real(self):
    return wrap(self.re, 'f', False)

  @property
  def imag(self):
    return wrap(self.im, 'f', False)

  @staticmethod
  def lift(o):
    if type(o) is SymComplex:
      return o
    if isinstance(o, complex):
      return SymComplex(to_poly(o.real), to_poly(o.imag))
    if _numlike(o):
      return SymComplex(to_poly(o), T.ZERO)
    return None

  def _bin(self, o, op):
    o = SymComplex.lift(o)
    if o is None:
      return NotImplemented
    if op == 'add':
      return SymComplex(T.add(self.re, o.re), T.add(self.im, o.im))
    if op == 'sub':
      return SymComplex(T.sub(self.re, o.re), T.sub(self.im, o.im))
    if op == 'mul':
      return SymComplex(T.sub(T.mul(self.re, o.re), T.mul(self.im, o.im)),
                        T.add(T.mul(self.re, o.im), T.mul(self.im, o.re)))
    raise Unsupported('complex ' + op)

  def _rbin(self, o, op):
    o = SymComplex.lift(o)
    if o is None:
      return NotImplemented
    return o._bin(self, op)

  def __neg__(self):
    return SymComplex(T.neg(self.re), T.neg(self.im))

  def __eq__(self, o):
    if type(o) in (str, list, tuple, dict, set, type(None)):
      return False
    if isinstance(o, _np.ndarray) and type(o) is _np.ndarray:
      if o.ndim != 1 or not o.size:
        raise Unsupported('complex == array')
      return stack_list([wrap(to_bool(self == x), 'b', False) for x in o.tolist()])
    o = SymComplex.lift(o)
    if o is None:
      return False
    return wrap(T.band(T.eq(self.re, o.re), T.eq(self.im, o.im)), 'b', False)

  def __ne__(self, o):
    r = self.__eq__(o)
    return wrap(T.bnot(to_bool(r)), 'b', False)

  def __hash__(self):
    return 11

  def __bool__(self):
    return cur().fork(T.bnot(T.band(T.eq0(self.re), T.eq0(self.im))))

  def __abs__(self):
    if self.im.is_const and self.im.const == 0:
      return abs(SymNum(self.re))
    raise Unsupported('abs of complex')

  def __format__(self, spec):
    return '<c>'

  def __str__(self):
    return '<c %s>' % self.re
  __repr__ = __str__


for _op in ('add', 'sub', 'mul', 'truediv', 'pow'):
  def _mk(op):
    def f(self, o):
      return self._bin(o, op)

    def r(self, o):
      return self._rbin(o, op)
    return f, r
  _f, _r = _mk(_op)
  setattr(SymComplex, '__%s__' % _op, _f)
  setattr(SymComplex, '__r%s__' % _op, _r)


# ---------------------------------------------------------------- arrays
def ext(n):
  """extent -> Poly"""
  if type(n) is SymNum:
    return n.e
  return T.const(int(n))


def unext(p):
  if p.is_const:
    return int(p.const)
  return SymNum(p, 'i', False)


def same(p, q):
  return p is q


def ext_eq(a, b):
  """fork on equality of two extents"""
  pa, pb = ext(a), ext(b)
  if pa is pb:
    return True
  return bool(cur().fork(T.eq(pa, pb)))


def is_one(n):
  return type(n) is not SymNum and int(n) == 1


def to_array(x):
  t = type(x)
  if t is SymArray:
    return x
  if t in (SymNum, SymBool):
    k = kind_of(x)
    e = x.e
    return SymArray((), lambda idx: e, k)
  if t in (int, float, bool) or isinstance(x, _np.generic):
    if isinstance(x, (_np.str_, _np.complexfloating)):
      raise Unsupported('array of %s' % t)
    k = kind_of(x)
    e = to_poly(x) if k != 'b' else T.bconst(bool(x))
    return SymArray((), lambda idx: e, k)
  if t is _np.ndarray:
    return from_numpy(x)
  if t in (list, tuple, range) or isinstance(x, tuple):
    return stack_list(list(x))
  if t is SymSeq:
    return x.arr
  raise Unsupported('to_array(%s)' % t)


def from_numpy(x):
  if x.dtype.kind == 'O':
    items = [to_array(v) for v in x.ravel().tolist()]
    kd = _join_kinds([i.dt for i in items])
    es = [i.fn(()) for i in items]
  elif x.dtype.kind in 'biuf':
    kd = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}[x.dtype.kind]
    flat = x.ravel().tolist()
    es = [T.bconst(v) if kd == 'b' else v for v in flat]
    es = [v if isinstance(v, T.BoolE) else to_poly(v) for v in es]
  else:
    raise Unsupported('array of dtype %s' % x.dtype)
  return _table(es, x.shape, kd)


def _join_kinds(ks):
  if 'f' in ks:
    return 'f'
  if 'i' in ks:
    return 'i'
  if not ks:
    return 'f'
  return 'b'


def conv(e, k_from, k_to):
  if k_from == k_to:
    return e
  if k_to == 'b':
    return bool_of(e)
  e = num_of(e)
  if k_to == 'i' and k_from == 'f':
    return T.trunc(e)
  return e


def _table(es, shape, kd):
  shape = tuple(int(s) for s in shape)
  strides = []
  acc = 1
  for s in reversed(shape):
    strides.append(acc)
    acc *= s
  strides = strides[::-1]

  def fn(idx):
    if all(i.is_const for i in idx):
      k = 0
      for i, st in zip(idx, strides):
        k += int(i.const) * st
      return es[k]
    # select by an ite chain on the first symbolic position
    def rec(pos, off):
      if pos == len(idx):
        return es[off]
      i = idx[pos]
      if i.is_const:
        return rec(pos + 1, off + int(i.const) * strides[pos])
      n = shape[pos]
      if n == 0:
        raise Unsupported('element of an empty array')
      r = rec(pos + 1, off + (n - 1) * strides[pos])
      for v in range(n - 2, -1, -1):
        c = T.eq(i, T.const(v))
        x = rec(pos + 1, off + v * strides[pos])
        r = T.bite(c, x, r) if isinstance(x, T.BoolE) else T.ite(c, x, r)
      return r
    return rec(0, 0)
  return SymArray(shape, fn, kd)


def stack_list(xs):
  if not xs:
    return _table([], (0,), 'f')
  arrs = [to_array(x) for x in xs]
  kd = _join_kinds([a.dt for a in arrs])
  sh = arrs[0].shape
  for a in arrs[1:]:
    if len(a.shape) != len(sh) or not all(ext_eq(p, q) for p, q in zip(a.shape, sh)):
      raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
  fns = [a.snap() for a in arrs]
  dts = [a.dt for a in arrs]
  n = len(arrs)

  def fn(idx):
    i, rest = idx[0], idx[1:]
    if i.is_const:
      k = int(i.const)
      return conv(fns[k](rest), dts[k], kd)
    r = conv(fns[n-1](rest), dts[n-1], kd)
    for v in range(n - 2, -1, -1):
      c = T.eq(i, T.const(v))
      x = conv(fns[v](rest), dts[v], kd)
      r = T.bite(c, x, r) if isinstance(x, T.BoolE) else T.ite(c, x, r)
    return r
  return SymArray((n,) + tuple(sh), fn, kd)


def broadcast_shapes(shs):
  nd = max(len(s) for s in shs)
  out = []
  for d in range(nd):
    curd = 1
    for s in shs:
      k = d - (nd - len(s))
      if k < 0:
        continue
      n = s[k]
      if is_one(n):
        continue
      if is_one(curd):
        curd = n
        continue
      if ext(n) is ext(curd):
        continue
      if type(n) is not SymNum and type(curd) is not SymNum:
        raise ValueError('operands could not be broadcast together')
      if ext_eq(n, curd):
        # prefer concrete
        if type(n) is not SymNum:
          curd = n
        continue
      if ext_eq(n, 1):
        continue
      if ext_eq(curd, 1):
        curd = n
        continue
      raise ValueError('operands could not be broadcast together')
    out.append(curd)
  return tuple(out)


def bcast_fn(arr, shape):
  """element function of arr broadcast to shape"""
  f = arr.snap()
  nd, k = len(shape), len(arr.shape)
  off = nd - k
  ones = []
  for d in range(k):
    n, m = arr.shape[d], shape[off + d]
    if is_one(n) and not is_one(m):
      ones.append(True)
    elif ext(n) is ext(m):
      ones.append(False)
    elif is_one(n):
      ones.append(True)
    elif cur().known(T.eq(ext(n), ext(m))):
      ones.append(False)
    elif cur().known(T.eq(ext(n), T.ONE)):
      ones.append(True)
    elif ext_eq(n, m):
      ones.append(False)
    else:
      ones.append(True)
  if off == 0 and not any(ones):
    return f
  return lambda idx: f(tuple(T.ZERO if ones[d] else idx[off + d] for d in range(k)))


def elementwise(fe, kd, *xs):
  """fe(*terms) -> term, over broadcast operands; kd result kind or function"""
  arrs = [to_array(x) for x in xs]
  shape = broadcast_shapes([a.shape for a in arrs])
  fns = [bcast_fn(a, shape) for a in arrs]
  k = kd(*[a.dt for a in arrs]) if callable(kd) else kd
  return SymArray(shape, lambda idx: fe(*[f(idx) for f in fns]), k)


def maybe_scalar(a):
  """numpy returns scalars for 0-d results of ufuncs and reductions"""
  if type(a) is SymArray and not a.shape:
    return wrap(a.fn(()), a.dt, True)
  return a


def check_nonzero(arr, mask=None):
  """all elements of arr non-zero, else the path leaves the finite reals"""
  bs = [T.fresh_binder() for _ in arr.shape]
  ex = [ext(n) for n in arr.shape]
  z = T.eq0(num_of(arr.fn(tuple(T.atom(b) for b in bs))))
  if z is T.FALSE:
    return
  if mask is not None:
    z = T.band(z, mask.fn(tuple(T.atom(b) for b in bs)))
  allnz = T.mk_forall(bs, ex, T.bnot(z))
  if not cur().fork(allnz):
    raise NonFinite('division by an array containing zero')


class SymArray:
  """n-d array; element = function of index terms"""
  __slots__ = ('shape', '_fn', 'dt', 'base', 'memo', 'ver', '__weakref__', 'setter')
  __array_ufunc__ = None

  def __init__(self, shape, fn, dt, base=None, setter=None):
    self.shape = tuple(unext(ext(n)) for n in shape)
    self._fn = fn
    self.dt = dt
    self.base = base
    self.memo = {}
    self.ver = 0
    self.setter = setter

  @property
  def __class__(self):
    return _np.ndarray

  def fn(self, idx):
    if self.base is not None:
      return self._fn(idx)
    key = tuple(i.id for i in idx)
    r = self.memo.get(key)
    if r is None:
      r = self._fn(idx)
      self.memo[key] = r
    return r

  def snap(self):
    """element function frozen at this moment"""
    if self.base is not None:
      # views read through to the base: freeze the base function
      return self._freeze()
    f = self._fn
    memo = self.memo

    def g(idx):
      key = tuple(i.id for i in idx)
      r = memo.get(key)
      if r is None:
        r = f(idx)
        memo[key] = r
      return r
    return g

  def _freeze(self):
    base, fview = self.base
    bf = base.snap()
    return lambda idx: fview(bf, idx)

  def _set_fn(self, fn):
    if self.base is not None:
      raise Unsupported('write through a view')
    self._fn = fn
    self.memo = {}
    self.ver += 1

  def view(self, shape, fview):
    """fview(base_fn, idx) -> term"""
    return SymArray(shape, lambda idx: fview(self.fn, idx), self.dt,
                    base=(self, fview))

  @property
  def ndim(self):
    return len(self.shape)

  @property
  def size(self):
    p = T.ONE
    for n in self.shape:
      p = T.mul(p, ext(n))
    return unext(p)

  @property
  def dtype(self):
    return _DT[self.dt]

  @property
  def T(self):
    return self.transpose()

  @property
  def real(self):
    return self

  def __len__(self):
    raise Unsupported('native len() of a symbolic array') if type(self.shape[0]) is SymNum else None

  def __iter__(self):
    if not self.shape:
      raise TypeError('iteration over a 0-d array')
    n = self.shape[0]
    if type(n) is not SymNum:
      return iter([self[i] for i in range(n)])
    return self._symiter()

  def _symiter(self):
    k = concretise(ext(self.shape[0]))
    for i in range(k):
      yield self[i]

  def __bool__(self):
    sz = ext(self.size)
    if sz.is_const:
      if sz.const == 1:
        return bool(wrap(self.fn(tuple(T.ZERO for _ in self.shape)), 'b'))
      if sz.const == 0:
        return False
      raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
    if cur().fork(T.eq(sz, T.ONE)):
      return bool(wrap(self.fn(tuple(T.ZERO for _ in self.shape)), 'b'))
    if cur().fork(T.eq(sz, T.ZERO)):
      return False
    raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

  def __hash__(self):
    raise TypeError("unhashable type: 'numpy.ndarray'")

  def __float__(self):
    raise Unsupported('native float() of a symbolic array')

  def __index__(self):
    if not self.shape:
      return wrap(self.fn(()), self.dt).__index__()
    raise TypeError('only integer scalar arrays can be converted to a scalar index')

  def __repr__(self):
    return '<arr %s %s>' % (self.dt, self.shape)

  def __format__(self, spec):
    return repr(self)

  # ---------------------------------------------------------- elementwise
  def _bin(self, o, op, rev=False):
    if type(o) is MaskedView:
      return NotImplemented
    if isinstance(o, complex):
      raise Unsupported('complex array')
    if _isinf(o):
      raise NonFinite('arithmetic with inf')
    if type(o) in (list, tuple):
      o = stack_list(list(o))
    if not (type(o) in (SymArray, _np.ndarray) or _numlike(o)):
      return NotImplemented
    a, b = (o, self) if rev else (self, o)
    a, b = to_array(a), to_array(b)
    if op in ('truediv', 'floordiv', 'mod'):
      check_nonzero(b)
    if op == 'pow':
      pass
    k = arith_e(T.ONE, T.ONE, a.dt, b.dt, op)[1]
    return maybe_scalar(elementwise(
        lambda x, y: arith_e(num_of(x), num_of(y), a.dt, b.dt, op)[0], k, a, b))

  def _ibin(self, o, op):
    r = to_array(self._bin(o, op))
    if len(r.shape) != len(self.shape) or not all(ext_eq(p, q) for p, q in zip(r.shape, self.shape)):
      raise ValueError('non-broadcastable output operand')
    if self.dt == 'i' and r.dt == 'f':
      raise TypeError('Cannot cast ufunc output from float64 to int64')
    f, k, d = r.snap(), r.dt, self.dt
    self._set_fn(lambda idx: conv(f(idx), k, d))
    return self

  def _cmp(self, o, op):
    if type(o) is MaskedView:
      return NotImplemented
    if o is None or type(o) is str:
      return op == 'ne' if op in ('eq', 'ne') else NotImplemented
    if _isinf(o):
      v = {'lt': o > 0, 'le': o > 0, 'gt': o < 0, 'ge': o < 0, 'eq': False, 'ne': True}[op]
      e = T.bconst(v)
      return SymArray(self.shape, lambda idx: e, 'b')
    if type(o) is _np.ndarray and o.dtype.kind == 'f' and not _np.all(_np.isfinite(o)):
      raise NonFinite('comparison with non-finite array')
    if type(o) in (list, tuple):
      o = stack_list(list(o))
    if not (type(o) in (SymArray, _np.ndarray) or _numlike(o)):
      return NotImplemented
    b = to_array(o)
    if op in ('eq', 'ne') and self.dt == 'b' and b.dt == 'b':
      return maybe_scalar(elementwise(
          lambda x, y: T.iff(x, y) if op == 'eq' else T.bnot(T.iff(x, y)), 'b', self, b))
    return maybe_scalar(elementwise(
        lambda x, y: compare(num_of(x), num_of(y), op), 'b', self, b))

  def _logic(self, o, f):
    if not (type(o) in (SymArray, _np.ndarray) or _numlike(o)):
      return NotImplemented
    b = to_array(o)
    if self.dt != 'b' or b.dt != 'b':
      raise Unsupported('bitwise on ints')
    return maybe_scalar(elementwise(f, 'b', self, b))

  def __and__(self, o):
    return self._logic(o, T.band)
  __rand__ = __and__

  def __or__(self, o):
    return self._logic(o, T.bor)
  __ror__ = __or__

  def __xor__(self, o):
    return self._logic(o, lambda a, b: T.bnot(T.iff(a, b)))
  __rxor__ = __xor__

  def __invert__(self):
    if self.dt != 'b':
      raise Unsupported('~ on ints')
    return maybe_scalar(elementwise(T.bnot, 'b', self))

  def __neg__(self):
    return maybe_scalar(elementwise(lambda x: T.neg(num_of(x)), self.dt, self))

  def __pos__(self):
    return self.copy()

  def __abs__(self):
    return maybe_scalar(elementwise(
        lambda x: T.ite(T.le(T.ZERO, x), x, T.neg(x)), self.dt, self))

  # ---------------------------------------------------------- structure
  def copy(self, order=None):
    f = self.snap()
    return SymArray(self.shape, f, self.dt)

  def astype(self, dt, copy=True):
    from .symnp import dt_of
    d = dt_of(dt)
    f, k = self.snap(), self.dt
    return SymArray(self.shape, lambda idx: conv(f(idx), k, d), d)

  def flatten(self):
    return self.reshape(-1).copy()

  def ravel(self, order='C'):
    return self.reshape(-1)

  def tolist(self):
    if not self.shape:
      return wrap(self.fn(()), self.dt, False)
    return [x.tolist() if hasattr(x, 'tolist') else x for x in self]

  def item(self, *a):
    if a:
      return self[a if len(a) > 1 else a[0]]
    if not cur().fork(T.eq(ext(self.size), T.ONE)):
      raise ValueError('can only convert an array of size 1 to a Python scalar')
    return wrap(self.fn(tuple(T.ZERO for _ in self.shape)), self.dt, False)

  def transpose(self, *axes):
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
      axes = tuple(axes[0])
    n = self.ndim
    axes = tuple(range(n))[::-1] if not axes or axes[0] is None else tuple(int(a) % n for a in axes)
    shape = tuple(self.shape[a] for a in axes)
    invp = [0] * n
    for i, a in enumerate(axes):
      invp[a] = i
    return self.view(shape, lambda f, idx: f(tuple(idx[invp[k]] for k in range(n))))

  def swapaxes(self, a, b):
    n = self.ndim
    ax = list(range(n))
    ax[a], ax[b] = ax[b], ax[a]
    return self.transpose(ax)

  def squeeze(self, axis=None):
    if axis is None:
      keep = [i for i, s in enumerate(self.shape) if not ext_eq(s, 1)]
    else:
      axs = axis if isinstance(axis, tuple) else (axis,)
      axs = [int(a) % self.ndim for a in axs]
      for a in axs:
        if not ext_eq(self.shape[a], 1):
          raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
      keep = [i for i in range(self.ndim) if i not in axs]
    n = self.ndim
    pos = {k: i for i, k in enumerate(keep)}
    return self.view(tuple(self.shape[k] for k in keep),
                     lambda f, idx: f(tuple(idx[pos[k]] if k in pos else T.ZERO for k in range(n))))

  def reshape(self, *shape, order='C'):
    if len(shape) == 1 and not _numlike(shape[0]):
      shape = shape[0]
      if type(shape) is SymArray or type(shape) is _np.ndarray:
        shape = list(shape)
    shape = [s if type(s) is SymNum else int(s) for s in shape]
    tot = T.ONE
    for n in self.shape:
      tot = T.mul(tot, ext(n))
    if any(type(s) is not SymNum and s == -1 for s in shape):
      k = [i for i, s in enumerate(shape) if type(s) is not SymNum and s == -1]
      if len(k) > 1:
        raise ValueError('can only specify one unknown dimension')
      rest = T.ONE
      for i, s in enumerate(shape):
        if i != k[0]:
          rest = T.mul(rest, ext(s))
      if rest is T.ONE:
        q = tot
      elif rest is tot:
        q = T.ONE
      else:
        if rest.is_const and rest.const == 0:
          raise ValueError('cannot reshape')
        if len(rest.terms) == 1:
          q = T.div(tot, rest)
          if not q.is_int:
            q = T.floordiv(tot, rest)
            if not cur().fork(T.eq(T.mul(q, rest), tot)):
              raise ValueError('cannot reshape array')
        else:
          q = T.floordiv(tot, rest)
          if not cur().fork(T.eq(T.mul(q, rest), tot)):
            raise ValueError('cannot reshape array')
      shape[k[0]] = unext(q)
    ntot = T.ONE
    for s in shape:
      ntot = T.mul(ntot, ext(s))
    if ntot is not tot and not cur().fork(T.eq(ntot, tot)):
      raise ValueError('cannot reshape array of size into shape')
    c = cur()

    def eq1(s):
      return is_one(s) or c.known(T.eq(ext(s), T.ONE)) is True
    onz = [i for i, s in enumerate(self.shape) if not eq1(s)]
    nnz = [i for i, s in enumerate(shape) if not eq1(s)]

    def matches():
      return len(onz) == len(nnz) and all(
          ext(self.shape[i]) is ext(shape[j]) or
          c.known(T.eq(ext(self.shape[i]), ext(shape[j]))) for i, j in zip(onz, nnz))
    if not matches():
      # resolve by entailment: drop extents equal to one, compare the others
      onz = [i for i in onz if type(self.shape[i]) is not SymNum or
             not c.entails(T.eq(ext(self.shape[i]), T.ONE))]
      nnz = [i for i in nnz if type(shape[i]) is not SymNum or
             not c.entails(T.eq(ext(shape[i]), T.ONE))]
      ok = len(onz) == len(nnz) and all(
          ext(self.shape[i]) is ext(shape[j]) or
          c.entails(T.eq(ext(self.shape[i]), ext(shape[j]))) for i, j in zip(onz, nnz))
    else:
      ok = True
    nd = self.ndim
    if ok:
      mp = dict(zip(onz, nnz))
      return self.view(tuple(shape), lambda f, idx: f(tuple(
          idx[mp[k]] if k in mp else T.ZERO for k in range(nd))))
    # general row-major
    old = [ext(n) for n in self.shape]
    new = [ext(n) for n in shape]

    def fview(f, idx):
      flat = T.ZERO
      for i, n in zip(idx, new):
        flat = T.add(T.mul(flat, n), i)
      out = []
      rem = flat
      for k in range(nd - 1, 0, -1):
        out.append(T.mod(rem, old[k]))
        rem = T.floordiv(rem, old[k])
      out.append(rem)
      return f(tuple(out[::-1]))
    if nd == 0:
      return self.view(tuple(shape), lambda f, idx: f(()))
    return self.view(tuple(shape), fview)

  # ---------------------------------------------------------- indexing
  def _norm_index(self, i, n):
    """integer index -> Poly in range (forks to IndexError)"""
    p = to_poly(i)
    c = cur()
    e = ext(n)
    if p.is_const and e.is_const:
      v, m = int(p.const), int(e.const)
      if v < -m or v >= m:
        raise IndexError('index %d is out of bounds for axis with size %d' % (v, m))
      return T.const(v + m if v < 0 else v)
    if p.is_const:
      v = int(p.const)
      if v < 0:
        if not c.fork(T.le(T.const(-v), e)):
          raise IndexError('index out of bounds')
        return T.add(e, p)
      if not c.fork(T.lt(p, e)):
        raise IndexError('index out of bounds')
      return p
    if c.fork(T.le(T.ZERO, p)):
      if not c.fork(T.lt(p, e)):
        raise IndexError('index out of bounds')
      return p
    q = T.add(p, e)
    if not c.fork(T.le(T.ZERO, q)):
      raise IndexError('index out of bounds')
    return q

  def _slice(self, s, n):
    """-> (start Poly, length, step)"""
    step = 1 if s.step is None else int(s.step)
    e = ext(n)
    c = cur()

    def clampi(v, dflt, lo, hi):
      if v is None:
        return dflt
      p = to_poly(v)
      if p.is_const and e.is_const:
        k, m = int(p.const), int(e.const)
        if k < 0:
          k += m
        return T.const(max(lo, min(k, m + hi)))
      if p.is_const and p.const == 0 and lo == 0:
        return T.ZERO
      if c.fork(T.lt(p, T.ZERO)):
        p = T.add(p, e)
        if c.fork(T.lt(p, T.const(lo))):
          return T.const(lo)
        return p
      top = T.add(e, T.const(hi))
      if p is top:
        return p
      if c.fork(T.le(p, top)):
        return p
      return top
    if step > 0:
      a = clampi(s.start, T.ZERO, 0, 0)
      b = clampi(s.stop, e, 0, 0)
      d = T.sub(b, a)
    else:
      a = clampi(s.start, T.sub(e, T.ONE), -1, -1)
      b = clampi(s.stop, T.const(-1), -1, -1) if s.stop is not None else T.const(-1)
      d = T.sub(a, b)
    st = abs(step)
    if st != 1:
      ln = T.floordiv(T.add(d, T.const(st - 1)), T.const(st))
    else:
      ln = d
    if ln.is_const:
      ln = T.const(max(0, int(ln.const)))
    elif c.fork(T.lt(ln, T.ZERO)):
      ln = T.ZERO
    return a, ln, step

  def _parse(self, key):
    if not isinstance(key, tuple) or type(key) is SymArray:
      key = (key,)
    key = list(key)
    nsp = sum(1 for k in key if k is not None and k is not Ellipsis)
    # boolean masks consume their ndim
    for k in key:
      if type(k) in (SymArray,) and k.dt == 'b' or \
         type(k) is _np.ndarray and k.dtype.kind == 'b':
        nsp += k.ndim - 1
    if Ellipsis in [k if k is Ellipsis else 0 for k in key]:
      i = [j for j, k in enumerate(key) if k is Ellipsis][0]
      key[i:i+1] = [slice(None)] * (self.ndim - nsp)
    else:
      key += [slice(None)] * (self.ndim - nsp)
    if nsp > self.ndim:
      raise IndexError('too many indices for array')
    return key

  def __getitem__(self, key):
    if type(key) is SymBool or type(key) is bool:
      raise Unsupported('boolean scalar index')
    if type(key) is MaskedView:
      raise Unsupported('compressed index')
    if type(key) is _np.ndarray and key.dtype.kind == 'b':
      key = to_array(key)
    if type(key) is SymArray and key.dt == 'b':
      if key.ndim == self.ndim:
        for p, q in zip(key.shape, self.shape):
          if not ext_eq(p, q):
            raise IndexError('boolean index did not match indexed array')
        return MaskedView(self.shape, self.snap(), self.dt, key.copy(), src=self)
      raise Unsupported('partial boolean mask')
    parts = self._parse(key)
    maps = []           # per source axis: function(idx)->Poly
    shape = []
    fancy = []
    out_pos = 0
    ax = 0
    plan = []           # per source axis descriptor
    for k in parts:
      if k is None:
        shape.append(1)
        continue
      n = self.shape[ax]
      if isinstance(k, slice):
        a, ln, step = self._slice(k, n)
        pos = len(shape)
        shape.append(unext(ln))
        plan.append(('s', pos, a, step))
      elif type(k) in (SymArray, _np.ndarray, list, SymSeq):
        arr = to_array(k)
        if arr.dt == 'b':
          if arr.ndim != 1:
            raise Unsupported('mask in index tuple')
          arr = nonzero1(arr)
        if arr.dt == 'f':
          raise IndexError('arrays used as indices must be of integer (or boolean) type')
        fancy.append(arr)
        plan.append(('f', len(fancy) - 1, n))
        if len(fancy) == 1:
          fpos = len(shape)
          shape.append('fancy')
      else:
        if kind_of(k) == 'f' or not (_numlike(k) or type(k) in (SymArray,)):
          if hasattr(k, '__index__') and not is_sym(k):
            k = k.__index__()
          else:
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
        plan.append(('i', self._norm_index(k, n)))
      ax += 1
    if fancy:
      fshape = broadcast_shapes([a.shape for a in fancy])
      ffns = [bcast_fn(a, fshape) for a in fancy]
      for (tag, *r) in plan:
        if tag == 'f':
          _check_index_array(fancy[r[0]], r[1])
      # contiguous fancy axes stay in place, separated ones move to the front
      tags = [p[0] for p in plan]
      first = tags.index('f')
      last = len(tags) - 1 - tags[::-1].index('f')
      if any(t == 's' for t in tags[first:last+1]) or 'i' in tags:
        if any(t in 's' for t in tags[first:last+1]):
          raise Unsupported('separated fancy indices')
        if 'i' in tags:
          fi = [j for j, t in enumerate(tags) if t in 'fi']
          if any(tags[j] == 's' for j in range(fi[0], fi[-1] + 1)):
            raise Unsupported('mixed integer and fancy indices')
      nf = len(fshape)
      shape = shape[:fpos] + list(fshape) + shape[fpos+1:]

      def fmap(idx):
        out = []
        fi = idx[fpos:fpos+nf]
        for (tag, *r) in plan:
          if tag == 's':
            pos = r[0] if r[0] < fpos else r[0] + nf - 1
            out.append(T.add(r[1], T.scale(idx[pos], r[2])))
          elif tag == 'i':
            out.append(r[0])
          else:
            v = ffns[r[0]](fi)
            n = ext(r[1])
            if v.is_const:
              v = v if v.const >= 0 else T.add(v, n)
            elif not _nonneg(v):
              v = T.ite(T.lt(v, T.ZERO), T.add(v, n), v)
            out.append(v)
        return tuple(out)
      f = self.snap()
      return SymArray(tuple(shape), lambda idx: f(fmap(idx)), self.dt)

    def imap(idx):
      out = []
      for (tag, *r) in plan:
        if tag == 's':
          out.append(T.add(r[1], T.scale(idx[r[0]], r[2])))
        else:
          out.append(r[0])
      return tuple(out)
    if not shape:
      return wrap(self.fn(imap(())), self.dt, True)
    return self.view(tuple(shape), lambda f, idx: f(imap(idx)))

  def __setitem__(self, key, val):
    if self.base is not None:
      raise Unsupported('write through a view')
    if type(key) is _np.ndarray and key.dtype.kind == 'b':
      key = to_array(key)
    d = self.dt
    if type(key) is SymArray and key.dt == 'b' and key.ndim == self.ndim:
      for p, q in zip(key.shape, self.shape):
        if not ext_eq(p, q):
          raise IndexError('boolean index did not match indexed array')
      mk = key.snap()
      old = self.snap()
      if type(val) is MaskedView:
        if not val.same_mask(key):
          raise Unsupported('assignment through a different mask')
        vf, vd = val.fn, val.dt
      else:
        v = to_array(val)
        if v.ndim:
          if v.ndim == 1 and is_one(v.shape[0]):
            v = v.reshape(())
          else:
            raise Unsupported('masked assignment of an array')
        vf0, vd = v.snap(), v.dt
        vf = lambda idx: vf0(())

      def fn(idx):
        c = mk(idx)
        if c is T.FALSE:
          return old(idx)
        x = conv(vf(idx), vd, d)
        return T.bite(c, x, old(idx)) if d == 'b' else T.ite(c, x, old(idx))
      self._set_fn(fn)
      return
    if _isinf(val) or (type(val) is float and val != val):
      raise NonFinite('storing inf/nan')
    parts = self._parse(key)
    plan = []
    shape = []
    ax = 0
    for k in parts:
      if k is None:
        raise Unsupported('newaxis in assignment')
      n = self.shape[ax]
      if isinstance(k, slice):
        a, ln, step = self._slice(k, n)
        if step != 1:
          raise Unsupported('strided assignment')
        plan.append(('s', a, ln, len(shape)))
        shape.append(unext(ln))
      elif type(k) in (SymArray, _np.ndarray, list):
        raise Unsupported('fancy assignment')
      else:
        plan.append(('i', self._norm_index(k, n)))
      ax += 1
    v = to_array(val)
    if type(val) is MaskedView:
      raise Unsupported('compressed assignment')
    bs = broadcast_shapes([tuple(shape), v.shape]) if shape else v.shape
    if len(bs) != len(shape):
      if not shape and all(is_one(s) for s in bs):
        v = v.reshape(())
      else:
        raise ValueError('could not broadcast input array')
    vf, vd = bcast_fn(v, tuple(shape)), v.dt
    old = self.snap()

    def fn(idx):
      conds, vidx = [], []
      for i, p in zip(idx, plan):
        if p[0] == 'i':
          conds.append(T.eq(i, p[1]))
        else:
          if not (p[1] is T.ZERO):
            conds.append(T.le(p[1], i))
          conds.append(T.lt(i, T.add(p[1], p[2])))
          vidx.append(T.sub(i, p[1]))
      c = T.band(*conds)
      if c is T.FALSE:
        return old(idx)
      x = conv(vf(tuple(vidx)), vd, d)
      if c is T.TRUE:
        return x
      return T.bite(c, x, old(idx)) if d == 'b' else T.ite(c, x, old(idx))
    self._set_fn(fn)

  # ---------------------------------------------------------- reductions
  def _axes(self, axis):
    n = self.ndim
    if axis is None:
      return tuple(range(n))
    if isinstance(axis, (tuple, list)):
      ax = []
      for a in axis:
        a = int(a)
        if a < -n or a >= n:
          raise _np.exceptions.AxisError(a, n)
        ax.append(a % n)
      if len(set(ax)) != len(ax):
        raise ValueError("duplicate value in 'axis'")
      return tuple(ax)
    a = int(axis)
    if a < -n or a >= n:
      raise _np.exceptions.AxisError(a, n)
    return (a % n,)

  def _reduce(self, axis, keepdims, build, dt):
    ax = self._axes(axis)
    n = self.ndim
    f = self.snap()
    exs = [ext(self.shape[a]) for a in ax]
    keep = [i for i in range(n) if i not in ax]
    if keepdims:
      shape = tuple(1 if i in ax else self.shape[i] for i in range(n))
    else:
      shape = tuple(self.shape[i] for i in keep)

    def fn(idx):
      bs = [T.fresh_binder() for _ in ax]
      full = [None] * n
      for b, a in zip(bs, ax):
        full[a] = T.atom(b)
      for j, i in enumerate(keep):
        full[i] = idx[i] if keepdims else idx[j]
      return build(bs, exs, f(tuple(full)))
    return maybe_scalar(SymArray(shape, fn, dt))

  def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if out is not None or kw:
      raise Unsupported('sum options')
    dt = 'i' if self.dt == 'b' else self.dt
    return self._reduce(axis, keepdims, lambda b, e, x: T.mk_sum(b, e, num_of(x)), dt)

  def prod(self, axis=None, dtype=None, out=None, keepdims=False):
    def build(bs, es, x):
      r = num_of(x)
      for b, e in zip(bs, es):
        r = T.mk_prod(b, e, r)
      return r
    return self._reduce(axis, keepdims, build, 'i' if self.dt == 'b' else self.dt)

  def mean(self, axis=None, dtype=None, out=None, keepdims=False):
    cnt = T.ONE
    for a in self._axes(axis):
      cnt = T.mul(cnt, ext(self.shape[a]))
    if not nonzero_divisor(cnt):
      raise NonFinite('mean of empty')
    return self._reduce(axis, keepdims,
                        lambda b, e, x: T.div(T.mk_sum(b, e, num_of(x)), cnt), 'f')

  def all(self, axis=None, keepdims=False, **kw):
    return self._reduce(axis, keepdims, lambda b, e, x: T.mk_forall(b, e, bool_of(x)), 'b')

  def any(self, axis=None, keepdims=False, **kw):
    return self._reduce(axis, keepdims, lambda b, e, x: T.mk_exists(b, e, bool_of(x)), 'b')

  def _extreme(self, axis, keepdims, which):
    ax = self._axes(axis)
    exs = [ext(self.shape[a]) for a in ax]
    for e in exs:
      if e.is_const:
        if e.const == 0:
          raise ValueError('zero-size array to reduction operation')
      elif not cur().fork(T.lt(T.ZERO, e)):
        raise ValueError('zero-size array to reduction operation')
    n = self.ndim
    f = self.snap()
    dt = self.dt
    keep = [i for i in range(n) if i not in ax]
    if all(e.is_const and e.const <= 16 for e in exs):
      import itertools

      def build(full):
        r = None
        for tup in itertools.product(*[range(int(e.const)) for e in exs]):
          g = list(full)
          for v, a in zip(tup, ax):
            g[a] = T.const(v)
          x = num_of(f(tuple(g)))
          r = x if r is None else (T.pmax(r, x) if which == 'max' else T.pmin(r, x))
        return r
    else:
      c = cur()
      name = c.fresh(which)
      wit = [c.fresh('arg' + which) for _ in ax]
      kexs = [ext(self.shape[i]) for i in keep]
      sort = T.INT if dt != 'f' else T.REAL

      def build(full):
        kidx = tuple(full[i] for i in keep)
        return T.app(name, kidx, sort) if kidx else T.var(name, sort)

      def facts(kidx):
        v = T.app(name, kidx, sort) if kidx else T.var(name, sort)
        ws = [T.app(w, kidx, T.INT) if kidx else T.var(w, T.INT) for w in wit]
        inr = T.band(*[T.band(T.le(T.ZERO, i), T.lt(i, e)) for i, e in zip(kidx, kexs)])
        full = [None] * n
        for i, k in zip(keep, kidx):
          full[i] = k
        g = list(full)
        for w, a in zip(ws, ax):
          g[a] = w
        wr = T.band(*[T.band(T.le(T.ZERO, w), T.lt(w, e)) for w, e in zip(ws, exs)])
        bs = [T.fresh_binder() for _ in ax]
        h = list(full)
        for b, a in zip(bs, ax):
          h[a] = T.atom(b)
        x = num_of(f(tuple(h)))
        allb = T.mk_forall(bs, exs, T.le(x, v) if which == 'max' else T.le(v, x))
        return [T.implies(inr, T.band(wr, T.eq(v, num_of(f(tuple(g)))), allb))]
      if keep:
        c.reg.app[name] = facts
        c.reg.arrays.add(name)
      else:
        for b in facts(()):
          c.assume(b)
    if keepdims:
      shape = tuple(1 if i in ax else self.shape[i] for i in range(n))
    else:
      shape = tuple(self.shape[i] for i in keep)

    def fn(idx):
      full = [None] * n
      for j, i in enumerate(keep):
        full[i] = idx[i] if keepdims else idx[j]
      return build(full)
    return maybe_scalar(SymArray(shape, fn, dt))

  def max(self, axis=None, out=None, keepdims=False):
    return self._extreme(axis, keepdims, 'max')

  def min(self, axis=None, out=None, keepdims=False):
    return self._extreme(axis, keepdims, 'min')

  def cumsum(self, axis=None):
    if axis is None:
      a = self.reshape(-1)
      axis = 0
    else:
      a = self
    axis = a._axes(axis)[0]
    f = a.snap()

    def fn(idx):
      b = T.fresh_binder()
      full = list(idx)
      full[axis] = T.atom(b)
      return T.mk_sum([b], [T.add(idx[axis], T.ONE)], num_of(f(tuple(full))))
    return SymArray(a.shape, fn, 'i' if a.dt == 'b' else a.dt)

  def nonzero(self):
    if self.ndim != 1:
      raise Unsupported('nonzero of n-d array')
    return (nonzero1(self),)

  def argsort(self, axis=-1, kind=None):
    return argsort(self)

  def fill(self, v):
    e = to_array(v).fn(())
    d = self.dt
    k = to_array(v).dt
    self._set_fn(lambda idx: conv(e, k, d))

  def dot(self, o):
    from . import symnp
    return symnp.dot(self, o)


for _op in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
  def _mk(op):
    def f(self, o):
      return self._bin(o, op)

    def r(self, o):
      return self._bin(o, op, True)

    def i(self, o):
      return self._ibin(o, op)
    return f, r, i
  _f, _r, _i = _mk(_op)
  setattr(SymArray, '__%s__' % _op, _f)
  setattr(SymArray, '__r%s__' % _op, _r)
  setattr(SymArray, '__i%s__' % _op, _i)
for _op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
  def _mk(op):
    def f(self, o):
      return self._cmp(o, op)
    return f
  setattr(SymArray, '__%s__' % _op, _mk(_op))


def _matmul(self, o):
  from . import symnp
  return symnp.dot(self, o)


SymArray.__matmul__ = _matmul
SymArray.__rmatmul__ = lambda self, o: _matmul(to_array(o), self)


def _nonneg(p):
  """syntactically non-negative integer term"""
  for m, c in p.terms.items():
    if c < 0:
      return False
    for aid, e in m:
      a = T._atoms[aid]
      if a.kind == 'var' and (a.name.startswith('$') or a.name.startswith('idx!')
                              or a.name.startswith('sk!')):
        continue
      if a.kind == 'app' and a.name.startswith(('nz!', 'perm!', 'iperm!')):
        continue
      return False
  return True


def _check_index_array(arr, n):
  bs = [T.fresh_binder() for _ in arr.shape]
  v = num_of(arr.fn(tuple(T.atom(b) for b in bs)))
  e = ext(n)
  ok = T.mk_forall(bs, [ext(s) for s in arr.shape],
                   T.band(T.le(T.neg(e), v), T.lt(v, e)))
  if not cur().fork(ok):
    raise IndexError('index out of bounds')


def nonzero1(mask):
  """np.nonzero(mask)[0] of a 1-d array (assumed contract of numpy)"""
  mask = to_array(mask)
  n = mask.shape[0]
  f = mask.snap()
  kb = mask.dt
  g = lambda i: bool_of(f((i,)))
  b = T.fresh_binder()
  body = T.b2i(g(T.atom(b)))
  cnt = T.mk_sum([b], [ext(n)], body)
  if type(n) is not SymNum and all(g(T.const(i)).is_const for i in range(n)):
    vals = [i for i in range(n) if g(T.const(i)).const]
    return _table([T.const(v) for v in vals], (len(vals),), 'i')
  c = cur()
  key = ('nz', body.id, ext(n).id, g(T.var('idx!nzkey', T.INT)).id)
  name = c.cache.get(key)
  if name is None:
    name = c.fresh('nz')
    rank = c.fresh('nzrank')
    c.cache[key] = name
    e = ext(n)

    def facts(args):
      j, = args
      v = T.app(name, (j,), T.INT)
      return [T.implies(T.band(T.le(T.ZERO, j), T.lt(j, cnt)),
                        T.band(T.le(T.ZERO, v), T.lt(v, e), g(v),
                               T.eq(T.app(rank, (v,), T.INT), j)))]

    def rfacts(args):
      i, = args
      r = T.app(rank, (i,), T.INT)
      return [T.implies(T.band(T.le(T.ZERO, i), T.lt(i, e), g(i)),
                        T.band(T.le(T.ZERO, r), T.lt(r, cnt),
                               T.eq(T.app(name, (r,), T.INT), i)))]
    c.reg.app[name] = facts
    c.reg.app[rank] = rfacts
    c.reg.arrays.add(name)
    # increasing
    p, q = T.fresh_binder(), T.fresh_binder()
    P, Q = T.atom(p), T.atom(q)
    c.assume(T.mk_forall([p, q], [cnt, cnt],
                         T.implies(T.lt(P, Q), T.lt(T.app(name, (P,), T.INT),
                                                    T.app(name, (Q,), T.INT)))))
    # the first entries by name (introduces the terms)
    for k in (0, 1):
      c.assume(T.implies(T.lt(T.const(k + 1), cnt), T.lt(T.app(name, (T.const(k),), T.INT),
                                                         T.app(name, (T.const(k + 1),), T.INT))))
    # completeness: every hit has a rank
    i = T.fresh_binder()
    I = T.atom(i)
    r = T.app(rank, (I,), T.INT)
    c.assume(T.mk_forall([i], [e], T.implies(g(I), T.band(
        T.le(T.ZERO, r), T.lt(r, cnt), T.eq(T.app(name, (r,), T.INT), I)))))
  return SymArray((unext(cnt),), lambda idx: T.app(name, idx, T.INT), 'i')


def argsort(arr):
  """np.argsort of a 1-d array: a permutation that sorts (assumed contract)"""
  arr = to_array(arr)
  if arr.ndim != 1:
    raise Unsupported('argsort n-d')
  n = ext(arr.shape[0])
  f = arr.snap()
  c = cur()
  ck = ('argsort', num_of(f((T.var('idx!sortkey', T.INT),))).id, n.id)
  if ck in c.cache:
    name = c.cache[ck][0]
    return SymArray(arr.shape, lambda idx: T.app(name, idx, T.INT), 'i')
  name, inv_ = c.fresh('perm'), c.fresh('iperm')
  c.cache[ck] = (name, inv_)

  def facts_of(a, b):
    def facts(args):
      j, = args
      v = T.app(a, (j,), T.INT)
      return [T.implies(T.band(T.le(T.ZERO, j), T.lt(j, n)),
                        T.band(T.le(T.ZERO, v), T.lt(v, n),
                               T.eq(T.app(b, (v,), T.INT), j)))]
    return facts
  c.reg.app[name] = facts_of(name, inv_)
  c.reg.app[inv_] = facts_of(inv_, name)
  c.reg.arrays.add(name)
  p, q = T.fresh_binder(), T.fresh_binder()
  P, Q = T.atom(p), T.atom(q)
  ap = lambda x: T.app(name, (x,), T.INT)
  c.assume(T.mk_forall([p, q], [n, n], T.implies(
      T.le(P, Q), T.le(num_of(f((ap(P),))), num_of(f((ap(Q),)))))))
  return SymArray(arr.shape, lambda idx: T.app(name, idx, T.INT), 'i')


class MaskedView:
  """arr[mask]: compressed array known only elementwise, together with its mask"""
  __slots__ = ('shape0', 'fn', 'dt', 'mask', 'src')
  __array_ufunc__ = None

  def __init__(self, shape0, fn, dt, mask, src=None):
    self.shape0, self.fn, self.dt, self.mask, self.src = shape0, fn, dt, mask, src

  @property
  def __class__(self):
    return _np.ndarray

  @property
  def dtype(self):
    return _DT[self.dt]

  @property
  def ndim(self):
    return 1

  @property
  def size(self):
    bs = [T.fresh_binder() for _ in self.shape0]
    return unext(T.mk_sum(bs, [ext(n) for n in self.shape0],
                          T.b2i(self.mask.fn(tuple(T.atom(b) for b in bs)))))

  @property
  def shape(self):
    return (self.size,)

  def same_mask(self, key):
    bs = [T.var('idx!mk%d' % i, T.INT) for i in range(len(self.shape0))]
    a, b = self.mask.fn(tuple(bs)), key.fn(tuple(bs))
    if a is b:
      return True
    bb = [T.fresh_binder() for _ in bs]
    f = T.mk_forall(bb, [ext(n) for n in self.shape0],
                    T.iff(self.mask.fn(tuple(map(T.atom, bb))), key.fn(tuple(map(T.atom, bb)))))
    return cur().entails(f)

  def map(self, g, dt):
    f = self.fn
    return MaskedView(self.shape0, lambda idx: g(f(idx)), dt, self.mask)

  def _bin(self, o, op, rev=False):
    if type(o) is MaskedView:
      if not self.same_mask(o.mask):
        raise Unsupported('different masks')
      f, g, kd2 = self.fn, o.fn, o.dt
    elif _numlike(o):
      e = to_poly(o)
      f, g, kd2 = self.fn, (lambda idx: e), kind_of(o)
    else:
      raise Unsupported('compressed array arithmetic')
    a, b, ka, kb = (g, f, kd2, self.dt) if rev else (f, g, self.dt, kd2)
    if op in ('truediv', 'floordiv', 'mod'):
      check_nonzero(SymArray(self.shape0, b, kb), self.mask)
    k = arith_e(T.ONE, T.ONE, ka, kb, op)[1]
    return MaskedView(self.shape0, lambda idx: arith_e(num_of(a(idx)), num_of(b(idx)), ka, kb, op)[0],
                      k, self.mask)

  def sum(self, axis=None):
    bs = [T.fresh_binder() for _ in self.shape0]
    ix = tuple(map(T.atom, bs))
    e = T.ite(self.mask.fn(ix), num_of(self.fn(ix)), T.ZERO)
    return wrap(T.mk_sum(bs, [ext(n) for n in self.shape0], e),
                'i' if self.dt == 'b' else self.dt)

  def copy(self):
    return self

  def ravel(self):
    return self


for _op in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
  def _mk(op):
    def f(self, o):
      return self._bin(o, op)

    def r(self, o):
      return self._bin(o, op, True)
    return f, r
  _f, _r = _mk(_op)
  setattr(MaskedView, '__%s__' % _op, _f)
  setattr(MaskedView, '__r%s__' % _op, _r)
MaskedView.__neg__ = lambda self: self.map(lambda x: T.neg(num_of(x)), self.dt)


class SymSeq:
  """a list of symbolic length backed by an array"""
  __slots__ = ('arr',)

  def __init__(self, arr):
    self.arr = arr

  @property
  def __class__(self):
    return list

  def __getitem__(self, k):
    r = self.arr[k]
    return SymSeq(r) if type(r) is SymArray else r

  def __iter__(self):
    return iter(self.arr)

  def __eq__(self, o):
    raise Unsupported('list ==')

  def __hash__(self):
    raise TypeError('unhashable')
