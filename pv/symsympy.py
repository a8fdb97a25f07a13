"""Sympy in symbolic runs.  Sympy is an external dependency: its expression
trees are built by sympy itself; numbers of the verifier enter them as opaque
constants, and evaluation (subs, lambdify, ufuncify, float) of a tree on
symbolic data is the structural evaluation below - the contract assumed of
sympy: evaluating an expression gives the value of the expression."""
import sympy
from sympy.utilities.autowrap import ufuncify
from .core import Unsupported
from .values import SymNum, SymBool, SymComplex, SymArray, wrap, cast_scalar

SYMT = (SymNum, SymBool, SymComplex, SymArray)


class SymConst(sympy.Dummy):
  """a symbolic number inside a sympy expression"""

  @property
  def free_symbols(self):
    return set()


def const(x):
  d = SymConst('pv')
  d._pv = x
  return d


class SymFloat(sympy.Float):
  """sympy.Float of a symbolic number"""

  def __new__(cls, x):
    o = sympy.Float.__new__(sympy.Float, '0.7310585786300049')
    obj = sympy.core.expr.Expr.__new__(cls)
    obj._mpf_, obj._prec = o._mpf_, o._prec
    obj._pv = x
    return obj

  def __hash__(self):
    return id(self)

  def __eq__(self, o):
    return self is o

  def __ne__(self, o):
    return self is not o

  def _bin(self, o, f):
    if isinstance(o, (int, float)) or type(o) in SYMT or isinstance(o, (sympy.Float, sympy.Integer)):
      return SymFloat(f(self._pv, value(o)))
    return f(const(self._pv), o)

  def __mul__(self, o):
    return self._bin(o, lambda a, b: a * b)

  def __rmul__(self, o):
    return self._bin(o, lambda a, b: b * a)

  def __add__(self, o):
    return self._bin(o, lambda a, b: a + b)

  def __radd__(self, o):
    return self._bin(o, lambda a, b: b + a)

  def __sub__(self, o):
    return self._bin(o, lambda a, b: a - b)

  def __truediv__(self, o):
    return self._bin(o, lambda a, b: a / b)

  def _eval_subs(self, *a):
    return self

  def subs(self, *a, **k):
    return self


def value(x):
  if isinstance(x, (SymFloat, SymConst)):
    return x._pv
  if isinstance(x, sympy.Integer):
    return int(x)
  if isinstance(x, sympy.Basic):
    return float(x)
  return x


def holds(e):
  """expression contains symbolic numbers"""
  return isinstance(e, sympy.Basic) and (isinstance(e, SymFloat) or bool(e.atoms(SymConst)))


def evaluate(e, env):
  from . import symnp
  np = symnp.np
  if isinstance(e, (SymConst, SymFloat)):
    return e._pv
  if isinstance(e, sympy.Symbol):
    if e.name in env:
      return env[e.name]
    raise Unsupported('sympy symbol %s without value' % e)
  if isinstance(e, sympy.Integer):
    return int(e)
  if isinstance(e, (sympy.Number, sympy.NumberSymbol)):
    return float(e)
  if isinstance(e, sympy.Piecewise) and e.args[-1].cond == True:  # noqa: E712
    r = evaluate(e.args[-1].expr, env)
    for a in reversed(e.args[:-1]):
      r = np.where(evaluate(a.cond, env), evaluate(a.expr, env), r)
    return r
  if e in (sympy.true, sympy.false):
    return bool(e)
  args = [evaluate(a, env) for a in e.args]
  if isinstance(e, sympy.Ge):
    return args[0] >= args[1]
  if isinstance(e, sympy.Gt):
    return args[0] > args[1]
  if isinstance(e, sympy.Le):
    return args[0] <= args[1]
  if isinstance(e, sympy.Lt):
    return args[0] < args[1]
  if isinstance(e, sympy.And):
    r = args[0]
    for a in args[1:]:
      r = np.logical_and(r, a)
    return r
  if isinstance(e, sympy.Add):
    r = args[0]
    for a in args[1:]:
      r = r + a
    return r
  if isinstance(e, sympy.Mul):
    r = args[0]
    for a in args[1:]:
      r = r * a
    return r
  if isinstance(e, sympy.Pow):
    b, p = args
    if isinstance(e.exp, sympy.Integer):
      k = int(e.exp)
      r = b
      for _ in range(abs(k) - 1):
        r = r * b
      return 1. if k == 0 else r if k > 0 else 1. / r
    if e.exp == sympy.Rational(1, 2):
      return np.sqrt(b)
    if e.exp == sympy.Rational(-1, 2):
      return 1. / np.sqrt(b)
    if e.base == sympy.E:
      return np.exp(p)
    if isinstance(e.exp, sympy.Rational):
      return np.exp(float(e.exp) * np.log(b))
    raise Unsupported('sympy power %s' % e)
  if isinstance(e, sympy.exp):
    return np.exp(args[0])
  if isinstance(e, sympy.log) and len(args) == 1:
    return np.log(args[0])
  if isinstance(e, sympy.Abs):
    return np.abs(args[0])
  raise Unsupported('sympy %s' % type(e).__name__)


def sym_lambdify(symbols, expr, *a, **k):
  try:
    names = [s.name for s in (symbols if isinstance(symbols, (tuple, list)) else [symbols])]
  except AttributeError:
    raise Unsupported('lambdify')

  def f(*vals):
    return evaluate(expr, dict(zip(names, vals)))
  return f


def sym_subs(expr, values):
  from .symnp import has_sym
  if not isinstance(values, dict):
    raise Unsupported('sympy subs')
  env = {getattr(k, 'name', k): v for k, v in values.items()}
  if all(s.name in env for s in expr.free_symbols):
    return evaluate(expr, env)
  return expr.subs({k: const(v) if has_sym(v) else v for k, v in values.items()})


def sym_float(x):
  return cast_scalar(evaluate(x, {}), 'f', False)


EXTERNAL = {id(sympy.Float): lambda x, *a, **k: SymFloat(cast_scalar(x, 'f', False)),
            id(sympy.lambdify): sym_lambdify, id(ufuncify): sym_lambdify}
ALWAYS = {id(sympy.lambdify), id(ufuncify)}


def _conv(real):
  def f(a):
    if type(a) in (SymNum, SymBool):
      return const(a)
    return real(a)
  return f


def register():
  import numpy
  import sys
  S = sys.modules['sympy.core.sympify']
  for t, r in ((float, sympy.Float), (int, sympy.Integer)):
    S._external_converter[t] = _conv(r)
  for t in (numpy.float64, numpy.int64):
    S._external_converter[t] = _conv(lambda a: sympy.Float(float(a)) if isinstance(a, float) else sympy.Integer(int(a)))


register()
