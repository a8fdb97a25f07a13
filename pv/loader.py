"""Loads the package under verification from source, twice:

* `real()`     - the unmodified package, imported by CPython from PV_REPO;
* `sym(mod)`   - the same source text, parsed on every run and mechanically
                 rewritten (see REWRITE below), imported as `_pvsym.<mod>`.

REWRITE, exhaustively:
 1. every call f(a, ..) (except super/locals/globals/vars/eval/exec) becomes
    _pv_call(f, a, ..), which is f(a, ..) unless f is one of the builtin or
    numpy scalar constructors float/int/bool/complex/len/range/type/round/min/
    max/abs/str/list/tuple/sum.. given a symbolic argument;
 2. `import numpy`, `import math`, `import scipy[.x]` bind the engine's shim of
    that module (which forwards concrete calls to the real one);
 3. `probayes` in import statements becomes `_pvsym`;
 4. a subscript load a[k] becomes _pv_item(a, k), which is a[k] unless a is a
    concrete numpy array and k symbolic;
 5. each function body starts with _pv_enter('<module>.<qualname>') (used to
    report which functions were executed symbolically).
Nothing else is changed or dropped: classes, properties, closures, loops,
exceptions and control flow are executed by CPython from the repository text.
"""
import ast
import importlib
import importlib.abc
import importlib.util
import math as _math
import os
import sys
import types
import numpy as _np

from . import terms as T
from .core import cur, Unsupported, NonFinite
from .values import (SymNum, SymBool, SymComplex, SymArray, MaskedView, SymSeq, is_sym,
                     to_poly, to_bool, wrap, kind_of, cast_scalar, concretise, ext, unext,
                     num_of)
from . import symnp, symsympy

REPO = os.environ.get('PV_REPO', '/repo')
PKG = '_pvsym'
ENTERED = {}
STUB_CALLS = {}


# ------------------------------------------------------------ builtins
def _float(x=0.):
  if type(x) is SymArray:
    if not cur().fork(T.eq(ext(x.size), T.ONE)):
      raise TypeError('only length-1 arrays can be converted to Python scalars')
    x = wrap(x.fn(tuple(T.ZERO for _ in x.shape)), x.dt)
  if type(x) is SymComplex:
    raise TypeError("float() argument must be a string or a real number, not 'complex'")
  return cast_scalar(x, 'f', False)


def _int(x=0, *a):
  if type(x) is SymArray:
    if not cur().fork(T.eq(ext(x.size), T.ONE)):
      raise TypeError('only length-1 arrays can be converted to Python scalars')
    x = wrap(x.fn(tuple(T.ZERO for _ in x.shape)), x.dt)
  return cast_scalar(x, 'i', False)


def _bool(x=False):
  if type(x) is SymArray:
    return x.__bool__()
  return wrap(to_bool(x), 'b', False)


def _complex(re=0., im=0.):
  if type(re) is SymComplex or isinstance(re, complex):
    if not (type(im) in (int, float) and im == 0):
      raise Unsupported('complex(complex, x)')
    return re
  return SymComplex(to_poly(re), to_poly(im))


def _len(x):
  if type(x) is SymArray:
    if not x.shape:
      raise TypeError('len() of unsized object')
    return x.shape[0]
  if type(x) is MaskedView:
    return x.size
  if type(x) is SymSeq:
    return x.arr.shape[0]
  return len(x)


def _type(*a):
  if len(a) == 1:
    return a[0].__class__
  return type(*a)


def _range(*a):
  if len(a) == 1:
    lo, hi, st = 0, a[0], 1
  elif len(a) == 2:
    lo, hi, st = a[0], a[1], 1
  else:
    lo, hi, st = a
  if type(st) is SymNum:
    st = st.__index__()
  c = cur()
  if c.loops and lo == 0 and st == 1 and type(hi) is SymNum:
    f = sys._getframe(1)
    while f is not None and not f.f_globals.get('__name__', '').startswith(PKG):
      f = f.f_back
    if f is not None and f.f_code.co_name in c.loops:
      return _invariant_loop(c, f, hi, *c.loops[f.f_code.co_name])
  return _symrange(lo, hi, st)


def _invariant_loop(c, frame, hi, var, addend):
  """for k in range(hi) under the invariant var[idx] = start[idx] + sum over
  i < k of addend(i, *idx): established on entry (the sum is empty), assumed at
  an arbitrary k, proved after the body for k + 1, and used for k = hi."""
  n = to_poly(hi)
  if not c.fork(T.lt(T.ZERO, n)):
    return
  arr = frame.f_locals.get(var)
  if type(arr) is not SymArray or arr.base is not None or arr.dt != 'f':
    raise Unsupported('loop invariant: no array %s' % var)
  start = arr.snap()

  def upto(m):
    def fn(idx):
      b = T.fresh_binder()
      return T.add(num_of(start(idx)), T.mk_sum([b], [m], to_poly(addend(wrap(T.atom(b), 'i', False), *[
          wrap(i, 'i', False) for i in idx]))))
    return fn
  k = T.var(c.fresh('loop'), T.INT)
  c.assume(T.band(T.le(T.ZERO, k), T.lt(k, n)))
  arr._set_fn(upto(k))
  kk = wrap(k, 'i', False)
  yield kk
  if frame.f_locals.get(var) is not arr:
    raise Unsupported('loop invariant: %s is rebound' % var)
  got = arr.snap()
  want = upto(k)
  idx = tuple(T.var(c.fresh('at'), T.INT) for _ in arr.shape)
  inr = T.band(*[T.band(T.le(T.ZERO, i), T.lt(i, ext(s))) for i, s in zip(idx, arr.shape)])
  goal = T.implies(inr, T.eq(num_of(got(idx)), T.add(
      num_of(want(idx)), to_poly(addend(kk, *[wrap(i, 'i', False) for i in idx])))))
  if not c.entails(goal):
    raise Unsupported('loop invariant of %s not preserved' % var)
  c.loop_done(var)
  arr._set_fn(upto(n))


def _symrange(lo, hi, st):
  from .core import UNROLL, BoundHit
  c = cur()
  p, h = to_poly(lo), to_poly(hi)
  k = 0
  while True:
    b = T.lt(p, h) if st > 0 else T.lt(h, p)
    if not c.fork(b):
      return
    if k >= UNROLL + 2 and not b.is_const:
      raise BoundHit('range beyond %d' % k)
    yield unext(p)
    p = T.add(p, T.const(st))
    k += 1


def _minmax(which):
  real = {'min': min, 'max': max}[which]

  def f(*a, **k):
    if k or not all(type(x) in (SymNum, SymBool, int, float, bool) or
                    isinstance(x, (_np.number, _np.bool_)) for x in a) or len(a) < 2:
      return real(*a, **k)
    if any(isinstance(x, (float, _np.floating)) and not is_sym(x) and not _math.isfinite(x) for x in a):
      return real(*a)
    r = a[0]
    for x in a[1:]:
      p, q = to_poly(r), to_poly(x)
      e = T.pmin(p, q) if which == 'min' else T.pmax(p, q)
      kd = 'f' if 'f' in (kind_of(r), kind_of(x)) else 'i'
      r = wrap(e, kd, False)
    return r
  return f


def _cast(d):
  return lambda x=0: cast_scalar(x, d, True) if type(x) is not SymArray else x.astype(d)


def _round(x, nd=None):
  raise Unsupported('round')


def _any(xs):
  for x in xs:
    if x:
      return True
  return False


CALLMAP = {id(float): _float, id(int): _int, id(bool): _bool, id(complex): _complex,
           id(len): _len, id(type): _type, id(range): _range,
           id(min): _minmax('min'), id(max): _minmax('max'), id(round): _round,
           id(_np.float64): _cast('f'), id(_np.float32): _cast('f'),
           id(_np.int64): _cast('i'), id(_np.int32): _cast('i'), id(_np.bool_): _cast('b')}
_SYMT = (SymNum, SymBool, SymComplex, SymArray, MaskedView, SymSeq)


def pv_call(f, *a, **k):
  g = CALLMAP.get(id(f))
  if g is not None:
    for x in a:
      if type(x) in _SYMT:
        return g(*a, **k)
      if f is float and symsympy.holds(x):
        return symsympy.sym_float(x)
    return f(*a, **k)
  if type(f).__name__ == 'rv_frozen' or getattr(f, '__module__', '') and \
      str(getattr(f, '__module__', '')).startswith(('scipy', 'sympy')):
    if id(f) in symsympy.ALWAYS:
      return EXTERNAL[id(f)](*a, **k)
    if any(symnp.has_sym(x) for x in a) or any(symnp.has_sym(x) for x in k.values()):
      if getattr(f, '__name__', '') == 'subs' and len(a) == 1 and not k:
        return symsympy.sym_subs(f.__self__, a[0])
      h = EXTERNAL.get(id(f))
      if h is not None:
        return h(*a, **k)
      if not isinstance(f, type):
        raise Unsupported('external call %s' % getattr(f, '__qualname__', f))
  if type(f) is _BOUND and type(f.__self__) is _np.ndarray and \
      (any(symnp.has_sym(x) for x in a) or any(symnp.has_sym(x) for x in k.values())):
    # a method of an array of numbers applied to symbolic arguments
    return getattr(symnp.to_array(f.__self__), f.__name__)(*a, **k)
  return f(*a, **k)


_BOUND = type(_np.zeros(1).dot)
EXTERNAL = dict(symsympy.EXTERNAL)


def pv_item(a, k):
  if isinstance(a, _np.ndarray) and type(a) is _np.ndarray and type(k) in _SYMT:
    return symnp.to_array(a)[k]
  return a[k]


def pv_enter(name):
  ENTERED[name] = ENTERED.get(name, 0) + 1


class SymMath:
  """math module"""

  def __getattr__(self, n):
    real = getattr(_math, n)
    if not callable(real):
      return real

    def f(*a):
      if any(is_sym(x) for x in a):
        m = {'log': 'log', 'exp': 'exp', 'sqrt': 'sqrt', 'fabs': 'abs', 'floor': 'floor',
             'ceil': 'ceil', 'isfinite': 'isfinite', 'isinf': 'isinf', 'isnan': 'isnan'}.get(n)
        if m is None:
          raise Unsupported('math.' + n)
        r = symnp.IMPL[m](*a)
        if n in ('floor', 'ceil'):
          return _int(r)
        return r
      return real(*a)
    return f


symmath = SymMath()
_NOCALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'}


class Rewriter(ast.NodeTransformer):
  def __init__(self, modname):
    self.modname = modname
    self.stack = []

  def visit_Call(self, node):
    self.generic_visit(node)
    if isinstance(node.func, ast.Name) and node.func.id in _NOCALL:
      return node
    new = ast.Call(func=ast.Name(id='_pv_call', ctx=ast.Load()),
                   args=[node.func] + node.args, keywords=node.keywords)
    return ast.copy_location(new, node)

  def visit_Subscript(self, node):
    self.generic_visit(node)
    if not isinstance(node.ctx, ast.Load) or isinstance(node.slice, (ast.Constant, ast.Slice)) or \
       any(isinstance(x, ast.Slice) for x in ast.walk(node.slice)):
      return node
    new = ast.Call(func=ast.Name(id='_pv_item', ctx=ast.Load()),
                   args=[node.value, node.slice], keywords=[])
    return ast.copy_location(new, node)

  def _func(self, node):
    self.stack.append(node.name)
    self.generic_visit(node)
    name = self.modname + '.' + '.'.join(self.stack)
    self.stack.pop()
    enter = ast.Expr(ast.Call(func=ast.Name(id='_pv_enter', ctx=ast.Load()),
                              args=[ast.Constant(name)], keywords=[]))
    ast.copy_location(enter, node.body[0])
    ast.fix_missing_locations(enter)
    i = 0
    if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
       and isinstance(node.body[0].value.value, str):
      i = 1
    node.body.insert(i, enter)
    # decorators must not be wrapped
    return node

  visit_FunctionDef = _func
  visit_AsyncFunctionDef = _func

  def visit_ClassDef(self, node):
    self.stack.append(node.name)
    self.generic_visit(node)
    self.stack.pop()
    return node

  def visit_Import(self, node):
    out = []
    for al in node.names:
      top = al.name.split('.')[0]
      if top == 'probayes':
        new = al.name.replace('probayes', PKG, 1)
        if al.asname:
          out.append(ast.Import([ast.alias(new, al.asname)]))
        else:
          out.append(ast.Import([ast.alias(new, None)]))
          out.append(_assign('probayes', "__import__('%s')" % PKG))
      elif top in ('numpy', 'math', 'scipy'):
        out.append(ast.Import([ast.alias(al.name, None)]) if '.' in al.name else ast.Pass())
        if al.asname:
          out.append(_assign(al.asname, '_pv_module(%r)' % al.name))
        else:
          out.append(_assign(top, '_pv_module(%r)' % top))
      else:
        out.append(ast.Import([al]))
    return [ast.fix_missing_locations(ast.copy_location(o, node)) for o in out]

  def visit_ImportFrom(self, node):
    mod = node.module or ''
    top = mod.split('.')[0]
    if top == 'probayes' and node.level == 0:
      node.module = mod.replace('probayes', PKG, 1)
      return node
    if top in ('numpy', 'math', 'scipy') and node.level == 0:
      out = []
      for al in node.names:
        out.append(_assign(al.asname or al.name, '_pv_module(%r).%s' % (mod, al.name)))
      return [ast.fix_missing_locations(ast.copy_location(o, node)) for o in out]
    return node


def _assign(name, src):
  return ast.parse('%s = %s' % (name, src)).body[0]


def pv_module(name):
  if name == 'math':
    return symmath
  top = name.split('.')[0]
  real = importlib.import_module(name)
  if top == 'numpy':
    m = symnp.np
    for p in name.split('.')[1:]:
      m = getattr(m, p)
    return m
  if top == 'scipy':
    return ScipyShim(real)
  return real


class ScipyShim:
  """scipy module: classes and values unchanged; calls on symbolic data are
  Unsupported"""

  def __init__(self, real):
    object.__setattr__(self, '_real', real)

  def __getattr__(self, n):
    v = getattr(self._real, n)
    if isinstance(v, types.ModuleType):
      return ScipyShim(v)
    return v


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
  def find_spec(self, fullname, path, target=None):
    if fullname != PKG and not fullname.startswith(PKG + '.'):
      return None
    rel = fullname[len(PKG):].lstrip('.').replace('.', '/')
    base = os.path.join(REPO, 'probayes', rel) if rel else os.path.join(REPO, 'probayes')
    if os.path.isdir(base):
      fn = os.path.join(base, '__init__.py')
      spec = importlib.util.spec_from_loader(fullname, self, origin=fn, is_package=True)
    else:
      fn = base + '.py'
      if not os.path.exists(fn):
        return None
      spec = importlib.util.spec_from_loader(fullname, self, origin=fn)
    spec.loader_state = fn
    return spec

  def create_module(self, spec):
    return None

  def exec_module(self, module):
    fn = module.__spec__.loader_state
    with open(fn) as f:
      src = f.read()
    tree = ast.parse(src, fn)
    name = module.__name__[len(PKG):].lstrip('.') or '__init__'
    tree = Rewriter(name).visit(tree)
    ast.fix_missing_locations(tree)
    module.__dict__['_pv_call'] = pv_call
    module.__dict__['_pv_item'] = pv_item
    module.__dict__['_pv_enter'] = pv_enter
    module.__dict__['_pv_module'] = pv_module
    module.__file__ = fn
    exec(compile(tree, fn, 'exec'), module.__dict__)


_installed = [False]


def install():
  if not _installed[0]:
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
    if REPO not in sys.path:
      sys.path.insert(0, REPO)
    _installed[0] = True


def sym(mod=''):
  install()
  return importlib.import_module(PKG + ('.' + mod if mod else ''))


def real(mod=''):
  install()
  return importlib.import_module('probayes' + ('.' + mod if mod else ''))
