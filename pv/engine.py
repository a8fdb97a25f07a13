"""Obligation harness: the same contract text runs in two modes.

SymCtx       symbolic execution of the rewritten source; every c.check is a
             proof obligation for all values of the declared inputs that
             satisfy the c.assume'd precondition, discharged per path.
ConcCtx      the unmodified package under CPython/numpy on concrete inputs,
             either taken from a solver model (replay) or generated.
"""
import contextlib
import json
import math
import os
import sys
import time
import traceback
from fractions import Fraction
import numpy as np

from . import terms as T
from . import solver as S
from . import core
from . import loader
from .core import Path, Unsupported, NonFinite, Infeasible, BoundHit, PVExit
from .values import (SymNum, SymBool, SymComplex, SymArray, MaskedView, wrap, to_poly, to_bool,
                     ext, unext, num_of, bool_of, to_array, is_sym)
from . import symnp

TINY = 2.2250738585072014e-308


class Discard(Exception):
  """generated input does not satisfy the precondition"""


class Failed(Exception):
  """a check failed concretely"""

  def __init__(self, name, detail=''):
    super().__init__('%s: %s' % (name, detail))
    self.name, self.detail = name, detail


OBS = {}           # property -> list of Obligation


class Obligation:
  def __init__(self, prop, name, fn, sizes, bounded, doc, tests, thorough, conc_only, weight):
    self.prop, self.name, self.fn = prop, name, fn
    self.sizes, self.bounded, self.doc = sizes, bounded, doc
    self.tests, self.thorough, self.conc_only = tests, thorough, conc_only
    self.weight = weight


def obligation(prop, name=None, sizes=(2, 3, 2, 1, 3), bounded=None, tests=20, thorough=False,
               conc_only=None, weight=1.0):
  """bounded: text describing a bound inherent in the contract's signature
  (rank, number of operands ..); conc_only: reason why only the concrete
  stand-in decides this one; thorough: only in the thorough tier"""
  def deco(fn):
    OBS.setdefault(prop, []).append(
        Obligation(prop, name or fn.__name__, fn, sizes, bounded, fn.__doc__ or '', tests,
                   thorough, conc_only, weight))
    return fn
  return deco


def instance(prop, fn, bounded=None, tests=20, thorough=False, conc_only=None, weight=1.0,
             sizes=(2, 3, 2, 1, 3), tag=None, **params):
  """registers fn(c, **params) as an obligation of its own"""
  name = fn.__name__ + '[' + (tag or ','.join('%s' % (v,) for v in params.values())) + ']'
  g = lambda c: fn(c, **params)
  OBS.setdefault(prop, []).append(
      Obligation(prop, name, g, sizes, bounded, fn.__doc__ or '', tests, thorough, conc_only, weight))


# ======================================================================
class SymCtx:
  symbolic = True

  def __init__(self, path, ob, layer='A'):
    self.path, self.ob, self.layer = path, ob, layer
    self.results = []
    self.nsize = 0
    self.stubs = []
    self.ident = {}
    self.ends, self.given = [], []

  def at_end(self, f):
    """f() states a frame condition: checked when the contract has run"""
    self.ends.append(f)

  def frame(self):
    """arrays given are not written to, and the frame conditions stated hold"""
    for name, a, f in self.given:
      if a.ver:
        now = a.snap()
        g = SymArray(a.shape, f, a.dt)
        was = g.snap()
        self.check('frame', self.forall(a.shape, lambda *i: wrap(
            T.eq(now(tuple(to_poly(k) for k in i)), was(tuple(to_poly(k) for k in i))) if a.dt != 'b' else
            T.iff(now(tuple(to_poly(k) for k in i)), was(tuple(to_poly(k) for k in i))), 'b', False)))
    for f in self.ends:
      f()

  # ------------------------------------------------------------ modules
  def mod(self, name=''):
    return loader.sym(name)

  def stub(self, mod, name, fn):
    """replace a callee by its contract for the duration of the path (only if
    the module still has that name)"""
    m = loader.sym(mod)
    if name in m.__dict__:
      self.stubs.append((m, name, m.__dict__[name]))
      m.__dict__[name] = fn

  def unit_draw(self):
    """the only random number drawn so far, if uniform on [0, 1)"""
    p = self.path
    if len(p.rands) == 1 and len(p.draws) == 1:
      lo, hi, v = p.draws[0]
      z = [T.ZERO] * 4
      if T.eq(lo(z), T.ZERO) == T.TRUE and T.eq(hi(z), T.ONE) == T.TRUE:
        return v
    return None

  def draw(self, k=-1):
    """a uniform draw so far: (lower limit, upper limit, drawn)"""
    ds = self.path.draws
    if not ds or k >= len(ds):
      return None
    lo, hi, v = ds[k]
    z = [T.ZERO] * 4
    return wrap(lo(z), 'f', False), wrap(hi(z), 'f', False), v

  def ndraws(self):
    return len(self.path.draws)

  def idraws(self):
    """whole numbers drawn so far: (lower limit, limit excluded, drawn)"""
    z = [T.ZERO] * 4
    return [(wrap(lo(z), 'i', False), wrap(hi(z), 'i', False), v) for lo, hi, v in self.path.idraws]

  def nonzero_draws(self, gap=1e-100):
    """assume that uniform draws from now on are not zero (probability one)"""
    self.path.draw_gap = gap

  def unstub(self):
    for m, n, v in reversed(self.stubs):
      m.__dict__[n] = v
    self.stubs = []

  # ------------------------------------------------------------ inputs
  def _decl(self, name, desc):
    self.path.inputs.append((name, desc))

  def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, np_=False, gen=None):
    v = T.var(name, T.REAL)
    self._decl(name, ('real', v))
    self._bound(v, lo, hi, lo_open, hi_open)
    return SymNum(v, 'f', np_)

  def _bound(self, v, lo, hi, lo_open=False, hi_open=False):
    if lo is not None:
      l = to_poly(lo)
      self.path.assume(T.lt(l, v) if lo_open else T.le(l, v))
    if hi is not None:
      h = to_poly(hi)
      self.path.assume(T.lt(v, h) if hi_open else T.le(v, h))

  def int(self, name, lo=None, hi=None, gen=None):
    v = T.var(name, T.INT)
    self._decl(name, ('int', v))
    self._bound(v, lo, hi)
    return SymNum(v, 'i', False)

  def cplx(self, re, im):
    if is_sym(re) or is_sym(im):
      return SymComplex(to_poly(re), to_poly(im))
    return complex(re, im)

  def close(self, a, b, eps):
    d = T.sub(to_poly(a), to_poly(b))
    e = to_poly(eps)
    return wrap(T.band(T.le(d, e), T.le(T.neg(e), d)), 'b', False)

  def is_complex(self, x):
    return type(x) is SymComplex or isinstance(x, complex)

  def bool(self, name):
    v = T.bvar(name)
    self._decl(name, ('bool', v))
    return SymBool(v, False)

  def extent(self, name, lo=1, hi=None):
    if self.layer != 'A':
      k = self.ob.sizes[self.nsize % len(self.ob.sizes)]
      self.nsize += 1
      k = max(k, lo) if hi is None else min(max(k, lo), hi)
      self._decl(name, ('const', k))
      return k
    v = T.var(name, T.INT)
    self._decl(name, ('ext', v))
    self._bound(v, lo, hi)
    return SymNum(v, 'i', False)

  def array(self, name, shape, lo=None, hi=None, kind='f', lo_open=False, gen=None,
            where=None):
    """array input; where(elem, *idx) an elementwise constraint"""
    shape = tuple(shape)
    sort = {'f': T.REAL, 'i': T.INT}.get(kind)
    exs = [ext(n) for n in shape]
    self._decl(name, ('array', shape, kind, lo, hi, lo_open))
    if kind == 'b':
      self.path.reg.arrays.add(name)
      fb = lambda idx: T.bapp(name, idx)
      self.given.append((name, SymArray(shape, fb, 'b'), fb))
      return self.given[-1][1]

    def cb(args):
      v = T.app(name, args, sort)
      inr = T.band(*[T.band(T.le(T.ZERO, i), T.lt(i, e)) for i, e in zip(args, exs)])
      out = []
      if lo is not None:
        l = to_poly(lo)
        out.append(T.implies(inr, T.lt(l, v) if lo_open else T.le(l, v)))
      if hi is not None:
        out.append(T.implies(inr, T.le(v, to_poly(hi))))
      if where is not None:
        w = where(wrap(v, kind, False), *[unext(i) for i in args])
        out.append(T.implies(inr, to_bool(w)))
      return out
    self.path.reg.app[name] = cb
    self.path.reg.arrays.add(name)
    fa = lambda idx: T.app(name, idx, sort)
    self.given.append((name, SymArray(shape, fa, kind), fa))
    return self.given[-1][1]

  def choice(self, name, options):
    """enumerated exhaustively"""
    options = list(options)
    for i, o in enumerate(options[:-1]):
      b = T.bvar('%s=%d' % (name, i))
      if self.path.fork(b):
        self._decl(name, ('choice', i))
        return o
    self._decl(name, ('choice', len(options) - 1))
    return options[-1]

  def assume(self, cond):
    b = to_bool(cond)
    self.path.assume(b)
    if b.op == 'const':
      return
    if not self.path.feasible():
      raise Infeasible

  # ------------------------------------------------------------ spec terms
  def eq(self, a, b, tol=None):
    if type(a) is SymComplex or type(b) is SymComplex or isinstance(a, complex) or isinstance(b, complex):
      return SymComplex.lift(a) == SymComplex.lift(b)
    if type(a) is SymBool or type(b) is SymBool or isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
      return wrap(T.iff(to_bool(a), to_bool(b)), 'b', False)
    return wrap(T.eq(to_poly(a), to_poly(b)), 'b', False)

  def same(self, a, b):
    """equality, exact in concrete runs as well (for preconditions)"""
    return self.eq(a, b)

  def le(self, a, b, tol=None):
    return wrap(T.le(to_poly(a), to_poly(b)), 'b', False)

  def lt(self, a, b):
    return wrap(T.lt(to_poly(a), to_poly(b)), 'b', False)

  def all(self, *cs):
    return wrap(T.band(*[to_bool(c) for c in cs]), 'b', False)

  def any(self, *cs):
    return wrap(T.bor(*[to_bool(c) for c in cs]), 'b', False)

  def neg(self, c):
    return wrap(T.bnot(to_bool(c)), 'b', False)

  def iff(self, a, b):
    return wrap(T.iff(to_bool(a), to_bool(b)), 'b', False)

  def mod_(self, a, b):
    return wrap(T.mod(to_poly(a), to_poly(b)), 'i', False)

  def np(self):
    return symnp.np

  def stack(self, xs):
    from .values import stack_list
    return stack_list(list(xs))

  def implies(self, a, b):
    return wrap(T.implies(to_bool(a), to_bool(b)), 'b', False)

  def ite(self, c, a, b):
    return wrap(T.ite(to_bool(c), to_poly(a), to_poly(b)), 'f', False)

  def mul(self, a, b):
    return wrap(T.mul(to_poly(a), to_poly(b)), 'f', False)

  def div(self, a, b):
    """total division (x/0 unspecified): only under a guard"""
    b = to_poly(b)
    return wrap(T.div(to_poly(a), b) if b.terms else T.ZERO, 'f', False)

  def minimum(self, a, b):
    return wrap(T.pmin(to_poly(a), to_poly(b)), 'f', False)

  def maximum(self, a, b):
    return wrap(T.pmax(to_poly(a), to_poly(b)), 'f', False)

  def exp(self, x):
    return wrap(T.mk_exp(to_poly(x)), 'f', False)

  def log(self, x):
    return wrap(T.mk_log(to_poly(x)), 'f', False)

  def forall(self, exts, f):
    exts = exts if isinstance(exts, (tuple, list)) else (exts,)
    bs = [T.fresh_binder() for _ in exts]
    body = f(*[wrap(T.atom(b), 'i', False) for b in bs])
    return wrap(T.mk_forall(bs, [ext(e) for e in exts], to_bool(body)), 'b', False)

  def exists(self, exts, f):
    return self.neg(self.forall(exts, lambda *i: self.neg(f(*i))))

  def sorter(self, arr):
    """witnesses for statements about a sorted copy of arr: index functions to
    the original and back; None where existence is decided by enumeration"""
    if self.layer != 'A':
      return None
    from .values import argsort
    a = to_array(arr)
    argsort(a)
    ck = ('argsort', num_of(a.snap()((T.var('idx!sortkey', T.INT),))).id, ext(a.shape[0]).id)
    name, inv_ = self.path.cache[ck]
    g = lambda nm: (lambda i: wrap(T.app(nm, (to_poly(i),), T.INT), 'i', False))
    return g(name), g(inv_)

  def sum(self, exts, f):
    exts = exts if isinstance(exts, (tuple, list)) else (exts,)
    bs = [T.fresh_binder() for _ in exts]
    body = f(*[wrap(T.atom(b), 'i', False) for b in bs])
    return wrap(T.mk_sum(bs, [ext(e) for e in exts], to_poly(body)), 'f', False)

  def prod(self, exts, f):
    exts = exts if isinstance(exts, (tuple, list)) else (exts,)
    bs = [T.fresh_binder() for _ in exts]
    r = to_poly(f(*[wrap(T.atom(b), 'i', False) for b in bs]))
    for b, e in zip(bs, exts):
      r = T.mk_prod(b, ext(e), r)
    return wrap(r, 'f', False)

  def at(self, arr, *idx):
    """element of an array (indices assumed in range) or of a scalar"""
    if type(arr) is SymArray:
      assert len(idx) == len(arr.shape), (idx, arr.shape)
      return wrap(arr.fn(tuple(to_poly(i) for i in idx)), arr.dt, False)
    if type(arr) is np.ndarray and arr.ndim:
      return self.at(to_array(arr), *idx)
    if not idx:
      return arr
    raise Failed('shape', 'expected array, got %r' % (arr,))

  def shape(self, x):
    if type(x) is SymArray or isinstance(x, np.ndarray):
      return tuple(x.shape)
    return ()

  def is_scalar(self, x):
    return type(x) in (SymNum, SymBool, SymComplex) or np.isscalar(x)

  def is_array(self, x):
    return type(x) is SymArray or type(x) is np.ndarray

  def copy(self, x):
    if type(x) is SymArray:
      return x.copy()
    return np.array(x) if isinstance(x, np.ndarray) else x

  def loop(self, func, var, addend):
    """invariant of the loop over a range in func: after k iterations var[idx]
    is its value on entry plus the sum of addend(i, *idx) over i < k"""
    self.path.loops[func] = (var, addend)
    self.path.loop_done = lambda v: self.results.append(('invariant:' + v, 'proved', None, 'smt'))

  # ------------------------------------------------------------ checks
  def check(self, name, cond, tol=None):
    if isinstance(cond, (bool, np.bool_)) and not is_sym(cond):
      self._goal(name, T.bconst(bool(cond)), [])
      return
    self._split(name, to_bool(cond), [])

  def _split(self, name, g, hyps):
    if g.op == 'and':
      for x in g.args:
        self._split(name, x, hyps)
      return
    if g.op == 'forall':
      cv, ex, body = g.args
      names = [T.var(self.path.fresh('idx'), T.INT) for _ in cv]
      m = dict(zip(cv, names))
      h = [T.band(T.le(T.ZERO, v), T.lt(v, T.subst(e, m))) for v, e in zip(names, ex)]
      self._split(name, T.subst(body, m), hyps + h)
      return
    if g.op == 'or' and len(g.args) == 2:
      # implication with a conjunctive conclusion
      for k in (0, 1):
        a, b = g.args[k], g.args[1 - k]
        if b.op in ('and', 'forall') and a.op not in ('and', 'forall'):
          self._split(name, b, hyps + [T.bnot(a)])
          return
    self._goal(name, g, hyps)

  def _goal(self, name, g, hyps):
    if self.path.known(g) is True:
      self.results.append((name, 'proved', None, 'syntactic'))
      S.STATS['syntactic'] += 1
      return
    fs = self.path.pc + hyps + [T.bnot(g)]
    st, _, q = S.solve(self.path.reg, fs, rounds=1, timeout_ms=1000, second=False)
    if st != 'unsat':
      st, _, q = S.solve(self.path.reg, fs)
    if st == 'unsat':
      self.results.append((name, 'proved', None, 'smt'))
      if not hyps:
        self.path.assume(g)
      return
    cex = None
    if st == 'sat':
      cex = self._models(fs, g, q)
    if self.path.fork_failed_ok(name):
      pass
    self.results.append((name, 'refuted' if st == 'sat' else 'unknown', cex,
                         T.show(g)[:400]))
    if not hyps:
      # continue under the assumption that the check held, if possible
      if self.path.feasible(g):
        self.path.assume(g)
      else:
        raise Infeasible

  def _models(self, fs, g, q=None):
    """concrete candidate inputs for pc & not g"""
    return models_for(self.path, fs, g)

  def fail(self, name, detail=''):
    raise Failed(name, detail)

  @contextlib.contextmanager
  def raises(self, name, *excs):
    """the block must raise one of excs"""
    ok = False
    try:
      yield
    except PVExit:
      raise
    except excs:
      ok = True
    self.check(name, ok)

  def rejects(self, name, f, *excs):
    """f() must raise one of excs (any exception if none given)"""
    excs = excs or (Exception,)
    try:
      f()
    except PVExit:
      raise
    except excs:
      self.check(name, True)
      return
    self.check(name, False)

  def note(self, *a):
    pass


def _fork_failed_ok(self, name):
  return True


Path.fork_failed_ok = _fork_failed_ok


def models_for(path, fs, g=None):
  out = []
  ints, reals = [], []
  for name, d in path.inputs:
    if d[0] == 'ext':
      ints.append(T.le(d[1], T.const(3)))
    if d[0] == 'int':
      ints.append(T.band(T.le(T.const(-20), d[1]), T.le(d[1], T.const(20))))
    if d[0] == 'real':
      k = T.var('dy!' + name, T.INT)
      reals.append(T.eq(T.scale(d[1], Fraction(64)), k))
      reals.append(T.band(T.le(T.const(-1000), d[1]), T.le(d[1], T.const(1000))))
  gap = []
  if g is not None and g.op in ('<=', '<', '=='):
    p = g.args[0]
    q = Fraction(1, 4)
    gap = [T.le(T.const(q), p) if g.op != '==' else
           T.bor(T.le(T.const(q), p), T.le(p, T.const(-q)))]
  tried = set()
  for extra in (ints + reals + gap, ints + reals, ints + gap, ints, gap, []):
    key = tuple(sorted(x.id for x in extra))
    if key in tried:
      continue
    tried.add(key)
    st, m, q = S.solve(path.reg, fs + extra, want_model=True, timeout_ms=4000)
    if st == 'sat' and m is not None:
      v = extract(path, m)
      if v is not None:
        out.append(v)
      if len(out) >= 3:
        break
  return out


def tofloat(fr):
  try:
    return float(fr)
  except OverflowError:
    return math.inf if fr > 0 else -math.inf


def extract(path, model, cap=20000):
  vals = {}

  def shape_of(shape):
    out = []
    for n in shape:
      if type(n) is SymNum:
        v = model.num(n.e)
        out.append(int(v))
      else:
        out.append(int(n))
    return tuple(out)

  def arr(name, shape, kind, lo=None, hi=None, lo_open=False):
    sh = shape_of(shape)
    lo = lo if lo is None or not is_sym(lo) else tofloat(model.num(to_poly(lo)))
    hi = hi if hi is None or not is_sym(hi) else tofloat(model.num(to_poly(hi)))
    tot = 1
    for s in sh:
      tot *= max(s, 0)
    if tot > cap or any(s < 0 for s in sh):
      return None
    a = np.zeros(sh, dtype={'f': float, 'i': int, 'b': bool}[kind])
    for idx in np.ndindex(*sh):
      ix = tuple(T.const(i) for i in idx)
      if kind == 'b':
        a[idx] = model.bool(T.bapp(name, ix))
      else:
        v = model.num(T.app(name, ix, T.INT if kind == 'i' else T.REAL))
        if kind == 'i':
          if abs(int(v)) > 2**62:
            return None
          a[idx] = int(v)
        else:
          a[idx] = tofloat(v)
        # elements the query never mentioned are unconstrained in the model
        if lo is not None and (a[idx] < lo or lo_open and a[idx] <= lo):
          a[idx] = lo if not lo_open else (lo + hi) / 2 if hi is not None else lo + 1
        if hi is not None and a[idx] > hi:
          a[idx] = hi
    return a
  try:
    for name, d in path.inputs:
      if d[0] == 'real':
        vals[name] = tofloat(model.num(d[1]))
      elif d[0] in ('int', 'ext'):
        vals[name] = int(model.num(d[1]))
      elif d[0] == 'const':
        vals[name] = d[1]
      elif d[0] == 'bool':
        vals[name] = model.bool(d[1])
      elif d[0] == 'choice':
        vals[name] = d[1]
      elif d[0] == 'array':
        a = arr(name, *d[1:])
        if a is None:
          return None
        vals[name] = a
    rands = []
    for (name, what, shape, sort) in path.rands:
      if shape is None:
        v = model.num(T.var(name, sort))
        rands.append(int(v) if sort == T.INT else tofloat(v))
      else:
        a = arr(name, shape, 'i' if sort == T.INT else 'f')
        rands.append(a)
    vals['$rands'] = rands
  except Exception:
    return None
  return vals


# ======================================================================
class RandFeed:
  """numpy.random replacements: values of the model first, then a generator
  that mixes ordinary draws with the ends of the range"""

  def __init__(self, vals, rng):
    self.vals, self.rng = list(vals or []), rng
    self.log, self.draws, self.idraws = [], [], []

  def _next(self, shape):
    if self.vals:
      v = self.vals.pop(0)
      if v is None:
        return None
      if shape is None and np.ndim(v) == 0:
        return v
      if shape is not None and np.shape(v) == tuple(shape):
        return np.array(v)
    return None

  def _edge(self):
    return self.rng.random() < 0.25

  def uniform(self, low=0.0, high=1.0, size=None):
    sh = None if size is None else tuple(np.atleast_1d(size))
    if size is None and (np.ndim(low) or np.ndim(high)):
      sh = np.broadcast(np.asarray(low), np.asarray(high)).shape
    v = self._uniform(low, high, sh)
    self.draws.append((low, high, v))
    return v

  def _uniform(self, low, high, sh):
    v = self._next(sh)
    if v is not None:
      return v
    u = self.rng.random(sh) if sh is not None else self.rng.random()
    if self._edge():
      u = u * 0. if self.rng.random() < .5 else u * 0. + (1. - 2**-50)
    r = low + (high - low) * u
    r = np.where(r >= high, np.nextafter(np.asarray(high, float), np.asarray(low, float)), r)
    if sh is None:
      return float(r)
    return r

  def rand(self, *shape):
    return self.uniform(0., 1., shape if shape else None)

  def random(self, size=None):
    return self.uniform(0., 1., size)

  random_sample = random

  def randint(self, low, high=None, size=None, dtype=int):
    if high is None:
      low, high = 0, low
    r = self._randint(low, high, size)
    self.idraws.append((low, high, r))
    return r

  def _randint(self, low, high, size):
    sh = None if size is None else tuple(np.atleast_1d(size))
    v = self._next(sh)
    if v is not None:
      return v
    if low >= high:
      raise ValueError('low >= high')
    r = self.rng.integers(low, high, size=sh)
    if self._edge():
      r = r * 0 + (low if self.rng.random() < .5 else high - 1)
    return int(r) if sh is None else r

  def permutation(self, x):
    n = x if np.ndim(x) == 0 else len(x)
    v = self._next((n,)) if self.vals else None
    if v is not None and sorted(v.tolist()) == list(range(n)):
      return v if np.ndim(x) == 0 else np.asarray(x)[v]
    return self.rng.permutation(x)

  @contextlib.contextmanager
  def patched(self):
    names = ('uniform', 'randint', 'permutation', 'rand', 'random', 'random_sample')
    old = {n: getattr(np.random, n) for n in names}

    def logged(f):
      def g(*a, **k):
        r = f(*a, **k)
        self.log.append(r)
        return r
      return g
    try:
      for n in names:
        setattr(np.random, n, logged(getattr(self, n)))
      yield
    finally:
      for n, f in old.items():
        setattr(np.random, n, f)


class ConcCtx:
  symbolic = False

  def __init__(self, vals=None, rng=None, ob=None):
    self.vals = vals or {}
    self.rng = rng or np.random.default_rng(0)
    self.used = {}
    self.ob = ob
    self.nchecks = 0
    self.ends, self.given = [], []
    self.feed = RandFeed(self.vals.get('$rands'), self.rng)

  def mod(self, name=''):
    return loader.real(name)

  def at_end(self, f):
    self.ends.append(f)

  def frame(self):
    for name, a, was in self.given:
      self.check('frame', np.array_equal(a, was))
    for f in self.ends:
      f()

  def stub(self, *a):
    pass

  def ndraws(self):
    return len(self.feed.draws)

  def idraws(self):
    return list(self.feed.idraws)

  def nonzero_draws(self, gap=1e-100):
    pass

  def unit_draw(self):
    f = self.feed
    if len(f.log) == 1 and len(f.draws) == 1 and f.draws[0][:2] == (0, 1):
      return f.draws[0][2]
    return None

  def draw(self, k=-1):
    ds = self.feed.draws
    return None if not ds or k >= len(ds) else ds[k]

  def loop(self, *a):
    pass

  def _get(self, name, gen):
    if name in self.vals:
      v = self.vals[name]
    else:
      v = gen()
    self.used[name] = v
    return v

  def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, np_=False, gen=None):
    r = self.rng

    def default():
      l = -10. if lo is None else float(lo)
      h = max(10., l + 10.) if hi is None else float(hi)
      if lo is None and hi is not None:
        l = h - 20.
      u = r.random()
      if u < .12 and lo is not None and not lo_open:
        return l
      if u < .24 and hi is not None and not hi_open:
        return h
      if u < .5:
        v = float(np.round((l + (h - l) * r.random()) * 4) / 4)
        if l < v < h:
          return v
      return float(l + (h - l) * r.random())
    v = float(self._get(name, (lambda: gen(r)) if gen else default))
    if (lo is not None and (v < lo or lo_open and v <= lo)) or \
       (hi is not None and (v > hi or hi_open and v >= hi)):
      raise Discard
    return np.float64(v) if np_ else v

  def int(self, name, lo=None, hi=None, gen=None):
    r = self.rng
    l = -8 if lo is None else int(lo)
    h = max(l + 8, 8) if hi is None else int(hi)
    v = int(self._get(name, (lambda: gen(r)) if gen else (lambda: int(r.integers(l, h + 1)))))
    if (lo is not None and v < lo) or (hi is not None and v > hi):
      raise Discard
    return v

  def cplx(self, re, im):
    return complex(re, im)

  def close(self, a, b, eps):
    return self.eq(a, b) or abs(a - b) <= eps

  def is_complex(self, x):
    return isinstance(x, complex)

  def bool(self, name):
    return bool(self._get(name, lambda: bool(self.rng.integers(0, 2))))

  def extent(self, name, lo=1, hi=None):
    h = max(lo + 4, 5) if hi is None else hi
    v = int(self._get(name, lambda: int(self.rng.integers(lo, h + 1))))
    if v < lo or (hi is not None and v > hi):
      raise Discard
    return v

  def array(self, name, shape, lo=None, hi=None, kind='f', lo_open=False, gen=None,
            where=None):
    shape = tuple(int(s) for s in shape)
    r = self.rng

    def default():
      if kind == 'b':
        return r.integers(0, 2, size=shape).astype(bool)
      l = -5. if lo is None else float(lo)
      h = max(5., l + 5.) if hi is None else float(hi)
      if lo is None and hi is not None:
        l = h - 10.
      if kind == 'i':
        return r.integers(int(math.ceil(l)), int(math.floor(h)) + 1, size=shape)
      a = l + (h - l) * r.random(shape)
      if r.random() < .3 and not lo_open and lo is not None:
        a = np.where(r.random(shape) < .3, l, a)
      if r.random() < .3:
        a = np.where(r.random(shape) < .5, np.round(a * 4) / 4, a)
        a = np.clip(a, l, h)
      elif r.random() < .15 and h - l >= 2:
        a = np.clip(np.round(a), l, h)
      if lo_open:
        a = np.where(a <= l, l + 1e-3, a)
      return a
    a = self._get(name, (lambda: gen(r, shape)) if gen else default)
    a = np.array(a, dtype={'f': float, 'i': int, 'b': bool}[kind])
    if a.shape != shape:
      raise Discard
    if kind != 'b' and a.size:
      if lo is not None and (a.min() < lo or lo_open and a.min() <= lo):
        raise Discard
      if hi is not None and a.max() > hi:
        raise Discard
    if where is not None:
      for idx in np.ndindex(*shape):
        if not where(a[idx], *idx):
          raise Discard
    self.given.append((name, a, a.copy()))
    return a

  def choice(self, name, options):
    options = list(options)
    i = self._get(name, lambda: int(self.rng.integers(0, len(options))))
    return options[i]

  def assume(self, cond):
    if not cond:
      raise Discard

  def eq(self, a, b, tol=None):
    tol = tol or 1e-7
    if isinstance(a, complex) or isinstance(b, complex):
      return isinstance(a, complex) == isinstance(b, complex) and \
          self.eq(complex(a).real, complex(b).real, tol) and self.eq(complex(a).imag, complex(b).imag, tol)
    try:
      a, b = float(a), float(b)
    except (TypeError, ValueError):
      return False
    if a == b:
      return True
    if not (math.isfinite(a) and math.isfinite(b)):
      return False
    return abs(a - b) <= tol * max(1e-3, abs(a), abs(b))

  def same(self, a, b):
    return bool(a == b)

  def le(self, a, b, tol=None):
    a, b = float(a), float(b)
    if a <= b or tol is None:
      return a <= b
    if not (math.isfinite(a) and math.isfinite(b)):
      return False
    return a - b <= tol * max(1., abs(a), abs(b))

  def lt(self, a, b):
    return bool(a < b)

  def all(self, *cs):
    return all(bool(c) for c in cs)

  def any(self, *cs):
    return any(bool(c) for c in cs)

  def neg(self, c):
    return not c

  def iff(self, a, b):
    return bool(a) == bool(b)

  def mod_(self, a, b):
    return a % b

  def np(self):
    return np

  def stack(self, xs):
    return np.array(list(xs))

  def implies(self, a, b):
    return (not a) or bool(b)

  def ite(self, c, a, b):
    return a if c else b

  def mul(self, a, b):
    return a * b

  def div(self, a, b):
    a, b = float(a), float(b)
    return a / b if b else math.nan

  def minimum(self, a, b):
    return min(a, b)

  def maximum(self, a, b):
    return max(a, b)

  def exp(self, x):
    x = float(x)
    return math.exp(x) if x < 709.7 else math.inf

  def log(self, x):
    return math.log(x) if x > 0 else -math.inf

  def forall(self, exts, f):
    exts = exts if isinstance(exts, (tuple, list)) else (exts,)
    for idx in np.ndindex(*[int(e) for e in exts]):
      if not f(*idx):
        return False
    return True

  def exists(self, exts, f):
    exts = exts if isinstance(exts, (tuple, list)) else (exts,)
    for idx in np.ndindex(*[int(e) for e in exts]):
      if f(*idx):
        return True
    return False

  def sorter(self, arr):
    return None

  def sum(self, exts, f):
    exts = exts if isinstance(exts, (tuple, list)) else (exts,)
    return math.fsum(float(f(*idx)) for idx in np.ndindex(*[int(e) for e in exts]))

  def prod(self, exts, f):
    exts = exts if isinstance(exts, (tuple, list)) else (exts,)
    r = 1.
    for idx in np.ndindex(*[int(e) for e in exts]):
      r *= float(f(*idx))
    return r

  def at(self, arr, *idx):
    if not idx:
      return arr.item() if isinstance(arr, np.ndarray) and arr.ndim == 0 else arr
    if np.ndim(arr) != len(idx):
      raise Failed('shape', 'expected %d dimensions, got %r' % (len(idx), np.shape(arr)))
    v = arr[tuple(int(i) for i in idx)]
    return v.item() if isinstance(v, np.generic) else v

  def shape(self, x):
    return tuple(np.shape(x))

  def is_scalar(self, x):
    return bool(np.isscalar(x))

  def is_array(self, x):
    return isinstance(x, np.ndarray)

  def copy(self, x):
    return np.array(x) if isinstance(x, np.ndarray) else x

  def check(self, name, cond, tol=None):
    self.nchecks += 1
    if not cond:
      raise Failed(name)

  def fail(self, name, detail=''):
    raise Failed(name, detail)

  @contextlib.contextmanager
  def raises(self, name, *excs):
    ok = False
    try:
      yield
    except excs:
      ok = True
    self.check(name, ok)

  def rejects(self, name, f, *excs):
    excs = excs or (Exception,)
    try:
      f()
    except excs:
      self.check(name, True)
      return
    self.check(name, False)

  def note(self, *a):
    pass


# ======================================================================
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props')


def where_raised(e):
  tb = traceback.extract_tb(e.__traceback__)
  loc = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
  # the contract names something the package no longer has at all
  lost = isinstance(e, (ImportError, AttributeError)) and \
      tb[-1].filename.startswith((HARNESS, os.path.dirname(__file__))) and \
      (str(e).startswith("module '") or isinstance(e, ImportError))
  return loc, lost


class PathResult:
  __slots__ = ('status', 'checks', 'detail', 'cex', 'nforks')

  def __init__(self, status, checks, detail='', cex=None, nforks=0):
    self.status, self.checks, self.detail, self.cex, self.nforks = status, checks, detail, cex, nforks


import warnings


def run_symbolic(ob, layer='A', max_paths=400, budget=60.):
  """explores every feasible path of the contract; returns list[PathResult]
  and a flag: exploration complete"""
  work = [[]]
  out = []
  t0 = time.time()
  complete = True
  while work:
    if len(out) >= max_paths or time.time() - t0 > budget:
      complete = False
      break
    prefix = work.pop()
    path = Path(prefix)
    core.set_cur(path)
    ctx = SymCtx(path, ob, layer)
    try:
      with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ob.fn(ctx)
        ctx.frame()
      res = PathResult('done', ctx.results)
    except Infeasible:
      res = PathResult('infeasible', ctx.results)
    except BoundHit as e:
      res = PathResult('bound', ctx.results, str(e), models_for(path, path.pc))
    except Unsupported as e:
      res = PathResult('unsupported', ctx.results, '%s: %s' % (type(e).__name__, e),
                       models_for(path, path.pc))
    except Failed as e:
      res = PathResult('failed', ctx.results, str(e), models_for(path, path.pc))
    except RecursionError as e:
      res = PathResult('unsupported', ctx.results, 'recursion', models_for(path, path.pc))
    except Exception as e:
      loc, lost = where_raised(e)
      res = PathResult('lost' if lost else 'raised', ctx.results, '%s: %s [%s]' % (type(e).__name__, e, loc),
                       models_for(path, path.pc))
    finally:
      ctx.unstub()
      core.set_cur(None)
    if res.status not in ('done', 'infeasible') and \
       S.solve(path.reg, path.pc, timeout_ms=6000)[0] == 'unsat':
      # branches are kept on a cheap test, the whole condition is unsatisfiable
      res = PathResult('infeasible', ctx.results)
    res.nforks = len(path.trace)
    out.append(res)
    work.extend(path.alts)
  return out, complete and not work


def run_concrete(ob, vals=None, rng=None):
  """-> (status, info, used) status in ok/discard/failed/raised"""
  c = ConcCtx(vals, rng, ob)
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      with np.errstate(all='ignore'):
        with c.feed.patched():
          ob.fn(c)
          c.frame()
    return 'ok', c.nchecks, c.used
  except Discard:
    return 'discard', '', c.used
  except Failed as e:
    c.used['$rands'] = c.feed.log
    return 'failed', str(e), c.used
  except PVExit as e:
    return 'discard', repr(e), c.used
  except Exception as e:
    loc, lost = where_raised(e)
    c.used['$rands'] = c.feed.log
    return 'lost' if lost else 'raised', '%s: %s [%s]' % (type(e).__name__, e, loc), c.used
