"""Callee contracts substituted at call boundaries in symbolic runs.  Each is
the postcondition proved for the callee in its own obligation (C01), together
with the precondition under which it was proved, which the caller has to
establish (check 'pre:..')."""
from pv import terms as T
from pv.values import (SymNum, SymComplex, SymArray, to_poly, to_array, wrap, elementwise,
                       is_sym, maybe_scalar, num_of)
from pv.core import cur
from pv.engine import TINY
import numpy as np

NEG = T.const(-1797693134862315708145274237317043567980705675258449965989174768031572607800285387605895586327668781715404589535143824642343213268894641827684675467035375169860499105765512820762454900903893289440758685084551339423045832369032229481658085593321233477970679296640)


def scale_kind(s):
  """-> ('lin', coefficient term) or ('log', offset term)"""
  if s is None:
    return 'lin', T.ONE
  if isinstance(s, str) and s in ('log', 'ln'):
    return 'log', T.ZERO
  if type(s) is SymComplex:
    re, im = s.re, s.im
    if im.is_const and im.const == 0:
      return 'log', re
    if cur().fork(T.eq(im, T.ZERO)):
      return 'log', re
    return 'log', T.neg(re)
  if isinstance(s, complex):
    return 'log', T.const(s.real if s.imag == 0 else -s.real)
  if is_sym(s):
    return 'lin', to_poly(s)
  if s == 0:
    return 'log', T.ZERO
  return 'lin', to_poly(float(s))


def rescale_contract(c):
  """probayes.pscales.rescale, see C01/rescale_denotation"""
  tiny = to_poly(TINY)

  def rescale(prob, *args):
    if len(args) == 0:
      return prob
    s1, s2 = (None, args[0]) if len(args) == 1 else args[:2]
    k1, a = scale_kind(s1)
    k2, b = scale_kind(s2)
    if (k1, a) == (k2, b):
      return prob
    if k1 == 'lin' and k2 == 'lin':
      f = lambda v: T.div(T.mul(v, a), b)
    elif k1 == 'lin':
      f = lambda v: T.ite(T.le(tiny, v), T.sub(T.add(T.mk_log(v), T.mk_log(a)), b), NEG)
    elif k2 == 'lin':
      d = T.sub(a, T.mk_log(b))
      f = lambda v: T.mk_exp(T.add(v, d))
      big = T.const(700)
      if type(prob) is SymArray:
        c.check('pre:rescale', c.forall(prob.shape, lambda *i: c.le(
            wrap(T.add(to_poly(c.at(prob, *i)), d), 'f', False), 700)))
      else:
        c.check('pre:rescale', c.le(wrap(T.add(to_poly(prob), d), 'f', False), 700))
    else:
      f = lambda v: T.sub(T.add(v, a), b)
    if type(prob) is SymArray or isinstance(prob, np.ndarray):
      x = to_array(prob)
      return elementwise(lambda e: f(num_of(e)), 'f', x)
    return wrap(f(to_poly(prob)), 'f', True)
  return rescale


def prod_rule_contract(c):
  """probayes.pscales.prod_rule, see C02 (offsets are zero or normal numbers)"""
  tiny = to_poly(TINY)
  resc = rescale_contract(c)

  def prod_rule(*args, **kwds):
    pscales = kwds.get('pscales', [1.] * len(args))
    c.check('pre:prod_rule', len(pscales) == len(args) and len(args) > 0)
    kinds = [scale_kind(s) for s in pscales]
    use = kwds.get('use_logp', any(k == 'log' for k, _ in kinds))
    vals = []
    for v, (k, a) in zip(args, kinds):
      if use and k == 'lin':
        f = lambda x: T.ite(T.le(tiny, x), T.mk_log(x), NEG)
      elif not use and k == 'log':
        f = T.mk_exp
      else:
        f = lambda x: x
      if type(v) is SymArray or isinstance(v, np.ndarray):
        vals.append(elementwise(lambda e, f=f: f(num_of(e)), 'f', to_array(v)))
      else:
        vals.append(wrap(f(to_poly(v)), 'f', True))
    p = vals[0]
    for v in vals[1:]:
      p = p + v if use else p * v
    if use:
      tot = T.ZERO
      for k, a in kinds:
        tot = T.add(tot, T.mk_log(a) if k == 'lin' else a)
      nat = 0j if tot.is_const and tot.const == 0 else SymComplex(tot, T.ZERO)
    else:
      tot = T.ONE
      for k, a in kinds:
        tot = T.mul(tot, T.mk_exp(a) if k == 'log' else a)
      nat = 1. if tot.is_const and tot.const == 1 else wrap(tot, 'f', False)
    out = kwds.get('pscale', nat)
    if out is nat:
      return p, nat
    return resc(p, nat, out), out
  return prod_rule


def div_contract(c):
  """probayes.pscales.div_prob to the linear scale of coefficient one for a
  representable divisor, see C03"""
  resc = rescale_contract(c)

  def div_prob(dividend, divisor, *args, pscale=None):
    c.check('pre:div_prob', len(args) in (0, 2) and pscale is not None and not is_sym(pscale) and pscale == 1.)
    s = args if args else (None, None)
    x, y = [v if scale_kind(t) == ('lin', T.ONE) else resc(v, t, 1.) for v, t in zip((dividend, divisor), s)]
    c.check('pre:div_prob', c.le(TINY, y))
    return wrap(T.div(to_poly(x), to_poly(y)), 'f', True)
  return div_prob


def declare(c, cls, vtype, vset, ufun=None, prepare=None, **kwds):
  """a variable with the set given, whether declared with it or given it after it
  has been declared and used with another"""
  when = c.choice('declared', ['now', 'late'])
  first = vset
  if when == 'late':
    first = [2., (7.,)] if vtype is float else [10, 20, 30]
  x = cls('x', vtype=vtype, vset=first, **kwds)
  if ufun is not None:
    x.set_ufun(*ufun[0], **ufun[1])
  if prepare is not None:
    prepare(x)
  if when == 'late':
    x.evaluate({3})
    x.evaluate({0})
    x.inside(5. if vtype is float else 20)
    if hasattr(x, 'eval_prob') and ufun is None:
      x(5. if vtype is float else 20)
    (x.length, x.lhv, x.vlims, x.ulims)
    x.vset = vset
  return x
