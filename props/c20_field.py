"""C20: deltas of fields."""
import numpy as np
from pv.engine import obligation, instance
from props._pd import OD
from props.c04_variable import _delta_spec

NAMES = ('a1', 'a', 'ba1')


def _field(c, stoch, n=3):
  """field of n real variables with intervals of their own lengths"""
  if stoch:
    K = c.mod('rv').RV
    F = c.mod('rf').RF
  else:
    K = c.mod('variable').Variable
    F = c.mod('field').Field
  vs, lim = [], {}
  for k in NAMES[:n]:
    a = c.real('a_' + k, lo=-10, hi=10)
    w = c.real('w_' + k, lo=2.**-4, hi=10)
    v = K(k, vset=[a, a + w], vtype=float)
    if stoch:
      v.set_prob(lambda q: 1. + 0. * q)
    vs.append(v)
    lim[k] = (a, a + w, w)
  return F(*vs), vs, lim


def _num(d):
  """number held by an evaluated delta of a variable"""
  return d[0] if isinstance(d, tuple) else d


def _ok(c, form, got, d, w=1.):
  d = c.mul(d, w)
  if form == 'fixed':
    return c.eq(got, d)
  m = c.maximum(d, -d) + (0. if c.symbolic else 1e-9)
  return c.all(c.le(-m, got), c.le(got, m))


def _before(c, f):
  """the field may have had another delta before"""
  was = c.choice('was', [None, 'fixed', 'tuple', 'dict', 'call'])
  names = f.keylist
  if was == 'fixed':
    f.set_delta([.125], {names[-1]: .5}, scale=True, bound=True)
  elif was == 'tuple':
    f.set_delta((.125,), {names[-1]: .5}, scale=True, bound=True)
  elif was == 'dict':
    f.set_delta({k: (.25,) for k in names}, bound=True)
  elif was == 'call':
    f.set_delta(lambda: None)
  if was in ('fixed', 'tuple', 'dict'):
    c.nonzero_draws()
    f.eval_delta()


def _evenly(c, base, ds, ranges):
  """one draw each, with the place in its range that the draw has between the
  limits drawn from (nothing is said when draws are not of one number)"""
  draws = [c.draw(i) for i in range(base, c.ndraws())]
  if not all(np.ndim(v) == 0 for _, _, v in draws):
    return
  c.check('independent', len(draws) >= len(ds))
  if len(draws) > len(ds):
    return
  tol = {} if c.symbolic else dict(tol=1e-6)
  for got, (d, w) in zip(ds, ranges):
    m = c.mul(d, w)
    place = [(c.mul(v - lo, m + m), hi - lo) for lo, hi, v in draws]
    c.check('evenly', c.any(*[c.any(c.eq(c.mul(got + m, h), t, **tol), c.eq(c.mul(m - got, h), t, **tol)) for t, h in place]))


def deltas(c, stoch, form, how):
  """a fixed delta moves every variable by it, a list draws each from the
  symmetric range; scaling multiplies by the length of the variable; deltas
  given by variable name are not scaled"""
  f, vs, lim = _field(c, stoch)
  keys = [v.name for v in vs]
  scale = c.choice('scale', [False, True])
  d = c.real('d', lo=2.**-6, hi=5)
  own = {k: c.real('d_' + k, lo=2.**-6, hi=5) for k in keys}
  wrap = (lambda v: v) if form == 'fixed' else (lambda v: [v])
  _before(c, f)
  if how == 'all':
    f.set_delta(wrap(d), scale=scale)
    want = {k: (d, lim[k][2] if scale else 1.) for k in keys}
  elif how == 'unscaled':
    given = c.choice('given', [('a',), ('ba1', 'a1'), ('a1', 'a', 'ba1')])
    drawn = c.choice('drawn', [(), ('a', 'a1')])  # of those given, by a list
    drawn = [k for k in drawn if k in given]
    f.set_delta(wrap(d), {k: [own[k]] if k in drawn else own[k] for k in given}, scale=scale)
    want = {k: (own[k], 1.) if k in given else (d, lim[k][2] if scale else 1.) for k in keys}
  elif how == 'dict':
    order = c.choice('order', [keys, keys[::-1]])
    f.set_delta(OD((k, wrap(own[k])) for k in order), scale=scale)
    want = {k: (own[k], lim[k][2] if scale else 1.) for k in keys}
  else:
    f.set_delta(f.Delta(**{k: wrap(own[k]) for k in keys}), scale=scale)
    want = {k: (own[k], lim[k][2] if scale else 1.) for k in keys}
  base = c.ndraws()
  e = f.eval_delta()
  c.check('type', isinstance(e, f.Delta))
  forms = {k: form for k in keys}
  if how == 'unscaled':
    forms.update({k: 'list' if k in drawn else 'fixed' for k in given})
  listed = [k for k in keys if forms[k] == 'list']
  _evenly(c, base, [_num(getattr(e, k)) for k in listed], [want[k] for k in listed])
  for k in keys:
    c.check('delta', _ok(c, forms[k], _num(getattr(e, k)), *want[k]))
  v = {k: c.real('v_' + k, lo=-10, hi=20) for k in keys}
  r = f.apply_delta(v, e)
  for k in keys:
    c.check('applied', c.eq(r[k], v[k] + _num(getattr(e, k))))
  r = f.apply_delta(v)
  for k in keys:
    c.check('default', _ok(c, forms[k], r[k] - v[k], *want[k]))
  c.check('frame', sorted(r) == sorted(keys) and sorted(v) == sorted(keys))


for _st in (False, True):
  for _f in ('fixed', 'list'):
    for _h in ('all', 'unscaled', 'dict', 'Delta'):
      instance('C20', deltas, stoch=_st, form=_f, how=_h, tests=6,
               tag='%s,%s,%s' % ('RF' if _st else 'Field', _f, _h))


def spherical(c, stoch, n):
  """a tuple delta is a step of that length in all variables together; the
  deltas given by variable name are taken as they are"""
  f, vs, lim = _field(c, stoch, n)
  keys = [v.name for v in vs]
  c.nonzero_draws()
  d = c.real('d', lo=2.**-6, hi=5)
  own = c.real('own', lo=-5, hi=5)
  given = c.choice('given', [()] + [(k,) for k in keys])
  _before(c, f)
  if given:
    f.set_delta((d,), {k: own for k in given})
  else:
    f.set_delta((d,))
  e = f.eval_delta()
  c.check('type', isinstance(e, f.Delta))
  tot = 0.
  for k in keys:
    if k in given:
      c.check('given', c.eq(_num(getattr(e, k)), own))
    else:
      g = _num(getattr(e, k))
      tot = tot + c.mul(g, g)
  c.check('length', c.eq(tot, c.mul(d, d)))
  v = {k: c.real('v_' + k, lo=-10, hi=20) for k in keys}
  r = f.apply_delta(v, e)
  for k in keys:
    c.check('applied', c.eq(r[k], v[k] + _num(getattr(e, k))))


for _st in (False, True):
  for _n in (2, 3):
    instance('C20', spherical, stoch=_st, n=_n, tests=6, tag='%s,%d' % ('RF' if _st else 'Field', _n))


@obligation('C20', tests=20)
def bounded(c):
  """bounded deltas keep values inside their domains"""
  f, vs, lim = _field(c, c.choice('stoch', [False, True]), 2)
  keys = [v.name for v in vs]
  own = {k: c.real('d_' + k, lo=-30, hi=30) for k in keys}
  how = c.choice('how', ['dict', 'all'])
  if how == 'dict':
    f.set_delta(own, bound=True)
  else:
    own = {k: own['a1'] for k in keys}
    f.set_delta(own['a1'], bound=True)
  v = {}
  for k in keys:
    a, b, w = lim[k]
    u = c.real('u_' + k, lo=0, hi=1)
    v[k] = a + c.mul(u, w)
    c.assume(c.all(c.le(a, v[k]), c.le(v[k], b)))
  r = f.apply_delta(v)
  for k in keys:
    c.check('step', _delta_spec(c, v[k], own[k], r[k], lim[k][0], lim[k][1], False, False))


@obligation('C20', tests=6)
def custom(c):
  """callable deltas: of the field, giving the delta; of a variable, giving the
  value; explicit deltas override the default"""
  f, vs, lim = _field(c, c.choice('stoch', [False, True]), 2)
  p, q = c.real('p', lo=-5, hi=5), c.real('q', lo=-5, hi=5)
  v = {'a1': c.real('v_x', lo=-10, hi=20), 'a': c.real('v_y', lo=-10, hi=20)}
  f.set_delta(lambda: f.Delta(a1=p, a=q))
  for e in (f.eval_delta(), f.eval_delta(f.Delta(a=q, a1=p))):
    c.check('eval', c.all(c.eq(_num(e.a1), p), c.eq(_num(e.a), q)))
    r = f.apply_delta(v, e)
    c.check('apply', c.all(c.eq(r['a1'], v['a1'] + p), c.eq(r['a'], v['a'] + q)))
  vs[0].set_delta(lambda u: u * p)
  c.check('variable', c.eq(vs[0].apply_delta(v['a1']), v['a1'] * p))


@obligation('C20', tests=6)
def alone(c):
  """a field of one variable takes the delta of the variable"""
  f, vs, lim = _field(c, c.choice('stoch', [False, True]), 1)
  d, v = c.real('d', lo=2.**-6, hi=5), c.real('v', lo=-10, hi=20)
  scale = c.choice('scale', [False, True])
  form = c.choice('form', ['fixed', 'list'])
  vs[0].set_delta(d if form == 'fixed' else [d], scale=scale)
  w = lim['a1'][2] if scale else 1.
  c.check('eval', _ok(c, form, _num(_num(f.eval_delta())), d, w))
  c.check('apply', _ok(c, form, f.apply_delta({'a1': v})['a1'] - v, d, w))
  c.check('own', c.eq(f.apply_delta({'a1': v}, vs[0].Delta(d))['a1'], v + d))


def correlated(c, n):
  """the deltas of a field with a triangular transition factor are that factor
  times independent ones"""
  f, vs, lim = _field(c, True, n)
  keys = [v.name for v in vs]
  L = c.array('L', (n, n), lo=-2, hi=2)
  if c.symbolic:
    L = c.np().array([[L[i, j] if j <= i else 0. for j in range(n)] for i in range(n)])
  else:
    L = np.tril(L)
  f.set_tfun(L)
  own = {k: c.real('d_' + k, lo=-5, hi=5) for k in keys}
  f.set_delta(own)
  e = f.eval_delta()
  v = {k: c.real('v_' + k, lo=-10, hi=20) for k in keys}
  r = f.apply_delta(v, e)
  for i, k in enumerate(keys):
    want = sum(c.mul(c.at(L, i, j), own[keys[j]]) for j in range(i + 1))
    c.check('delta', c.all(c.is_scalar(_num(getattr(e, k))), c.eq(_num(getattr(e, k)), want)))
    c.check('applied', c.eq(r[k], v[k] + want))


for _n in (2, 3):
  instance('C20', correlated, n=_n, tag='%d' % _n)


@obligation('C20', tests=6)
def members(c):
  """fields are over the variables given in order, without repeats, and
  subfields over those selected"""
  f, vs, lim = _field(c, False)
  F = c.mod('field').Field
  c.check('keys', f.keylist == ['a1', 'a', 'ba1'] and f.name == 'a1,a,ba1' and f.nvars == 3 and f.varlist == vs)
  for sel, want in (('a', ['a']), (['ba1', 'a1'], ['ba1', 'a1']), (vs[1], ['a']), ((vs[2], 'a'), ['ba1', 'a']),
                    (F(vs[0], vs[2]), ['a1', 'ba1']), ([F(vs[0], vs[2]), 'a'], ['a1', 'ba1', 'a'])):
    s = f.subfield(sel)
    c.check('subfield', s.keylist == want and all(s.vars[k] is f.vars[k] for k in want))
  tot = 0.
  for k in ('a1', 'a', 'ba1'):
    tot = tot + c.mul(lim[k][2], lim[k][2])
  c.check('length', c.eq(c.mul(f.eval_length(), f.eval_length()), tot))
