SEEDS = [
 dict(id='s06', prop='C03', needs='a divisor that is a density above one',
      breaks='divisors are limited to one as if they were never densities',
      edits=[('probayes/pscales.py', "  quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)\n",
              "  quotient = dividend / np.clip(divisor, NEARLY_POSITIVE_ZERO, 1.)\n")],
      demo='''
from probayes.pscales import div_prob
assert np.isclose(div_prob(6., 4.), 1.5)
assert np.isclose(div_prob(np.log(6.), np.log(4.), 0j, 0j), 1.5 if False else np.log(1.5))
'''),
 dict(id='s07', prop='C04', needs='a single point over a half-open interval',
      breaks='one point is the midpoint whatever ends are excluded',
      edits=[('probayes/vtypes.py', "  if not ex_0 and not ex_1:\n    if n == 1:\n      return np.linspace(v_0, v_1, 3)[1:-1]\n    else:\n      return np.linspace(v_0, v_1, n)\n",
              "  if n == 1:\n    return np.linspace(v_0, v_1, 3)[1:-1]\n  if not ex_0 and not ex_1:\n    return np.linspace(v_0, v_1, n)\n")],
      demo='''
x = pb.Variable('x', vtype=float, vset=[(0.,), 2.])
assert np.allclose(x.evaluate({1})['x'], [2.]), x.evaluate({1})
assert np.allclose(x.evaluate({2})['x'], [1., 2.])
'''),
 dict(id='s08', prop='C06', needs='more random draws of a discrete variable than it has states',
      breaks='random draws of discrete variables number at most the states',
      edits=[('probayes/variable.py', "            indices = np.random.permutation(-number) % self._length\n",
              "            indices = np.arange(min(-number, self._length), dtype=int)\n")],
      demo='''
x = pb.Variable('x', vtype=int, vset=[1, 2, 3])
v = x.evaluate({-7})['x']
assert v.shape == (7,), v
assert set(v.tolist()) == {1, 2, 3}
'''),
 dict(id='s09', prop='C07', needs='an array of values stepped over an open upper bound of a variable closed below',
      breaks='elements that reach an open upper bound are put there rather than left where they were',
      edits=[('probayes/variable.py', "        outside = vals >= self._vlims[1]\n        vals[outside] = values[outside]\n        vals = np.maximum(self._vlims[0], vals)\n",
              "        outside = vals > self._vlims[1]\n        vals[outside] = values[outside]\n        vals = np.maximum(self._vlims[0], vals)\n")],
      demo='''
x = pb.Variable('x', vtype=float, vset=[0., (1.,)])
v = x.apply_delta(np.array([.25, .5, .75]), .5, bound=True)
assert np.allclose(v, [.75, .5, .75]), v
'''),
 dict(id='s10', prop='C08', needs='a distribution of conditional variables only',
      breaks='variables of a distribution without marginal ones are taken as marginal',
      edits=[('probayes/pd_utils.py', "  return '|'.join([marg_str, cond_str]) if cond_str else marg_str\n",
              "  return '|'.join([marg_str, cond_str]) if cond_str and marg_str else marg_str + cond_str\n")],
      demo='''
from probayes.pd_utils import margcond_str, str_margcond
for name in ('|z', 'x|z', 'x', '|y,z'):
  m, c = str_margcond(name)
  assert margcond_str(m, c) == name, (name, margcond_str(m, c))
d = pb.PD('|z', {'z': np.arange(3.)}, prob=np.ones(3))
assert list(d.cond) == ['z'] and not d.marg, (d.name, d.marg, d.cond)
'''),
 dict(id='s11', prop='C11', needs='a factor of three variables the axes of which are rotated in the product',
      breaks='probabilities of a factor are transposed by the inverse of the permutation of its axes',
      edits=[('probayes/pd_utils.py', "        prob = np.moveaxis(prob, old_dims, new_dims)\n", "        prob = np.moveaxis(prob, new_dims, old_dims)\n")],
      demo='''
p = np.arange(1., 9.).reshape(2, 2, 2)
a = pb.PD('z,x,y', {'z': np.arange(2.).reshape(1, 1, 2), 'x': np.arange(2.).reshape(2, 1, 1), 'y': np.arange(2.).reshape(1, 2, 1)},
          dims={'x': 0, 'y': 1, 'z': 2}, prob=p)
d = a * pb.PD('w', {'w': np.arange(3.)}, prob=np.array([1., 2., 3.]))
for n in np.ndindex(2, 2, 2, 3):
  at = [0] * 4
  for k, i in zip('xyzw', n):
    at[d.dims[k]] = i
  assert np.isclose(d.prob[tuple(at)], p[n[:3]] * (n[3] + 1)), (d.dims, d.prob)
'''),
 dict(id='s12', prop='C12', needs='sorting by one of two variables that share a dimension',
      breaks='values sharing the dimension of the sorted ones stay behind',
      edits=[('probayes/pd.py', "      else:\n        vals.update({_key: np.ravel(_val)[keyidx]})\n",
              "      else:\n        vals.update({_key: np.sort(np.ravel(_val))})\n")],
      demo='''
d = pb.PD('x,y', {'x': np.array([3., 1., 2.]), 'y': np.array([5., 6., 4.])}, dims={'x': 0, 'y': 0}, prob=np.array([.1, .2, .7]))
s = d.sorted('x')
assert np.allclose(s['x'], [1., 2., 3.]) and np.allclose(s['y'], [6., 4., 5.]) and np.allclose(s.prob, [.2, .7, .1]), s
'''),
 dict(id='s13', prop='C13', needs='expectations given a conditional variable',
      breaks='the expectation is normalised by the sum over everything',
      edits=[('probayes/pd.py', "          vals.update({key: div_prob(expt_numerator, sum_prob)})\n",
              "          vals.update({key: div_prob(expt_numerator, np.mean(sum_prob))})\n")],
      demo='''
d = pb.PD('x|y', {'x': np.array([1., 2.]).reshape(2, 1), 'y': np.arange(2.).reshape(1, 2)}, prob=np.array([[.5, .4], [.5, .1]]))
e = d.expectation()
assert np.allclose(e['x'], [1.5, 1.2]), e
'''),
 dict(id='s14', prop='C14', needs='a divisor on another scale than the dividend',
      breaks='the divisor is taken to be on the scale of the dividend',
      edits=[('probayes/pd.py', "    prob = div_prob(self._prob, divp, self._pscale, other.pscale)\n",
              "    prob = div_prob(self._prob, divp, self._pscale, self._pscale)\n")],
      demo='''
x, y = np.arange(2.).reshape(2, 1), np.arange(3.).reshape(1, 3)
p = np.arange(1., 7.).reshape(2, 3)
d = pb.PD('x,y', {'x': x, 'y': y}, prob=p)
m = d.marginal('y')
for s in (1., 0j, 2.):
  r = d / m.rescaled(s)
  assert np.allclose(r.prob, p / p.sum(axis=0)), (s, r.prob)
'''),
 dict(id='s16', prop='C17', needs='values outside the domain of a variable of constant probability on a log scale',
      breaks='on log scales values outside the domain have log-probability zero',
      edits=[('probayes/rv_utils.py', "  p_zero = NEARLY_NEGATIVE_INF if use_logs else 0.\n", "  p_zero = NEARLY_NEGATIVE_INF if use_logs and isscalar(vals) else 0.\n")],
      demo='''
x = pb.RV('x', vtype=float, vset=[0., 2.], pscale='log')
d = x(np.array([-1., 1., 3.]))
assert np.all(d.prob[[0, 2]] < -1e100) and np.isclose(d.prob[1], -np.log(2.)), d.prob
'''),
 dict(id='s17', prop='C18', needs='sampling a step backwards with a pair of transition matrices',
      breaks='backward steps are sampled from the forward matrix',
      edits=[('probayes/rv.py', "      prob = self._tran() if not self._tran.ismulti else \\\n             self._tran[int(reverse)]()\n      if isunitset(succ_vals):\n",
              "      prob = self._tran() if not self._tran.ismulti else \\\n             self._tran[0]()\n      if isunitset(succ_vals):\n")],
      demo='''
x = pb.RV('x', vtype=int, vset=[0, 1])
x.set_tran((np.array([[1., 0.], [0., 1.]]), np.array([[0., 1.], [1., 0.]])))
d = x.step(0, {0}, reverse=True)
assert d["x'"] == 1 and np.isclose(d.prob, 1.), (dict(d), d.prob)
'''),
 dict(id='s18', prop='C19', needs='a field of variables on different scales',
      breaks='the probabilities of all the variables are taken to be on the scale of the first',
      edits=[('probayes/rf_utils.py', "  probs = [rv.eval_prob(values[rv.name]) for rv in rvs]\n",
              "  probs = [rv.eval_prob(values[rv.name]) for rv in rvs if rv.name in values]\n"),
             ('probayes/rf_utils.py', "  pscales = [rv.pscale for rv in rvs]\n", "  pscales = [rvs[0].pscale for rv in rvs if rv.name in values]\n")],
      demo='''
x = pb.RV('x', vtype=float, vset=[0., 2.])
y = pb.RV('y', vtype=float, vset=[0., 4.], pscale='log')
f = x & y
d = f({'x': 1., 'y': 1.}).rescaled(1.)
assert np.isclose(d.prob, .125), d.prob
'''),
 dict(id='s19', prop='C20', needs='a scaled delta of a field with an exception for a variable, given first',
      breaks='deltas are scaled by the lengths of the variables in the order of the exceptions',
      edits=[('probayes/field.py', "      deltas = {key: delta for key in self._keylist}\n      unscale = {} if not self._delta_args else self._delta_args[0]\n      deltas.update(unscale)\n",
              "      unscale = {} if not self._delta_args else self._delta_args[0]\n      deltas = {**unscale, **{key: delta for key in self._keylist if key not in unscale}}\n")],
      demo='''
x = pb.Variable('x', vtype=float, vset=[0., 2.])
y = pb.Variable('y', vtype=float, vset=[0., 8.])
z = pb.Variable('z', vtype=float, vset=[0., 4.])
f = pb.Field(x, y, z)
f.set_delta(.5, {'z': .1}, scale=True)
d = f.eval_delta()
assert np.allclose([float(np.ravel(v)[0]) for v in d], [1., 4., .1]), d
'''),
 dict(id='s20', prop='C21', needs='conditional sampling of several variables in one step',
      breaks='every variable is sampled given the values before the step rather than the latest',
      edits=[('probayes/rf.py', "        for key in keys:\n          succ_vals[key] = self._tfun(succ_vals, *args, unknown=key, **kwds)\n",
              "        for key in keys:\n          succ_vals[key] = self._tfun(values, *args, unknown=key, **kwds)\n")],
      demo='''
x = pb.RV('x', vtype=float, vset=[-9., 9.])
y = pb.RV('y', vtype=float, vset=[-9., 9.])
f = x & y
seen = []
def cond(unknown=None, **kw):
  seen.append((unknown, dict(kw)))
  return 5. if unknown == 'x' else 7.
f.set_tran(lambda **kw: 1.)
f.set_tfun(cond)
f.step({'x': 1., 'y': 2.}, {0})
assert seen[1][0] == 'y' and seen[1][1]['x'] == 5., seen
'''),
 dict(id='s21', prop='C23', needs='a rejected proposal followed by another step',
      breaks='the proposal after a rejection starts at the rejected one',
      edits=[('probayes/sp.py', "    if self._update is None or self.__last[sampler] is None or update:\n      self.__last[sampler] = opqr\n      verdit = opqr.p\n",
              "    if self._update is None or self.__last[sampler] is None or update:\n      self.__last[sampler] = opqr\n      verdit = opqr.p\n    elif opqr.q is not None:\n      self.__last[sampler] = self._opqr(opqr.o, opqr.o, opqr.q, opqr.r)\n")],
      demo='''
x = pb.RV('x', vtype=float, vset=(-100., 100.))
p = pb.SP(x)
p.set_prob(lambda x: 1. if x < 1.5 else 1e-12)
p.set_tran(lambda **kw: 1.)
p.set_delta(lambda: p.Delta(x=1.))
p.set_scores('metropolis')
s = p.sampler({'x': 0.})
out = [next(s) for _ in range(3)]
assert [float(r.q['x']) for r in out] == [0., 1., 1.], [r.q['x'] for r in out]
'''),
 dict(id='s22', prop='C25', needs='a table asked for a value of one variable and all the values of another before it',
      breaks='the scalar asked for is looked up along the wrong axis',
      edits=[('probayes/rf_utils.py', "      match = np.ravel(vals[key]) == spec[key]\n",
              "      match = np.ravel(vals[keys[dim]]) == spec[key]\n")],
      demo='''
from probayes.rf_utils import slice_by_keyvals
a, b = np.array([1, 2]), np.array([2, 1, 0])
p = np.arange(6.).reshape(2, 3)
vals = {'a': a.reshape(2, 1), 'b': b.reshape(1, 3)}
r = slice_by_keyvals({'b': 1, 'a': a.reshape(2, 1)}, vals, p, {'a': 0, 'b': 1}, {'b': None, 'a': 0})
assert np.allclose(np.ravel(r), [1., 4.]), r
'''),
 dict(id='s23', prop='C26', needs='a distribution on a log scale with an offset written and read again',
      breaks='the offset of a log scale is lost on reading',
      edits=[('probayes/pd_utils.py', "      pscale = pscale if pscale is None else np.atleast_1d(pscale).tolist()[0]\n",
              "      pscale = pscale if pscale is None else np.atleast_1d(pscale).tolist()[0]\n      if isinstance(pscale, complex):\n        pscale = complex(0., pscale.imag)\n")],
      demo='''
import tempfile, os
from probayes.pd_utils import write_dist, read_dist
d = pb.PD('x', {'x': np.arange(3.)}, prob=np.array([-1., -2., -3.]), pscale=complex(2., 0.))
with tempfile.TemporaryDirectory() as t:
  f = os.path.join(t, 'd.h5')
  write_dist(f, d)
  e, = read_dist(f)
assert np.allclose(e.rescaled(1.).prob, d.rescaled(1.).prob), (e.pscale, e.prob)
'''),
 dict(id='s24', prop='C15', needs='pooling samples of which one variable is unspecified (a set) and others are values',
      breaks='sizes of unspecified variables are not added up',
      edits=[('probayes/pd_utils.py', "          sum_vals[key] += list(val)[0]\n", "          sum_vals[key] = max(sum_vals[key], list(val)[0])\n")],
      demo='''
from probayes.pd_utils import summate
d = [pb.PD('x,y', {'x': {2}, 'y': float(i)}, prob=.1 * (i + 1)) for i in range(3)]
s = summate(*d)
assert s['x'] == {6}, s['x']
assert np.allclose(s['y'], [0., 1., 2.])
'''),
 dict(id='s25', prop='C24', needs='a dependence declared of four groups of variables',
      breaks='a dependence of more than three groups loses some of them',
      edits=[('probayes/dependence.py', "        for field in fields[1:-1]:\n", "        for field in fields[1:2]:\n")],
      demo='''
a, b, c, d = [pb.RV(n, vtype=float, vset=[0., 2.]) for n in 'abcd']
s = pb.SD(a, b, c, d)
assert s.leafs.keylist == ['a', 'b', 'c'] and s.roots.keylist == ['d'], (s.leafs, s.roots)
r = pb.SD(a, b, c)
assert r.leafs.keylist == ['a', 'b']
'''),
 dict(id='s26', prop='C22', needs='a function with declared constants called with a dictionary',
      breaks='constants declared for a function are dropped when it is called with a dictionary',
      edits=[('probayes/expression.py', "      args, kwds = (), {**kwds, **dict(args[0])}\n", "      args, kwds = (), dict(args[0])\n")],
      demo='''
from probayes.expression import Expression
e = Expression(lambda x, k=0.: x + k, k=3.)
assert e({'x': 1.}) == 4., e({'x': 1.})
assert e(x=1.) == 4.
'''),
]
