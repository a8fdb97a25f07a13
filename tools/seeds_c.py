SEEDS = [
 dict(id='s27', prop='C12', needs='a distribution that is used again after it was sorted',
      breaks='sorting reorders the values of the distribution it is applied to as well',
      edits=[('probayes/pd.py', "    keyidx = np.argsort(ravals)\n", "    keyidx = np.argsort(ravals)\n    ravals.sort()\n"),
             ('probayes/pd.py', "    keyval = ravals[keyidx]\n", "    keyval = ravals\n")],
      demo='''
v = np.array([3., 1., 2.])
d = pb.PD('x', {'x': v}, dims={'x': 0}, prob=np.array([.3, .1, .6]))
s = d.sorted('x')
assert np.allclose(np.ravel(s['x']), [1., 2., 3.])
assert np.allclose(s.prob, [.1, .6, .3])
assert np.allclose(np.ravel(d['x']), [3., 1., 2.]), d['x']
'''),
 dict(id='s28', prop='C07', needs='an array of Boolean values with a random delta',
      breaks='a random step flips all of the Boolean values of an array or none of them',
      edits=[('probayes/variable.py', "          flip = delta > np.random.uniform(size=values.shape)\n",
              "          flip = np.full(values.shape, delta > np.random.uniform())\n")],
      demo='''
x = pb.Variable('x', vtype=bool)
v = x.apply_delta(np.zeros(1000, dtype=bool), [.5])
assert 300 < v.sum() < 700, v.sum()
'''),
 dict(id='s29', prop='C06', needs='many random scalars of a discrete variable',
      breaks='a random scalar is never the last value of the set',
      edits=[('probayes/variable.py', "np.random.randint(0, len(values))", "np.random.randint(0, max(1, len(values) - 1))")],
      demo='''
x = pb.Variable('x', vtype=int, vset=[1, 2, 3])
assert {int(x.evaluate({0})['x']) for _ in range(300)} == {1, 2, 3}
'''),
 dict(id='s30', prop='C17', needs='a random variable given another set after its declaration',
      breaks='the default probability of a variable stays that of the set it was declared with',
      edits=[('probayes/rv.py', "    Variable.vset.fset(self, vset)\n    if self.__def_prob:\n      self._prob = None\n      self._default_prob()\n",
              "    Variable.vset.fset(self, vset)\n    if self.__def_prob and self._prob is None:\n      self._default_prob()\n")],
      demo='''
x = pb.RV('x', vtype=float, vset=[0., 2.])
assert np.allclose(x(1.).prob, .5)
x.vset = [0., 4.]
assert np.allclose(x(1.).prob, .25), x(1.).prob
'''),
 dict(id='s31', prop='C13', needs='an iid product over two axes with a probability scale other than one',
      breaks='the scale of an iid product over several axes is raised to the size of only the first of them',
      edits=[('probayes/pd.py', "      pscale_scaling = np.prod(np.array(self.shape)[prod_axes])\n",
              "      pscale_scaling = np.array(self.shape)[prod_axes[0]]\n")],
      demo='''
p = pb.PD('x,y', {'x': np.arange(2.).reshape(2, 1), 'y': np.arange(3.).reshape(1, 3)}, dims={'x': 0, 'y': 1},
          prob=np.full((2, 3), .5), pscale=2.)
q = p.prod(['x', 'y'])
assert np.isclose(q.pscale, 2.**6), q.pscale
'''),
 dict(id='s32', prop='C09', needs='a marginal requested by one name out of variables whose names contain it',
      breaks='a variable whose name contains that of the one asked for is kept as well',
      edits=[('probayes/pd.py', "    if isinstance(keys, str):\n      keys = [keys]\n\n    # Check keys arg marginal\n    keys = set(keys)\n    dims = set()\n",
              "    if isinstance(keys, str):\n      keys = [key for key in self._marg.keys() if keys in key]\n\n    # Check keys arg marginal\n    keys = set(keys)\n    dims = set()\n")],
      demo='''
d = pb.PD('x,xy', {'x': np.arange(2.).reshape(2, 1), 'xy': np.arange(3.).reshape(1, 3)}, dims={'x': 0, 'xy': 1},
          prob=np.full((2, 3), 1/6.))
assert list(d.marginal('x').keys()) == ['x'], d.marginal('x')
assert np.allclose(d.marginal('x').prob, .5)
'''),
 dict(id='s34', prop='C19', needs='variables given jointly out of order among the names of the joint key',
      breaks='values given jointly are taken in the order of the field rather than that of their key',
      edits=[('probayes/field.py', "        subkeys = key.split(',')\n        for i, subkey in enumerate(subkeys):\n          values_ref[subkey] = [key, i]\n",
              "        subkeys = key.split(',')\n        for i, subkey in enumerate(sorted(subkeys, key=self._keylist.index)):\n          values_ref[subkey] = [key, i]\n")],
      demo='''
x = pb.RV('x', vtype=float, vset=[0., 9.]); y = pb.RV('y', vtype=float, vset=[0., 9.])
d = (x & y)({'y,x': [np.array([1., 2.]), np.array([3., 4.])]})
assert np.allclose(np.ravel(d['x']), [3., 4.]), d['x']
'''),
 dict(id='s35', prop='C23', needs='the samples of a sampler in which proposals were refused, summed into a distribution',
      breaks='repeated values after a refused proposal are left out of the distribution of the samples',
      edits=[('probayes/sp.py', "        if sample.u == False:\n", "        if self._update is not None and not sample.u:\n")],
      demo='''
np.random.seed(0)
x = pb.RV('x', vtype=float, vset=(-np.inf, np.inf))
p = pb.SP(x)
p.set_prob(lambda x: np.exp(-x * x))
p.set_tran(lambda **kwds: 1.)
p.set_delta(lambda: p.Delta(x=np.random.normal(0., 3.)))
p.set_scores('hastings')
p.set_update('metropolis')
samples = [s for s in p.sampler({'x': 0.}, stop=100)]
assert any(s.u is None for s in samples)
assert len(np.ravel(p(samples).v['x'])) == 100, len(np.ravel(p(samples).v['x']))
'''),
 dict(id='s36', prop='C20', needs='a bounded step of several variables',
      breaks='bounds are only applied to the first variable of a field',
      edits=[('probayes/field.py', "                                                    bound=bound)})\n",
              "                                                    bound=bound and not i)})\n")],
      demo='''
x = pb.Variable('x', vtype=float, vset=[0., 1.]); y = pb.Variable('y', vtype=float, vset=[0., 1.])
f = pb.Field(x, y)
f.set_delta([.5], bound=True) if False else f.set_delta(.5, bound=True)
v = f.apply_delta({'x': .8, 'y': .8})
assert v['x'] <= 1. and v['y'] <= 1., v
'''),
 dict(id='s37', prop='C11', needs='a factor whose variables are declared against the order of its axes',
      breaks='factors whose variables appear in the order of the product are not transposed though their axes are in another',
      edits=[('probayes/pd_utils.py', "      if len(old_dims) > 1 and not old_dims == new_dims:\n",
              "      if len(old_dims) > 1 and not new_dims == sorted(new_dims):\n")],
      demo='''
p = np.array([[.1, .2, .3], [.4, .5, .6]])
a = pb.PD('y,x', {'y': np.arange(3.).reshape(1, 3), 'x': np.arange(2.).reshape(2, 1)}, dims={'y': 1, 'x': 0}, prob=p)
b = pb.PD('z', {'z': np.arange(2.)}, dims={'z': 0}, prob=np.array([.5, .25]))
d = a * b
for i in range(2):
  for j in range(3):
    q = d({'x': float(i), 'y': float(j), 'z': 1.}).prob
    assert np.isclose(float(np.ravel(q)[0]), p[i, j] * .25), (i, j, q)
'''),
 dict(id='s38', prop='C21', needs='conditional sampling of a multivariate normal whose mean is not zero',
      breaks='limits relative to the mean are compared with a conditional mean that is not',
      edits=[('probayes/cond_cov.py', "    lims = scipy.stats.norm.cdf(self._lims[idx], loc=offs, scale=stdv)\n",
              "    lims = scipy.stats.norm.cdf(self._lims[idx], loc=mean, scale=stdv)\n")],
      demo='''
from probayes.cond_cov import CondCov
c = CondCov([1., -1.], [[1., .5], [.5, 1.]], [[-4., 4.], [-4., 4.]])
import scipy.stats
v = c.interp({5}, -1.)
n = scipy.stats.norm(1., np.sqrt(.75))
assert np.allclose(n.cdf(v), np.linspace(n.cdf(-4.), n.cdf(4.), 5)), v
'''),
 dict(id='s39', prop='C18', needs='a pair of callable transition functions evaluated in reverse',
      breaks='the reverse of a pair of transition functions is evaluated by the forward one',
      edits=[('probayes/rv.py', "             self._tran[int(reverse)]\n      kwds = {self._name: pred_vals,\n",
              "             self._tran[0]\n      kwds = {self._name: pred_vals,\n")],
      demo='''
x = pb.RV('x', vtype=float, vset=[-9., 9.])
x.set_tran((lambda **k: .25, lambda **k: .75))
x.set_delta(1.)
assert np.isclose(float(x.step(1., 2.).prob), .25)
assert np.isclose(float(x.step(1., 2., reverse=True).prob), .75)
'''),
]
