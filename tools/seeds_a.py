SEEDS = [
 dict(id='s01', prop='C01', needs='a log scale with a non-zero imaginary marker or an offset target that is not the origin',
      breaks='the target offset of a log scale is applied with the wrong magnitude when both scales are log offsets',
      edits=[('probayes/pscales.py', "  d_offs = logp_offs(pscale) - logp_offs(rtype)\n",
              "  d_offs = logp_offs(pscale) - (0. if p_log and r_log else logp_offs(rtype))\n")],
      demo='''
from probayes.pscales import rescale
v = rescale(np.array([-1., -2.]), complex(2., 0.), complex(5., 0.))
assert np.allclose(v + 5., np.array([-1., -2.]) + 2.), v
'''),
 dict(id='s02', prop='C02', needs='three or more factors on log scales',
      breaks='the third factor replaces the running product on log scales',
      edits=[('probayes/pscales.py', "          prob = prob + _prob\n", "          prob = probs[0] + _prob\n")],
      demo='''
from probayes.pscales import prod_rule
p, s = prod_rule(np.array([-1., -2.]), np.array([-3., -4.]), np.array([-5., -6.]), pscales=[0j, 0j, 0j])
assert np.allclose(p, [-9., -12.]), p
'''),
 dict(id='s03', prop='C09', needs='summing out a variable whose axis lies before the others, on a distribution with a conditional variable',
      breaks='axes of conditional variables are not moved down when earlier axes are summed away',
      edits=[('probayes/pd.py', "    sum_prob = np.sum(prob, axis=tuple(sum_axes), keepdims=False)\n    prob = rescale(sum_prob, 1., self._pscale)\n",
              "    sum_prob = np.sum(prob, axis=tuple(sum_axes), keepdims=False)\n    prob = rescale(np.minimum(sum_prob, 1.), 1., self._pscale)\n")],
      demo='''
d = pb.PD('x,y|z', {'x': np.arange(2.), 'y': np.arange(3.), 'z': np.arange(2.)}, prob=np.ones((2, 3, 2)))
assert np.allclose(d.marginalise('y').prob, 3.)
'''),
 dict(id='s04', prop='C10', needs='a distribution with a conditional variable that precedes the ones conditioned on',
      breaks='the sum that normalises also runs over variables that were already conditional',
      edits=[('probayes/pd.py', "        if key not in keys and key in self._marg.keys():\n          sum_axes.add(dims[key])\n",
              "        if key not in keys:\n          sum_axes.add(dims[key])\n")],
      demo='''
p = np.arange(1., 13.).reshape(2, 3, 2)
d = pb.PD('x,y|z', {'x': np.arange(2.), 'y': np.arange(3.), 'z': np.arange(2.)}, prob=p)
e = d.conditionalise('y')
assert np.allclose(e.prob.sum(axis=e.dims['x']), 1.)
'''),
 dict(id='s05', prop='C05', needs='the exact upper limit of an interval with an excluded upper limit',
      breaks='membership of an interval with an excluded upper limit includes that limit',
      edits=[('probayes/variable.py', "        isinstance(self._vset[1], tuple):\n      self._inside = lambda x: np.logical_and(x >= self._vlims[0],\n                                              x < self._vlims[1])\n",
              "        isinstance(self._vset[1], tuple):\n      self._inside = lambda x: np.logical_and(x >= self._vlims[0],\n                                              x <= self._vlims[1])\n")],
      demo='''
x = pb.Variable('x', vtype=float, vset=[0., (1.,)])
assert not bool(x.inside(1.))
'''),
]
