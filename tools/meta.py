"""Source of properties.jsonl and MANIFEST.json: run python3 tools/meta.py."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, qtext, why, files, mech, over=('inputs',), state=(), note='', observe=(), level='proof'):
  P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
                why_tests_cant=why, files=files, mech=mech, state=list(state), note=note,
                observe=list(observe), level=level))


prop('C01', 'Converting between probability scales preserves the probability',
     'Every probability scale (a plain coefficient, or a log offset) denotes the underlying probability of a stored '
     'number: the number times the coefficient, or the exponential of the number plus the offset. Rescaling a '
     'scalar or an array of any shape from one scale to any other changes only the representation, so the denoted '
     'probability of every element is unchanged (apart from the documented floor of tiny probabilities on log scales), '
     'the caller\'s array is not modified, and the textual names of scales map onto those denotations.',
     'all finite scales of both kinds, all values and all array shapes',
     'tests convert a handful of numbers on the default linear and log scales only; the claim ranges over every pair '
     'of scales and every value',
     ['probayes/pscales.py'],
     [('eval_pscale', 'probayes/pscales.py'), ('rescale', 'probayes/pscales.py'), ('log_prob', 'probayes/pscales.py'),
      ('exp_logp', 'probayes/pscales.py'), ('prob_coef, logp_coef, logp_offs', 'probayes/pscales.py')])

prop('C02', 'Multiplying probabilities is independent of the scales used',
     'The product of several probability factors denotes the product of the probabilities its factors denote, '
     'whatever mixture of linear and log scales with whatever coefficients and offsets the factors are given on and '
     'whatever scale is requested for the result. When no scale is requested the reported output scale is one on '
     'which the returned numbers denote that product, and scalar factors combine with array factors element by element.',
     'all numbers of factors in the proved range, all scales, values and extents',
     'tests multiply factors on one shared scale; mixtures, offsets and requested scales form an unbounded space',
     ['probayes/pscales.py'],
     [('prod_pscale', 'probayes/pscales.py'), ('prod_rule', 'probayes/pscales.py'), ('iscomplex', 'probayes/pscales.py')])

prop('C03', 'Dividing probabilities is independent of the scales used',
     'The quotient of two probability arrays denotes the ratio of the probabilities they denote, on whichever scale '
     'is requested for the result and whichever scales numerator and denominator are given on.',
     'all scales of both operands and of the result, all positive denominators and all extents',
     'tests divide on equal scales only',
     ['probayes/pscales.py'],
     [('div_prob', 'probayes/pscales.py')])

prop('C04', 'Requested grids over an interval are exactly the equally spaced ones',
     'Asking for n points between two limits yields exactly n equally spaced, strictly increasing points: the limits '
     'themselves where they are included, one step inside where they are excluded. Asking for random points yields '
     'the requested number of values (or one scalar) within the limits.',
     'all limits, all n and all inclusion flags',
     'tests look at a few grid sizes; spacing and end-point inclusion must hold for every n and every limit',
     ['probayes/vtypes.py'],
     [('uniform', 'probayes/vtypes.py')])

prop('C05', 'A declared variable has exactly the domain that was declared',
     'The limits, length, log volume and membership test of a variable are those of the declared set: a discrete '
     'variable contains exactly the listed values and an interval contains its end points exactly where they are not '
     'given in parentheses, whichever order the ends are given in. Declaring a variable never alters the collection '
     'passed in, nor variables declared earlier, and a transformation changes the measured length but not membership. A variable given another set '
     'later has that domain exactly.',
     'all intervals with any combination of open and closed ends, all discrete sets in the proved range, all probes',
     'membership is a statement about every value, including the ends and repeated values, which tests do not probe',
     ['probayes/variable.py', 'probayes/vtypes.py'],
     [('Variable.vset setter', 'probayes/variable.py'), ('Variable._eval_vlims', 'probayes/variable.py'),
      ('Variable._eval_ulims', 'probayes/variable.py')],
     over=('inputs', 'configurations'))

prop('C06', 'Evaluating a variable yields values of its domain as requested',
     'Evaluating a discrete variable without values yields its whole set in order, and a request for n values cycles '
     'through that set; a request for n values of an interval yields the n-point grid over it, uniform in the '
     'transformed space when a transformation is set. Random requests yield the requested number of values, all in '
     'the domain and favouring none: uniform over the (transformed) interval, every permutation of a discrete set, and '
     'every selection from it where fewer are requested, as likely as any other. Explicitly given values are passed '
     'through unchanged.',
     'all domains, all requested numbers and all given arrays',
     'tests request a few fixed grid sizes; size, spacing and membership must hold for every request',
     ['probayes/variable.py', 'probayes/vtypes.py', 'probayes/variable_utils.py'],
     [('Variable.evaluate', 'probayes/variable.py'), ('uniform', 'probayes/vtypes.py'),
      ('parse_as_str_dict', 'probayes/variable_utils.py')])

prop('C07', 'A step of a variable moves by the step and respects its bounds',
     'Applying a step to values of a variable adds exactly that step (in the transformed space when a transformation '
     'is set), an explicit zero step included; a bracketed step is drawn evenly from the whole symmetric range and a '
     'parenthesised one is the step or its negative, each half of the time (as is the flip of a Boolean for its '
     'probability); the default step is scaled by the length of the variable when scaling was '
     'requested. With bounding, a step from inside the domain never leaves it: it stops at an included limit and is '
     'refused at an excluded one.',
     'all domains, steps, starting values and extents, scalars and arrays alike',
     'the boundary cases (landing exactly on an excluded limit, zero steps, scalar versus array) are not sampled',
     ['probayes/variable.py'],
     [('Variable.set_delta', 'probayes/variable.py'), ('Variable.eval_delta', 'probayes/variable.py'),
      ('Variable.apply_delta', 'probayes/variable.py')])

NA = []
try:
  from meta2 import *  # noqa
except ImportError:
  pass

TECH = ('contract-based deductive verification: contracts executed symbolically against the functions of /repo '
        '(mechanically instrumented on every run), obligations discharged by z3/cvc5')
NOTE = ('Each obligation is a contract over the real functions with symbolic scalars, symbolic array extents and '
        'universally quantified elements; z3 (cvc5 as second opinion) discharges every verification condition on '
        'every run and counter-models are replayed on the unmodified code. Trusted: the engine in /verif/pv, its '
        'element-wise contracts for numpy, real arithmetic for binary64. Obligations marked bounded or concrete-only '
        'in the evidence are stand-ins, not proofs. ')


def main():
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
      a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
      if p['state']:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
      if p['observe']:
        a['observe_at'] = p['observe']
      f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=p['quantifier'],
                              why_tests_cant=p['why_tests_cant'], anchors=a)) + '\n')
      assert len(p['title']) <= 80, p['title']
  na = dict(NA)
  man = dict(version=1, setup_cmd='./setup.sh',
             checks=[dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
                          thorough_cmd='./check.sh %s thorough' % p['id'],
                          technique=TECH, level=p['level'], level_note=NOTE + p['note'])
                     for p in P if p['id'] not in na],
             not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
             notes='No hooks are needed: the checks instrument the source of /repo in memory on every run.')
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()
