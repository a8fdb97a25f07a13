import sys
prop = sys.modules["__main__"].prop

prop('C09', 'Summing a variable out of a distribution adds up exactly its values',
     'Summing variables out of a distribution leaves, at every combination of values of the remaining variables, '
     'exactly the sum of the probabilities over all values of the removed ones; the remaining variables keep their '
     'values and remain marginal or conditional as before. This holds whatever order the axes are laid out in, when '
     'variables share an axis, with scalar variables present and on every probability scale; asking for the marginal of some '
     'variables is the same as summing out the others, and removing a scalar, a conditional variable, or only part of '
     'an axis is refused. The distribution summed is left as it was.',
     'all probability arrays and extents; all axis orders, sharing patterns and subsets for up to four variables',
     'tests marginalise two-variable distributions with axes in key order',
     ['probayes/pd.py', 'probayes/distribution.py'],
     [('PD.marginalise', 'probayes/pd.py'), ('PD.marginal', 'probayes/pd.py')],
     note='Number of variables bounded by four; the extents are not bounded. ')

prop('C10', 'Conditioning a distribution divides by the probability of the condition',
     'Conditioning a joint distribution on some of its variables yields, at every combination of values, the joint '
     'probability divided by the probability of the values conditioned on (given the variables that were already '
     'conditional), and the result sums to one over the remaining marginal variables. The variables conditioned on '
     'become conditional and keep their values, whatever the order or sharing of the axes and the probability scale; conditioning on '
     'scalars normalises the rest. The distribution conditioned is left as it was.',
     'all probability arrays with non-negligible totals, all extents; all axis orders and key subsets for up to four variables',
     'tests condition one two-variable distribution; which axes are summed depends on layouts tests do not vary',
     ['probayes/pd.py', 'probayes/distribution.py', 'probayes/pscales.py'],
     [('PD.conditionalise', 'probayes/pd.py'), ('Distribution.redim', 'probayes/distribution.py')],
     note='Number of variables bounded by four; extents are not bounded (three-variable cases from extent 2 in the '
          'quick tier). Conditioning log-scaled distributions on scalars is a concrete-only stand-in. ')

prop('C11', 'Multiplying distributions joins them by the product rule',
     'The product of two or more distributions has, at every combination of values, the product of the factors\' '
     'probabilities at those values: factors are aligned by variable and value whatever the order in which their axes are laid out or '
     'shared and whatever probability scales they use, and the result is on the requested scale. A variable is conditional in the '
     'result only if no factor has it as marginal; products that are not defined (a marginal variable twice, '
     'disagreeing values of a shared variable) are refused. The factors are left as they were.',
     'all probability arrays, values and extents; enumerated layouts of up to three factors and four variables',
     'tests multiply a couple of distributions with distinct axes in order and never with requested scales',
     ['probayes/pd_utils.py', 'probayes/pd.py', 'probayes/pscales.py', 'probayes/distribution.py'],
     [('product', 'probayes/pd_utils.py'), ('PD.__mul__', 'probayes/pd.py'), ('prod_rule', 'probayes/pscales.py')],
     note='Layouts are enumerated (up to three factors, four variables); extents and contents are not bounded. ')

prop('C12', 'Rearranging or slicing a distribution keeps probabilities with values',
     'Rearranging a distribution (reordering its axes, renaming its variables, changing its probability scale, sorting by a variable) '
     'never changes the probability attached to any combination of values; rescaling changes only how it is '
     'expressed. Selecting values of some variables, or looking up values, yields exactly the entries at those values, with every '
     'remaining variable aligned to its axis and values, and rearrangements that would merge or lose variables are refused. The original is left as it was.',
     'all probability arrays, values and extents; enumerated layouts of up to three variables',
     'tests redim or slice one two-dimensional distribution with distinct axes in key order',
     ['probayes/pd.py', 'probayes/distribution.py', 'probayes/pd_utils.py'],
     [('PD.redim', 'probayes/pd.py'), ('PD.rekey', 'probayes/pd.py'), ('PD.rescaled', 'probayes/pd.py'),
      ('PD.sorted', 'probayes/pd.py'), ('PD.__call__', 'probayes/pd.py')],
     note='Layouts are enumerated; extents and contents are not bounded. ')

prop('C13', 'Products over samples, expectations and quantiles agree with the distribution',
     'Multiplying a distribution along the axes of independent samples leaves the product of the probabilities over those '
     'samples on the matching scale, with the number of samples kept and the other variables unchanged. The expectation of a '
     'variable (or a power of it) is the probability-weighted average of its values under the normalised distribution, and a quantile lies '
     'between the neighbouring values at which the cumulative distribution crosses the requested level. None of these changes the distribution.',
     'all probability arrays, values and extents; enumerated layouts and scales',
     'tests take the expectation of one distribution with one axis order and exponent',
     ['probayes/pd.py', 'probayes/pd_utils.py', 'probayes/pscales.py'],
     [('PD.prod', 'probayes/pd.py'), ('PD.expectation', 'probayes/pd.py'), ('PD.quantile', 'probayes/pd.py')],
     note='Layouts are enumerated; quantile is a concrete-only stand-in for one-dimensional distributions. ')

prop('C08', 'A distribution is laid out as declared, or refused',
     'However a distribution is built, each variable lies along exactly the axis declared for it (in order of declaration by '
     'default) with the values given, scalars take no axis, and the reported axes, shape, sizes, singleton status and names of marginal and conditional '
     'variables agree with those values; names with or without parentheses read back as the same variables. Probabilities whose shape does not fit the values, axes that are missing or leave gaps, '
     'and variables of different length on one axis are refused; the caller\'s own containers are left as they were.',
     'all values and extents; enumerated layouts of up to three variables',
     'tests build distributions with axes in key order and never check what is refused',
     ['probayes/distribution.py', 'probayes/pd.py', 'probayes/pd_utils.py'],
     [('Distribution.dims', 'probayes/distribution.py'), ('PD.prob', 'probayes/pd.py'), ('PD.dims', 'probayes/pd.py'),
      ('str_margcond', 'probayes/pd_utils.py'), ('margcond_str', 'probayes/pd_utils.py')],
     note='Layouts and names are enumerated; extents and contents are not bounded. ')

prop('C14', 'Dividing distributions conditions on the divisor\'s variables',
     'Dividing a joint distribution by the distribution of some of its variables yields, at every combination of values, the '
     'quotient of the two probabilities at the same values of the shared variables, whatever the order or sharing of the axes of either operand and whatever '
     'their probability scales. The divisor\'s marginal variables become conditional, all values are kept, the result is on the scale of the dividend, and division by a '
     'distribution with other conditions, other values or unknown variables is refused. Both are left as they were.',
     'all probability arrays, values and extents; enumerated layouts of up to three variables',
     'tests divide two distributions with axes in matching order; misalignment needs other layouts',
     ['probayes/pd.py', 'probayes/pscales.py'],
     [('PD.__truediv__', 'probayes/pd.py'), ('div_prob', 'probayes/pscales.py')],
     note='Layouts are enumerated; extents and contents are not bounded. ')

prop('C15', 'Pooling distributions keeps every outcome with its probability',
     'Adding distributions of single outcomes lists all outcomes with their probabilities in the order given; adding distributions that differ '
     'along one marginal axis joins them along that axis, whatever axes they are laid out along; numbers of '
     'samples add up. Redistributing a distribution over the cells of other variables puts into each cell exactly the sum of the '
     'probabilities that map to it, so that no mass is lost, for every value of the conditional variables. Operands that differ in scale, variables, conditions or along several axes '
     'are refused. Operands are left as they were.',
     'all probabilities, values and extents; up to five operands',
     'tests pool samples of one shape; lost or misplaced mass needs other layouts',
     ['probayes/pd.py', 'probayes/pd_utils.py'],
     [('summate', 'probayes/pd_utils.py'), ('PD.remarginalise', 'probayes/pd.py')],
     note='Number of operands bounded (five outcomes, three arrays); remarginalise is proved for all sizes by a loop invariant. ')

prop('C16', 'Proposed moves are accepted with the Metropolis-Hastings probability',
     'The score of a proposed move is min(1, p(successor)/p(predecessor)) for Metropolis samplers and '
     'min(1, p(successor) q(predecessor|successor) / (p(predecessor) q(successor|predecessor))) for Hastings samplers, on every probability '
     'scale; impossible successors and irreversible proposals score zero; without a reverse proposal the proposal counts as symmetric. A move is '
     'accepted exactly when its score reaches the threshold, the first move and Gibbs moves always, and thresholds lie between zero and one.',
     'all positive probabilities and scales',
     'tests only run samplers and never compare the acceptance rule with its definition',
     ['probayes/sp_utils.py', 'probayes/pscales.py'],
     [('hastings_scores', 'probayes/sp_utils.py'), ('metropolis_scores', 'probayes/sp_utils.py'), ('div_prob', 'probayes/pscales.py')],
     note='Scalar distributions with probabilities representable as floating point numbers. ')

prop('C17', 'A random variable evaluates to the probabilities it was given',
     'Without a given probability a random variable is uniform: density one over the length inside its interval (and zero outside, open and closed '
     'ends respected), probability one over the number of elements for each element of a discrete set and zero elsewhere; under a change of variable without '
     'covariance transformation the density is |du/dx| over the transformed length. A Boolean variable given a probability is True with that probability, and its random values are. A given '
     'function is evaluated at the values with its constants; values requested under a scipy or sympy distribution are its quantiles, random ones drawn '
     'evenly in probability, and a probability set again replaces all of the earlier one, its sampling included. All hold on every probability scale, a requested scale is the one used for the result, and the '
     'distribution returned carries the values and the scale.',
     'all limits, values, biases and scales; domains of up to 5 integers; ten scipy and sympy distributions',
     'tests evaluate one or two variables on the default scale',
     ['probayes/rv.py', 'probayes/prob.py', 'probayes/rv_utils.py', 'probayes/variable.py'],
     [('RV._default_prob', 'probayes/rv.py'), ('RV.set_prob', 'probayes/rv.py'), ('RV.eval_prob', 'probayes/rv.py'),
      ('uniform_prob', 'probayes/rv_utils.py'), ('Prob.eval_prob', 'probayes/prob.py')],
     note='Values at which a change of variable is evaluated lie in the domain; a Boolean bias is at least 2**-10 away from 0 and 1 (log scale). ')

prop('C18', 'Transitions have the probability specified and are sampled accordingly',
     'The conditional probability of a step of a random variable is the matrix entry at the row of the successor and the column of the predecessor, '
     'the scalar within the domain (zero outside), or the value of the function at every pair of predecessor and successor, on the scale of the variable; '
     'of a pair of transitionals the second serves reverse steps. A successor sampled at level u is the state at which the conditional cumulative '
     'probability first exceeds u, whatever the scale; on intervals it is the inverse conditional CDF at u. The returned distribution relates '
     'successors to predecessors with the axes of each in place.',
     'all matrices over two or three states, all values, levels and limits, all array sizes',
     'tests never take a step; examples plot random walks',
     ['probayes/rv.py', 'probayes/rv_utils.py'],
     [('RV.step', 'probayes/rv.py'), ('RV.eval_step', 'probayes/rv.py'), ('RV.eval_tran', 'probayes/rv.py'),
      ('matrix_cond_sample', 'probayes/rv_utils.py'), ('lookup_square_matrix', 'probayes/rv_utils.py'), ('uniform_prob', 'probayes/rv_utils.py')],
     note='Matrices of two or three states; levels below one. ')

prop('C19', 'A random field evaluates to the joint probability of every combination',
     'Evaluating a random field gives a distribution over its variables whose probability at every combination of their values is the product of the probabilities of '
     'the variables, or the value of the given joint function (with its constants, by name or stated order) or multivariate scipy distribution in the order of the variables. '
     'Each variable given an array has an axis of its own, variables given jointly share one and are paired element by element, scalars and sampled scalars have none; '
     'values are kept as given, whichever way and order they are addressed, and names that no variable of the field has are refused. Variables on different scales multiply as probabilities, a scale requested for the field is the one '
     'used, and evaluation as independent and identically distributed samples multiplies over the samples.',
     'all values, array sizes, scales and function parameters; fields of up to three variables',
     'tests evaluate a few fields on one grid each',
     ['probayes/rf.py', 'probayes/field.py', 'probayes/rf_utils.py', 'probayes/prob.py', 'probayes/expression.py'],
     [('Field.evaluate', 'probayes/field.py'), ('Field.parse_args', 'probayes/field.py'), ('RF.eval_prob', 'probayes/rf.py'),
      ('RF.__call__', 'probayes/rf.py'), ('rv_prod_rule', 'probayes/rf_utils.py'), ('Expression._call', 'probayes/expression.py')],
     note='Fields of up to three variables; probabilities positive. ')

prop('C20', 'Deltas move every variable of a field as specified',
     'A fixed delta of a field moves every variable by it, a list draws each step evenly and independently from the symmetric range, a tuple is a joint step of that length; scaling multiplies by '
     'the length of the variable, deltas given by variable name (or dictionary, or Delta) apply to that variable in the form given (fixed or drawn) and unscaled where documented; bounded steps stay in the domain; '
     'callable deltas and explicit deltas are used as given; with a triangular transition factor the steps are that factor times independent ones. '
     'Subfields contain exactly the variables selected.',
     'all limits, lengths, deltas, values and draws; fields of up to three variables',
     'tests never step a field',
     ['probayes/field.py', 'probayes/variable.py', 'probayes/rf.py'],
     [('Field.set_delta', 'probayes/field.py'), ('Field.eval_delta', 'probayes/field.py'), ('Field.apply_delta', 'probayes/field.py'),
      ('RF.eval_delta', 'probayes/rf.py'), ('Variable.apply_delta', 'probayes/variable.py')],
     note='Fields of up to three variables; scaled spherical deltas outside; draws are not all zero. ')

prop('C21', 'Conditional sampling replaces each variable given the latest others',
     'Stepping a field by its conditional function replaces the variables one after another in the order of the field, whatever order their values are given in, each by the value of the '
     'function at the latest values of all the others; with tsteps only that many at a step, the next step carrying on where the last one stopped. '
     'With a multivariate normal transition each variable is drawn from its normal distribution given the others (conditional mean and standard deviation), '
     'truncated to the limits of the variable: a sample lies within them, at the level drawn uniformly between (or spaced evenly over) the probabilities of the limits. '
     'Exactly one variable is sampled at a time.',
     'all values, means, covariances and limits; two or three variables',
     'tests never step a field; examples only plot the samples',
     ['probayes/cond_cov.py', 'probayes/rf.py', 'probayes/rf_utils.py', 'probayes/cf.py'],
     [('CondCov.interp', 'probayes/cond_cov.py'), ('RF.eval_tfun', 'probayes/rf.py'), ('RF.eval_step', 'probayes/rf.py'),
      ('RF.set_tfun', 'probayes/rf.py'), ('sample_cond_cov', 'probayes/rf_utils.py')],
     note='scipy.stats.norm by contract (increasing cdf, ppf its inverse); conditionals declared by an explicit mapping are outside. ')

prop('C22', 'Expressions receive exactly the arguments declared for them',
     'A function wrapped as an expression is called once with the arguments of the call, by position and by name, and the constants declared with it. An order mapping moves each argument named '
     'to its position, renames it or leaves it out, and a delta mapping passes primed names as differences, all of them at once, whatever the names and order of the mapping; other arguments pass unchanged. '
     'A tuple is indexed by position and a dictionary by key; what cannot be called is returned as it is. '
     'Expressions of symbols evaluate to their value, elementwise over arrays, at the values given by name or by position in the order of names. '
     'A functional calls each function with the inputs declared for it.',
     'all values and array sizes; mappings of up to three arguments',
     'tests evaluate a few one-argument expressions',
     ['probayes/expression.py', 'probayes/expr.py', 'probayes/func.py', 'probayes/cf.py', 'probayes/functional.py', 'probayes/prob.py'],
     [('Expression._call', 'probayes/expression.py'), ('Expression.__getitem__', 'probayes/expression.py'), ('Func._call', 'probayes/func.py'),
      ('Expr.__call__', 'probayes/expr.py'), ('Functional._set_partials', 'probayes/functional.py')],
     note='Mappings of up to three arguments; one polynomial stands for expressions of symbols (sympy by contract). ')

prop('C23', 'Samplers of stochastic processes are Markov chains',
     'Each sample of a process with transitions proposes a step from the current state; its score is the Metropolis ratio of the probabilities of the proposal and of the current state, '
     'or the Hastings ratio corrected by the reverse and forward proposal probabilities, limited to one, on whatever scale the probabilities are; the state becomes the proposal if the score reaches a '
     'threshold drawn uniformly from zero to one, or else remains; the first proposal is always accepted and Gibbs proposals always. '
     'A sampler yields as many samples as asked for, walks continue where the walk before ended, and samplers of one process do not affect each other. '
     'Rejection sampling proposes values afresh for every sample. Summaries comprise the samples in order, without those rejected outright.',
     'all states, steps, probability functions and transition functions of one or two variables; linear and log scales',
     'tests run a few seeded chains and look at their means',
     ['probayes/sp.py', 'probayes/sp_utils.py', 'probayes/sd.py', 'probayes/sd_utils.py', 'probayes/rf.py', 'probayes/pd_utils.py'],
     [('SP.next', 'probayes/sp.py'), ('SP.__call__', 'probayes/sp.py'), ('SP.walk', 'probayes/sp.py'), ('hastings_scores', 'probayes/sp_utils.py'), ('metropolis_scores', 'probayes/sp_utils.py'),
      ('SD._sample_tran', 'probayes/sd.py'), ('SD._sample_prop', 'probayes/sd.py'), ('RF.reval_tran', 'probayes/rf.py')],
     note='Up to three steps from an arbitrary state, and by induction any number: the state of a sampler is its last accepted sample. Probability and transition functions are opaque functions with values from 1/64 to 64. ')

prop('C24', 'Dependences evaluate conditionals, joints and products of them',
     'Conditioning variables or fields on others, by operator or constructor, in whatever order and number, makes what stands left the leafs and what stands right the roots, with an edge from every root to every leaf. '
     'Evaluating a dependence gives the distribution of its leafs conditional on its roots, whose probability at every combination of values is that of its function; '
     'joint evaluation multiplies it by the probability of the roots, once also for identically distributed leafs; dependences of the same leafs on different roots multiply. '
     'All of it on whichever scale the probabilities are.',
     'all values, array sizes and coefficients; up to three variables in evaluations and four in structures',
     'tests evaluate none of the conditional or joint probabilities against their values',
     ['probayes/sd.py', 'probayes/dependence.py', 'probayes/sd_utils.py', 'probayes/ops.py', 'probayes/rv.py', 'probayes/rf.py', 'probayes/pd_utils.py'],
     [('SD.__call__', 'probayes/sd.py'), ('SD.set_prob', 'probayes/sd.py'), ('Dependence.def_deps', 'probayes/dependence.py'), ('Dependence._refresh', 'probayes/dependence.py'),
      ('Dependence.eval_dist_name', 'probayes/dependence.py'), ('arch_prob', 'probayes/sd_utils.py'), ('and_op', 'probayes/ops.py'), ('or_op', 'probayes/ops.py')],
     note='Probability functions are linear forms with symbolic coefficients; serial architectures cannot be evaluated by the code and are covered in structure only. ')

prop('C25', 'Tables of probabilities are indexed by the values asked for',
     'A table of probabilities sliced by values given by name returns the entries at these values, whether single values or all of them, along the dimensions specified, in whatever order the variables are. '
     'Frequencies of boolean permutations are the numbers of rows equal to them plus the baseline, relative ones sum to one, and the probability function made of them returns the relative frequency of the values asked for. '
     'Integers and binary arrays convert into each other.',
     'all tables of up to three variables; all data of up to four rows, and random data of up to 200',
     'tests use one table in the order it was declared',
     ['probayes/likelihoods.py', 'probayes/rf_utils.py'],
     [('bool_perm_freq', 'probayes/likelihoods.py'), ('slice_by_keyvals', 'probayes/rf_utils.py'), ('int_to_bin', 'probayes/likelihoods.py'), ('bin_to_int', 'probayes/likelihoods.py')],
     note='Counts are bounded stand-ins (up to four rows exhaustively, up to 200 rows at random); conversion from integers is tested at random. ')

prop('C26', 'Distributions survive serialisation',
     'A distribution serialised in memory or written to a file is read back with the same variables in the same marginal and conditional roles, values, dimensions, probabilities and scale, '
     'unspecified sets included, and is not changed by it; several distributions come back in the order they were given, and auxiliary arrays with their values.',
     'all values and array sizes of distributions of up to three variables, on every scale',
     'tests do not serialise',
     ['probayes/pd_utils.py', 'probayes/pd.py', 'probayes/distribution.py'],
     [('serialise', 'probayes/pd_utils.py'), ('deserialise', 'probayes/pd_utils.py'), ('write_serialised', 'probayes/pd_utils.py'), ('read_serialised', 'probayes/pd_utils.py'),
      ('PD.serialise', 'probayes/pd.py'), ('Distribution.serialise', 'probayes/distribution.py')],
     note='h5py by contract in proofs (groups keep arrays, attributes and key order); real files in scratch folders in the tests of each contract. ')

NA = []
