#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json for the properties that have a scenario module."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, O, S, U, N, A, K, C, G = ('kernelmethods/%s.py' % n for n in (
    'base', 'operations', 'sampling', 'utils', 'numeric_kernels', 'algorithms', 'ranking', 'categorical', 'config'))
I, H, F, CF = 'inputs', 'histories', 'fault_sequences', 'configurations'

P = []


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


p('C01', 'Every view of a one-sample kernel matrix shows the kernel function itself',
  'Once a kernel matrix is attached to one sample, every way of reading it (single elements, slices, lists of rows, '
  'flat indices, the whole matrix dense or sparse, the diagonal) returns exactly the value of the kernel function on '
  'the samples at those positions, and the matrix is symmetric. This is so whatever was read before, in which order, '
  'and in whichever form (dense or sparse) it was asked for first.',
  [I, H], 'all samples and kernel values, all selections, all sequences of reads',
  'Tests read a handful of elements on one random sample in a single order; a stale or transposed cache entry shows '
  'only after particular sequences of reads.', [B],
  [('lazy cache of elements and of the full matrix', 'KernelMatrix.__getitem__, _eval_kernel, _populate_fully'),
   ('index parsing', 'KernelMatrix._get_indices_in_sample')])
p('C02', 'A kernel matrix between two samples has rows from one, columns from the other',
  'A kernel matrix attached to two samples has as many rows as the first and columns as the second, and every view of '
  'it returns at row i and column j the kernel function of sample i of the first and j of the second, never a value '
  'for the transposed position. This holds whatever was read before and for equal or different sample counts.',
  [I, H], 'all pairs of samples, all selections, all sequences of reads',
  'The tests check a few shapes; a swapped or shared cache entry needs specific positions and an asymmetric pair.',
  [B], [('two-sample cache keys', 'KernelMatrix._eval_kernel'), ('shape bookkeeping', 'KernelMatrix.attach_to')])
p('C03', 'Invalid selections from a kernel matrix are refused and change nothing',
  'A selection that is out of range, negative, empty, of the wrong type or with the wrong number of indices is '
  'refused with an access error, never answered with values from other positions. Valid selections are never '
  'refused, and after a refusal the matrix answers as before.',
  [I, H], 'all integers, slices, lists and types as indices, after any reads',
  'Tests try a dozen hand-picked bad indices on one matrix size; boundaries at each size and mixed forms are not reached.',
  [B], [('bounds and type checks', 'KernelMatrix._get_indices_in_sample, _get_row_or_col')])
p('C04', 'The kernel function is evaluated lazily and at most once per pair of samples',
  'Reading elements evaluates the kernel function only on the pairs asked for, each at most once per attachment, '
  '(x, y) and (y, x) counting as one pair within one sample; attaching alone evaluates nothing. The evaluations made '
  'are with the very samples at those positions.',
  [H, I], 'all sequences of reads of any form',
  'Tests look at one counter after one access; recomputation after particular read orders is not observed.',
  [B], [('element cache', 'KernelMatrix._eval_kernel'), ('full matrix cache', 'KernelMatrix._populate_fully')])
p('C05', 'Attaching again starts afresh; a rejected attachment changes nothing',
  'After a kernel matrix is attached to new data, every view, norm, centered or normalised form and attribute refers '
  'to the new data only, exactly as for a newly built matrix. If the new data is rejected, the matrix continues to '
  'answer as before.',
  [H, I], 'all sequences of reads and attachments, to one or two samples, of any sizes, valid or not',
  'Tests attach once or twice; whether some derived quantity survives an attachment depends on what was read before.',
  [B], [('reset of caches and flags', 'KernelMatrix.attach_to, KernelMatrix.__init__')])
p('C06', 'Cosine normalisation divides by roots of the diagonal and keeps the raw data',
  'The normalised form of a kernel matrix has at (i, j) the raw value divided by the square root of the product of the '
  'two diagonal values, so ones on the diagonal; between two samples, each row and column is scaled by the kernel of '
  'that sample with itself. A non-positive diagonal is refused as documented, other methods are refused, and asking '
  'for it never alters the raw element values.',
  [I, H], 'all matrices with positive diagonals, all orders of reading and normalising',
  'Tests check that one random matrix has a unit diagonal; off-diagonal values, order of operations and '
  'two-sample scaling are not.', [B, O],
  [('normalisation', 'KernelMatrix.normalize, operations.normalize_km, normalize_km_2sample')])
p('C07', 'Centering is exactly the double centering of the raw matrix',
  'The centered form of a kernel matrix is HKH with H = I - 11\'/n: each of its rows and columns sums to zero, it is '
  'symmetric, and centering again changes nothing. The raw matrix is left as it was, and matrices that cannot be '
  'centered (non-square, between two samples, wrong centering matrix) are refused.',
  [I, H], 'all real matrices of the sizes bound, all orders of reads',
  'Tests center a couple of random matrices and look at the mean.', [B, O],
  [('centering', 'operations.center_km, KernelMatrix.center')])
p('C08', 'Frobenius products, norms and centered alignments have their defining values',
  'Frobenius products, norms and the alignment of two kernel matrices, centered or not, have the values of their '
  'definitions, so they are symmetric, the alignment of a matrix with itself is one, and scaling by a positive number '
  'changes no alignment. Matrices of different or unusable shape are refused, and the matrices are left as they were.',
  [I, H], 'all real matrices of the sizes bound', 'Tests check one value on random data within a loose tolerance.',
  [B, O, S], [('alignment', 'operations.alignment_centered, frobenius_product, frobenius_norm'),
              ('norm cache', 'KernelMatrix.frob_norm')])
p('C09', 'Composites and linear combinations combine all members elementwise',
  'The sum, product, average, weighted average and linear combination of a set of kernel matrices has at each position '
  'the combination of the members\' values at that position, each member counted once with its own weight, in the '
  'order of the set. The members are left as they were, and wrong numbers of weights or empty or incompatible sets are '
  'refused.', [I, H], 'all members, weights and set sizes within the bounds, all orders of fitting and reading',
  'Tests combine a few random matrices with default weights.', [B, O],
  [('composites', 'CompositeKernel and subclasses fit()'), ('combination', 'operations.linear_combination')])
p('C10', 'A set of kernel matrices holds exactly what was added, in order, all compatible',
  'A set of kernel matrices keeps its members in the order added however it is read, and gives back those asked for in '
  'the order asked; attaching it attaches every member to the sample. A member over a different number of samples, '
  'an invalid member or index is refused, leaving the set as it was.',
  [H, I], 'all sequences of additions, extensions, selections and attachments within the bounds',
  'Tests build a few sets from compatible members and check sizes only.', [B, S],
  [('compatibility', 'KernelSet.append, is_compatible'), ('selection', 'KernelSet.take, get_kernel_funcs')])
p('C11', 'Each numeric kernel computes its textbook formula and is symmetric',
  'The polynomial, Gaussian, Laplacian, chi-squared, sigmoid, Hadamard and linear kernels return, for any two vectors '
  'of equal length and any valid parameters, the value of their documented formula, the same for both orders of the '
  'arguments, and leave their arguments as they were. Invalid parameters are refused when the kernel is made.',
  [I, CF], 'all real vectors (up to the stated lengths) and parameters',
  'Tests check only that some results are finite numbers, or one value.', [N],
  [('formulas', '__call__ of each kernel class'), ('parameter checks', '_check_param(s)')])
p('C12', 'Integer data gives the same results as the same numbers in floating point',
  'Kernels, kernel matrices, Frobenius products, centering, normalisation, combinations and target kernels of integer '
  'or boolean data of any width have the value they have on the same real numbers; nothing wraps around or is '
  'truncated silently.', [I], 'all integers of each type over its range (64-bit up to 2^40)',
  'Tests use floating-point samples from a random generator, almost never near the limits of a narrow integer type.',
  [U, N, O, S, K], [('input checks', 'utils.check_input_arrays'), ('target kernels', 'sampling.ideal_kernel')])
p('C13', 'Malformed kernel inputs are refused rather than computed with',
  'Vectors of unequal length, of more than one dimension, or not convertible to numbers are refused by every numeric '
  'kernel, as are negative features by the chi-squared kernel and samples or kernels of the wrong type or shape by '
  'kernel matrices. Well-formed inputs (lists, tuples, arrays, single columns, numbers as text) are accepted and have the '
  'value of the plain vector, and a refusal leaves the object usable.',
  [I, H], 'all lengths, dimensions and types of the two arguments within the bounds',
  'Tests try one wrong length and one wrong type.', [U, N, B],
  [('input checks', 'utils.check_input_arrays, ensure_ndarray_1D, ensure_ndarray_2D'),
   ('sign check', 'Chi2Kernel.__call__'), ('type checks', 'KernelMatrix.__init__')])
p('C14', 'The PSD test accepts exactly the symmetric matrices with no negative eigenvalue',
  'A matrix is reported as positive semi-definite exactly when it is square, symmetric and has no eigenvalue below the '
  'stated tolerance; anything which is not a matrix is refused. The same verdict is given for a kernel function '
  'through its matrix over any sample.', [I],
  'all real symmetric and asymmetric matrices of the sizes bound, all tolerances',
  'Tests check a few matrices that are comfortably definite; verdicts near the tolerance or for asymmetric and '
  'non-square ones are not.', [O, B],
  [('PSD test', 'operations.is_PSD, eigen_values'), ('of a kernel', 'BaseKernelFunction.is_psd')])
p('C15', 'The match-count kernel counts the positions where two lists agree',
  'The similarity of two lists of categories is the number of positions at which they agree, divided by the length '
  'if a percentage is asked for; it is symmetric and never depends on positions that differ. Lists of unequal '
  'length, of more than one dimension or of a type that cannot be compared are refused.',
  [I, CF], 'all pairs of lists of text of the lengths bound, all dtypes accepted',
  'Tests count matches on a couple of random lists.', [C, U],
  [('counting', 'MatchCountKernel.__call__'), ('input checks', 'utils.check_input_arrays')])
p('C16', 'The best kernel is the one with the highest ranking metric',
  'Ranking gives one metric per kernel, in the order of the set, with the value of the chosen method, and the kernel '
  'selected as optimal is one whose metric no other exceeds, never one whose metric is undefined when another is not. '
  'Min-max scaling maps the least to zero and the greatest to one, preserves order, and unknown methods are refused.',
  [I, CF], 'all sets of kernels, metrics, labels and methods within the bounds',
  'Tests run one ranking on random data and do not compare the metrics.', [K, S, U],
  [('ranking', 'ranking.rank_kernels, alignment_ranking, CV_ranking'),
   ('selection', 'ranking.find_optimal_kernel'), ('scaling', 'utils.min_max_scale')])
p('C17', 'Kernel machines train and predict on the kernel between the right samples',
  'A kernel machine, classifier or regressor, trains the underlying support vector machine on exactly the kernel '
  'matrix of the training samples and their labels in order, and predicts from exactly the kernel of each new sample '
  'with each training sample. Predictions come one per new sample in order, refitting forgets the former data, '
  'predicting before fitting is refused, and inputs are not modified.',
  [I, H], 'all samples, labels, kernels, sequences of fitting and predicting within the bounds',
  'Tests fit and predict once with random data and look only at absence of exceptions or a rough score.', [A, B],
  [('training and prediction', 'KernelMachine.fit/predict, KernelMachineRegressor.fit/predict')])
p('C18', 'The optimal-kernel estimators train and predict with the best-ranked kernel',
  'The optimal-kernel classifier and regressor rank the kernels of the bucket on the training data, fit on the '
  'kernel matrix of the best one, and predict from the kernel of each new sample with each training sample under that '
  'same kernel. Refitting forgets the former data, predicting before fitting is refused, and wrong kinds of bucket or '
  'method are refused.', [I, H, CF], 'all samples, labels, buckets and methods within the bounds',
  'Tests check that an estimator can be fitted once on random data.', [A, K, S],
  [('estimators', 'OptimalKernelSVC/SVR fit, predict'), ('selection', 'ranking.find_optimal_kernel')])
p('C19', 'A kernel function that fails part-way leaves the matrix consistent',
  'If the kernel function raises at any evaluation, the error reaches the caller as an error, and no incomplete matrix '
  'is ever served afterwards: once the function works, every view shows its values. Elements already read stay '
  'right.', [F, H, I], 'every evaluation at which a fault strikes, in every read operation, then every further read',
  'No test injects a failing kernel.', [B], [('caches set only when complete', 'KernelMatrix._populate_fully, _eval_kernel')])
p('C20', 'Infinite or undefined kernel values never pass unnoticed',
  'When a matrix computed in full, or its normalised or centered form, contains an infinite or undefined value, the '
  'user is warned or refused, whichever position it is at; when all values are finite there is no such warning.',
  [I, H], 'every position and kind of non-finite value, in each view',
  'Tests have no kernel giving non-finite values.', [B, U, O],
  [('check for NaN and Inf', 'utils.contains_nan_inf and its callers')])
p('C21', 'Precomputed and constant kernel matrices return the values they were given',
  'A precomputed kernel matrix accepts exactly the square symmetric arrays (or nested lists) and returns their values '
  'in every selection and view; a constant one returns its value everywhere. Invalid arrays and selections '
  'are refused.', [I, H], 'all real matrices and selections of the sizes bound',
  'Tests read a few elements of one random matrix.', [B],
  [('precomputed', 'KernelMatrixPrecomputed'), ('constant', 'ConstantKernelMatrix')])
p('C22', 'A kernel bucket contains exactly the kernels of its parameter values',
  'A bucket holds the linear kernel first, then exactly one kernel for each valid value (or pair of values) of each '
  'family, with that value as its parameter, in the order given, under the chosen normalisation; values a kernel does '
  'not accept are skipped with a warning. The named strategies give their documented values, and wrong names or types '
  'are refused.', [CF, I], 'all lists of parameter values within the bounds, all strategies',
  'Tests count the kernels of a few configurations.', [S, G],
  [('bucket', 'KernelBucket.__init__, add_parametrized_kernels'), ('strategies', 'make_kernel_bucket, config')])
p('C23', 'Pairwise similarity and the ideal kernel follow their definitions',
  'The pairwise similarity of a bucket holds at (i, j) the chosen metric of the kernel matrices i and j over the '
  'sample given, symmetric and in the order of the bucket; the ideal kernel of labels is their outer product. '
  'Unusable labels and methods are refused.', [I, CF], 'all samples, buckets and labels within the bounds',
  'Tests check the shape of the result.', [S, O],
  [('similarity', 'sampling.pairwise_similarity, correlation_km'), ('ideal kernel', 'sampling.ideal_kernel')])
p('C24', 'Attributes kept on kernel matrices and sets are returned as they were set',
  'An attribute set by the user on a kernel matrix is returned under its name until set again or the matrix is '
  'attached to other data; one not set gives the default asked for. Setting one on a set sets it on all '
  'its members, one value each or the same for all, and reading it reads all of them in order, and one object\'s attributes never show on another.',
  [H, I], 'all sequences of setting, reading and attaching within the bounds',
  'Tests set and read one attribute.', [B],
  [('attributes', 'KernelMatrix.set_attr/get_attr/attributes, KernelSet.set_attr/get_attr')])
p('C25', 'Estimators keep their parameters, clone, and refit as scikit-learn requires',
  'An estimator returns from its parameters exactly what it was made or set with (the default kernel, if none was '
  'given), separately made estimators and clones share no state, and setting one parameter leaves the others. Fitting returns the estimator itself, and two estimators with '
  'the same parameters and data behave the same.',
  [CF, H], 'all parameter values and sequences of set, clone, fit within the bounds',
  'Tests run a generic checker once for one of the estimators.', [A],
  [('parameters', 'get_params/set_params of each estimator')])
p('C26', 'Kernels made from functions, and all text forms, are faithful',
  'A kernel made from a function returns what the function returns on the same two samples with the parameters given; '
  'anything not callable, or taking fewer than two inputs, is refused. '
  'Every kernel, kernel matrix and set can be shown as text in every way (str, repr, format), its name and parameters '
  'included, without being evaluated or altered.',
  [I, CF], 'all parameter values, names and states of the objects within the bounds',
  'Tests print a few objects.', [B, N, C, U],
  [('callable kernels', 'KernelFromCallable'), ('text forms', '__str__/__repr__/__format__')])

TECH = ('symbolic execution of the package\'s own source over z3 (all paths within bounds), each counterexample '
        'replayed on the real package')
NOTE = ('Every path of the current source of the package is executed on symbolic inputs within the bounds the evidence '
        'lists per scenario; each assertion is decided by z3 over all values. Trusts z3, the models of numpy, scipy and '
        'scikit-learn in symk (validated on every run by replaying solver-made inputs on the real package) and exact '
        'real arithmetic in place of rounding; sizes outside the bounds are not covered.')

NA = []


def main():
    have = [q for q in P if os.path.exists(os.path.join(ROOT, 'scenarios', q['id'].lower() + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for q in have:
            fh.write(json.dumps(q) + '\n')
    man = {'version': 1,
           'setup_cmd': 'python3-vt tools/selftest.py',
           'checks': [{'property': q['id'], 'quick_cmd': 'python3-vt check.py %s quick' % q['id'],
                       'thorough_cmd': 'python3-vt check.py %s thorough' % q['id'],
                       'technique': TECH, 'level': 'model_checking', 'level_note': NOTE} for q in have],
           'not_applicable': NA,
           'notes': 'No hooks in /repo; the symbolic run loads the package source itself. See DESIGN.md.'}
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
