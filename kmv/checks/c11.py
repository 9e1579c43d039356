"""C11: invalid inputs are refused, never turned into numbers."""
import numpy as np
from kernelmethods.base import (AverageKernel, KernelFromCallable, KernelMatrix,
                                KernelMatrixPrecomputed, KernelSet, ProductKernel,
                                SumKernel, WeightedAverageKernel)
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.config import (Chi2NegativeValuesException, KernelMethodsException,
                                  KMAccessError)
from kernelmethods.numeric_kernels import (Chi2Kernel, GaussianKernel, HadamardKernel,
                                           LaplacianKernel, LinearKernel, PolyKernel,
                                           SigmoidKernel)
from kernelmethods.operations import is_PSD, linear_combination
from kernelmethods.ranking import find_optimal_kernel, get_estimator, rank_kernels
from kernelmethods.sampling import KernelBucket, make_kernel_bucket

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C11', 'exploration',
    'random invalid arguments of every class listed in the statement, each followed by '
    'a valid call on the same object whose result is compared with the reference; '
    'distinct by call and argument',
    ['only arguments that are invalid beyond doubt are used'])

NUMERIC = [LinearKernel, PolyKernel, GaussianKernel, LaplacianKernel, Chi2Kernel,
           SigmoidKernel, HadamardKernel]
BAD_DATA = (ValueError, TypeError)


def _bad_vectors(c, d):
    """(x, y, what) invalid for a numeric kernel"""
    good = np.abs(c.rng.normal(size=d)) + 0.1
    kind = c.pick(['longer', 'shorter', 'matrix', 'row_matrix', 'cube', 'scalar',
                   'strings', 'none', 'objects', 'ragged', 'one_vs_many', 'dict',
                   'bytes', 'one_string', 'one_none', 'empty_vs'])
    if kind == 'longer':
        bad = np.append(good, c.rng.random(c.randint(1, 3)))
    elif kind == 'shorter':
        good = np.append(good, 0.5)
        bad = good[:-1]
    elif kind == 'matrix':
        bad = np.abs(c.rng.normal(size=(d + 1, 2)))
    elif kind == 'row_matrix':
        good = np.append(good, 0.5)
        bad = good.reshape(1, -1)
    elif kind == 'cube':
        bad = np.ones((2, 2, 2))
    elif kind == 'scalar':
        bad = c.pick([3.0, np.array(2.0), 1])
    elif kind == 'strings':
        bad = np.array(['abc'] * d) if c.chance(0.5) else ['x'] * d
    elif kind == 'bytes':
        bad = np.array([b'abc'] * d) if c.chance(0.5) else [b'x'] * d
    elif kind == 'one_string':
        bad = [1.0] * d
        bad[c.randint(0, d - 1)] = c.pick(['abc', b'q', '', 'one'])
        bad = bad if c.chance(0.5) else np.array(bad, dtype=object)
    elif kind == 'one_none':
        bad = [1.0] * d
        bad[c.randint(0, d - 1)] = None
        bad = bad if c.chance(0.5) else np.array(bad, dtype=object)
    elif kind == 'empty_vs':
        bad = c.pick([[], np.array([]), np.zeros((0, d))])
    elif kind == 'none':
        bad = [None] * d
    elif kind == 'objects':
        bad = np.array([object()] * d, dtype=object)
    elif kind == 'ragged':
        bad = [[1.0], [2.0, 3.0]]
    elif kind == 'dict':
        bad = {'a': 1}
    else:
        good = np.abs(c.rng.normal(size=d + 1)) + 0.1
        bad = np.array([1.5])
    if c.chance(0.3) and isinstance(good, np.ndarray):
        good = good.tolist()
    return good, bad, kind


@check.scenario(quick=8000, thorough=80000, required=['refused', 'valid_after'])
def numeric_kernels(c):
    cls = c.pick(NUMERIC)
    k = cls()
    d = c.dim(1, 7)
    good, bad, kind = _bad_vectors(c, d)
    pair = (good, bad) if c.chance(0.5) else (bad, good)
    if kind in ('strings', 'none', 'objects', 'matrix', 'cube') and c.chance(0.2):
        pair = (bad, bad)
    c.note(kernel=str(k), kind=kind, d=d, swapped=pair[0] is bad)
    c.raises(BAD_DATA, lambda: k(*pair), '{} with {}'.format(k, kind))
    c.count('refused')
    x, y = np.abs(c.rng.normal(size=(2, d)))
    c.same(k(x, y), cls()(x, y), 'valid call afterwards', rtol=1e-12)
    c.ok(np.isfinite(k(x, y)), 'valid call afterwards')
    c.count('valid_after')


@check.scenario(quick=3000, thorough=30000, required=['refused', 'zero_ok', 'in_matrix'])
def chi2_negative(c):
    d = c.dim(1, 12)
    x, y = np.abs(c.rng.normal(size=(2, d)))
    if c.chance(0.3):
        x[c.rng.integers(d)] = 0.0
        y[c.rng.integers(d)] = 0.0
    k = Chi2Kernel(gamma=c.pick([0.1, 1.0, 3.0]), skip_input_checks=c.chance(0.3))
    v = float(k(x, y))
    c.ok(0 <= v <= 1, 'chi2 of non-negative vectors', v)
    c.count('zero_ok')
    bad = x.copy()
    bad[c.rng.integers(d)] = -float(c.pick([1e-9, 0.5, 100.0, 1e-13, 1e-17, 1e-40,
                                           1e-300, 5e-324, 1e300, np.inf]))
    which = c.pick(['x', 'y', 'both'])
    pair = {'x': (bad, y), 'y': (y, bad), 'both': (bad, bad.copy())}[which]
    if not k.skip_input_checks and c.chance(0.3):
        pair = tuple(p.tolist() for p in pair)
    c.note(kernel=str(k), d=d, which=which, salt=c.case_seed)
    c.raises((Chi2NegativeValuesException, ValueError), lambda: k(*pair),
             'negative value in ' + which)
    c.count('refused')
    # within a kernel matrix: never a number for the row concerned
    n = c.size(2, 5)
    X = np.abs(c.rng.normal(size=(n, d)))
    row = c.randint(0, n - 1)
    X[row, c.rng.integers(d)] = -1.0
    km = KernelMatrix(k, normalized=c.chance(0.5))
    km.attach_to(X)
    j = c.randint(0, n - 1)
    c.raises(Exception, lambda: km[row, j], 'entry of a row with a negative value')
    c.raises(Exception, lambda: km.full, 'full matrix with a negative value')
    c.count('in_matrix')


@check.scenario(quick=2000, thorough=20000, required=['refused', 'valid_after'])
def categorical(c):
    k = MatchCountKernel(return_perc=c.chance(0.5), skip_input_checks=False)
    d = c.dim(1, 4)
    good = c.rng.choice(gen.CATEGORIES, size=d)
    kind = c.pick(['numbers', 'bools', 'longer', 'matrix', 'objects', 'floats', 'scalar',
                   'numlist', 'one_number', 'one_none', 'empty'])
    mixed = np.array(good, dtype=object)
    mixed[c.randint(0, d - 1)] = c.pick([1, 2.5, True]) if kind == 'one_number' else None
    bad = {'one_number': mixed, 'one_none': mixed, 'empty': np.array([], dtype=str),
           'numbers': np.arange(d), 'bools': np.ones(d, bool), 'floats': np.ones(d),
           'longer': np.append(good, 'x'), 'matrix': np.array([['a', 'b'], ['c', 'd']]),
           'objects': np.array([None] * d, dtype=object), 'scalar': 'a',
           'numlist': list(range(d))}[kind]
    pair = c.pick([(good, bad), (bad, good)])
    if kind in ('numbers', 'floats', 'bools', 'numlist') and c.chance(0.4):
        pair = (bad, bad)
    c.note(kind=kind, d=d, first=pair[0] is bad)
    c.raises(BAD_DATA, lambda: k(*pair), 'MatchCountKernel with ' + kind)
    c.count('refused')
    c.same(k(good, good), 1.0 if k.return_perc else d, 'valid call afterwards')
    c.count('valid_after')


def _catalogue(c):
    """(name, exception types, call, valid call afterwards) of all other refusals"""
    n, d = c.size(2, 6), c.dim(1, 4)
    X = c.rng.normal(size=(n, d)) + 3.0
    Y = c.rng.normal(size=(c.randint(1, 6), d)) + 3.0
    y = np.array([0, 1] * n)[:n]
    lin = LinearKernel()
    km = KernelMatrix(lin, normalized=False)
    km.attach_to(X)
    km2 = KernelMatrix(lin, normalized=False)
    km2.attach_to(X, sample_two=Y, name_two='t')
    un = KernelMatrix(lin)
    poly = KernelMatrix(PolyKernel(), normalized=False)
    poly.attach_to(X)
    ks = KernelSet([km, poly])
    un_set = KernelSet([KernelMatrix(lin), KernelMatrix(PolyKernel())])
    one = KernelSet([km])
    composite = c.pick([SumKernel, ProductKernel, AverageKernel])
    any_comp = c.pick([composite, composite,
                       lambda s: WeightedAverageKernel(s, np.ones(2))])
    fresh = any_comp(ks)
    nonset = c.pick([None, [km, poly], km, 'abc', 3, np.eye(3), KernelSet])
    weights = c.rng.random(c.pick([0, 1, 3, 5])).tolist()
    weights = weights if c.chance(0.5) else np.array(weights)
    nonbool = c.pick([1, 0, None, 'True', 'yes', 1.0, [], object()])
    nonkernel = c.pick([None, 'linear', 3, gen.plain_dot, LinearKernel, object(),
                        np.dot, km])
    bad_sample = c.pick([np.arange(4.0), np.ones((2, 3, 4)), np.array(1.0),
                         np.ones((2, 2, 2, 2)), np.array([])])
    sum_ok = (lambda: SumKernel(ks).fit() or True, True)
    K = km.full
    bucket = KernelBucket(poly_degree_values=None, rbf_sigma_values=None,
                          laplace_gamma_values=None, sigmoid_gamma_values=None,
                          sigmoid_offset_values=None)
    full_ok = (lambda: km.full, K)
    return [
        ('KernelMatrix(nonkernel)', TypeError, lambda: KernelMatrix(nonkernel), full_ok),
        ('KernelMatrix(normalized=?)', TypeError,
         lambda: KernelMatrix(lin, normalized=nonbool), full_ok),
        ('KernelBucket(normalize_kernels=?)', TypeError,
         lambda: KernelBucket(normalize_kernels=nonbool), (lambda: bucket.size, 1)),
        ('KernelBucket(skip_input_checks=?)', TypeError,
         lambda: KernelBucket(skip_input_checks=nonbool), (lambda: bucket.size, 1)),
        ('full before attaching', ValueError, lambda: un.full,
         (lambda: (un.attach_to(X), un[:, :])[1], K)),
        ('attach_to(bad sample)', ValueError, lambda: km.attach_to(bad_sample), full_ok),
        ('attach_to(sample_two=bad)', ValueError,
         lambda: km.attach_to(X, sample_two=bad_sample), full_ok),
        ('attach_to(other dimensionality)', ValueError,
         lambda: km.attach_to(X, sample_two=np.ones((3, d + 1))), full_ok),
        ('KernelSet.attach_to(bad sample)', ValueError,
         lambda: un_set.attach_to(bad_sample),
         (lambda: (un_set.attach_to(X), un_set.num_samples)[1], n)),
        ('centered with two samples', KMAccessError, lambda: km2.centered,
         (lambda: km2.full, ref.gram(lin, X, Y))),
        ('center() with two samples', NotImplementedError, km2.center,
         (lambda: km2.full, ref.gram(lin, X, Y))),
        ('diagonal() with two samples', KMAccessError, km2.diagonal,
         (lambda: km2.full, ref.gram(lin, X, Y))),
        ('KernelFromCallable(not callable)', TypeError,
         lambda: KernelFromCallable(c.pick([None, 3, 'dot', [1]])), full_ok),
        ('KernelFromCallable(few arguments)', TypeError,
         lambda: KernelFromCallable(c.pick([lambda x: x, lambda: 1,
                                            _OneArg().method])), full_ok),
        ('HadamardKernel(alpha=0)', ValueError,
         lambda: HadamardKernel(alpha=c.pick([0, 0.0, -0.0, np.float64(0)])), full_ok),
        ('composite of a non-set', TypeError, lambda: composite(nonset), sum_ok),
        ('weighted average of a non-set', TypeError,
         lambda: WeightedAverageKernel(nonset, [1.0, 1.0]), sum_ok),
        ('composite of one kernel', ValueError, lambda: any_comp(one), sum_ok),
        ('composite of none', ValueError, lambda: any_comp(KernelSet()), sum_ok),
        ('composite of an unattached set', ValueError, lambda: any_comp(un_set), sum_ok),
        ('composite_KM before fit', ValueError, lambda: fresh.composite_KM,
         (lambda: (fresh.fit(), fresh.full.shape)[1], (n, n))),
        ('full of a composite before fit', ValueError, lambda: fresh.full,
         (lambda: (fresh.fit(), fresh.full.shape)[1], (n, n))),
        ('SumKernel.fit(weights)', ValueError, lambda: SumKernel(ks).fit(weights),
         sum_ok),
        ('WeightedAverageKernel(weights)', ValueError,
         lambda: WeightedAverageKernel(ks, weights), sum_ok),
        ('linear_combination(weights)', ValueError,
         lambda: linear_combination(ks, weights),
         (lambda: linear_combination(ks, [1.0, 0.0]), K)),
        ('linear_combination(zero sum)', RuntimeError,
         lambda: linear_combination(ks, [0.5, -0.5], norm_weights=True),
         (lambda: linear_combination(ks, [1.0, 0.0]), K)),
        ('KernelSet(?)', TypeError,
         lambda: KernelSet(c.pick(['abc', 5, 2.5, object()])), sum_ok),
        ('make_kernel_bucket(?)', ValueError,
         lambda: make_kernel_bucket(c.pick(['', 'all', 'lite', 'exhaustive ', 'x'])),
         (lambda: make_kernel_bucket('linear_only').size, 1)),
        ('add_parametrized_kernels(kernel)', KernelMethodsException,
         lambda: bucket.add_parametrized_kernels(
             c.pick([lin, gen.plain_dot, 'PolyKernel', None, int, KernelMatrix]),
             'degree', [2]),
         (lambda: bucket.size, 1)),
        ('add_parametrized_kernels(values)', ValueError,
         lambda: bucket.add_parametrized_kernels(
             PolyKernel, 'degree', c.pick([[], 'abc', 3, (), 2.5, np.array([])])),
         (lambda: bucket.size, 1)),
        ('find_optimal_kernel(bucket)', TypeError,
         lambda: find_optimal_kernel(nonset, X, y, method='align/corr'), full_ok),
        ('find_optimal_kernel(method)', NotImplementedError,
         lambda: find_optimal_kernel(bucket, X, y, method=c.pick(['', 'best', 'corr'])),
         (lambda: bucket.num_samples is None, True)),
        ('rank_kernels(method)', NotImplementedError,
         lambda: rank_kernels(ks, y, method=c.pick(['', 'best', 'corr', 'align'])),
         full_ok),
        ('get_estimator(?)', NotImplementedError,
         lambda: get_estimator(c.pick(['knn', '', 'lasso', 'svmx'])), full_ok),
        ('is_PSD(not an array)', TypeError,
         lambda: is_PSD(c.pick([[[1.0, 0], [0, 1.0]], None, 3, km])), full_ok),
        ('KernelMatrixPrecomputed(?)', ValueError,
         lambda: KernelMatrixPrecomputed(c.pick([
             [[1.0, 2.0], [3.0, 1.0]], np.ones((2, 3)), np.ones(4), np.ones((1, 3)),
             np.ones((2, 2, 2)), np.array([[1, 1j], [1j, 1]])])), full_ok),
    ]


class _OneArg(object):
    def method(self, x):
        return x


def _catalogue_size():
    from kmv.core import Case
    return len(_catalogue(Case('C11', 'size', 0, 0, 'quick')))


@check.scenario(quick=6000, thorough=60000, required=['refused', 'valid_after'])
def other_arguments(c):
    cat = _catalogue(c)
    name, exc, call, (valid, want) = cat[c.index % len(cat)]
    c.note(call=name, salt=c.case_seed)
    c.raises(exc, call, name)
    c.count('refused')
    got = valid()
    if isinstance(want, np.ndarray):
        c.same(got, want, 'valid call after ' + name, rtol=1e-9, atol=1e-12)
    else:
        c.ok(got == want, 'valid call after ' + name, got, want)
    c.count('valid_after')
