"""C18: caller data and earlier results are never modified.

Monitor: bytes of every array passed in are compared before and after each operation;
every array the library returns is kept together with a copy taken at that moment, and
compared again after each later operation."""
import numpy as np
from scipy.sparse import issparse

from kernelmethods.algorithms import (KernelMachine, KernelMachineRegressor,
                                      OptimalKernelSVC, OptimalKernelSVR)
from kernelmethods.base import (AverageKernel, ConstantKernelMatrix, KernelMatrix,
                                KernelMatrixPrecomputed, KernelSet, ProductKernel,
                                SumKernel, WeightedAverageKernel)
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.numeric_kernels import (Chi2Kernel, GaussianKernel, HadamardKernel,
                                           LaplacianKernel, LinearKernel, PolyKernel,
                                           SigmoidKernel)
from kernelmethods.operations import (alignment_centered, center_km, frobenius_norm,
                                      frobenius_product, is_PSD, linear_combination,
                                      normalize_km, normalize_km_2sample)
from kernelmethods.ranking import find_optimal_kernel, rank_kernels
from kernelmethods.sampling import (KernelBucket, correlation_km, ideal_kernel,
                                    make_kernel_bucket, pairwise_similarity)
from kernelmethods.utils import min_max_scale

from kmv import gen, ref, svm
from kmv.core import Check

check = Check(
    'C18', 'exploration',
    'random histories of public operations; arguments compared bytewise before and after '
    'each, with writable and read-only arguments; results kept and compared after every '
    'later operation; distinct by operation and arguments / by history',
    ['kernel functions given by the user do not modify their arguments'])


def digest(obj):
    """deep, comparable copy of data"""
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ('obj', obj.shape, repr(obj.tolist()))
        return ('arr', obj.shape, str(obj.dtype), obj.tobytes())
    if issparse(obj):
        dense = np.asarray(obj.todense())
        return ('sparse', dense.shape, dense.tobytes())
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(digest(o) for o in obj))
    if isinstance(obj, dict):
        return ('dict', tuple(sorted((repr(k), digest(v)) for k, v in obj.items())))
    if isinstance(obj, (int, float, str, bool, complex, type(None), np.generic)):
        return ('val', repr(obj))
    return ('id', id(obj))


def frozen(obj):
    if isinstance(obj, np.ndarray):
        out = obj.view()  # same memory layout, hence same rounding
        out.setflags(write=False)
        return out
    return obj


def spike(c, arr):
    """some values become tiny, zero, or large"""
    if arr.dtype.kind == 'f':
        for _ in range(c.randint(1, 3)):
            idx = tuple(c.randint(0, s - 1) for s in arr.shape)
            arr[idx] = c.pick([1e-13, 1e-300, 1e-7, 1e-15, 1e-9, 0.0, 1e6])


KERNELS = [LinearKernel, PolyKernel, GaussianKernel, LaplacianKernel, Chi2Kernel,
           SigmoidKernel, HadamardKernel]


def _operations(c):
    """(name, arguments, call) of operations on plain data"""
    n, d = c.size(2, 8), c.dim(1, 5)
    X = np.abs(c.rng.normal(size=(n, d))) + 0.1
    Y = np.abs(c.rng.normal(size=(c.randint(1, 6), d))) + 0.1
    if c.chance(0.3):
        dt = c.pick(['f4', 'i8', 'u1', 'i2'])
        X, Y = (np.rint(5 * X) + 1).astype(dt), (np.rint(5 * Y) + 1).astype(dt)
    if d > 1 and c.chance(0.3):
        X[c.rng.integers(n), c.rng.integers(d)] = 0
    A = c.rng.normal(size=(n, n))
    A = A @ A.T + 0.1 * np.eye(n)
    B = c.rng.normal(size=(n, n))
    B = B + B.T
    if c.chance(0.2):
        A = np.rint(10 * A).astype(c.pick(['i4', 'i8']))
    w = c.rng.random(2)
    if c.chance(0.3):
        w = np.array([3, 4])
    y = np.arange(n) % 2
    yr = c.rng.normal(size=n)
    if c.chance(0.4):
        # values of all magnitudes, in every array that takes them
        for arr in (yr, B, w[:1]) + ((X, Y) if d > 4 and c.chance(0.5) else ()):
            spike(c, arr)
        B = (B + B.T) / 2
    cls = c.pick(KERNELS)
    if cls is not Chi2Kernel and X.dtype.kind != 'u' and c.chance(0.5):
        # features of either sign
        X = X * c.rng.choice([-1, 1], size=X.shape).astype(X.dtype)
        Y = Y * c.rng.choice([-1, 1], size=Y.shape).astype(Y.dtype)
    if c.chance(0.3):
        # matrices and targets of any magnitude
        scale = 10.0 ** c.randint(0, 9)
        if A.dtype.kind == 'f':
            A = A * scale
        B, yr = B * 10.0 ** c.randint(-9, 9), yr * 10.0 ** c.randint(-3, 9)
    if c.chance(0.6):
        # any memory layout
        lay = c.pick(['F', 'F', 'strided', 'negstride'])
        X, Y, A, B = (gen.lay_out(c.rng, arr, lay) for arr in (X, Y, A, B))
    skip = c.chance(0.3)
    k = cls(skip_input_checks=skip)
    cats = c.rng.choice(gen.CATEGORIES, size=(n, d))

    def views(km):
        out = [np.array(km[:, :]), np.array(km[0, :]), km.frob_norm]
        if km.shape[0] == km.shape[1] and len(np.shape(km.num_samples)) == 0:
            out += [np.array(km.centered), np.array(km.diagonal())]
        out += [km.full_sparse.todense() if issparse(km.full_sparse)
                else np.array(km.full_sparse)]
        return out

    def attach(X, Y=None, kern=k, normalized=False):
        km = KernelMatrix(kern, normalized=normalized)
        ref.attach(km, X, Y)
        return views(km)

    def two_kernels(X):
        kms = [KernelMatrix(LinearKernel(), normalized=False), KernelMatrix(PolyKernel())]
        for km in kms:
            km.attach_to(X)
        return KernelSet(kms)

    def combos(X, w):
        ks = two_kernels(X)
        out = [linear_combination(ks, w), linear_combination(ks, w, norm_weights=True)]
        comp = SumKernel(ks)
        comp.fit(w)
        out.append(comp.full)
        comp = WeightedAverageKernel(ks, w)
        comp.fit()
        out.append(comp.full)
        for cls in (ProductKernel, AverageKernel):
            comp = cls(ks)
            comp.fit()
            out.append(comp.full)
        return out

    def precomputed(A, B):
        ks = KernelSet([A, KernelMatrixPrecomputed(B)])
        comp = ProductKernel(ks)
        comp.fit()
        other = SumKernel(ks)
        other.fit([2, 3])
        return [ks[0].full, ks[1].diag, ks[0][0, 1], comp.full, other.full,
                pairwise_similarity(ks, metric='align')]

    def bucket(X, y):
        kb = KernelBucket([2], [1.0], None, None, None)
        kb.attach_to(X)
        return [rank_kernels(kb, y), pairwise_similarity(kb),
                find_optimal_kernel(kb, X, y, method='align/corr').full]

    return [
        ('kernel call', [X[0], X[1]], lambda a, b: k(a, b)),
        ('kernel call (rows of the sample)', [X], lambda S: [k(S[0], S[1]), k(S[1], S[1])]),
        ('kernel call (column and row)', [X[0].reshape(-1, 1), X[1]], lambda a, b: cls()(a, b)),
        ('kernel call (columns)', [X[0].reshape(-1, 1), X[1].reshape(-1, 1)],
         lambda a, b: LinearKernel()(a, b)),
        ('combinations, column of weights', [X, w.reshape(-1, 1)], combos),
        ('ideal_kernel of a column', [y.reshape(-1, 1)], ideal_kernel),
        ('3-D sample', [X[:, :, None]], lambda S: attach(S)),
        ('match count', [cats], lambda S: MatchCountKernel()(S[0], S[1])),
        ('match count matrix', [cats], lambda S: attach(S, kern=MatchCountKernel(
            return_perc=c.index % 2 == 0), normalized=False)),
        ('views', [X], lambda S: attach(S)),
        ('normalized views', [X], lambda S: attach(S, kern=PolyKernel(), normalized=True)),
        ('two samples', [X, Y], lambda S, T: attach(S, T)),
        ('two samples, normalized', [X, Y],
         lambda S, T: attach(S, T, kern=PolyKernel(b=2), normalized=True)),
        ('center_km', [A], center_km),
        ('normalize_km', [A], normalize_km),
        ('normalize_km_2sample', [B[:, :2].copy(), np.abs(B).sum(1) + 1.0,
                                  np.abs(B).sum(0)[:2] + 1.0], normalize_km_2sample),
        ('frobenius', [A, B], lambda P, Q: [frobenius_product(P, Q), frobenius_norm(P)]),
        ('alignment', [A, B], lambda P, Q: alignment_centered(
            P, Q, value_if_zero_division=0.0)),
        ('alignment, centered', [ref.center(A), ref.center(B)],
         lambda P, Q: alignment_centered(P, Q, centered_already=True,
                                         value_if_zero_division=0.0)),
        ('is_PSD', [A], lambda P: bool(is_PSD(P))),
        ('correlation_km', [A.astype('f8'), B], correlation_km),
        ('correlation_km', [B, A.astype('f8')], correlation_km),
        ('ideal_kernel', [y], ideal_kernel),
        ('ideal_kernel list', [y.tolist()], ideal_kernel),
        ('combinations', [X, w], combos),
        ('combinations, list of weights', [X, w.tolist()], combos),
        ('precomputed', [A, B], precomputed),
        ('ranking', [X, yr], bucket),
        ('ranking, list of targets', [X, y.tolist()], bucket),
        ('min_max_scale', [yr], min_max_scale),
        ('KernelMachine', [X, y, np.linspace(1, 2, n)],
         lambda S, t, v: KernelMachine(GaussianKernel()).fit(S, t, v).predict(S)),
        ('KernelMachineRegressor', [X, yr, np.linspace(1, 2, n)],
         lambda S, t, v: KernelMachineRegressor(PolyKernel(), normalized=True).fit(
             S, t, v).predict(S)),
        ('OptimalKernelSVC', [X, y],
         lambda S, t: OptimalKernelSVC('linear_only', method='align/corr').fit(
             S, t).predict(S)),
        ('OptimalKernelSVR', [X, yr],
         lambda S, t: OptimalKernelSVR('linear_only', method='align/corr').fit(
             S, t).predict(S)),
        ('bucket values', [[2, 3], np.array([0.5, 2.0])],
         lambda p, q: [len(KernelBucket(p, q, p, q, q))]),
        ('KernelSet of a list', [[A, B]], lambda lst: [len(KernelSet(lst)),
                                                       KernelSet(lst)[0].full]),
        ('set_attr', [[1, 2]], lambda vals: _set_attr(two_kernels(X), vals)),
        ('set_attr, one value', [[c.pick([7, 'x', 0.5])]],
         lambda vals: _set_attr(two_kernels(X), vals)),
        ('set_attr, one list', [[[1, 2]]], lambda vals: _set_attr(two_kernels(X), vals)),
        ('attach_to with attribute', [X, [1, 2]], _attach_attr),
        ('indices', [X, [1, 0, 1], np.array([0, 0])], lambda S, i, j: _index(S, i, j)),
        ('take', [X, [1, 0]], lambda S, i: [m.full for m in two_kernels(S).take(i)]),
    ]


def _set_attr(ks, vals):
    ks.set_attr('a', vals)
    return ks.get_attr('a')


def _attach_attr(S, value):
    ks = KernelSet([KernelMatrix(LinearKernel(), normalized=False),
                    KernelMatrix(PolyKernel())])
    ks.attach_to(S, attr_name='who', attr_value=value)
    out = [ks.get_attr('who'), ks[0].full]
    ks.attach_to(S, attr_name='who', attr_value=value)
    return out


def _index(S, i, j):
    km = KernelMatrix(LinearKernel(), normalized=False)
    km.attach_to(S)
    return km[i, j]


def _plain(res):
    if isinstance(res, (list, tuple)):
        return [_plain(r) for r in res]
    return np.asarray(res)


def _equal(c, a, b, what):
    if isinstance(a, list):
        c.ok(len(a) == len(b), what)
        for x, y in zip(a, b):
            _equal(c, x, y, what)
    elif a.dtype.kind in 'US':
        c.ok(np.array_equal(a, b), what, a, b)
    else:
        c.same(a, b, what, rtol=1e-7, atol=1e-9)


@check.scenario(quick=5000, thorough=80000, required=['arguments_intact', 'readonly_same'])
def arguments(c):
    ops = _operations(c)
    name, args, call = ops[c.index % len(ops)]
    c.note(operation=name, salt=c.case_seed)
    before = [digest(a) for a in args]
    res = _plain(call(*args))
    for i, a in enumerate(args):
        c.ok(digest(a) == before[i], '{} modified its argument {}'.format(name, i), a)
    c.count('arguments_intact', len(args))
    # read-only arguments are as good
    ro = [frozen(a) for a in args]
    try:
        res_ro = _plain(call(*ro))
    except Exception as exc:
        c.fail('{} refuses read-only arrays: {!r}'.format(name, exc))
    _equal(c, res_ro, res, name + ' with read-only arguments')
    for i, a in enumerate(args):
        c.ok(digest(a) == before[i], '{} modified its argument {}'.format(name, i), a)
    c.count('readonly_same')


class Held(object):
    """results kept, with a copy"""

    def __init__(self, c):
        self.c, self.items = c, []

    def keep(self, what, res):
        if isinstance(res, (list, tuple)):
            for r in res:
                self.keep(what, r)
        elif isinstance(res, np.ndarray) or issparse(res):
            self.items.append((what, res, digest(res)))
        return res

    def verify(self, after):
        for what, res, dig in self.items:
            self.c.ok(digest(res) == dig,
                      'result of {} changed after {}'.format(what, after), res)
        self.c.count('held_verified', len(self.items))


@check.scenario(quick=1500, thorough=30000, required=['held_verified', 'reattached'])
def results_of_matrices(c):
    k, kdesc = c.pick([(cls(), cls.__name__) for cls in (
        LinearKernel, PolyKernel, GaussianKernel, LaplacianKernel, Chi2Kernel)])
    n, d = c.size(2, 6), c.dim(1, 3)
    X = 3.0 * c.rng.random((n, d)) + 1.0
    Y = 3.0 * c.rng.random((c.randint(1, 6), d)) + 1.0
    arrays = [X, Y]
    before = [digest(a) for a in arrays]
    km = KernelMatrix(k, normalized=c.chance(0.5))
    held, two, hist = Held(c), False, []
    km.attach_to(X)
    for step in range(c.randint(4, 14)):
        op = c.pick(['full', 'sparse', 'normed', 'centered', 'diag', 'sub', 'all',
                     'center()', 'normalize()', 'frob', 'attach', 'attach_two',
                     'attach_same', 'elem', 'linear_combination', 'sum'])
        if op.startswith('attach'):
            two = op == 'attach_two'
            ref.attach(km, Y if op == 'attach' else X, Y if two else None)
            c.count('reattached')
        elif op in ('centered', 'diag', 'center()') and two:
            continue
        elif op == 'linear_combination':
            ks = KernelSet([km, km])
            held.keep(op, linear_combination(ks, [1.0, 0.0]))
        elif op == 'sum':
            if two:
                continue
            comp = SumKernel(KernelSet([km, km]))
            comp.fit(c.pick([None, [1.0, 0.0]]))
            held.keep(op, comp.full)
            comp.fit([2.0, 1.0])
        elif op == 'full':
            held.keep(op, km.full)
        elif op == 'sparse':
            held.keep(op, km.full_sparse)
        elif op == 'normed':
            held.keep(op, km.normed_km)
        elif op == 'centered':
            held.keep(op, km.centered)
        elif op == 'diag':
            held.keep(op, km.diagonal())
        elif op == 'sub':
            held.keep(op, km[[0], :])
        elif op == 'elem':
            held.keep(op, km[0, 0])
        elif op == 'all':
            held.keep(op, km[:, :])
        elif op == 'center()':
            km.center()
        elif op == 'normalize()':
            km.normalize()
        elif op == 'frob':
            km.frob_norm
        hist.append(op)
        held.verify('-'.join(hist))
        for a, b in zip(arrays, before):
            c.ok(digest(a) == b, 'sample modified by ' + op, a)
    c.note(kernel=kdesc, hist=hist)


@check.scenario(quick=500, thorough=10000, required=['held_verified', 'composite',
                                                     'estimator'])
def results_of_others(c):
    """composites, sets, rankings and estimators, fitted again and again"""
    n, d = c.size(6, 10), 3
    held = Held(c)
    samples = [3.0 * c.rng.random((n, d)) + 1.0 for _ in range(3)]
    y = np.arange(n) % 2
    before = [digest(s) for s in samples]
    kb = KernelBucket([2], [1.0], None, None, None, normalize_kernels=c.chance(0.5))
    kb.attach_to(samples[0])
    A = c.rng.normal(size=(n, n))
    A = A + A.T
    adig = digest(A)
    pre = KernelSet([A, kb[0]])
    many = []
    for _ in range(c.pick([3, 14, 20, 33])):
        B = c.rng.normal(size=(n, n))
        many.append(B + B.T)
    many_dig = [digest(B) for B in many]
    mset = KernelSet(many)
    mw = c.rng.normal(size=len(many))
    comps = [SumKernel(kb), ProductKernel(kb), AverageKernel(kb),
             WeightedAverageKernel(kb, np.array([1.0, 0.0, 0.0])), SumKernel(pre),
             ProductKernel(pre), AverageKernel(pre), WeightedAverageKernel(pre, [1.0, 0.0]),
             SumKernel(mset), ProductKernel(mset), AverageKernel(mset),
             WeightedAverageKernel(mset, mw)]
    ests = [KernelMachine(GaussianKernel()), KernelMachineRegressor(LinearKernel()),
            OptimalKernelSVC('linear_only', 'align/corr'),
            OptimalKernelSVR(kb, 'align/corr')]
    hist = []
    for step in range(c.randint(5, 15)):
        op = c.pick(['composite', 'composite', 'attach', 'rank', 'pairwise', 'lincomb',
                     'estimator', 'estimator', 'views', 'precomputed', 'constant'])
        S = c.pick(samples)
        if op == 'composite':
            comp = c.pick(comps)
            comp.fit()
            held.keep('composite', comp.composite_KM)
            held.keep('composite', comp.full)
            c.count('composite')
        elif op == 'attach':
            kb.attach_to(S)
        elif op == 'rank':
            held.keep(op, rank_kernels(kb, y))
        elif op == 'pairwise':
            held.keep(op, pairwise_similarity(kb, c.pick(['corr', 'align'])))
        elif op == 'lincomb':
            held.keep(op, linear_combination(kb, [1.0, 0.0, 0.0]))
        elif op == 'views':
            held.keep(op, [m.full for m in kb])
        elif op == 'precomputed':
            held.keep(op, [pre[0].full, pre[0].diag, pre[0][:, :]])
        elif op == 'constant':
            km = ConstantKernelMatrix(n, 2.0)
            held.keep(op, [km.full, km.diag, km[0, :]])
        else:
            est = c.pick(ests)
            est.fit(S, y)
            held.keep(op, [est.predict(c.pick(samples)) for _ in range(2)])
            c.count('estimator')
        hist.append(op)
        held.verify('-'.join(hist))
        for a, b in zip(samples, before):
            c.ok(digest(a) == b, 'sample modified by ' + op, a)
        c.ok(digest(A) == adig, 'precomputed matrix modified by ' + op, A)
        for B, dig in zip(many, many_dig):
            c.ok(digest(B) == dig, 'one of many matrices modified by ' + op, B)
        c.ok(len(kb) == 3 and len(pre) == 2, 'sets modified by ' + op)
    c.note(hist=hist, salt=c.case_seed)


@check.scenario(quick=200, thorough=2000, required=['bucket'])
def buckets_passed_in(c):
    """estimators leave the bucket and kernel they are given alone"""
    n = c.size(6, 10)
    X = 3.0 * c.rng.random((n, 3)) + 1.0
    S = 3.0 * c.rng.random((n, 2)) + 1.0
    y = np.arange(n) % 2
    kb = KernelBucket([2], [1.0], None, None, None)
    attached = c.chance(0.5)
    if attached:
        kb.attach_to(S)
        kb.set_attr('tag', [1, 2, 3])
        want = [np.array(m.full) for m in kb]
    members = list(kb)
    names = [str(m) for m in members]
    est = c.pick([OptimalKernelSVC, OptimalKernelSVR])(kb, method='align/corr')
    est.fit(X, y)
    est.predict(X[:2])
    if c.chance(0.5):
        est.fit(X[:, :2], y)
    c.ok(list(kb) == members and [str(m) for m in kb] == names, 'members', str(kb))
    c.ok(kb.num_samples == (n if attached else None), 'num_samples', kb.num_samples)
    if attached:
        for m, K in zip(kb, want):
            c.exact(m.full, K, 'matrix of the bucket passed in')
        c.ok(kb.get_attr('tag') == [1, 2, 3], 'attributes')
    c.count('bucket')
    c.note(attached=attached, salt=c.case_seed)
