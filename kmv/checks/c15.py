"""C15: ranking scores are right and the optimal kernel is the best one."""
import numpy as np
from kernelmethods.base import BaseKernelFunction, KernelMatrix, KernelSet
from kernelmethods.numeric_kernels import (GaussianKernel, LaplacianKernel, LinearKernel,
                                           PolyKernel)
from kernelmethods.ranking import find_optimal_kernel, rank_kernels
from kernelmethods.sampling import KernelBucket, make_kernel_bucket

from kmv import gen, ref, svm
from kmv.core import Check

check = Check(
    'C15', 'exploration',
    'random buckets (with repeats, user kernels, kernels with NaN/inf entries), samples '
    'and targets; scores are recomputed by an own cross-validation loop on sliced '
    'fresh matrices, and by an own alignment; the selection is checked against the '
    'recomputed scores; distinct by bucket, data and method',
    ['every class occurs at least once per fold'])


class Spoiled(BaseKernelFunction):
    """linear kernel with non-finite values for some pairs"""

    def __init__(self, mode=0, skip_input_checks=False):
        super().__init__(name='spoiled')
        self.mode = mode

    def __call__(self, x, y):
        v = 1.0 + float(np.dot(x, y)) ** 2
        if self.mode == 0:
            return np.nan
        if self.mode == 1:
            return np.inf
        if self.mode == 2 and (x[0] + y[0]) < -1.0:
            return np.nan
        if self.mode == 3 and not np.array_equal(x, y):
            return -np.inf
        return v

    def __str__(self):
        return 'spoiled(mode={})'.format(self.mode)


class Nameless(BaseKernelFunction):
    """different kernels that all look the same"""

    def __init__(self, sigma=1.0, skip_input_checks=False):
        super().__init__(name='custom')
        self.sigma = sigma

    def __call__(self, x, y):
        return float(np.exp(-np.sum((x - y) ** 2) / (2 * self.sigma ** 2)))

    def __str__(self):
        return 'custom'


def _bucket(c, normalized, spoil):
    kb = KernelBucket(
        poly_degree_values=c.pick([None, [1], [2], [2, 3]]),
        rbf_sigma_values=c.pick([None, [1.0], [0.5, 2.0], [2.0, 2.0], [0.01]]),
        laplace_gamma_values=c.pick([None, [0.5], [0.1, 1.0]]),
        sigmoid_gamma_values=c.pick([None, None, [0.01]]),
        sigmoid_offset_values=None, normalize_kernels=normalized)
    if spoil:
        for mode in set(c.rng.integers(0, 4, size=c.randint(1, 3)).tolist()):
            kb.add_parametrized_kernels(Spoiled, 'mode', [mode])
        if c.chance(0.5):
            kb.add_parametrized_kernels(PolyKernel, 'degree', [2])
    if c.chance(0.35):
        kb.add_parametrized_kernels(Nameless, 'sigma',
                                    c.pick([[0.3, 2.0], [3.0, 0.5], [0.1, 1.0, 5.0]]))
        c.count('same_text')
    return kb


def _prepare(c, n, task, method):
    """(X, y, given y)"""
    d = c.randint(1, 4)
    if method == 'cv_risk' and c.chance(0.85):
        # matrices of full rank: SVMs converge quickly even for large C
        d = n + c.randint(2, 20)
    if task == 'SVC' and method == 'cv_risk':
        y, kind = svm.labels(c, n, c.pick([2, 2, 3]))
        X = svm.class_data(c, y if y.dtype != object else y.astype(str), d)
    elif task == 'SVC':
        y, kind = svm.labels(c, n, c.pick([2, 3]), ('int', 'neg', 'float', 'i1', 'bool'))
        X = svm.class_data(c, y, d)
    else:
        X = c.rng.normal(size=(n, d))
        y = X @ c.rng.normal(size=d) / np.sqrt(d) + 0.1 * c.rng.normal(size=n)
        kind = c.pick(['float', 'rounded', 'i1', 'f4'])
        if kind == 'rounded':
            y = np.rint(3 * y).astype('i8')
        elif kind == 'i1':
            y = np.clip(np.rint(40 * y), -127, 127).astype('i1')
        elif kind == 'f4':
            y = y.astype('f4')
    if d > 4:
        X = X * np.sqrt(4.0 / d)
    if c.chance(0.2):
        X = X + 3.0
    given = y.tolist() if c.chance(0.15) else y
    return X, y, given, kind


def _expected(c, members, normalized, X, y, method, folds, task):
    raw = []
    for m in members:
        K = svm.fresh_full(m.kernel, X, normalized=normalized)
        if not np.isfinite(K).all():
            raw.append(np.nan)
        elif method == 'cv_risk':
            raw.append(svm.cv_score(K, y, folds, task))
        else:
            raw.append(svm.alignment(K, y))
    raw = np.array(raw)
    if method != 'cv_risk':
        return raw, 1.0
    return svm.scale_100(raw)


def _case(c, method, n):
    task = c.pick(['SVC', 'SVR'])
    X, y, given, ykind = _prepare(c, n, task, method)
    normalized = c.chance(0.7)
    spoil = c.chance(0.4)
    kb = _bucket(c, normalized, spoil)
    members = list(kb)
    most = n // (len(set(np.asarray(y).tolist())) if task == 'SVC' else 3)
    folds = 3 if method != 'cv_risk' or c.chance(0.6) else \
        c.pick([f for f in (2, 4, 5, 6, 7, 8, 10) if f <= max(2, most)])
    params = {}
    if method == 'cv_risk':
        if folds != 3:
            params['num_folds'] = folds
        if task == 'SVR' or c.chance(0.5):
            params['estimator_name'] = c.pick([task, task.lower()])
        elif c.chance(0.3):
            params['estimator_name'] = 'svm'
    if normalized:
        # normalization must be possible
        for m in members:
            diag = ref.self_sim(m.kernel, X)
            if np.any(diag[np.isfinite(diag)] < 1e-3):
                normalized = False
        if not normalized:
            X = X + 4.0
            normalized = True
            for m in members:
                diag = ref.self_sim(m.kernel, X)
                if np.any(diag[np.isfinite(diag)] < 1e-3):
                    c.ok(True, 'not applicable')
                    return
    c.note(task=task, method=method, n=n, y=ykind, normalized=normalized,
           bucket=[str(m.kernel) for m in members], params=dict(params), salt=c.case_seed)
    if normalized and any(isinstance(m.kernel, Spoiled) for m in members):
        # inf self-similarities normalize to NaN
        pass
    try:
        want, spread = _expected(c, members, normalized, X, y, method, folds, task)
    except svm.Slow:
        c.count('slow_skipped')
        c.ok(True, 'not used')
        return
    finite = np.isfinite(want)
    tol = 1e-6 if method == 'cv_risk' else 1e-8
    if ykind == 'f4':
        tol = 1e-4
    if method == 'cv_risk' and 0 < spread < 1e-6:
        c.ok(True, 'too close to a tie')
        return

    how = c.pick(['rank', 'find', 'both'])
    if how in ('rank', 'both'):
        if c.chance(0.2):
            target = KernelSet([KernelMatrix(m.kernel, normalized=normalized)
                                for m in members])
        else:
            target = kb
        target.attach_to(X)
        if c.chance(0.3):
            m = target[c.randint(0, len(members) - 1)]
            c.pick([lambda: m.full, lambda: m.diagonal(), lambda: m[0, :]])()
        got = rank_kernels(target, given, method=method, **params)
        c.ok(isinstance(got, np.ndarray), 'scores are an array', got)
        c.same(got, want, 'scores', rtol=tol, atol=tol)
        c.count('scores', len(want))
        again = rank_kernels(target, given, method=method, **params)
        c.same(again, got, 'scores of a second ranking', rtol=1e-9, atol=1e-12)
    if how in ('find', 'both'):
        if c.chance(0.5):
            # whatever the bucket was attached to before
            prior = c.pick(['same_size', 'permuted', 'one_changed', 'same'])
            Z = {'same_size': c.rng.normal(size=X.shape) + 1.0,
                 'permuted': X[c.rng.permutation(n)], 'one_changed': X.copy(),
                 'same': X}[prior]
            if prior == 'one_changed':
                Z[c.randint(0, n - 1)] += 2.0
            kb.attach_to(Z)
            if c.chance(0.7):
                for m in members:
                    try:
                        c.pick([lambda: m.full, lambda: m.centered, lambda: m[0, :]])()
                    except Exception:
                        pass  # e.g. can not be normalized
            c.count('attached_before')
        best = find_optimal_kernel(kb, X, given, method=method, **params)
        where = [i for i, m in enumerate(members) if m is best]
        c.ok(len(where) == 1, 'the optimal kernel is a member of the bucket', best)
        c.ok(list(kb) == members, 'bucket keeps its members')
        score = want[where[0]]
        c.ok(np.isfinite(score), 'a kernel with a non-finite matrix was selected', best)
        c.ok(score >= want[finite].max() - tol,
             'selected a kernel with score {}, not {}'.format(score, want[finite].max()),
             str(best), want)
        c.ok(kb.num_samples == n and all(m.num_samples == n for m in members),
             'the bucket is attached to the sample')
        c.same(best.full, svm.fresh_full(best.kernel, X, normalized=normalized),
               'matrix of the optimal kernel', rtol=1e-9, atol=1e-12)
        c.count('selected')
        if not finite.all():
            c.count('selected_despite_nonfinite')
    c.count(task)
    if (want[finite] == want[finite].max()).sum() > 1:
        c.count('ties')
    c.count('nonfinite', (~finite).sum())


@check.scenario(quick=2000, thorough=40000,
                required=['scores', 'selected', 'SVC', 'SVR', 'nonfinite',
                          'selected_despite_nonfinite', 'attached_before'])
def align(c):
    _case(c, 'align/corr', c.size(3, 24))


@check.scenario(quick=220, thorough=4000,
                required=['scores', 'selected', 'SVC', 'SVR', 'nonfinite', 'ties',
                          'selected_despite_nonfinite'])
def cv_risk(c):
    _case(c, 'cv_risk', c.size(12, 24, (33, 41, 51)))


@check.scenario(quick=300, thorough=3000, required=['undefined'])
def align_undefined(c):
    """kernels whose centered matrix vanishes score 0"""
    n = c.size(2, 10)
    X = c.rng.normal(size=(n, 2)) + 2.0
    kb = KernelBucket(poly_degree_values=None, rbf_sigma_values=[1e9, 1.0],
                      laplace_gamma_values=[0.0], sigmoid_gamma_values=None,
                      sigmoid_offset_values=None)
    y = np.ones(n) if c.chance(0.3) else c.rng.normal(size=n)
    kb.attach_to(X)
    got = rank_kernels(kb, y, method='align/corr')
    want = np.array([svm.alignment(svm.fresh_full(m.kernel, X, normalized=True), y)
                     for m in kb])
    c.same(got, want, 'scores', rtol=1e-6, atol=1e-6)
    c.ok(got[1 + 2] == 0.0, 'constant matrix', got)
    if np.ptp(y) == 0:
        c.ok(np.all(got == 0.0), 'constant targets', got)
    best = find_optimal_kernel(kb, X, y, method='align/corr')
    c.ok(any(best is m for m in kb), 'selection')
    c.count('undefined')
    c.note(n=n, const=bool(np.ptp(y) == 0), salt=c.case_seed)


@check.scenario(quick=300, thorough=3000, required=['nothing_to_learn'])
def equal_targets(c):
    """no kernel has a defined alignment, but some can not even be used"""
    n = c.size(2, 10)
    # the linear and polynomial kernels overflow
    X = c.rng.normal(size=(n, 2)) * 1e170
    kb = KernelBucket(poly_degree_values=c.pick([None, [2, 3]]),
                      rbf_sigma_values=[1e9, 1e170], laplace_gamma_values=[0.0, 1.0],
                      sigmoid_gamma_values=None, sigmoid_offset_values=None,
                      normalize_kernels=False)
    y = np.full(n, c.pick([0.0, 1.0, -3.0, 7.0]))
    kb.attach_to(X)
    finite = np.array([np.isfinite(svm.fresh_full(m.kernel, X)).all() for m in kb])
    c.note(n=n, y=y[0], finite=finite.tolist(), salt=c.case_seed)
    got = rank_kernels(kb, y, method='align/corr')
    c.same(got, np.where(finite, 0.0, np.nan), 'scores for equal targets')
    best = find_optimal_kernel(kb, X, y, method='align/corr')
    where = [i for i, m in enumerate(kb) if m is best]
    c.ok(len(where) == 1 and finite[where[0]],
         'a kernel with a non-finite matrix was selected', best)
    c.count('nothing_to_learn')


@check.scenario(quick=8, thorough=60, required=['scores'])
def strategies(c):
    """whole named buckets"""
    n = c.randint(12, 20)
    method = ('cv_risk', 'align/corr')[c.index % 2]
    y, _ = svm.labels(c, n, 2, ('int', 'neg'))
    X = svm.class_data(c, y, n + 5) / 3.0 + 0.5
    kb = make_kernel_bucket(('light', 'exhaustive', 'linear_only')[(c.index // 2) % 3])
    members = list(kb)
    try:
        want, spread = _expected(c, members, True, X, y, method, 3, 'SVC')
    except svm.Slow:
        c.count('slow_skipped')
        c.ok(True, 'not used')
        return
    kb.attach_to(X)
    got = rank_kernels(kb, y, method=method)
    c.same(got, want, 'scores', rtol=1e-6, atol=1e-6)
    best = find_optimal_kernel(kb, X, y, method=method)
    where = [i for i, m in enumerate(members) if m is best]
    c.ok(len(where) == 1 and want[where[0]] >= np.nanmax(want) - 1e-6, 'selection')
    c.count('scores')
    c.note(method=method, size=len(members), salt=c.case_seed)
