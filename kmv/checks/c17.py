"""C17: optimal-kernel estimators train and predict with the selected kernel."""
import numpy as np
from kernelmethods.algorithms import OptimalKernelSVC, OptimalKernelSVR
from kernelmethods.base import KernelMatrix, KernelSet
from kernelmethods.numeric_kernels import Chi2Kernel, LinearKernel
from kernelmethods.sampling import KernelBucket, make_kernel_bucket

from kmv import gen, ref, svm
from kmv.checks.c15 import Spoiled
from kmv.core import BIG_SIZES, Check

check = Check(
    'C17', 'exploration',
    'random buckets, strategies, data and SVM settings; scores of all kernels are '
    'recomputed, and predictions compared with scikit-learn trained on the explicit '
    'matrix of a kernel with the best score; distinct by settings and data',
    ['if several kernels have the best score, any of them may be selected'])


def _bucket(c, method):
    normalized = c.chance(0.7)
    kb = KernelBucket(
        poly_degree_values=c.pick([None, [2], [2, 3]]),
        rbf_sigma_values=c.pick([None, [1.0], [0.5, 2.0], [0.05]]),
        laplace_gamma_values=c.pick([None, [0.5], [0.1, 1.0]]),
        sigmoid_gamma_values=c.pick([None, None, [0.01]]),
        sigmoid_offset_values=None, normalize_kernels=normalized)
    if c.chance(0.2):
        kb.add_parametrized_kernels(Spoiled, 'mode', [c.pick([0, 2, 3])])
    return kb, normalized


def _run(c, given, members, normalized, method, n, sizes=(1, 2, 7)):
    task = c.pick(['SVC', 'SVR'])
    d = n + c.randint(2, 10) if c.chance(0.8) or method == 'cv_risk' else c.randint(1, 4)
    if task == 'SVC':
        y, kind = svm.labels(c, n, c.pick([2, 2, 3]), ('int', 'neg', 'float', 'i1'))
        if c.chance(0.2) and method != 'cv_risk':
            y = svm.unbalanced(c, y)
            c.count('unbalanced')
        X = svm.class_data(c, y, d)
    else:
        X = c.rng.normal(size=(n, d))
        y = X @ c.rng.normal(size=d) / np.sqrt(d) + 0.1 * c.rng.normal(size=n)
        kind = 'float'
    if d > 4:
        X = X * np.sqrt(4.0 / d)
    if c.chance(0.1):
        # repeated rows
        X[c.rng.integers(n, size=c.randint(1, n - 1))] = X[c.rng.integers(n)]
        c.count('equal_rows')
    if normalized and any(np.any(ref.self_sim(m.kernel, X) < 1e-3) for m in members
                          if isinstance(m.kernel, LinearKernel)):
        X = X + 1.0
    params = {}
    if c.chance(0.6):
        params['C'] = c.pick([1e-3, 0.01, 0.1, 1.0, 2.0, 10.0, 1, 2])
    if c.chance(0.3):
        params['shrinking'] = c.chance(0.5)
    if c.chance(0.3):
        params['tol'] = c.pick([0.1, 1e-2, 1e-4, 1e-5])
    if task == 'SVR' and c.chance(0.5):
        params['epsilon'] = c.pick([0.0, 1e-3, 0.01, 0.3, 1.0])
    weight = c.rng.random(n) + 0.2 if c.chance(0.25) else None
    if c.chance(0.08):
        weight = np.full(n, c.pick([1e-3, 0.02, 0.1, 3.0]))
        c.count('equal_weights')
    elif c.chance(0.1):
        weight = c.rng.integers(1, 5, size=n)
    elif c.chance(0.1) and n >= 8:
        # rows that do not count, but not a whole class
        weight = np.ones(n)
        for value in (np.unique(y) if task == 'SVC' else [None]):
            rows = np.arange(n) if value is None else np.flatnonzero(y == value)
            weight[rows[:c.randint(0, max(0, len(rows) - 2))]] = 0.0
        c.count('zero_weights')
    if c.chance(0.12):
        X = X.astype('f4')
        c.count('single_precision')
    c.note(task=task, method=method, n=n, d=d, params=dict(params), y=kind,
           weighted=weight is not None, salt=c.case_seed)
    try:
        raw = []
        for m in members:
            try:
                K = svm.fresh_full(m.kernel, X, normalized=normalized)
            except Exception:
                c.ok(True, 'kernel not applicable to the data')
                c.count('not_applicable')
                return
            if not np.isfinite(K).all():
                raw.append(np.nan)
            elif method == 'cv_risk':
                raw.append(svm.cv_score(K, y, 3, task))
            else:
                raw.append(svm.alignment(K, y))
        raw = np.array(raw)
        best = [i for i in range(len(raw)) if raw[i] >= np.nanmax(raw) - (1e-5 if X.dtype == 'f4' else 1e-9)]
        refs = [svm.Reference(members[i].kernel, normalized, X, y, task, weight, **params)
                for i in best]
    except svm.Slow:
        c.count('slow_skipped')
        c.ok(True, 'not used')
        return
    cls = OptimalKernelSVC if task == 'SVC' else OptimalKernelSVR
    if method == 'cv_risk' and c.chance(0.3):
        est = cls(given, **params)
    else:
        est = cls(k_bucket=given, method=method, **params)
    given_X, given_y = X, y
    prior = c.chance(0.3)
    for _ in range(c.randint(1, 5) if prior and c.chance(0.4) else 0):
        # several earlier fits, of any size
        n0 = c.randint(9, 14)
        y0 = np.arange(n0) % 2
        X0 = svm.class_data(c, y0, n0 + 2) / 2.0 + 0.5
        try:
            est.fit(X0, y0)
            c.count('many_fits')
        except ValueError:
            pass  # e.g. no kernel is finite on X0
    if prior and c.chance(0.6):
        # an earlier fit on data of the same shape (possibly in the same arrays)
        perm = c.rng.permutation(n)
        X0, y0 = X.copy(), y.copy()
        how = c.pick(['targets', 'rows', 'both', 'scaled'])
        if how in ('targets', 'both'):
            y0 = y[perm].copy()
        if how in ('rows', 'both'):
            X0 = X[c.rng.permutation(n)].copy()
        if how == 'scaled':
            X0 = X * c.pick([0.1, 10.0])
        try:
            est.fit(X0, y0)
            c.count('refit_same_shape')
            est.predict(X0[:2])
        except ValueError:
            pass  # e.g. no kernel is finite on X0
        if c.chance(0.5):
            X0[...], y0[...] = X, y
            given_X, given_y = X0, y0
    elif prior:
        # an earlier fit on other data
        n0 = c.randint(9, 12)
        if task == 'SVC':
            y0 = np.arange(n0) % 3
            X0 = svm.class_data(c, y0, n0 + 2) / 2.0 + 0.5
        else:
            X0 = c.rng.normal(size=(n0, n0 + 2)) / 2.0 + 0.5
            y0 = X0[:, 0]
        try:
            est.fit(X0, y0)
            est.predict(X0[:2])
            c.count('refit')
        except ValueError:
            pass  # e.g. no kernel is finite on X0
    watched = None
    if isinstance(given, KernelBucket) and c.chance(0.4):
        # the caller uses the bucket for something else at the same time
        Z = c.rng.normal(size=(n, c.randint(1, 4))) + 2.0
        given.attach_to(Z)
        for j, m in enumerate(given):
            m.set_attr('mine', j)
        lin = [m for m in given if not isinstance(m.kernel, Spoiled)]
        if c.chance(0.5):
            for m in lin:
                c.pick([lambda: m[0, :], lambda: m.full, lambda: m.diagonal()])()
        watched = (Z, lin)
        c.count('attached_before')
    before = [(m, m.num_samples) for m in given] if isinstance(given, KernelBucket) \
        else None
    scribble = c.chance(0.35)
    if scribble:
        given_X, given_y = given_X.copy(), given_y.copy()
    if not scribble and c.chance(0.15) and X.dtype == 'f8':
        given_X = given_X.tolist()
        c.count('lists')
    if not scribble and c.chance(0.15):
        given_y = given_y.tolist()
    given_w = weight.tolist() if weight is not None and c.chance(0.3) else weight
    got = est.fit(given_X, given_y) if weight is None \
        else est.fit(given_X, given_y, sample_weight=given_w)
    c.ok(got is est, 'fit returns the estimator')
    if scribble:
        # the caller reuses the arrays
        given_X[...] = c.pick([7.0, given_X[::-1].copy()])
        given_y[...] = given_y[::-1].copy()
        c.count('arrays_reused')
    alive = list(range(len(refs)))
    for m in sizes:
        T = X[c.rng.integers(n, size=m)] + 0.2 * c.rng.normal(size=(m, d)) \
            * np.sqrt(4.0 / max(4, d))
        if c.chance(0.2):
            T = X.copy()
        elif c.chance(0.15):
            T = T * c.pick([30.0, 100.0])
            c.count('far_rows')
        try:
            outcomes = [r.predict(T) for r in refs]
        except Exception:
            continue
        if not all(np.isfinite(svm.fresh_full(r.kernel, T, X, normalized)).all()
                   for r in refs):
            continue
        pred = est.predict(T.tolist() if T.dtype == 'f8' and c.chance(0.15) else T)
        alive = [i for i in alive if svm.matches(pred, outcomes[i][0], outcomes[i][1],
                                                 task)]
        c.ok(alive, 'no best kernel explains the predictions', pred,
             [o[0] for o in outcomes], [str(members[i].kernel) for i in best])
        c.count('predictions', len(T))
        if c.chance(0.3):
            # the same array, with other contents by now
            some = min(m, len(T))
            buf = X[c.rng.integers(n, size=some)].astype(T.dtype)
            est.predict(buf)
            buf[...] = T[:some]
            svm.agree(c, est.predict(buf), np.asarray(pred)[:some],
                      outcomes[alive[0]][1][:some],
                      task, 'array changed in place')
        # batches
        perm = c.rng.permutation(len(T))
        again = est.predict(T[perm])
        w, s = outcomes[alive[0]]
        svm.agree(c, again, np.asarray(pred)[perm], s[perm], task, 'permuted batch')
        i = c.randint(0, len(T) - 1)
        svm.agree(c, est.predict(T[i:i + 1]), np.asarray(pred)[i:i + 1], s[i:i + 1], task,
                  'row alone')
        if task == 'SVC':
            c.ok(set(np.asarray(pred).tolist()) <= set(y.tolist()), 'labels', pred)
    if before is not None:
        c.ok(len(given) == len(before) and all(
            a is b[0] and a.num_samples == b[1] for a, b in zip(given, before)),
             'the bucket passed in was modified')
        c.count('bucket_intact')
    if watched is not None:
        Z, lin = watched
        c.ok([m.get_attr('mine', None) for m in given] == list(range(len(before))),
             'attributes of the bucket passed in changed')
        for m in lin:
            c.same(m[:, :], svm.fresh_full(m.kernel, Z), 'the bucket passed in shows '
                   'another matrix', rtol=1e-9, atol=1e-12)
            c.same(m.full, svm.fresh_full(m.kernel, Z, normalized=normalized),
                   'the bucket passed in shows another matrix', rtol=1e-9, atol=1e-12)
    if len(best) == 1:
        c.count('unique_best')
    if np.isnan(raw).any():
        c.count('nonfinite_kernels')
    c.count(task)
    c.count(method)
    return raw


@check.scenario(quick=400, thorough=8000,
                required=['SVC', 'SVR', 'predictions', 'unique_best', 'bucket_intact',
                          'nonfinite_kernels', 'refit', 'refit_same_shape',
                          'arrays_reused', 'equal_weights', 'attached_before', 'lists',
                          'single_precision', 'zero_weights', 'many_fits'])
def align(c):
    kb, normalized = _bucket(c, 'align/corr')
    _run(c, kb, list(kb), normalized, 'align/corr',
         c.size(8, 20, BIG_SIZES) if c.chance(0.9) else c.randint(3, 5))


@check.scenario(quick=90, thorough=1500,
                required=['SVC', 'SVR', 'predictions', 'unique_best', 'bucket_intact'])
def cv_risk(c):
    kb, normalized = _bucket(c, 'cv_risk')
    _run(c, kb, list(kb), normalized, 'cv_risk', c.size(12, 20, (33, 41, 51)))


@check.scenario(quick=30, thorough=300, required=['strategy', 'predictions'])
def strategies(c):
    name = ('linear_only', 'light', 'exhaustive', 'light', 'linear_only')[c.index % 5]
    method = 'cv_risk' if c.index % 3 == 0 else 'align/corr'
    members = list(make_kernel_bucket(name))
    _run(c, name, members, True, method, c.randint(12, 16), sizes=(1, 5))
    c.count('strategy')


@check.scenario(quick=200, thorough=2000, required=['refused', 'later_ok'])
def bad_buckets(c):
    cls = c.pick([OptimalKernelSVC, OptimalKernelSVR])
    lin = KernelMatrix(LinearKernel())
    bad = c.pick([None, 5, 'bogus', '', [lin], KernelSet([lin]), LinearKernel(), lin,
                  KernelBucket, 2.5, ('light',), {}])
    n = 12
    y = np.arange(n) % 2
    X = svm.class_data(c, y, n + 3) + 1.0
    c.note(cls=cls.__name__, bad=repr(bad)[:30])
    est = cls(k_bucket=bad, method='align/corr')
    c.raises(ValueError, lambda: est.fit(X, y), 'fit with such a bucket')
    c.raises(Exception, lambda: est.predict(X), 'predict after a refused fit')
    c.count('refused')
    est.set_params(k_bucket='linear_only')
    est.fit(X, y)
    task = 'SVC' if cls is OptimalKernelSVC else 'SVR'
    reference = svm.Reference(LinearKernel(), True, X, y, task, C=1.0)
    reference.compare(c, est.predict(X), X, 'fit with a valid bucket afterwards')
    c.count('later_ok')


@check.scenario(quick=150, thorough=2000, required=['chi2'])
def user_kernels(c):
    """kernels added by the user that accept only some data"""
    kb = make_kernel_bucket('linear_only', normalize_kernels=c.chance(0.5))
    kb.add_parametrized_kernels(Chi2Kernel, 'gamma', [0.1, 1.0])
    n = c.randint(8, 14)
    y = np.arange(n) % 2
    X = np.abs(svm.class_data(c, y, 6)) + 0.1
    members = list(kb)
    est = OptimalKernelSVC(kb, method='align/corr')
    est.fit(X, y)
    outcomes = []
    for flag in (True, False):
        scores = [svm.alignment(svm.fresh_full(m.kernel, X, normalized=flag), y)
                  for m in members]
        i = int(np.argmax(scores))
        outcomes.append(svm.Reference(members[i].kernel, flag, X, y, 'SVC', C=1.0))
    T = np.abs(X + 0.3 * c.rng.normal(size=X.shape)) + 0.1
    got = est.predict(T)
    c.ok(any(svm.matches(got, *o.predict(T), task='SVC') for o in outcomes),
         'predictions with a bucket of chi-squared kernels', got)
    try:
        est.predict(-T)  # refused by the chi-squared kernel, not by the linear one
    except Exception:
        c.count('predict_failed')
    svm.agree(c, est.predict(T), got, np.ones(n, bool), 'SVC', 'predict after a failure')
    c.count('chi2')
    c.note(n=n, salt=c.case_seed)
