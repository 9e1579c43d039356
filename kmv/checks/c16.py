"""C16: KernelMachine predicts like an SVM on the exact kernel matrices."""
import numpy as np
from kernelmethods.algorithms import KernelMachine, KernelMachineRegressor
from kernelmethods.numeric_kernels import (Chi2Kernel, GaussianKernel, LaplacianKernel,
                                           LinearKernel, PolyKernel)

from kmv import gen, ref, svm
from kmv.core import BIG_SIZES, Check

check = Check(
    'C16', 'exploration',
    'random histories of fit and predict on kernel machines that share kernel '
    'functions, with all label types, weights and sample forms; every prediction is '
    'compared with scikit-learn on explicit kernel matrices; distinct by history',
    ['labels of rows within 1e-6 of a decision boundary are not compared'])


def _kernel(c):
    kind = c.pick(['gauss', 'laplace', 'linear', 'poly', 'callable', 'chi2', 'default'])
    if kind == 'gauss':
        return GaussianKernel(sigma=c.pick([0.5, 1.0, 2.0, 4.0]))
    if kind == 'laplace':
        return LaplacianKernel(gamma=c.pick([0.1, 0.5]))
    if kind == 'linear':
        return LinearKernel()
    if kind == 'poly':
        return PolyKernel(degree=c.pick([2, 3]), b=1.0)
    if kind == 'chi2':
        return Chi2Kernel(gamma=0.5)
    if kind == 'callable':
        return gen.KernelFromCallable(gen.plain_dot, name='pd', scale=2.0)
    return None


def _data(c, task, k, n, d):
    if task == 'SVC':
        y, kind = svm.labels(c, n, c.pick([2, 2, 3]))
        if c.chance(0.2):
            y = svm.unbalanced(c, y)
            c.count('unbalanced')
        X = svm.class_data(c, y.astype(str), d)
    else:
        X = c.rng.normal(size=(n, d))
        y = X @ c.rng.normal(size=d) + 0.1 * c.rng.normal(size=n)
        kind = c.pick(['float', 'int', 'i1', 'bool_like', 'f4'])
        if kind == 'int':
            y = np.rint(3 * y).astype('i8')
        elif kind == 'i1':
            y = np.clip(np.rint(10 * y), -127, 127).astype('i1')
        elif kind == 'bool_like':
            y = (y > 0).astype(int)
        elif kind == 'f4':
            y = y.astype('f4')
    if isinstance(k, Chi2Kernel):
        X = np.abs(X)
    if c.chance(0.3):
        X = X + 2.0 if not isinstance(k, Chi2Kernel) else X
    if k is None or isinstance(k, (GaussianKernel, LaplacianKernel)):
        if c.chance(0.25):
            # small differences between large values
            X = X + c.pick([1e3, -1e5, 1e6])
            c.count('large_offset')
    if c.chance(0.12):
        # repeated rows
        X[c.rng.integers(n, size=c.randint(1, n))] = X[c.rng.integers(n)]
        c.count('equal_rows')
    if c.chance(0.15) and abs(X).max() < 100:
        X = np.rint(X * 3).astype(c.pick(['i8', 'i4', 'i2']))
        c.count('integer_data')
    elif c.chance(0.12) and abs(X).max() < 100:
        X = X.astype('f4')
        c.count('single_precision')
    return X, y, kind


def _form(c, X):
    """same sample in another form"""
    how = c.pick(['array', 'list', 'F', 'readonly', 'strided', 'array'])
    if X.dtype == 'f4':
        how = c.pick(['array', 'readonly'])
    if how == 'list':
        return X.tolist()
    if how == 'array':
        return X
    return gen.lay_out(c.rng, X, how)


@check.scenario(quick=2500, thorough=40000,
                required=['SVC', 'SVR', 'weighted', 'zero_weights', 'refit', 'single_row', 'permuted',
                          'normalized', 'on_train', 'large_offset', 'interleaved', 'reused_array', 'arrays_reused',
                          'equal_weights', 'equal_rows', 'integer_data',
                          'single_precision', 'far_rows', 'unbalanced', 'labels_int',
                          'labels_str', 'labels_float', 'labels_bool', 'labels_obj'])
def histories(c):
    task = c.pick(['SVC', 'SVR'])
    cls = KernelMachine if task == 'SVC' else KernelMachineRegressor
    k = _kernel(c)
    normalized = c.chance(0.4) and not isinstance(k, LinearKernel)
    est = cls(normalized=normalized) if k is None else cls(k, normalized=normalized)
    kern = GaussianKernel(sigma=2.0) if k is None else k
    d = c.dim(1, 4)
    other = None
    hist = []
    reference = None
    for step in range(c.randint(3, 8)):
        op = 'fit' if reference is None else c.pick(['predict', 'predict', 'predict',
                                                     'fit', 'other'])
        if op == 'fit':
            n = c.size(6, 24, BIG_SIZES) if c.chance(0.9) else c.randint(3, 5)
            if hist and c.chance(0.5):
                pass  # same dimensionality
            else:
                d = c.dim(1, 4)
            X, y, kind = _data(c, task, k, n, d)
            if normalized and np.any(ref.self_sim(kern, X) < 1e-3):
                X = np.abs(X) + 1
            weight = None
            if c.chance(0.4):
                weight = c.rng.random(n) + 0.1
                if c.chance(0.3):
                    weight[c.rng.integers(n)] = 5.0
                if c.chance(0.15):
                    # only the scale matters
                    weight = np.full(n, c.pick([1e-3, 0.02, 0.1, 3.0, 1.0]))
                    c.count('equal_weights')
                elif c.chance(0.4):
                    # some rows count (almost) nothing, but not a whole class
                    for value in (np.unique(y) if task == 'SVC' else [None]):
                        rows = np.arange(n) if value is None else np.flatnonzero(y == value)
                        rows = c.rng.permutation(rows)[:c.randint(0, max(0, len(rows) - 2))]
                        weight[rows] = c.pick([0.0, 0.0, 1e-3, 1e-6])
                    c.count('zero_weights')
                elif c.chance(0.2):
                    weight = np.rint(weight * 3) + 1
                    weight = weight.astype(c.pick(['i8', 'f4']))
                c.count('weighted')
            try:
                reference = svm.Reference(kern, normalized, X, y, task, weight, C=10)
            except svm.Slow:
                c.count('slow_skipped')
                c.ok(True, 'not used')
                return
            given_y = y.tolist() if c.chance(0.3) else y
            given_w = weight.tolist() if weight is not None and c.chance(0.3) else weight
            given_X = _form(c, X)
            scribble = c.chance(0.35)
            if scribble and given_X is X:
                given_X = X.copy()
            if scribble and given_y is y:
                given_y = y.copy()
            if scribble and given_w is not None and given_w is weight:
                given_w = weight.copy()
            if not np.asarray(given_X).flags['C_CONTIGUOUS']:
                reference.slack = 1e-2
                c.count('other_layout')
            if weight is None:
                got = est.fit(given_X, given_y)
            else:
                got = est.fit(given_X, given_y, sample_weight=given_w)
            c.ok(got is est, 'fit returns the estimator')
            if scribble:
                # the caller reuses the arrays
                for arr in (given_X, given_y, given_w):
                    if isinstance(arr, np.ndarray) and arr.flags.writeable:
                        arr[...] = arr[::-1].copy() if c.chance(0.5) else arr[:1].copy()
                    elif isinstance(arr, list):
                        arr[:] = arr[::-1]
                if isinstance(given_X, np.ndarray) and given_X.flags.writeable \
                        and c.chance(0.5):
                    given_X[...] = 7.0
                c.count('arrays_reused')
            if any(h.startswith('fit') for h in hist):
                c.count('refit')
            if task == 'SVC':
                c.count('labels_' + kind)
            c.count(task)
            hist.append('fit{}/{}/{}'.format(n, kind, weight is not None))
        elif op == 'other':
            # a second estimator with the same kernel function, on other data
            other = cls(k, normalized=False) if k is not None else cls()
            Xo, yo, _ = _data(c, task, k, c.randint(6, 12), c.randint(1, 4))
            other.fit(Xo, yo)
            other.predict(Xo[:3])
            c.count('interleaved')
            hist.append('other')
        else:
            m = c.size_of([1, 1, 2], 3, 30)
            how = c.pick(['new', 'new', 'train', 'near', 'far'])
            if how == 'train':
                T = X[c.rng.integers(len(X), size=m)]
                c.count('on_train')
            elif how == 'near':
                T = X[c.rng.integers(len(X), size=m)] + 0.1
            else:
                T = c.rng.normal(size=(m, d)) * 1.5
                if abs(X).max() > 500:
                    T = T + np.rint(X.mean(axis=0))
                if isinstance(k, Chi2Kernel):
                    T = np.abs(T)
                if how == 'far':
                    T = T * c.pick([30.0, 100.0])
                    c.count('far_rows')
            if c.chance(0.1) and abs(T).max() < 500:
                T = np.rint(T).astype('i8')
            if X.dtype == 'f4':
                T = T.astype('f4')
            if normalized and np.any(ref.self_sim(kern, T) < 1e-3):
                T = np.abs(T) + 1
            got = est.predict(_form(c, T))
            got_c = est.predict(np.ascontiguousarray(T))
            svm.agree(c, got_c, got, reference.predict(T)[1], task,
                      'same rows in another form')
            _, sure = reference.compare(c, got, T, 'prediction after ' + ','.join(hist))
            want = np.asarray(got_c)
            hist.append('predict{}{}'.format(m, how))
            if m == 1:
                c.count('single_row')
            if task == 'SVC':
                ya = np.asarray(y)
                c.ok(np.asarray(got).dtype.kind == np.asarray(given_y).dtype.kind,
                     'type of the labels', got, np.asarray(given_y))
                c.ok(set(np.asarray(got).tolist()) <= set(ya.tolist()),
                     'labels of the training set', got)
            if normalized:
                c.count('normalized')
            if c.chance(0.3):
                # the same array, with other contents by now
                buf = np.array(T, dtype=X.dtype if X.dtype == 'f4' else float)
                est.predict(buf)
                moved = X[c.rng.integers(len(X), size=m)]
                buf[...] = moved
                reference.compare(c, est.predict(buf), moved, 'array changed in place')
                c.count('reused_array')
            # rows are independent of their batch
            if m > 1:
                perm = c.rng.permutation(m)
                svm.agree(c, est.predict(T[perm]), want[perm], sure[perm], task,
                          'permuted batch')
                i = c.randint(0, m - 1)
                svm.agree(c, est.predict(T[i:i + 1]), want[i:i + 1], sure[i:i + 1], task,
                          'row alone')
                c.count('permuted')
            big = np.vstack([T, X])
            if c.chance(0.3):
                svm.agree(c, est.predict(big)[:m], want, sure, task, 'larger batch')
    if reference is not None:
        reference.compare(c, est.predict(X), X, 'final prediction')
    c.note(task=task, kernel=str(kern), normalized=normalized, hist=hist)
