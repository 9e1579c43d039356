"""Oracles for the estimators and for kernel ranking: scikit-learn's SVMs on explicitly
sliced kernel matrices, without any of the library's own estimator code."""
import numpy as np
from sklearn.metrics import accuracy_score, r2_score
from sklearn.model_selection import KFold, StratifiedKFold
from sklearn.svm import SVC, SVR

from kernelmethods.base import KernelMatrix
from kmv import ref

RANGE_C = [10.0 ** e for e in range(-6, 6)]


def fresh_full(kernel, X, Y=None, normalized=False):
    """full matrix from a kernel matrix nobody else has touched"""
    km = KernelMatrix(kernel, normalized=normalized)
    ref.attach(km, X, Y)
    return np.array(km.full)


MAX_ITER = 50000


class Slow(Exception):
    """libsvm converges too slowly on this problem to be used in a check"""


def _fit(model, K, y):
    model.set_params(max_iter=MAX_ITER)
    model.fit(K, y)
    if np.max(model.n_iter_) >= MAX_ITER:
        raise Slow()
    return model


def cv_score(K, y, folds, task):
    """best mean score over RANGE_C. Raises Slow for problems to stay away from."""
    y = np.asarray(y)
    if task == 'SVC':
        splits = list(StratifiedKFold(folds).split(np.zeros(len(y)), y))
    else:
        splits = list(KFold(folds).split(np.zeros(len(y))))
    best = -np.inf
    for C in RANGE_C:
        scores = []
        _fit(SVC(kernel='precomputed', C=C) if task == 'SVC'
             else SVR(kernel='precomputed', C=C), K, y)
        for train, test in splits:
            model = SVC(kernel='precomputed', C=C) if task == 'SVC' \
                else SVR(kernel='precomputed', C=C)
            _fit(model, K[np.ix_(train, train)], y[train])
            pred = model.predict(K[np.ix_(test, train)])
            scores.append(accuracy_score(y[test], pred) if task == 'SVC'
                          else r2_score(y[test], pred))
        best = max(best, np.mean(scores))
    return best


def scale_100(raw):
    """min-max to 0..100, NaN kept. Returns (scores, spread)"""
    raw = np.asarray(raw, 'f8')
    lo, hi = np.nanmin(raw), np.nanmax(raw)
    if hi - lo < 1e-8:
        return np.where(np.isnan(raw), np.nan, 0.0), hi - lo
    return 100 * (raw - lo) / (hi - lo), hi - lo


def alignment(K, y):
    """centered alignment with the outer product of the targets, 0 when undefined"""
    y = np.asarray(y, 'f8')
    A, B = ref.center(K), ref.center(np.outer(y, y))
    na, nb = np.linalg.norm(A), np.linalg.norm(B)
    if not np.isfinite(na):
        return np.nan
    if na < 1e-8 or nb < 1e-8:
        return 0.0
    return float(np.sum(A * B) / (na * nb))


def labels(c, n, num_classes, kinds=('int', 'neg', 'float', 'str', 'bool', 'i1', 'obj', 'big',
                              'u8', 'frac', 'long_str')):
    """class labels with at least n // num_classes of each class, in random order"""
    kind = c.pick(kinds)
    if kind == 'bool':
        num_classes = 2
    code = np.arange(n) % num_classes
    c.rng.shuffle(code)
    if kind == 'int':
        y = code + c.randint(0, 5)
    elif kind == 'neg':
        y = np.array([-1, 1, 7, -3])[code]
    elif kind == 'float':
        y = np.array([0.0, 1.0, 2.0, -4.0])[code]
    elif kind == 'str':
        y = np.array(['no', 'yes', 'maybe so', ''])[code]
    elif kind == 'obj':
        y = np.array(['a', 'bb', 'ccc', 'd'], dtype=object)[code]
    elif kind == 'bool':
        y = code.astype(bool)
    elif kind == 'big':
        y = np.array([2 ** 40, -2 ** 40, 2 ** 40 + 1, 3])[code]
    elif kind == 'u8':
        y = np.array([2 ** 33, 5, 2 ** 52 + 1, 0], dtype='u8')[code]
    elif kind == 'frac':
        y = np.array([1e10, -1e10, 3e9, 0.0])[code]
    elif kind == 'long_str':
        y = np.array(['a' * 20 + 'x', 'a' * 20 + 'y', 'a' * 20, 'b '])[code]
    else:
        y = np.array([-100, 100, 3, 50], dtype='i1')[code]
    return y, kind


def unbalanced(c, y):
    """most rows belong to one class, a few to each of the others"""
    y = y.copy()
    values = np.unique(y)
    main = values[c.randint(0, len(values) - 1)]
    for value in values:
        rows = np.flatnonzero(y == value)
        if value != main:
            y[rows[c.randint(1, 2):]] = main
    return y


def class_data(c, code, d, spread=1.0):
    """features that carry some information on the labels"""
    uniq, inv = np.unique(code, return_inverse=True)
    centers = c.rng.normal(size=(len(uniq), d)) * 1.5
    return centers[inv] + c.rng.normal(size=(len(inv), d)) * spread


# ------------------------------------------------------------------- prediction oracle
class Reference(object):
    """SVC / SVR on explicit kernel matrices"""

    def __init__(self, kernel, normalized, X, y, task, weight=None, **params):
        self.kernel, self.normalized = kernel, normalized
        self.X, self.task = np.asarray(X), task
        y = np.asarray(y)
        if task == 'SVR':
            y = y.astype('f8')
        model = (SVC if task == 'SVC' else SVR)(kernel='precomputed', **params)
        model.set_params(max_iter=2000000)
        self.model = model.fit(fresh_full(kernel, self.X, normalized=normalized), y,
                               sample_weight=weight)
        if np.max(model.n_iter_) >= 2000000:
            raise Slow()

    # the solver stops within a tolerance of 1e-3: if the training matrix may differ in
    # rounding (e.g. other memory layout of the sample), so may predictions
    slack = 1e-6

    def predict(self, T):
        """(predictions, sure): rows that are not sure are within rounding of a tie"""
        K = fresh_full(self.kernel, np.asarray(T), self.X, self.normalized)
        pred = self.model.predict(K)
        if self.task == 'SVR':
            return pred, np.ones(len(pred), bool)
        self.model.set_params(decision_function_shape='ovo')
        dec = np.abs(self.model.decision_function(K)).reshape(len(pred), -1)
        return pred, dec.min(axis=1) > self.slack

    def compare(self, c, got, T, what):
        want, sure = self.predict(T)
        agree(c, got, want, sure, self.task, what, self.slack)
        return want, sure


def agree(c, got, want, sure, task, what, slack=1e-6):
    got = np.asarray(got)
    c.ok(got.shape == np.shape(want), what + ': shape', got.shape, np.shape(want))
    if task == 'SVR':
        c.ok(got.dtype.kind == 'f', what + ': real values', got.dtype)
        c.same(got, want, what, rtol=slack, atol=slack * max(1.0, np.abs(want).max()))
    else:
        c.checks += 1
        if not np.array_equal(got[sure], np.asarray(want)[sure]):
            c.fail(what + ': predicted labels differ', got, want)


def matches(got, want, sure, task):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    if task == 'SVR':
        return np.allclose(got, want, rtol=1e-6, atol=1e-6 * max(1.0, np.abs(want).max()))
    return np.array_equal(got[sure], want[sure])
