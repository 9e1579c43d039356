"""C24: estimators follow the scikit-learn protocol."""
import copy
import io
import pickle

import joblib
import numpy as np
from kernelmethods.algorithms import (KernelMachine, KernelMachineRegressor,
                                      OptimalKernelSVC, OptimalKernelSVR)
from kernelmethods.numeric_kernels import (GaussianKernel, LaplacianKernel, LinearKernel,
                                           PolyKernel)
from kernelmethods.sampling import KernelBucket
from sklearn.base import clone, is_classifier, is_regressor
from sklearn.exceptions import NotFittedError
from sklearn.metrics import accuracy_score, r2_score
from sklearn.model_selection import (GridSearchCV, KFold, StratifiedKFold,
                                     cross_val_predict, cross_val_score, cross_validate)
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import StandardScaler

from kmv import gen, svm
from kmv.core import Check

check = Check(
    'C24', 'exploration',
    'random settings of all four estimators; histories of get_params, set_params, clone, '
    'copy, pickle, fit and predict; cross-validation helpers of scikit-learn against a '
    'manual loop over folds; distinct by settings and operations',
    ['labels of rows within 1e-6 of a decision boundary are not compared'])


def _kernel(c):
    return c.pick([lambda: GaussianKernel(sigma=c.pick([0.5, 1.0, 3.0])),
                   lambda: LaplacianKernel(gamma=c.pick([0.1, 0.7])),
                   lambda: PolyKernel(degree=2, b=c.pick([0.5, 1.0])),
                   lambda: LinearKernel(),
                   lambda: gen.KernelFromCallable(gen.plain_dot, scale=2.0)])()


def _bucket(c):
    if c.chance(0.4):
        return 'linear_only'
    return KernelBucket(poly_degree_values=c.pick([None, [2]]),
                        rbf_sigma_values=c.pick([[1.0], [0.5, 2.0]]),
                        laplace_gamma_values=c.pick([None, [0.5]]),
                        sigmoid_gamma_values=None, sigmoid_offset_values=None,
                        normalize_kernels=c.chance(0.7))


MACHINES = {'KernelMachine': KernelMachine,
            'KernelMachineRegressor': KernelMachineRegressor,
            'OptimalKernelSVC': OptimalKernelSVC, 'OptimalKernelSVR': OptimalKernelSVR}
DEFAULTS = {'KernelMachine': dict(learner_id='SVC', normalized=False),
            'KernelMachineRegressor': dict(learner_id='SVR', normalized=False),
            'OptimalKernelSVC': dict(k_bucket='exhaustive', method='cv_risk', C=1.0,
                                     shrinking=True, tol=1e-3),
            'OptimalKernelSVR': dict(k_bucket='exhaustive', method='cv_risk', C=1.0,
                                     epsilon=0.1, shrinking=True, tol=1e-3)}


def _task(name):
    return 'SVC' if name in ('KernelMachine', 'OptimalKernelSVC') else 'SVR'


def _one_param(c, name, param):
    if param == 'k_func':
        return _kernel(c)
    if param == 'normalized':
        return c.chance(0.5)
    if param == 'learner_id':
        return _task(name)
    if param == 'k_bucket':
        return _bucket(c)
    if param == 'method':
        return 'align/corr'
    if param == 'C':
        return c.pick([1e-3, 0.1, 1.0, 5, 5.0, 100.0])
    if param == 'epsilon':
        return c.pick([0.0, 1e-3, 0.01, 0.2, 0.5])
    if param == 'shrinking':
        return c.chance(0.5)
    return c.pick([1e-2, 1e-3, 1e-4])


def _params(name):
    if 'Optimal' in name:
        out = ['k_bucket', 'method', 'C', 'shrinking', 'tol']
        return out + ['epsilon'] if name.endswith('SVR') else out
    return ['k_func', 'normalized', 'learner_id']


def _settings(c, name):
    """settings under which a fit is cheap"""
    given = {p: _one_param(c, name, p) for p in _params(name) if c.chance(0.5)}
    if 'Optimal' in name:
        given['method'] = 'align/corr'
        given.setdefault('k_bucket', _bucket(c))
    return given


def _verify_params(c, est, name, want, what):
    for deep in (True, False):
        got = est.get_params(deep=deep)
        c.ok(set(got) >= set(_params(name)), what + ': names of parameters', sorted(got))
        for p, v in want.items():
            c.ok(got[p] is v or (not hasattr(v, '__call__') and got[p] == v),
                 '{}: {}={!r}'.format(what, p, v), got[p])
            c.ok(getattr(est, p) is got[p] or getattr(est, p) == got[p],
                 what + ': attribute {}'.format(p))
    c.count('params_checked')


def _full_settings(name, given, est):
    want = dict(DEFAULTS[name])
    if 'Optimal' not in name:
        want['k_func'] = est.k_func
    want.update(given)
    return want


def _data(c, name, n=None, d=None):
    n, d = n or c.randint(12, 24), d or c.randint(2, 4)
    if _task(name) == 'SVC':
        kinds = ('int', 'neg', 'i1') if 'Optimal' in name else \
            ('int', 'neg', 'str', 'bool', 'float', 'obj')
        y, _ = svm.labels(c, n, c.pick([2, 2, 3]), kinds)
        X = svm.class_data(c, y.astype(str), d)
    else:
        X = c.rng.normal(size=(n, d))
        y = X @ c.rng.normal(size=d) + 0.1 * c.rng.normal(size=n)
        if c.chance(0.3):
            y = np.rint(5 * y).astype(int)
    return X + 0.5, y


def _same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind == 'f' and b.dtype.kind == 'f':
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)
    return np.array_equal(a, b)


def _unfitted(c, est, X, what):
    c.raises(NotFittedError, lambda: est.predict(X), what + ': predict before fit')
    c.count('not_fitted')


def _twin(name, want):
    return MACHINES[name](**want)


@check.scenario(quick=1500, thorough=25000,
                required=['params_checked', 'not_fitted', 'cloned', 'pickled', 'set',
                          'fitted', 'KernelMachine', 'KernelMachineRegressor',
                          'OptimalKernelSVC', 'OptimalKernelSVR', 'cloned_fitted'])
def histories(c):
    name = c.pick(sorted(MACHINES))
    given = _settings(c, name)
    est = MACHINES[name](**given)
    want = _full_settings(name, given, est)
    c.ok(is_classifier(est) == (_task(name) == 'SVC')
         and is_regressor(est) == (_task(name) == 'SVR'), 'type of estimator')
    X, y = _data(c, name)
    T = X[:5] + 0.05
    _unfitted(c, est, T, 'new')
    _verify_params(c, est, name, want, 'constructor')
    fitted = None
    hist = []
    for _ in range(c.randint(3, 8)):
        op = c.pick(['set', 'clone', 'pickle', 'fit', 'fit', 'copy', 'predict', 'score'])
        if op == 'set':
            some = [p for p in _params(name) if c.chance(0.4)]
            change = {p: _one_param(c, name, p) for p in some}
            got = est.set_params(**change)
            c.ok(got is est, 'set_params returns the estimator')
            want.update(change)
            fitted = None  # predictions are defined again after the next fit
            c.count('set')
        elif op == 'clone':
            if fitted is not None:
                before = est.predict(T)
            new = clone(est)
            _unfitted(c, new, T, 'clone')
            c.ok(type(new) is type(est), 'type of the clone')
            got, old = new.get_params(), est.get_params()
            c.ok(set(got) == set(old), 'parameters of the clone')
            for p in got:
                c.ok(got[p] == old[p] or str(got[p]) == str(old[p]),
                     'parameter {} of the clone'.format(p), got[p], old[p])
            if fitted is not None:
                new.fit(*fitted)
                c.ok(_same(new.predict(T), before),
                     'the clone, fitted on the same data, predicts the same after '
                     + ','.join(hist), new.predict(T), before)
                c.ok(_same(est.predict(T), before), 'the original predicts as before')
                c.count('cloned_fitted')
            else:
                new.fit(X, y)
                twin = _twin(name, want).fit(X, y)
                c.ok(_same(new.predict(T), twin.predict(T)),
                     'the clone has the settings of the original')
            c.count('cloned')
        elif op in ('pickle', 'copy'):
            new = pickle.loads(pickle.dumps(est)) if op == 'pickle' else \
                copy.deepcopy(est)
            c.ok(type(new) is type(est), 'type of the copy')
            got = new.get_params()
            for p, v in want.items():
                c.ok(got[p] == v or str(got[p]) == str(v),
                     'parameter {} of the copy'.format(p), got[p])
            if fitted is not None:
                c.ok(_same(new.predict(T), est.predict(T)),
                     op + ' predicts the same after ' + ','.join(hist))
                if c.chance(0.3):
                    # independent of the original
                    before = np.array(est.predict(T))
                    new.fit(*_data(c, name))
                    c.ok(_same(est.predict(T), before), 'original after refit of ' + op)
                elif c.chance(0.4):
                    est = new
                    want = {p: got[p] for p in want}
            elif not hist or 'fit' not in hist:
                _unfitted(c, new, T, op)
            c.count('pickled')
        elif op == 'fit':
            X, y = _data(c, name)
            T = X[:c.randint(1, 6)] + 0.05
            c.ok(est.fit(X, y) is est, 'fit returns the estimator')
            fitted = (X, y)
            twin = _twin(name, want).fit(X, y)
            c.ok(_same(est.predict(T), twin.predict(T)),
                 'fit after {} equals that of a new estimator with these settings'
                 .format(hist), est.predict(T), twin.predict(T))
            c.count('fitted')
        elif op == 'predict' and fitted is not None:
            pred = est.predict(T)
            c.ok(len(pred) == len(T), 'one prediction per row')
            c.ok(_same(est.predict(T), pred), 'predictions are repeatable')
        elif op == 'score' and fitted is not None:
            Xs, ys = fitted
            pred = est.predict(Xs)
            manual = accuracy_score(ys, pred) if _task(name) == 'SVC' else \
                r2_score(ys, pred)
            c.same(est.score(Xs, ys), manual, 'score', rtol=1e-9, atol=1e-12)
            c.count('scored')
        hist.append(op)
        _verify_params(c, est, name, want, 'after ' + ','.join(hist))
    c.count(name)
    c.note(name=name, given=sorted(given), hist=hist)


def _manual(c, make, X, y, folds, task):
    """scores and predictions of a loop over folds with fresh estimators"""
    split = StratifiedKFold(folds) if task == 'SVC' else KFold(folds)
    scores, preds = [], np.empty(len(y), dtype=object)
    for train, test in split.split(np.zeros(len(y)), y):
        est = make().fit(X[train], y[train])
        pred = est.predict(X[test])
        preds[test] = list(pred)
        scores.append(accuracy_score(y[test], pred) if task == 'SVC'
                      else r2_score(y[test], pred))
    return np.array(scores), preds


@check.scenario(quick=500, thorough=8000,
                required=['scores', 'predictions', 'pipeline', 'grid', 'sorted_labels',
                          'KernelMachine', 'KernelMachineRegressor', 'OptimalKernelSVC',
                          'OptimalKernelSVR'])
def cross_validation(c):
    name = c.pick(sorted(MACHINES))
    task = _task(name)
    settings = _settings(c, name)
    settings = _full_settings(name, settings, MACHINES[name](**settings))
    X, y = _data(c, name, n=c.randint(18, 30))
    if c.chance(0.4) and task == 'SVC':
        order = np.argsort(y.astype(str), kind='stable')  # unstratified folds would fail
        X, y = X[order], y[order]
        c.count('sorted_labels')
    folds = c.randint(2, 4)

    def make():
        return _twin(name, settings)

    how = c.pick(['cross_val_score', 'cross_validate', 'cross_val_predict', 'pipeline',
                  'grid', 'explicit'])
    c.note(name=name, how=how, folds=folds, salt=c.case_seed)
    want, preds = _manual(c, make, X, y, folds, task)
    if how == 'cross_val_score':
        got = cross_val_score(make(), X, y, cv=folds, error_score='raise')
        c.same(got, want, 'cross_val_score', rtol=1e-9, atol=1e-9)
    elif how == 'explicit':
        scoring = 'accuracy' if task == 'SVC' else 'r2'
        got = cross_val_score(make(), X, y, cv=folds, scoring=scoring,
                              error_score='raise')
        c.same(got, want, 'cross_val_score with explicit scoring', rtol=1e-9, atol=1e-9)
    elif how == 'cross_validate':
        got = cross_validate(make(), X, y, cv=folds, return_estimator=True,
                             error_score='raise')
        c.same(got['test_score'], want, 'cross_validate', rtol=1e-9, atol=1e-9)
        c.ok(len(set(map(id, got['estimator']))) == folds, 'one estimator per fold')
    elif how == 'cross_val_predict':
        got = cross_val_predict(make(), X, y, cv=folds)
        c.ok(_same(np.array(got.tolist()), np.array(preds.tolist())),
             'cross_val_predict', got, preds)
        c.count('predictions')
    elif how == 'pipeline':
        pipe = make_pipeline(StandardScaler(), make())
        got = cross_val_score(pipe, X, y, cv=folds, error_score='raise')

        class Scaled(object):
            def fit(self, A, b):
                self.scaler = StandardScaler().fit(A)
                self.est = make().fit(self.scaler.transform(A), b)
                return self

            def predict(self, A):
                return self.est.predict(self.scaler.transform(A))

        want, _ = _manual(c, Scaled, X, y, folds, task)
        c.same(got, want, 'pipeline', rtol=1e-9, atol=1e-9)
        c.count('pipeline')
    else:
        if 'Optimal' in name:
            grid = {'C': [0.1, 5.0]}
        else:
            grid = c.pick([{'normalized': [False, True]},
                           {'k_func': [GaussianKernel(sigma=1.0), LinearKernel()]}])
        search = GridSearchCV(make(), grid, cv=folds, error_score='raise').fit(X, y)
        param, values = list(grid.items())[0]
        means = []
        for i, v in enumerate(values):
            one, _ = _manual(c, lambda: _twin(name, dict(settings, **{param: v})), X, y,
                             folds, task)
            c.same(search.cv_results_['mean_test_score'][i], one.mean(),
                   'grid search over {}={}'.format(param, v), rtol=1e-9, atol=1e-9)
            means.append(one.mean())
        best = search.best_params_[param]
        chosen = [i for i, v in enumerate(values) if str(v) == str(best)]
        c.ok(means[chosen[0]] >= max(means) - 1e-9, 'best parameter', best)
        final = _twin(name, dict(settings, **{param: values[chosen[0]]})).fit(X, y)
        c.ok(_same(search.predict(X[:4]), final.predict(X[:4])), 'refitted best estimator')
        c.count('grid')
    c.count('scores', folds)
    c.count(name)


@check.scenario(quick=60, thorough=1500, required=['saved', 'many_rows'])
def saved(c):
    """copies of estimators trained on many rows, on values of any magnitude"""
    name = c.pick(sorted(MACHINES))
    n = c.pick([20, 65, 101, 130, 260]) if 'Optimal' not in name else c.pick([20, 65, 110])
    X, y = _data(c, name, n=n, d=c.randint(1, 4))
    size = c.pick([1.0, 1e-3, 1e3, 1e5])
    offset = c.pick([0.0, 0.0, 1e3, -1e6])
    if 'Optimal' in name:  # has a linear kernel
        size, offset = 1.0, 0.0
    X = X * size + offset
    kern = c.pick([GaussianKernel(sigma=size * c.pick([1.0, 3.0])),
                   LaplacianKernel(gamma=c.pick([0.3, 1.0]) / size)])
    if 'Optimal' in name:
        kb = KernelBucket(poly_degree_values=None,
                          rbf_sigma_values=[kern.sigma] if hasattr(kern, 'sigma')
                          else [size], laplace_gamma_values=None,
                          sigmoid_gamma_values=None, sigmoid_offset_values=None,
                          normalize_kernels=False)
        est = MACHINES[name](kb, method='align/corr')
    else:
        est = MACHINES[name](kern, normalized=c.chance(0.3))
    est.fit(X, y)
    T = X[c.rng.integers(n, size=10)] + c.rng.normal(size=(10, X.shape[1])) * size
    want = est.predict(T)
    how = c.pick(['pickle', 'deepcopy', 'twice', 'joblib'])
    c.note(name=name, n=n, size=size, offset=offset, how=how, salt=c.case_seed)
    if how == 'deepcopy':
        new = copy.deepcopy(est)
    elif how == 'joblib':
        buf = io.BytesIO()
        joblib.dump(est, buf)
        buf.seek(0)
        new = joblib.load(buf)
    else:
        new = pickle.loads(pickle.dumps(est, protocol=c.randint(2, 5)))
        if how == 'twice':
            new = pickle.loads(pickle.dumps(new))
    c.ok(_same(new.predict(T), want), how + ' of an estimator trained on {} rows predicts '
         'otherwise'.format(n), new.predict(T), want)
    c.ok(_same(est.predict(T), want), 'the original predicts as before')
    again = clone(new).fit(X, y)
    c.ok(_same(again.predict(T), want), 'clone of the copy', again.predict(T), want)
    c.count('saved')
    c.count('many_rows', n > 100)
