"""C19: a failing kernel never leaves partial results behind.

Fault enumeration: the kernel function raises at its k-th evaluation, for every k, in
every view and fit operation, once or until repaired. Monitors: a call during which the
kernel raised must raise; a call that returns must return the values of the reference
model; a view that needs a pair that was never computed must raise while that pair
fails; after the repair everything equals the reference."""
import itertools

import numpy as np
from sklearn.exceptions import NotFittedError

from kernelmethods.algorithms import (KernelMachine, KernelMachineRegressor,
                                      OptimalKernelSVC, OptimalKernelSVR)
from kernelmethods.base import (AverageKernel, BaseKernelFunction, KernelMatrix,
                                KernelSet, ProductKernel, SumKernel,
                                WeightedAverageKernel)
from kernelmethods.config import KernelMethodsException, KMAccessError, KMNormError
from kernelmethods.numeric_kernels import GaussianKernel
from kernelmethods.operations import linear_combination
from kernelmethods.ranking import find_optimal_kernel, rank_kernels
from kernelmethods.sampling import KernelBucket

from kmv import gen, ref, svm
from kmv.core import BIG_SIZES, Check

check = Check(
    'C19', 'fault_enumeration',
    'kernel failure at the k-th evaluation, for all k, of every view of matrices up to '
    '4 x 4 (one and two samples, normalized or not, fresh or partly computed), of every '
    'composite fit, ranking, estimator fit and predict, transient or until repaired; '
    'plus random histories with failures switched on and off; distinct by fault point',
    ['kernel functions fail by raising an exception'])


class Boom(Exception):
    pass


ERRORS = (Boom, ValueError, RuntimeError, KeyError, ZeroDivisionError, IndexError,
          KMNormError, StopIteration, AttributeError, TypeError, NotImplementedError,
          KeyboardInterrupt, FloatingPointError, OverflowError, MemoryError, OSError,
          AssertionError, RecursionError, LookupError, ArithmeticError, GeneratorExit,
          KMAccessError, KernelMethodsException, np.linalg.LinAlgError, UserWarning,
          EOFError, TimeoutError, UnicodeError, NameError, BufferError)


class Faults(object):
    """decides whether an evaluation fails; shared by all copies of a kernel"""

    def __init__(self, error=Boom):
        self.error = error
        self.at = None          # countdown to one failure
        self.pairs = set()      # pairs failing until repaired
        self.always = False
        self.fired = 0
        self.succeeded = set()

    def __deepcopy__(self, memo):
        return self

    def __call__(self, count, a, b):
        fail = self.always or (a, b) in self.pairs or (b, a) in self.pairs
        if self.at is not None:
            self.at -= 1
            if self.at == 0:
                self.at = None
                fail = True
        if fail:
            self.fired += 1
            raise self.error('injected')
        self.succeeded.add((a, b))

    def repair(self):
        self.at, self.always = None, False
        self.pairs = set()


def attempt(func):
    """('returned', result) or ('raised', exc)"""
    try:
        return 'returned', func()
    except BaseException as exc:  # injected ones may be KeyboardInterrupt
        return 'raised', exc


def watch(c, faults, func, what):
    """Runs func; it must raise if and only if the kernel raised"""
    before = faults.fired
    status, res = attempt(func)
    hit = faults.fired > before
    c.count('faults_hit', hit)
    c.checks += 1
    if hit and status == 'returned':
        c.fail('{}: the kernel raised but the call returned'.format(what), res)
    if not hit and status == 'raised':
        c.fail('{}: raised without a kernel failure: {!r}'.format(what, res))
    return status, res


def _spaces():
    """all (shape, two, normalized, view, k, persistent, prior)"""
    out = []
    shapes = [((n, n), False) for n in (1, 2, 3, 4)] + \
        [(s, True) for s in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3))]
    for (shape, two) in shapes:
        views = [v for v in (ref.Views.TWO if two else ref.Views.ONE)
                 if v not in ('info', 'str')]
        num = shape[0] * shape[1] if two else shape[0] * (shape[0] + 1) // 2
        for normalized in (False, True):
            for view in views:
                top = num
                if two and view in ('normed', 'normalize()', 'full', 'sparse'):
                    top = num + shape[0] + shape[1]
                elif view in ('elem', 'lin'):
                    top = 1
                elif view in ('diag', 'row'):
                    top = max(shape)
                for k in range(1, top + 1):
                    for persistent in (False, True):
                        for prior in (False, True):
                            out.append((shape, two, normalized, view, k, persistent,
                                        prior))
    return out


SPACE = _spaces()


def _setup(c, shape, two, normalized, error):
    tag = gen.Tagged(c, symmetric=not two)
    X = tag.rows(shape[0])
    Y = tag.rows(shape[1]) if two else None
    if two and c.chance(0.2) and shape[0] == shape[1]:
        Y = X.copy()
    faults = Faults(error)
    kern = gen.RecordingKernel(tag, before=faults)
    km = KernelMatrix(kern, normalized=normalized)
    ref.attach(km, X, Y)
    model = ref.Model(tag.matrix(X, Y), normalized, tag.diag(X),
                      None if Y is None else tag.diag(Y), two)
    return tag, X, Y, faults, kern, km, model


def _needed(model, X, Y, view, arg):
    """pairs of ids a view needs"""
    ids_x = X[:, 0].astype(int).tolist()
    ids_y = ids_x if Y is None else Y[:, 0].astype(int).tolist()
    both = list(itertools.product(ids_x, ids_y))
    if view in ('info', 'str'):
        return []
    if view == 'diag':
        return [(i, i) for i in ids_x]
    if view == 'elem':
        return [(ids_x[arg[0]], ids_y[arg[1]])]
    if view == 'lin':
        i, j = divmod(arg, len(ids_y))
        return [(ids_x[i], ids_y[j])]
    if view == 'row':
        return [(ids_x[arg[0]], j) for j in ids_y]
    if view == 'sub':
        return [(ids_x[i], ids_y[j]) for i in arg[0] for j in arg[1]]
    if model.two and (view in ('normed', 'normalize()') or
                      (model.normalized and view in ('full', 'sparse'))):
        both = both + [(i, i) for i in ids_x + ids_y]
    return both


@check.scenario(quick=len(SPACE), thorough=4 * len(SPACE),
                required=['faults_hit', 'raised_again', 'recovered', 'views_compared'])
def every_fault_point(c):
    shape, two, normalized, view, k, persistent, prior = SPACE[c.index % len(SPACE)]
    error = c.pick(ERRORS)
    tag, X, Y, faults, kern, km, model = _setup(c, shape, two, normalized, error)
    views = ref.Views(c)
    if prior:
        # something was computed before
        arg = views.arg('elem', shape)
        views.check(km, model, 'elem', arg)
    arg = views.arg(view, shape)
    c.note(shape=shape, two=two, normalized=normalized, view=view, k=k,
           persistent=persistent, prior=prior)
    if persistent:
        # from the k-th evaluation on, everything fails
        faults.at = k
        original = faults.__call__
        first = faults.fired

        def hook(count, a, b):
            if faults.fired > first:
                faults.always = True
            original(count, a, b)

        kern.before = hook
    else:
        faults.at = k
    status, res = watch(c, faults, lambda: views.read(km, view, arg), 'view ' + view)
    if status == 'returned':
        views.compare(model, view, arg, res)
        if not two or view not in ('normed', 'normalize()', 'full', 'sparse'):
            c.count('not_reached')
    c.count('fault_points')
    if persistent and status == 'raised':
        # nothing partial is handed out while the kernel fails
        faults.always = True
        names = views.names(model)
        c.rng.shuffle(names)
        for name in names:
            a = views.arg(name, shape)
            st, r = watch(c, faults, lambda: views.read(km, name, a),
                          'view {} after failed {}'.format(name, view))
            if st == 'returned':
                views.compare(model, name, a, r, ' after failed ' + view)
                for p, q in _needed(model, X, Y, name, a):
                    c.ok((p, q) in faults.succeeded or
                         (not two and (q, p) in faults.succeeded),
                         'view {} needs a value the kernel never returned'.format(name))
            else:
                c.count('raised_again')
    faults.repair()
    kern.before = faults
    faults.always = False
    # as if the failure had never happened
    names = views.names(model)
    c.rng.shuffle(names)
    if c.chance(0.5):
        names = [view] + names
    for name in names:
        views.check(km, model, name, arg if name == view else None,
                    where=' after repair')
    c.count('recovered')


@check.scenario(quick=2500, thorough=60000,
                required=['faults_hit', 'raised_for_pair', 'recovered',
                          'views_compared'])
def histories(c):
    two = c.chance(0.4)
    shape = gen.two_sizes(c, 6, BIG_SIZES) if two else \
        (c.size(1, 6, BIG_SIZES),) * 2
    normalized = c.chance(0.5)
    tag, X, Y, faults, kern, km, model = _setup(c, shape, two, normalized,
                                                c.pick(ERRORS))
    views = ref.Views(c)
    ids_x = X[:, 0].astype(int).tolist()
    ids_y = ids_x if Y is None else Y[:, 0].astype(int).tolist()
    hist = []
    for step in range(c.randint(4, 16)):
        op = c.pick(['read', 'read', 'read', 'break', 'break', 'once', 'repair'])
        if op == 'break':
            faults.pairs.add((c.pick(ids_x), c.pick(ids_y)))
            if two and c.chance(0.3):
                i = c.pick(ids_x + ids_y)
                faults.pairs.add((i, i))
        elif op == 'once':
            faults.at = c.randint(1, shape[0] * shape[1])
        elif op == 'repair':
            faults.repair()
        else:
            name = c.pick(views.names(model))
            arg = views.arg(name, shape)
            armed = faults.at is not None
            status, res = watch(c, faults, lambda: views.read(km, name, arg),
                                'view {} after {}'.format(name, hist))
            if status == 'returned':
                views.compare(model, name, arg, res, ' after {}'.format(hist))
                for p, q in _needed(model, X, Y, name, arg):
                    c.ok((p, q) in faults.succeeded or
                         (not two and (q, p) in faults.succeeded),
                         'view {} needs a value the kernel never returned'.format(name))
            else:
                c.count('raised_for_pair')
            op = name
        hist.append(op)
    faults.repair()
    views.check_all(km, model, ' after repair')
    c.count('recovered')
    # no trace of failures on another sample either
    X2 = tag.rows(shape[0])
    Y2 = tag.rows(shape[1]) if two else None
    ref.attach(km, X2, Y2)
    views.check_all(km, ref.Model(tag.matrix(X2, Y2), normalized, tag.diag(X2),
                                  tag.diag(Y2) if two else None, two),
                    ' after re-attaching')
    c.note(shape=shape, two=two, normalized=normalized, hist=hist)


def _composites():
    out = []
    for kind in ('sum', 'sumw', 'product', 'average', 'weighted', 'lincomb'):
        for n in (1, 2, 3):
            for m in (2, 3):
                for member in range(m):
                    for k in range(1, n * (n + 1) // 2 + 1):
                        for fitted in (False, True):
                            for normalized in (False, True):
                                out.append((kind, n, m, member, k, fitted, normalized))
    return out


COMPOSITES = _composites()


@check.scenario(quick=len(COMPOSITES), thorough=4 * len(COMPOSITES),
                required=['faults_hit', 'recovered', 'unfitted_refused', 'earlier_kept'])
def composites(c):
    kind, n, m, member, k, fitted, normalized = COMPOSITES[c.index % len(COMPOSITES)]
    c.note(kind=kind, n=n, m=m, member=member, k=k, fitted=fitted, normalized=normalized)
    tags = [gen.Tagged(c) for _ in range(m)]
    X = tags[0].rows(n)
    X2 = tags[0].rows(n)
    faults = Faults(c.pick(ERRORS))
    kms = [KernelMatrix(gen.RecordingKernel(t, before=faults if i == member else None),
                        normalized=normalized) for i, t in enumerate(tags)]
    ks = KernelSet(kms)
    ks.attach_to(X)
    w = c.rng.random(m) + 0.5

    def want(S):
        mats = [t.matrix(S) for t in tags]
        if normalized:
            mats = [ref.cosine(K, np.diag(K), np.diag(K)) for K in mats]
        mats = np.array(mats)
        if kind == 'product':
            return mats.prod(axis=0)
        if kind in ('sumw', 'weighted', 'lincomb'):
            return np.tensordot(w, mats, 1)
        return mats.mean(axis=0) if kind == 'average' else mats.sum(axis=0)

    if kind == 'lincomb':
        run = lambda: linear_combination(ks, w)
        comp = None
    else:
        comp = {'sum': SumKernel, 'sumw': SumKernel, 'product': ProductKernel,
                'average': AverageKernel,
                'weighted': lambda s: WeightedAverageKernel(s, w)}[kind](ks)
        run = (lambda: comp.fit(w)) if kind == 'sumw' else comp.fit
    old = None
    if fitted:
        res = run()
        old = want(X)
        c.same(res if comp is None else comp.full, old, 'before the failure', rtol=1e-9)
        ks.attach_to(X2)
    now = X2 if fitted else X
    faults.at = k
    status, res = watch(c, faults, run, 'fit of ' + kind)
    c.ok(status == 'raised', 'the failure at evaluation {} was not reached'.format(k))
    if comp is not None:
        for name in ('full', 'composite_KM'):
            st, r = attempt(lambda: getattr(comp, name))
            if st == 'returned':
                c.ok(old is not None, 'unfitted composite returned', r)
                c.same(r, old, name + ' after a failed refit', rtol=1e-9)
                c.count('earlier_kept')
            else:
                c.count('unfitted_refused')
    faults.repair()
    res = run()
    c.same(res if comp is None else comp.full, want(now), 'after repair', rtol=1e-9)
    c.count('recovered')


class Fragile(BaseKernelFunction):
    """a proper kernel with injected faults"""

    def __init__(self, faults=None, sigma=2.0, skip_input_checks=False):
        super().__init__(name='fragile')
        self.faults = faults
        self.inner = GaussianKernel(sigma=sigma)

    def __call__(self, x, y):
        if self.faults is not None:
            self.faults(0, float(x[0]), float(y[0]))
        return self.inner(x, y)

    def __str__(self):
        return 'fragile({})'.format(self.inner)


@check.scenario(quick=1200, thorough=20000,
                required=['faults_hit', 'fit_failed', 'refit_failed', 'predict_failed',
                          'recovered', 'unfitted_refused'])
def estimators(c):
    cls = c.pick([KernelMachine, KernelMachineRegressor, OptimalKernelSVC,
                  OptimalKernelSVR])
    task = 'SVR' if cls in (KernelMachineRegressor, OptimalKernelSVR) else 'SVC'
    optimal = cls in (OptimalKernelSVC, OptimalKernelSVR)
    faults = Faults(c.pick([e for e in ERRORS if e not in (TypeError, AttributeError)]))
    kern = Fragile(faults, sigma=c.pick([0.7, 2.0]))
    normalized = c.chance(0.4)
    if optimal:
        kb = KernelBucket(None, None, None, None, None, normalize_kernels=normalized)
        # the only kernel that can be scored
        kb.append(KernelMatrix(kern, normalized=normalized))
        kb.append(KernelMatrix(kern, normalized=normalized))
        est = cls(kb, method='align/corr', C=10)
    else:
        est = cls(kern, normalized=normalized)

    def data():
        n, d = c.randint(6, 9), 3
        y = np.arange(n) % 2
        c.rng.shuffle(y)
        X = svm.class_data(c, y, d) + 1.0
        return X, (y if task == 'SVC' else X[:, 0] + 0.1 * c.rng.normal(size=n))

    def references(X, y):
        clean = Fragile(None)
        clean.inner = kern.inner
        refs = [svm.Reference(clean, normalized, X, y, task, C=10)]
        if optimal:
            from kernelmethods.numeric_kernels import LinearKernel
            refs.append(svm.Reference(LinearKernel(), normalized, X, y, task, C=10))
        return refs

    last, hist = None, []
    for step in range(c.randint(2, 7)):
        op = c.pick(['fit', 'fit_fault', 'fit_fault', 'predict', 'predict_fault'])
        if op in ('fit', 'fit_fault'):
            X, y = data()
            n = len(X)
            if op == 'fit_fault':
                faults.at = c.randint(1, n * (n + 1) // 2)
            status, res = watch(c, faults, lambda: est.fit(X, y), 'fit after %s' % hist)
            faults.repair()
            if status == 'returned':
                last = (X, y, references(X, y))
                failed = False
            else:
                c.count('refit_failed' if last else 'fit_failed')
                failed = True
        else:
            T = c.rng.normal(size=(c.randint(1, 5), 3)) + 1.0
            if op == 'predict_fault':
                faults.at = c.randint(1, 3)
            before = faults.fired
            status, pred = attempt(lambda: est.predict(T))
            hit = faults.fired > before
            faults.repair()
            c.count('faults_hit', hit)
            if hit:
                c.ok(status == 'raised', 'predict returned although the kernel raised',
                     pred)
                c.count('predict_failed')
            elif last is None:
                c.ok(status == 'raised' and isinstance(pred, NotFittedError),
                     'predict without a successful fit', pred)
                c.count('unfitted_refused')
            elif status == 'raised':
                c.ok(failed and isinstance(pred, NotFittedError),
                     'predict after {}'.format(hist), pred)
                c.count('unfitted_refused')
            else:
                c.ok(any(svm.matches(pred, *r.predict(T), task=task) for r in last[2]),
                     'predictions after {}'.format(hist), pred,
                     [r.predict(T)[0] for r in last[2]])
                c.count('compared')
        hist.append(op)
    X, y = data()
    est.fit(X, y)
    refs = references(X, y)
    pred = est.predict(X)
    c.ok(any(svm.matches(pred, *r.predict(X), task=task) for r in refs),
         'predictions after repair', pred)
    c.count('recovered')
    c.note(cls=cls.__name__, normalized=normalized, hist=hist, salt=c.case_seed)


@check.scenario(quick=400, thorough=8000,
                required=['faults_hit', 'recovered', 'cv_faults'])
def rankings(c):
    faults = Faults(c.pick(ERRORS))
    n = c.randint(3, 7)
    X = c.rng.normal(size=(n, 2)) + 2.0
    y = c.rng.normal(size=n)
    kb = KernelBucket([2], None, None, None, None)
    kb.append(KernelMatrix(Fragile(faults)))
    clean = [svm.fresh_full(m.kernel, X, normalized=True) for m in kb]
    want = [svm.alignment(K, y) for K in clean]
    find = c.chance(0.5)
    if c.chance(0.3):
        # a fault while cross-validating, or while an estimator selects
        n = c.randint(6, 9)
        X = c.rng.normal(size=(n, n + 2))
        y = np.arange(n) % 2
        faults.at = c.randint(1, n * (n + 1) // 2)
        how = c.pick(['rank', 'find', 'fit'])
        if how == 'rank':
            kb.attach_to(X)
            run = lambda: rank_kernels(kb, y, method='cv_risk')
        elif how == 'find':
            run = lambda: find_optimal_kernel(kb, X, y, method='cv_risk')
        else:
            run = lambda: OptimalKernelSVC(kb, method='cv_risk').fit(X, y)
        before = faults.fired
        watch(c, faults, run, 'selection by cross-validation ({})'.format(how))
        c.ok(faults.fired > before, 'the kernel was not evaluated')
        c.count('cv_faults')
        faults.repair()
        run()
        c.note(n=n, how=how, salt=c.case_seed)
        return
    if find:
        run = lambda: find_optimal_kernel(kb, X, y, method='align/corr')
    else:
        kb.attach_to(X)
        run = lambda: rank_kernels(kb, y)
    for attempt_no in range(c.randint(1, 3)):
        faults.at = c.randint(1, n * (n + 1) // 2)
        watch(c, faults, run, 'ranking')
        faults.repair()
    res = run()
    if find:
        idx = [i for i, m in enumerate(kb) if m is res]
        c.ok(len(idx) == 1 and want[idx[0]] >= max(want) - 1e-9, 'selection after repair')
        c.same(res.full, clean[idx[0]], 'matrix after repair')
    else:
        c.same(res, want, 'scores after repair', rtol=1e-7, atol=1e-9)
    c.count('recovered')
    c.note(n=n, find=find, salt=c.case_seed)
