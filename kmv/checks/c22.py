"""C22: non-finite kernel values are always reported."""
import warnings

import numpy as np
from kernelmethods.base import BaseKernelFunction, KernelFromCallable, KernelMatrix
from kernelmethods.config import KernelMethodsException, KernelMethodsWarning
from kernelmethods.numeric_kernels import (Chi2Kernel, GaussianKernel, HadamardKernel,
                                           LaplacianKernel, LinearKernel, PolyKernel,
                                           SigmoidKernel)

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C22', 'exploration',
    'every single position of a non-finite value in small matrices (enumerated), random '
    'sets of positions, values that overflow in built-in kernels or through '
    'normalization, and finite controls; the monitor records all warnings while a view is '
    'computed for the first time; distinct by positions, values, view and kernel form')

BAD = [np.nan, np.inf, -np.inf]
ERRORS = (KernelMethodsException, RuntimeError)


class Spoiled(BaseKernelFunction):
    """fixed values, some of them non-finite"""

    def __init__(self, tag, bad, name):
        super().__init__(name=name)
        self.tag, self.bad = tag, bad

    def __call__(self, x, y):
        pair = (int(x[0]), int(y[0]))
        if pair in self.bad:
            return self.bad[pair]
        return self.tag.value(*pair)

    def __str__(self):
        return '{}(spoiled)'.format(self.name)


def _as_callable(kern, name, form):
    if form == 'class':
        return kern

    def func(x, y):
        return kern(x, y)

    def func_par(x, y, factor=1.0):
        return kern(x, y) * factor

    if form == 'callable':
        return KernelFromCallable(func, name=name)
    return KernelFromCallable(func_par, name=name, factor=1.0)


def observe(func):
    """(result or None, exception or None, messages of library warnings)"""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        with np.errstate(all='ignore'):
            try:
                res, exc = func(), None
            except ERRORS as err:
                res, exc = None, err
    return res, exc, [str(w.message) for w in log
                      if issubclass(w.category, KernelMethodsWarning)]


def _dense(res):
    return res if isinstance(res, np.ndarray) else np.asarray(res.todense())


VIEWS = ('full', 'sparse', 'normed')


def _judge(c, km, view, kernel, must, what):
    views = ref.Views(c)
    res, exc, log = observe(lambda: views.read(km, view))
    named = [m for m in log if kernel.name in m]
    if must:
        c.ok(exc is not None or named, '{}: non-finite values in view {} went unreported '
             '(warnings: {})'.format(what, view, log))
        c.count('errors' if exc is not None else 'warned')
    else:
        c.ok(exc is None, '{}: view {} failed: {!r}'.format(what, view, exc))
        c.ok(not log, '{}: warning about finite values, view {}'.format(what, view), log)
        c.ok(np.isfinite(_dense(res)).all(), 'finite result', res)
        c.count('quiet')


SINGLE = []
for _n1, _n2, _two in ((1, 1, False), (2, 2, False), (3, 3, False), (4, 4, False),
                       (1, 1, True), (1, 3, True), (3, 1, True), (2, 3, True),
                       (3, 2, True), (3, 3, True), (4, 4, True)):
    for _i in range(_n1):
        for _j in range(_n2):
            for _v in VIEWS:
                for _norm in (False, True):
                    for _b in range(3):
                        SINGLE.append((_n1, _n2, _two, _i, _j, _v, _norm, _b))


def _build(c, n1, n2, two, positions, normalized, form, values):
    tag = gen.Tagged(c, symmetric=not two)
    X = tag.rows(n1)
    Y = tag.rows(n2) if two else X
    bad = {}
    for (i, j), v in zip(positions, values):
        bad[(int(X[i, 0]), int(Y[j, 0]))] = v
        if not two:
            bad[(int(X[j, 0]), int(X[i, 0]))] = v
    name = c.pick(['spoiledkernel', 'k1'])
    kernel = _as_callable(Spoiled(tag, bad, name), name, form)
    km = KernelMatrix(kernel, normalized=normalized)
    return tag, X, (Y if two else None), kernel, km


@check.scenario(quick=len(SINGLE), thorough=4 * len(SINGLE), required=['warned'])
def single_entry(c):
    n1, n2, two, i, j, view, normalized, b = SINGLE[c.index % len(SINGLE)]
    form = ('class', 'callable', 'callable_par')[c.index % 3]
    c.note(conf=SINGLE[c.index % len(SINGLE)], form=form)
    tag, X, Y, kernel, km = _build(c, n1, n2, two, [(i, j)], normalized, form, [BAD[b]])
    if c.chance(0.4):
        # an earlier sample without such values
        clean = tag.rows(3)
        ref.attach(km, clean, tag.rows(2) if c.chance(0.3) else None)
        _judge(c, km, c.pick(VIEWS), kernel, False, 'clean sample before')
        c.count('reattached')
    ref.attach(km, X, Y)
    if n1 * n2 > 1 and c.chance(0.3):
        km[0, 0]  # reading single elements does not count as reporting
    if two is False and c.chance(0.2):
        km.diagonal()
    _judge(c, km, view, kernel, True, 'bad value {} at {}'.format(BAD[b], (i, j)))
    c.count('single')


@check.scenario(quick=2500, thorough=40000, required=['warned', 'quiet', 'many',
                                                      'later_normed', 'again'])
def random_entries(c):
    two = c.chance(0.5)
    n1, n2 = gen.two_sizes(c, 9) if two else (c.size(1, 9),) * 2
    m = c.pick([0, 0, 1, 2, c.randint(0, n1 * n2)])
    pos = [(c.randint(0, n1 - 1), c.randint(0, n2 - 1)) for _ in range(m)]
    normalized = c.chance(0.5)
    form = c.pick(['class', 'callable', 'callable_par'])
    tag, X, Y, kernel, km = _build(c, n1, n2, two, pos, normalized, form,
                                   [c.pick(BAD) for _ in pos])
    c.note(n=(n1, n2), two=two, pos=pos, normalized=normalized, form=form)
    ref.attach(km, X, Y)
    order = [c.pick(VIEWS)] if m else [c.pick(VIEWS) for _ in range(3)]
    for view in order:
        _judge(c, km, view, kernel, m > 0, 'random positions')
    if m and not normalized and order[0] != 'normed':
        # the normalized view is computed for the first time only now
        _judge(c, km, 'normed', kernel, True, 'normalized after raw')
        c.count('later_normed')
    if m and c.chance(0.4):
        # every computation reports: other matrices of this kernel function, and the
        # same matrix attached again
        for again in range(2):
            other = km if c.chance(0.4) else KernelMatrix(kernel, normalized=normalized)
            ref.attach(other, X, Y)
            _judge(c, other, c.pick(VIEWS), kernel, True, 'computed again')
        c.count('again')
    c.count('many', m > 1)


class Cheap(BaseKernelFunction):
    """for large matrices: 1 + closeness, except for the marked pairs"""

    def __init__(self, bad):
        super().__init__(name='cheapkernel')
        self.bad = bad

    def __call__(self, x, y):
        a, b = int(x[0]), int(y[0])
        return self.bad.get((a, b), 1.0 + 1.0 / (1 + abs(a - b)))

    def __str__(self):
        return self.name


@check.scenario(quick=4, thorough=300, required=['warned'])
def large(c):
    """a single non-finite value in a large matrix"""
    two = c.chance(0.5)
    n1 = c.pick([150, 257, 300, 350])
    n2 = c.pick([40, 129, 257, 300]) if two else n1
    X = np.arange(n1)[:, None]
    Y = 1000 + np.arange(n2)[:, None] if two else X
    i = c.pick([0, n1 - 1, c.randint(0, n1 - 1)])
    j = c.pick([0, n2 - 1, c.randint(0, n2 - 1)])
    v = c.pick(BAD)
    bad = {(int(X[i, 0]), int(Y[j, 0])): v}
    if not two:
        bad[(int(X[j, 0]), int(X[i, 0]))] = v
    normalized = c.chance(0.4)
    km = KernelMatrix(Cheap(bad), normalized=normalized)
    ref.attach(km, X, Y if two else None)
    view = c.pick(VIEWS)
    c.note(n=(n1, n2), two=two, pos=(i, j), value=v, normalized=normalized, view=view)
    _judge(c, km, view, km.kernel, True, 'one of {} values'.format(n1 * n2))


@check.scenario(quick=1500, thorough=20000, required=['warned', 'quiet', 'negative_diag'])
def by_normalization(c):
    """raw values are finite; normalized ones are not (negative self-similarity)"""
    two = c.chance(0.5)
    n1, n2 = gen.two_sizes(c, 6) if two else (c.size(1, 6),) * 2
    tag = gen.Tagged(c, symmetric=not two)
    X = tag.rows(n1)
    Y = tag.rows(n2) if two else X
    everyone = np.concatenate([X[:, 0], Y[:, 0]])
    who = int(c.pick(everyone))
    bad = {(who, who): -2.0}
    form = c.pick(['class', 'callable'])
    kernel = _as_callable(Spoiled(tag, bad, 'negkernel'), 'negkernel', form)
    normalized = c.chance(0.6)
    km = KernelMatrix(kernel, normalized=normalized)
    ref.attach(km, X, Y if two else None)
    view = c.pick(VIEWS)
    must = normalized or view == 'normed'
    _judge(c, km, view, kernel, must, 'negative self-similarity')
    if not must:
        _judge(c, km, 'normed', kernel, True, 'normalized view later')
    c.count('negative_diag')
    c.note(n=(n1, n2), two=two, view=view, normalized=normalized, form=form)


@check.scenario(quick=300, thorough=5000, required=['quiet', 'extreme'])
def extreme_but_finite(c):
    """values near the limits of the floating-point range are finite all the same"""
    two = c.chance(0.5)
    n1, n2 = gen.two_sizes(c, 9) if two else (c.size(1, 9),) * 2
    tag = gen.Tagged(c, symmetric=not two)
    X = tag.rows(n1)
    Y = tag.rows(n2) if two else X
    pool = c.pick([[1e308], [1.7e308, -1.7e308], [1e308, 5e-324, 0.0], [-1e308, 1.0],
                   [5e-324], [0.0, -0.0], [1e200, 1e-200], [1e154, 1e155, -1e160]])
    vals = {(int(a), int(b)): c.pick(pool) for a in X[:, 0] for b in Y[:, 0]}
    if not two:
        vals = {(a, b): vals[min(a, b), max(a, b)] for a, b in vals}
    form = c.pick(['class', 'callable', 'callable_par'])
    kernel = _as_callable(Spoiled(tag, vals, 'limits'), 'limits', form)
    km = KernelMatrix(kernel, normalized=False)
    ref.attach(km, X, Y if two else None)
    c.note(n=(n1, n2), two=two, form=form, pool=pool)
    for view in c.pick([['full'], ['sparse'], ['full', 'sparse'], ['sparse', 'full']]):
        _judge(c, km, view, kernel, False, 'extreme finite values')
    c.count('extreme')


@check.scenario(quick=3000, thorough=40000, required=['overflow', 'quiet', 'warned'])
def builtin(c):
    """built-in kernels on ordinary, huge and non-finite samples"""
    n, d = c.size(1, 6), c.dim(1, 3)
    X = c.rng.random((n, d)) + 0.1
    how = c.pick(['plain', 'plain', 'huge', 'nan', 'inf'])
    r, f = c.randint(0, n - 1), c.randint(0, d - 1)
    if how == 'huge':
        X[r, f] = 1e200
    elif how == 'nan':
        X[r, f] = np.nan
    elif how == 'inf':
        X[r, f] = np.inf
    kernel = c.pick([LinearKernel(), PolyKernel(degree=3), GaussianKernel(sigma=2.0),
                     LaplacianKernel(gamma=0.5), SigmoidKernel(gamma=0.1),
                     HadamardKernel(alpha=2), Chi2Kernel(gamma=1.0)])
    two = c.chance(0.3)
    Y = c.rng.random((c.randint(1, 4), d)) + 0.1 if two else None
    normalized = c.chance(0.4)
    view = c.pick(VIEWS)
    c.note(how=how, kernel=str(kernel), two=two, normalized=normalized, view=view, n=n)
    try:
        K = ref.gram(kernel, X, Y)
        dx = ref.self_sim(kernel, X)
        dy = ref.self_sim(kernel, Y) if two else dx
    except Exception:
        c.count('kernel_refuses')
        c.ok(True, 'the kernel refuses the sample')
        return
    N = ref.cosine(K, dx, dy)
    raw_ok = bool(np.isfinite(K).all())
    with_norm = normalized or view == 'normed'
    if raw_ok and with_norm and np.isfinite(N).all() and \
            (min(dx.min(), dy.min()) < 1e-3 or max(dx.max(), dy.max()) > 1e150):
        c.ok(True, 'near the limits of normalization')
        return
    km = KernelMatrix(kernel, normalized=normalized)
    ref.attach(km, X, Y)
    must = not np.isfinite(N if with_norm else K).all()
    if not must and not raw_ok:
        c.ok(True, 'not decided: raw values are non-finite, normalized ones not')
        return
    _judge(c, km, view, kernel, must, how)
    c.count('overflow', how != 'plain' and must)
