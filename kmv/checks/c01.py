"""C01: every kernel-matrix entry is the kernel function on the indexed rows."""
import numpy as np
from kernelmethods.base import KernelFromCallable, KernelMatrix

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C01', 'exploration',
    'random kernels x samples (shape, dtype, memory layout, one/two samples); a case is '
    'non-trivial if at least one entry read through the library was compared to the '
    'kernel function called directly; distinct by kernel, data kind, shape and views',
    ['the kernel functions themselves are decided by C09'])


def _compare_everything(c, km, model, views, elements):
    n1, n2 = model.shape
    views.check_all(km, model)
    c.count('entries_compared', model.K.size)
    # single elements, in both orders of the indices where possible
    for _ in range(elements):
        views.check(km, model, 'elem')
        views.check(km, model, 'lin')
    c.count('elements_compared', 2 * elements)
    if not model.two:
        i, j = c.randint(0, n1 - 1), c.randint(0, n1 - 1)
        c.exact(km[i, j], km[j, i], 'symmetry of element {}'.format((i, j)))
        full = km[:, :]
        c.exact(full, full.T, 'symmetry of the full matrix')


@check.scenario(quick=5000, thorough=60000,
                required=['entries_compared', 'elements_compared'])
def library_kernels(c):
    """numeric kernels and callables on diverse real samples"""
    nonneg = c.chance(0.4)
    two = c.chance(0.55)
    d = c.dim(1, 17) if c.heavy else c.pick([1, 1, 2, 3, 5, 8, 17])
    hi = c.pick([8, 16, 30])
    n1, n2 = gen.two_sizes(c, hi)
    k, kd = gen.kernel(c, 'nonneg' if nonneg else 'real', symmetric=not two)
    # expert mode operates in the dtype of the input: floating point only
    dtypes = ('f8', 'f4') if 'skip' in kd else gen.DTYPES
    X, dX = gen.sample(c, n1, d, nonneg=nonneg, dtype=c.pick(dtypes))
    Y, dY = (None, '-')
    if two:
        if c.chance(0.15):
            Y, dY = X, 'same object'
        else:
            Y, dY = gen.sample(c, n2, d, nonneg=nonneg, dtype=c.pick(dtypes))
    c.note(kernel=kd, X=dX, Y=dY)
    c.count('two_sample' if two else 'one_sample')

    K = ref.gram(k, X, Y)
    rtol, atol = ref.tolerance(k, K, X, Y)
    order = c.chance(0.5)
    km = KernelMatrix(k, normalized=False)
    ref.attach(km, X, Y)
    model = ref.Model(K, False, two=two)
    views = ref.Views(c, rtol_raw=rtol, atol_raw=atol, can_norm=False)
    if order:
        _compare_everything(c, km, model, views, 4)
    # raw access to a matrix that keeps itself normalized
    km = KernelMatrix(k, normalized=True)
    ref.attach(km, X, Y)
    for name in ('elem', 'sub', 'lin', 'row') + (() if two else ('diag',)) + ('all',):
        views.check(km, model, name, where=' (normalized=True)')
    if not order:
        km = KernelMatrix(k, normalized=False)
        ref.attach(km, X, Y)
        _compare_everything(c, km, model, views, 4)


@check.scenario(quick=1500, thorough=20000, required=['entries_compared'])
def tagged_rows(c):
    """entries identify the rows they come from; order of arguments matters"""
    two = c.chance(0.6)
    tag = gen.Tagged(c, symmetric=not two or c.chance(0.3))
    retype = c.pick([None, np.float64, np.float32, lambda v: np.array(v), float,
                     lambda v: int(v * 1000)])
    k = gen.RecordingKernel(tag, retype=retype)
    n1, n2 = gen.two_sizes(c, c.pick([10, 40]))
    X = gen.lay_out(c.rng, tag.rows(n1, 2), c.pick(gen.LAYOUTS))
    Y = gen.lay_out(c.rng, tag.rows(n2, 2), c.pick(gen.LAYOUTS)) if two else None
    K = ref.gram(k, X, Y)
    c.note(n1=n1, n2=n2 if two else None, symmetric=tag.symmetric, salt=tag.salt)
    km = KernelMatrix(k, normalized=False)
    ref.attach(km, X, Y)
    views = ref.Views(c, can_norm=False)
    views.check_all(km, ref.Model(K, False, two=two))
    c.count('entries_compared', K.size)
    seen = set(map(tuple, np.argwhere(np.isfinite(km.full)).tolist()))
    c.ok(len(seen) == K.size, 'some entries of the full matrix were not computed')


@check.scenario(quick=300, thorough=3000, required=['entries_compared'])
def categorical(c):
    two = c.chance(0.5)
    n1, n2 = gen.two_sizes(c, 12)
    d = c.pick([1, 2, 6])
    k = gen.MatchCountKernel(return_perc=c.chance(0.5))
    X, dX = gen.categorical(c, n1, d)
    Y = gen.categorical(c, n2, d)[0] if two else None
    c.note(kernel=str(k), X=dX, n2=n2 if two else None)
    K = ref.gram(k, X, Y)
    km = KernelMatrix(k, normalized=False)
    ref.attach(km, X, Y)
    ref.Views(c, rtol_raw=1e-12, can_norm=False).check_all(
        km, ref.Model(K, False, two=two))
    c.count('entries_compared', K.size)


def fingerprint(x, y):
    """depends on every value of both rows, exactly, and on their order"""
    def one(v):
        return hash((len(v), np.ndim(v)) + tuple(v.tolist()))
    return float((one(x) * 31 + one(y)) % 1000003)


def exact_sample(c, n, d):
    """values that do not survive a conversion to another data type"""
    kind = c.pick(['i8', 'u8', 'u8', 'f2', 'f4', 'g', 'c16', 'str', 'bytes', 'f8', 'i1',
                   '?', 'object', 'datetime'])
    rng = c.rng
    if kind in ('i8', 'u8'):
        base = rng.integers(2 ** 59, 2 ** 62, size=(n, d))
        return base.astype(kind) if kind == 'u8' else base * rng.choice([-1, 1], (n, d))
    if kind in ('f2', 'f4', 'f8'):
        return rng.normal(size=(n, d)).astype(kind)
    if kind == 'g':
        return rng.normal(size=(n, d)).astype('g') + np.longdouble(1) / 3
    if kind == 'c16':
        return rng.normal(size=(n, d)) + 1j * rng.normal(size=(n, d))
    if kind == 'str':
        return rng.choice(gen.CATEGORIES, size=(n, d))
    if kind == 'bytes':
        return rng.choice(np.array([b'a', b'bc', b'', b'a b']), size=(n, d))
    if kind == 'object':
        return rng.choice(np.array(['a', 1, 2.5, None, (1, 2), 2 ** 70], dtype=object),
                          size=(n, d))
    if kind == 'datetime':
        return rng.integers(0, 10 ** 6, size=(n, d)).astype('M8[s]')
    if kind == '?':
        return rng.random((n, d)) < 0.5
    return rng.integers(-100, 100, size=(n, d)).astype(kind)


@check.scenario(quick=1200, thorough=12000, required=['entries_compared'])
def exact_rows(c):
    """user-defined kernels see the rows exactly as they are in the sample"""
    two = c.chance(0.5)
    n1, n2 = gen.two_sizes(c, 8)
    d = c.pick([1, 2, 5])
    X = exact_sample(c, n1, d)
    Y = None
    if two:
        Y = exact_sample(c, n2, d) if c.chance(0.5) else X[::-1][:max(1, n2 % (n1 + 1))]
    lay = c.pick(gen.LAYOUTS)
    X = gen.lay_out(c.rng, X, lay)
    func = fingerprint if two else lambda x, y: fingerprint(x, y) + fingerprint(y, x)
    k = KernelFromCallable(func, name='fingerprint')
    K = np.array([[func(x, y) for y in (X if Y is None else Y)] for x in X])
    c.note(dtype=str(X.dtype), shape=X.shape, two=None if Y is None else str(Y.dtype),
           layout=lay, salt=c.case_seed)
    km = KernelMatrix(k, normalized=False)
    ref.attach(km, X, Y)
    ref.Views(c, can_norm=False).check_all(km, ref.Model(K, False, two=two))
    c.count('entries_compared', K.size)


@check.scenario(quick=6, thorough=24, required=['entries_compared'])
def bigger(c):
    """more samples than any cache, block or default limit is likely to have"""
    n1 = c.randint(120, 260)
    two = c.index % 2 == 1
    tag = gen.Tagged(c, symmetric=not two)
    k = gen.RecordingKernel(tag)
    X = tag.rows(n1, 1)
    Y = tag.rows(c.randint(90, 280), 1) if two else None
    c.note(n1=n1, n2=None if Y is None else Y.shape[0])
    K = tag.matrix(X, Y)
    km = KernelMatrix(k, normalized=False)
    ref.attach(km, X, Y)
    ref.Views(c, can_norm=False).check_all(km, ref.Model(K, False, two=two))
    c.count('entries_compared', K.size)
