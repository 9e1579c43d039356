"""C06: cosine normalization is exact, for one sample and for two."""
import numpy as np
from kernelmethods.base import KernelFromCallable, KernelMatrix
from kernelmethods.config import KMNormError
from kernelmethods.numeric_kernels import LinearKernel, PolyKernel
from kernelmethods.operations import normalize_km, normalize_km_2sample

from kmv import gen, ref
from kmv.core import Check, MID_SIZES

check = Check(
    'C06', 'exploration',
    'random kernels, samples and matrices; normalized matrices are compared entry by '
    'entry with k(x,y)/sqrt(k(x,x)k(y,y)) computed from the kernel function; refusals '
    'for zero self-similarity, unknown methods and bad shapes; distinct by kernel, data '
    'and shape',
    ['self-similarities are either exactly zero or at least 1e-5 (the library treats '
     'values near 1e-8 as zero)'])


def _psd_sample(c, n, d, zero=False):
    kind = c.pick(['normal', 'uniform', 'duplicates', 'large', 'offset', 'integers'])
    dtype = c.pick(['f8', 'f8', 'f8', 'i4', 'i2', 'u1', '>f8'])
    X, dX = gen.sample(c, n, d, nonneg=True, kind=kind, dtype=dtype, layout='C')
    X = np.array(X)
    # no row is (nearly) zero
    X[:, 0] = np.where(np.abs(X[:, 0]) < 1, 1, X[:, 0])
    return gen.lay_out(c.rng, X, c.pick(gen.LAYOUTS)), dX


@check.scenario(quick=5000, thorough=60000,
                required=['one_sample', 'two_sample', 'one_vs_two', 'unit_diagonal'])
def matrices(c):
    """KernelMatrix on one and on two samples"""
    d = c.dim(1, 6)
    n1, n2 = gen.two_sizes(c, c.pick([6, 14]), MID_SIZES)
    k, kd = gen.kernel(c, 'nonneg', psd=True)
    X, dX = _psd_sample(c, n1, d)
    Y, dY = (X, 'same') if c.chance(0.1) else _psd_sample(c, n2, d)
    if 'skip' in kd:
        X, Y = X.astype('f8'), Y.astype('f8')
    c.note(kernel=kd, X=dX, Y=dY)
    dx, dy = ref.self_sim(k, X), ref.self_sim(k, Y)
    if min(dx.min(), dy.min()) < 1e-5 or max(dx.max(), dy.max()) > 1e250:
        c.ok(True, 'not applicable')
        return
    # through one sample
    K = ref.gram(k, X)
    N = ref.cosine(K, dx, dx)
    rt, at = 1e-9, 1e-9 if 'f4' in dX + dY else 1e-12
    km = KernelMatrix(k, normalized=True)
    km.attach_to(X)
    other = KernelMatrix(k, normalized=False)
    other.attach_to(X)
    for what, got in (('full', km.full), ('normed_km', km.normed_km),
                      ('normed_km of an unnormalized matrix', other.normed_km),
                      ('full_sparse', km.full_sparse)):
        got = got if isinstance(got, np.ndarray) else np.asarray(got.todense())
        c.same(got, N, what + ' (one sample)', rtol=rt, atol=at)
    c.same(np.diagonal(km.full), np.ones(len(dx)), 'unit diagonal', rtol=1e-12)
    c.count('unit_diagonal')
    c.ok(np.abs(km.full).max() <= 1 + 1e-9, 'normalized PSD kernel exceeds 1', km.full)
    c.count('one_sample')
    # through two samples
    N2 = ref.cosine(ref.gram(k, X, Y), dx, dy)
    km2 = KernelMatrix(k, normalized=True)
    km2.attach_to(X, sample_two=Y, name_two='two')
    c.same(km2.full, N2, 'full (two samples)', rtol=rt, atol=at)
    c.same(km2.normed_km, N2, 'normed_km (two samples)', rtol=rt, atol=at)
    un2 = KernelMatrix(k, normalized=False)
    un2.attach_to(X, sample_two=Y, name_two='two')
    c.same(un2.normed_km, N2, 'normed_km of an unnormalized matrix (two samples)',
           rtol=rt, atol=at)
    c.ok(np.abs(km2.full).max() <= 1 + 1e-9, 'normalized PSD kernel exceeds 1', km2.full)
    c.count('two_sample')
    # same pair of rows in both ways
    if X.dtype == Y.dtype:
        Z = np.concatenate([X, Y])
        km3 = KernelMatrix(k, normalized=True)
        km3.attach_to(Z)
        c.same(km3.full[:len(X), len(X):], km2.full, 'one vs. two samples', rtol=1e-9,
               atol=1e-9)
        c.count('one_vs_two')


@check.scenario(quick=2500, thorough=30000,
                required=['compared', 'one_sample', 'two_sample', 'tiny', 'bool',
                          'negative', 'indefinite'])
def any_sample(c):
    """any sample and kernel function whose self-similarities are positive"""
    d = c.dim(1, 6)
    n1, n2 = gen.two_sizes(c, 8, MID_SIZES)
    k, kd = gen.kernel(c, 'real')
    kind = c.pick(['tiny', 'bool', 'negative', 'any'])

    def draw(num):
        if kind == 'bool':
            X = c.rng.random((num, d)) < 0.6
            X[:, 0] = True
        elif kind == 'negative':
            X = -np.abs(c.rng.normal(size=(num, d))) - 0.1
        elif kind == 'tiny':
            X = c.rng.normal(size=(num, d)) * 10.0 ** -c.randint(3, 9)
        else:
            X = c.rng.normal(size=(num, d)) * 2
        if kind != 'bool' and c.chance(0.15):
            X = X.astype('f4')
        return gen.lay_out(c.rng, X, c.pick(gen.LAYOUTS))

    X, Y = draw(n1), draw(n2)
    if 'skip' in kd or kd.startswith('hadamard'):
        X, Y = X.astype('f8'), Y.astype('f8')
    two, kept = c.chance(0.5), c.chance(0.6)
    c.note(kernel=kd, kind=kind, n=n1, m=n2, d=d, two=two, kept=kept, salt=c.case_seed)
    dx, dy = ref.self_sim(k, X), ref.self_sim(k, Y)
    if min(dx.min(), dy.min()) < 1e-5 or max(dx.max(), dy.max()) > 1e250:
        c.ok(True, 'not applicable')
        return
    K = ref.gram(k, X, Y) if two else ref.gram(k, X)
    N = ref.cosine(K, dx, dy if two else dx)
    at = (1e-5 if X.dtype == 'f4' or Y.dtype == 'f4' else 1e-12) * max(
        1.0, np.abs(N).max())
    km = KernelMatrix(k, normalized=kept)
    ref.attach(km, X, Y if two else None)
    got = km.full if kept and c.chance(0.5) else km.normed_km
    c.same(got, N, 'normalized matrix', rtol=1e-9, atol=at)
    c.same(km.normed_km, N, 'normed_km', rtol=1e-9, atol=at)
    if kept:
        c.same(km.full, N, 'full', rtol=1e-9, atol=at)
    c.count('compared')
    c.count('two_sample' if two else 'one_sample')
    c.count(kind)
    if type(k).__name__ in ('SigmoidKernel', 'HadamardKernel'):
        c.count('indefinite')


@check.scenario(quick=3000, thorough=40000, required=['compared', 'wide'])
def functions(c):
    """normalize_km and normalize_km_2sample on given matrices"""
    n, m = c.size(1, 12), c.size(1, 12)
    scale = 10.0 ** c.randint(-2, 8)
    A = c.rng.normal(size=(n, c.randint(1, 8)))
    K = (A @ A.T) * scale
    K[np.diag_indices(n)] += scale * (0.1 + c.rng.random(n))
    kind = c.pick(['f8', 'f8', 'int', 'f4', 'u1'])
    if kind == 'int':
        K = np.rint(K / scale * 100).astype('i8')
        K[np.diag_indices(n)] = np.abs(K.diagonal()) + 1
    elif kind == 'u1':
        K = c.rng.integers(1, 250, size=(n, n)).astype('u1')
        K = np.maximum(K, K.T)
    elif kind == 'f4':
        K = K.astype('f4')
    rtol = 1e-5 if kind == 'f4' else 1e-9
    K = gen.lay_out(c.rng, K, c.pick(gen.LAYOUTS))
    c.note(n=n, m=m, kind=kind, scale=scale, salt=c.case_seed)
    diag = K.diagonal().astype('f8')
    method = c.pick(['cosine', 'Cosine', 'COSINE'])
    got = normalize_km(K, method=method) if c.chance(0.7) else normalize_km(K)
    c.same(got, ref.cosine(K.astype('f8'), diag, diag), 'normalize_km', rtol=rtol,
           atol=rtol * 1e-3)
    c.count('compared')
    # idempotent
    c.same(normalize_km(np.asarray(got, 'f8')), got, 'normalizing twice',
           rtol=rtol * 10, atol=rtol)
    # cross matrix, also with large dynamic range
    C = c.rng.normal(size=(n, m)) * scale
    dx = 10.0 ** c.rng.uniform(-4, 8, size=n)
    dy = 10.0 ** c.rng.uniform(-4, 8, size=m)
    kind2 = c.pick(['f8', 'f8', 'f4', 'int', 'u1'])
    if kind2 == 'f4':
        C = C.astype('f4')
    elif kind2 == 'int':
        C = np.rint(C / scale * 100).astype(c.pick(['i8', 'i4', 'i2']))
    elif kind2 == 'u1':
        C = c.rng.integers(0, 250, size=(n, m)).astype('u1')
    C = gen.lay_out(c.rng, C, c.pick(gen.LAYOUTS))
    kind3 = c.pick(['f8', 'f8', 'f4', 'int'])
    if kind3 == 'f4':
        dx, dy = dx.astype('f4'), dy.astype('f4')
    elif kind3 == 'int':
        dx, dy = c.rng.integers(1, 10000, size=n), c.rng.integers(1, 10000, size=m)
    c.note(kind2=kind2, kind3=kind3)
    before = np.array(C)
    got2 = normalize_km_2sample(C, dx, dy, method=method)
    c.same(got2, ref.cosine(C.astype('f8'), dx.astype('f8'), dy.astype('f8')),
           'normalize_km_2sample', rtol=1e-5 if 'f4' in (kind2, kind3) else 1e-9)
    c.exact(C, before, 'the cross matrix given')
    c.count('wide')


@check.scenario(quick=2000, thorough=20000, required=['compared', 'through_matrix'])
def nearly(c):
    """self-similarities close to, but not exactly, special values"""
    n, m = c.size(1, 10), c.size(1, 10)
    base = c.pick([1.0, 1.0, 1.0, 100.0, 0.5])
    eps = 10.0 ** -c.randint(2, 9)

    def near(num):
        out = np.full(num, base)
        some = c.rng.random(num) < c.pick([0.2, 0.6, 1.0])
        out[some] += eps * base * c.rng.uniform(-1, 1, size=int(some.sum()))
        if c.chance(0.5):
            out[c.rng.integers(num)] = base * (1 + eps)
        return out

    dx, dy = near(n), near(m)
    A = c.rng.normal(size=(n, 3))
    A *= np.sqrt(dx / np.sum(A * A, axis=1))[:, None]
    B = c.rng.normal(size=(m, 3))
    B *= np.sqrt(dy / np.sum(B * B, axis=1))[:, None]
    c.note(n=n, m=m, base=base, eps=eps, salt=c.case_seed)
    K, C = A @ A.T, A @ B.T
    K[np.diag_indices(n)] = dx
    c.same(normalize_km(K), ref.cosine(K, dx, dx), 'normalize_km', rtol=1e-12,
           atol=1e-13)
    c.same(normalize_km_2sample(C, dx, dy), ref.cosine(C, dx, dy),
           'normalize_km_2sample', rtol=1e-12, atol=1e-13)
    c.count('compared')
    km = KernelMatrix(LinearKernel(), normalized=True)
    km.attach_to(A)
    da, db = ref.self_sim(LinearKernel(), A), ref.self_sim(LinearKernel(), B)
    c.same(km.full, ref.cosine(ref.gram(LinearKernel(), A), da, da), 'full', rtol=1e-12,
           atol=1e-13)
    km = KernelMatrix(LinearKernel(), normalized=True)
    km.attach_to(A, sample_two=B, name_two='two')
    c.same(km.full, ref.cosine(ref.gram(LinearKernel(), A, B), da, db),
           'full (two samples)', rtol=1e-12, atol=1e-13)
    c.count('through_matrix')


@check.scenario(quick=2000, thorough=20000,
                required=['zero_refused', 'unknown_refused', 'shape_refused',
                          'works_after'])
def refusals(c):
    n, d = c.size(2, 7), c.dim(1, 4)
    X = np.abs(c.rng.normal(size=(n, d))) + 0.2
    Y = np.abs(c.rng.normal(size=(c.randint(1, 7), d))) + 0.2
    k = c.pick([LinearKernel(), PolyKernel(degree=2, b=0),
                KernelFromCallable(gen.plain_dot, name='dot')])
    two = c.chance(0.6)
    where = c.pick(['x', 'y', 'both']) if two else 'x'
    Xz, Yz = X.copy(), Y.copy()
    if where in ('x', 'both'):
        Xz[c.randint(0, n - 1)] = 0
    if where in ('y', 'both'):
        Yz[c.randint(0, len(Y) - 1)] = 0
    c.note(kernel=str(k), two=two, where=where, shape=(X.shape, Y.shape))

    km = KernelMatrix(k, normalized=True)
    ref.attach(km, Xz, Yz if two else None)
    reads = [lambda: km.full, lambda: km.normed_km, lambda: km.normalize(),
             lambda: km.full_sparse]
    for _ in range(3):
        c.raises(KMNormError, c.pick(reads), 'zero self-similarity')
        c.count('zero_refused')
    # raw access is still fine
    K = ref.gram(k, Xz, Yz if two else None)
    c.same(km[:, :], K, 'raw values of a matrix that can not be normalized')
    un = KernelMatrix(k, normalized=False)
    ref.attach(un, Xz, Yz if two else None)
    c.same(un.full, K, 'full of an unnormalized matrix with zero self-similarity')
    c.raises(KMNormError, lambda: un.normed_km, 'zero self-similarity on request')

    # unknown methods
    good = KernelMatrix(k, normalized=c.chance(0.5))
    ref.attach(good, X, Y if two else None)
    bad = c.pick(['', 'cos', 'euclid', 'cosine ', 'none', 'frobenius', 'l2'])
    c.raises(NotImplementedError, lambda: good.normalize(method=bad),
             'normalize(method={!r})'.format(bad))
    K = ref.gram(k, X)
    c.raises(NotImplementedError, lambda: normalize_km(K, method=bad),
             'normalize_km(method={!r})'.format(bad))
    C, dx, dy = ref.gram(k, X, Y), ref.self_sim(k, X), ref.self_sim(k, Y)
    c.raises(NotImplementedError,
             lambda: normalize_km_2sample(C, dx, dy, method=bad),
             'normalize_km_2sample(method={!r})'.format(bad))
    c.count('unknown_refused')

    # functions: zero diagonals, bad shapes
    Kz = K.copy()
    Kz[0, 0] = 0
    c.raises(KMNormError, lambda: normalize_km(Kz), 'normalize_km, zero diagonal')
    pos = c.randint(0, n - 1)
    Kz = K.copy()
    Kz[pos, pos] = 0
    c.raises(KMNormError, lambda: normalize_km(Kz), 'normalize_km, zero diagonal')
    dxz, dyz = dx.copy(), dy.copy()
    if c.chance(0.5):
        dxz[c.randint(0, len(dx) - 1)] = 0
    else:
        dyz[c.randint(0, len(dy) - 1)] = 0
    c.raises(KMNormError, lambda: normalize_km_2sample(C, dxz, dyz),
             'normalize_km_2sample, zero diagonal')
    c.raises(ValueError, lambda: normalize_km(K[:, 1:]), 'normalize_km, not square')
    c.raises(ValueError, lambda: normalize_km(K[1:, :]), 'normalize_km, not square')
    for a, b in ((dx[1:], dy), (np.append(dx, 1.0), dy), (dx, np.append(dy, 1.0)),
                 (dx, dy[1:])) + (((dy, dx),) if len(dx) != len(dy) else ()):
        c.raises(ValueError, lambda: normalize_km_2sample(C, a, b),
                 'normalize_km_2sample, mismatched diagonals')
        c.count('shape_refused')
    # all of it works afterwards
    want = ref.cosine(C, dx, dy) if two else ref.cosine(K, dx, dx)
    c.same(good.normed_km, want, 'normalization after refusals', rtol=1e-9, atol=1e-12)
    c.count('works_after')


@check.scenario(quick=1500, thorough=20000, required=['compared'])
def tagged(c):
    """asymmetric cross matrices: each entry is divided by its own two diagonals"""
    tag = gen.Tagged(c, symmetric=False)
    n1, n2 = gen.two_sizes(c, 12)
    X, Y = tag.rows(n1), tag.rows(n2)
    k = gen.RecordingKernel(tag)
    km = KernelMatrix(k, normalized=c.chance(0.5))
    ref.attach(km, X, Y)
    c.note(shape=(n1, n2), salt=tag.salt)
    c.same(km.normed_km, ref.cosine(tag.matrix(X, Y), tag.diag(X), tag.diag(Y)),
           'normed_km', rtol=1e-10)
    c.count('compared')
