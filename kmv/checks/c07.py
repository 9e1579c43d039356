"""C07: centering and Frobenius operations satisfy their definitions."""
import math

import numpy as np
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
from kernelmethods.operations import center_km, frobenius_norm, frobenius_product

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C07', 'exploration',
    'random matrices (size, scale, dtype, layout, symmetric or not) against the '
    'definitions computed with exactly rounded sums, and algebraic laws; distinct by '
    'shape, dtype, layout and data',
    ['rounding up to 1e-9 of the largest magnitude involved'])

DTYPES = ('f8', 'f8', 'f8', 'i8', 'i4', 'i2', 'i1', 'u1', '?', 'f4', '>f8')


def _matrix(c, n, m=None, symmetric=None, dtype=None):
    m = n if m is None else m
    dtype = dtype or c.pick(DTYPES)
    # single precision has a smaller range
    wide = c.chance(0.15) and np.dtype(dtype).itemsize == 8
    arr = c.rng.normal(size=(n, m)) * 10.0 ** (c.randint(-40, 40) if wide
                                               else c.randint(-3, 4))
    if c.chance(0.3):
        arr += 10.0 ** c.randint(0, 3)
    if n == m and (c.chance(0.6) if symmetric is None else symmetric):
        arr = (arr + arr.T) / 2
    arr = gen.cast(arr, dtype)
    return gen.lay_out(c.rng, arr, c.pick(gen.LAYOUTS)), dtype


def _ref_center(K):
    """row and column means with exactly rounded sums"""
    K = K.astype('f8')
    n = K.shape[0]
    rows = np.array([math.fsum(r) for r in K.tolist()]) / n
    cols = np.array([math.fsum(r) for r in K.T.tolist()]) / n
    total = math.fsum(rows.tolist()) / n
    return K - rows[:, None] - cols[None, :] + total


@check.scenario(quick=4000, thorough=50000,
                required=['compared', 'invariance', 'linear_kernel'])
def centering(c):
    n = c.size_of([1, 2, 3, c.randint(2, 12)], 5, 40)
    K, dt = _matrix(c, n)
    c.note(n=n, dtype=dt, salt=c.case_seed)
    eps = 1e-5 if dt == 'f4' else 1e-9
    scale = float(np.abs(K.astype('f8')).max() or 1.0)
    got = center_km(K)
    c.same(got, _ref_center(K), 'center_km', rtol=eps, atol=eps * scale)
    c.same(got.sum(axis=0), np.zeros(n), 'column sums', atol=eps * scale * n)
    c.same(got.sum(axis=1), np.zeros(n), 'row sums', atol=eps * scale * n)
    c.same(center_km(got), got, 'centering twice', rtol=eps, atol=eps * scale)
    c.count('compared')
    # shifts of rows and columns
    Kf = K.astype('f8')
    shift = c.rng.normal(size=n) * scale
    i = c.randint(0, n - 1)
    one = Kf.copy()
    one[i, :] += shift[0]
    c.same(center_km(one), got, 'constant added to a row', rtol=eps, atol=eps * scale * 9)
    one = Kf.copy()
    one[:, i] += shift[0]
    c.same(center_km(one), got, 'constant added to a column', rtol=eps,
           atol=eps * scale * 9)
    c.same(center_km(Kf + shift[:, None] + shift[None, :]), got,
           'constants added to rows and columns', rtol=eps, atol=eps * scale * 9)
    c.count('invariance')
    # the linear kernel
    X = c.rng.normal(size=(n, c.randint(1, 6))) + c.randint(0, 20)
    Xc = X - X.mean(axis=0)
    big = float((X ** 2).sum(axis=1).max())
    c.same(center_km(X @ X.T), Xc @ Xc.T, 'centered linear kernel', atol=1e-10 * big)
    km = KernelMatrix(LinearKernel(), normalized=c.chance(0.5))
    km.attach_to(X)
    c.same(km.centered, Xc @ Xc.T, 'centered view of a linear kernel matrix',
           atol=1e-10 * big)
    c.same(km.frob_norm, np.linalg.norm(X @ X.T), 'frob_norm of a kernel matrix',
           rtol=1e-9)
    c.count('linear_kernel')


@check.scenario(quick=4000, thorough=50000, required=['compared'])
def frobenius(c):
    n, m = c.size(1, 12), c.size(1, 12)
    A, da = _matrix(c, n, m)
    B, db = _matrix(c, n, m)
    c.note(shape=(n, m), dtypes=(da, db), salt=c.case_seed)
    Af, Bf = A.astype('f8'), B.astype('f8')
    eps = 1e-4 if 'f4' in (da, db) else 1e-10
    terms = (Af * Bf).ravel().tolist()
    size = math.fsum(abs(t) for t in terms)
    want = math.fsum(terms)
    c.same(frobenius_product(A, B), want, 'frobenius_product', atol=eps * size)
    c.same(frobenius_product(B, A), want, 'frobenius_product swapped', atol=eps * size)
    c.same(frobenius_product(A.T, B.T), want, 'transposed', atol=eps * size)
    s, t = c.rng.normal(size=2)
    C = c.rng.normal(size=(n, m))
    lin = s * want + t * math.fsum((C * Bf).ravel().tolist())
    size2 = abs(s) * size + abs(t) * float(np.abs(C * Bf).sum())
    c.same(frobenius_product(s * Af + t * C, Bf), lin, 'bilinear', atol=eps * size2)
    sq = math.fsum((Af * Af).ravel().tolist())
    c.same(frobenius_norm(A), math.sqrt(sq), 'frobenius_norm', rtol=max(eps, 1e-10))
    c.same(frobenius_product(A, A), sq, 'product with itself', rtol=max(eps, 1e-10))
    c.ok(frobenius_norm(A) >= 0, 'negative norm')
    c.same(frobenius_norm(np.zeros((n, m))), 0.0, 'norm of zeros')
    c.count('compared')


@check.scenario(quick=1500, thorough=10000, required=['refused'])
def refusals(c):
    n, m = c.size(1, 8), c.size(1, 8)
    A = c.rng.normal(size=(n, m))
    other = c.pick([(n + 1, m), (n, m + 1), (m, n) if m != n else (n + 2, m), (1, 1) if
                    (n, m) != (1, 1) else (2, 2), (n * m,), (1, m) if n > 1 else (2, m),
                    (n, 1) if m > 1 else (n, 2)])
    B = c.rng.normal(size=other)
    c.note(shapes=(A.shape, B.shape))
    c.raises(ValueError, lambda: frobenius_product(A, B), 'frobenius_product')
    c.raises(ValueError, lambda: frobenius_product(B, A), 'frobenius_product')
    if n != m:
        c.raises(ValueError, lambda: center_km(A), 'center_km of a non-square matrix')
    c.raises(ValueError, lambda: center_km(A[:, :1].repeat(n + 1, axis=1)),
             'center_km of a non-square matrix')
    c.raises(ValueError, lambda: center_km([[1.0, 2.0], [2.0, 1.0]]),
             'center_km of a list')
    c.count('refused')
