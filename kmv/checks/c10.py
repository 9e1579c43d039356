"""C10: valid kernels give PSD matrices, and PSD checks answer correctly."""
import contextlib
import io
import warnings

import numpy as np
from kernelmethods.base import KernelFromCallable, KernelMatrix
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.numeric_kernels import (Chi2Kernel, GaussianKernel, LaplacianKernel,
                                           LinearKernel, PolyKernel)
from kernelmethods.operations import center_km, is_positive_semidefinite, is_PSD

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C10', 'exploration',
    'random PSD kernels and samples: smallest eigenvalue of the raw, normalized and '
    'centered matrices; is_PSD on matrices built from known spectra on either side of '
    'the tolerance, at any scale; distinct by kernel/data or spectrum',
    ['rounding: 1e-9 of the largest eigenvalue (1e-4 for float32 data)',
     'eigenvalues within a factor of 2 of the tolerance are not used'])


def _lambda_min(K):
    vals = np.linalg.eigvalsh((K + K.T) / 2)
    return vals[0], max(abs(vals[-1]), abs(vals[0]))


def psd_kernel(c, d):
    name = c.pick(['linear', 'poly', 'gauss', 'laplace', 'chi2', 'match'])
    gam = float(2.0 ** c.randint(-8, 4))
    if name == 'linear':
        return LinearKernel(), 'real'
    if name == 'poly':
        return PolyKernel(degree=c.randint(1, 5), gamma=gam,
                          b=float(c.pick([0.0, 0.1, 1.0, 5.0]))), 'real'
    if name == 'gauss':
        return GaussianKernel(sigma=float(2.0 ** c.randint(-4, 8))), 'real'
    if name == 'laplace':
        return LaplacianKernel(gamma=c.pick([gam, 0.0])), 'real'
    if name == 'chi2':
        return Chi2Kernel(gamma=c.pick([gam, 0.0])), 'nonneg'
    return MatchCountKernel(return_perc=c.chance(0.5)), 'cat'


@check.scenario(quick=4000, thorough=40000, required=['raw', 'normalized', 'centered'])
def kernels(c):
    d = c.dim(1, 8)
    n = c.size_of([1, 2, 5, c.randint(3, 16)], 8, 30)
    k, domain = psd_kernel(c, d)
    if domain == 'cat':
        X, dX = gen.categorical(c, n, d)
    else:
        X, dX = gen.sample(c, n, d, nonneg=domain == 'nonneg')
    c.note(kernel=str(k), X=dX, salt=c.case_seed)
    tol = 1e-4 if X.dtype == np.float32 else 1e-9
    km = KernelMatrix(k, normalized=False)
    km.attach_to(X)
    K = km.full
    if X.dtype == np.float32 and np.nanmax(np.abs(K)) > 1e36:
        c.ok(True, 'beyond single precision')
        return
    c.ok(np.isfinite(K).all(), 'non-finite kernel values', K)
    low, top = _lambda_min(K)
    c.ok(low >= -tol * top, 'negative eigenvalue {} of {} (largest {})'.format(
        low, k, top), K)
    c.count('raw')
    low, top2 = _lambda_min(km.centered)
    c.ok(low >= -tol * max(top, top2), 'negative eigenvalue {} after centering'.format(
        low), km.centered)
    c.count('centered')
    if K.diagonal().min() > 1e-5:
        spread = max(1.0, K.diagonal().max() / K.diagonal().min())
        low, top = _lambda_min(km.normed_km)
        ntol = 1e-9 if tol == 1e-9 else min(1.0, 1e-4 * np.sqrt(spread))
        c.ok(low >= -ntol * top * 10, 'negative eigenvalue {} after normalization'.format(
            low), km.normed_km)
        c.count('normalized')


def _from_spectrum(c, vals):
    n = len(vals)
    Q, _ = np.linalg.qr(c.rng.normal(size=(n, n)))
    K = (Q * vals) @ Q.T
    return (K + K.T) / 2


@check.scenario(quick=6000, thorough=60000,
                required=['psd', 'not_psd', 'just_negative', 'custom_tol'])
def decisions(c):
    """is_PSD on known spectra"""
    n = c.size_of([1, 2, 3, c.randint(2, 10)], 5, 40)
    scale = 10.0 ** c.randint(-3, 4)
    tol = 1e-6
    kw = {}
    if c.chance(0.4):
        tol = 10.0 ** c.randint(-8, 1)
        kw = dict(tolerance=tol)
        c.count('custom_tol')
    if c.chance(0.2):
        kw['verbose'] = c.chance(0.6)
    noise = scale * n * 1e-13
    vals = np.abs(c.rng.normal(size=n)) * scale
    if c.chance(0.3):
        vals[c.rng.integers(n)] = 0.0
    psd = c.chance(0.5)
    if psd:
        if c.chance(0.4) and tol > 100 * noise:
            # slightly negative, within the tolerance
            vals[c.rng.integers(n)] = -tol * c.rng.uniform(0.1, 0.5)
        c.count('psd')
        if tol <= 10 * noise:
            c.ok(True, 'below rounding')
            return
    else:
        num = c.randint(1, max(1, n // 3))
        how = c.pick(['just', 'far', 'comparable'])
        size = {'just': max(2.5 * tol, 100 * noise), 'far': max(tol, scale) * 10,
                'comparable': max(scale * 0.5, 2.5 * tol, 100 * noise)}[how]
        vals[c.rng.permutation(n)[:num]] = -size
        c.count('not_psd')
        if how == 'just':
            c.count('just_negative')
    K = _from_spectrum(c, vals)
    K = gen.lay_out(c.rng, K, c.pick(gen.LAYOUTS))
    c.note(n=n, psd=psd, tol=tol, salt=c.case_seed)
    func = c.pick([is_PSD, is_positive_semidefinite])
    with contextlib.redirect_stdout(io.StringIO()):
        got = func(K, **kw)
    c.ok(got is True or got is False or isinstance(got, np.bool_),
         'answer is not a boolean', got)
    c.ok(bool(got) == psd, 'is_PSD = {} for eigenvalues {}, tolerance {}'.format(
        got, np.sort(vals)[:5], tol))


@check.scenario(quick=1500, thorough=15000,
                required=['not_square', 'not_symmetric', 'integers', 'single'])
def malformed(c):
    n = c.size(2, 10)
    A = c.rng.normal(size=(n, n))
    K = A @ A.T + np.eye(n)
    c.note(n=n, salt=c.case_seed)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = c.pick([j for j in (1, n - 1, n + 1, 2 * n) if j != n])
        rect = c.rng.normal(size=(n, m)) if c.chance(0.5) else np.ones((n, m))
        for R in (rect, rect.T):
            c.ok(is_PSD(R) is False or not is_PSD(R), 'non-square matrix is PSD?', R)
        c.count('not_square')
        bad = K.copy()
        i, j = c.rng.permutation(n)[:2]
        bad[i, j] += c.pick([1.0, -1.0, 0.1])
        c.ok(not is_PSD(bad), 'non-symmetric matrix is PSD?', bad)
        # a small difference, of any element, in a well conditioned matrix
        bad = np.eye(n) * c.pick([2.0, 1.0, 100.0]) \
            + 0.5 * np.ones((n, n)) * c.pick([0.0, 1.0])
        size = 10.0 ** c.randint(-3, -1)
        bad[i, j] += c.pick([1.0, -1.0]) * size
        c.ok(not is_PSD(bad), 'non-symmetric matrix is PSD?', bad, size)
        bad *= c.pick([1.0, 1e3, 1e6])
        c.ok(not is_PSD(bad), 'non-symmetric matrix is PSD?', bad, size)
        upper = np.triu(K)
        upper[0, 1] = 0.7
        c.ok(not is_PSD(upper), 'upper triangle is PSD?', upper)
        c.count('not_symmetric')
    B = c.rng.integers(-4, 5, size=(n, n))
    c.ok(is_PSD(B @ B.T) or n > 20, 'integer Gram matrix is not PSD?', B @ B.T)
    neg = -(B @ B.T) - np.eye(n, dtype=int)
    c.ok(not is_PSD(neg), 'negative definite integer matrix is PSD?', neg)
    c.count('integers')
    # single precision, eigenvalues far from the tolerance
    vals = c.rng.uniform(0.1, 2.0, size=n) * c.pick([1.0, 10.0, 0.1])
    single = gen.lay_out(c.rng, _from_spectrum(c, vals).astype('f4'),
                         c.pick(gen.LAYOUTS))
    c.ok(is_PSD(single), 'float32 matrix is not PSD?', vals)
    vals[c.rng.integers(n)] *= -1
    single = gen.lay_out(c.rng, _from_spectrum(c, vals).astype('f4'),
                         c.pick(gen.LAYOUTS))
    c.ok(not is_PSD(single), 'float32 matrix is PSD?', vals)
    c.count('single')
    # a negative eigenvalue on the last diagonal element only
    D = np.eye(n)
    pos = c.randint(0, n - 1)
    D[pos, pos] = -1e-3
    c.ok(not is_PSD(D), 'negative diagonal element {} overlooked'.format(pos), D)


@check.scenario(quick=150, thorough=1500, required=['valid', 'invalid'])
def is_psd_method(c):
    """is_psd() of kernel functions"""
    k = c.pick([LinearKernel(), PolyKernel(degree=2), PolyKernel(degree=1, b=0.0),
                GaussianKernel(), GaussianKernel(sigma=0.1), LaplacianKernel(),
                LaplacianKernel(gamma=0.1), Chi2Kernel(), Chi2Kernel(gamma=5.0),
                KernelFromCallable(gen.plain_dot, name='dot')])
    c.note(kernel=str(k), salt=c.case_seed)
    c.ok(bool(k.is_psd()), '{}.is_psd() is not True'.format(k))
    c.count('valid')
    bad = c.pick([KernelFromCallable(lambda x, y: -float(np.dot(x, y)), name='neg'),
                  KernelFromCallable(lambda x, y: float(np.linalg.norm(x - y)),
                                     name='distance'),
                  KernelFromCallable(lambda x, y: float(np.sum((x - y) ** 2)) - 0.1,
                                     name='sqdist'),
                  KernelFromCallable(lambda x, y: -1.0, name='minus one'),
                  # every two points look valid, many do not
                  KernelFromCallable(lambda x, y: float(np.linalg.norm(x - y) < 0.6),
                                     name='ball'),
                  KernelFromCallable(lambda x, y: float(np.abs(x - y).max() < 0.5),
                                     name='cube')])
    c.ok(not bad.is_psd(), '{}.is_psd() is True'.format(bad))
    c.count('invalid')
