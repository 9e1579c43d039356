"""C08: alignment and similarity measures."""
import numpy as np
from kernelmethods.base import KernelMatrix, KernelSet
from kernelmethods.operations import alignment_centered, center_km
from kernelmethods.sampling import (KernelBucket, correlation_km, ideal_kernel,
                                    pairwise_similarity)

from kmv import gen, ref
from kmv.core import BIG_SIZES, Check

check = Check(
    'C08', 'exploration',
    'random pairs of matrices (scale, dtype, layout), targets and kernel sets against '
    'the definitions, plus algebraic laws (symmetry, range, scale invariance, identity, '
    'centered inputs); distinct by data',
    ['Frobenius norms of centered matrices are either exactly negligible (< 1e-12) or '
     'above 1e-5: the library treats values near 1e-8 as zero'])


def _align(A, B):
    a, b = ref.center(A), ref.center(B)
    return float((a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum()))


def _matrix(c, n, wide=lambda c: c.randint(5, 30)):
    kind = c.pick(['psd', 'sym', 'gauss', 'int', 'u1', 'f4', 'any', 'near_constant', 'bool'])
    A = c.rng.normal(size=(n, c.randint(1, 5)))
    if kind == 'psd':
        K = A @ A.T
    elif kind == 'gauss':
        K = np.exp(-((A[:, None] - A[None]) ** 2).sum(-1))
    elif kind == 'int':
        K = np.rint(10 * A @ A.T).astype('i8')
    elif kind == 'u1':
        K = c.rng.integers(0, 255, size=(n, n)).astype('u1')
        K = np.maximum(K, K.T)
    elif kind == 'f4':
        K = (A @ A.T).astype('f4')
    elif kind == 'bool':
        K = c.rng.random((n, n)) < 0.5
    elif kind == 'near_constant':
        K = 100.0 + A @ A.T
    else:
        K = c.rng.normal(size=(n, n))
        if kind == 'sym':
            K = K + K.T
    if kind not in ('int', 'u1', 'f4', 'bool'):
        K = K * 10.0 ** (c.randint(-4, 5) if c.chance(0.8) else wide(c))
    K = gen.lay_out(c.rng, K, c.pick(gen.LAYOUTS))
    return K, kind


@check.scenario(quick=5000, thorough=60000, required=['compared', 'rescaled', 'centered'])
def alignment(c):
    n = c.size_of([2, 3, c.randint(2, 8)], 5, 25)
    A, ka = _matrix(c, n)
    B, kb = _matrix(c, n)
    c.note(n=n, kinds=(ka, kb), salt=c.case_seed)
    na, nb = np.linalg.norm(ref.center(A)), np.linalg.norm(ref.center(B))
    if min(na, nb) < 1e-5:
        c.ok(True, 'degenerate')
        return
    tol = 1e-4 if 'f4' in (ka, kb) else 1e-8
    # cancellation in the centering
    tol = tol * max(1.0, np.abs(A.astype('f8')).max() * n / na,
                    np.abs(B.astype('f8')).max() * n / nb)
    want = _align(A, B)
    got = alignment_centered(A, B)
    c.same(got, want, 'alignment_centered', atol=tol)
    c.same(alignment_centered(B, A), want, 'symmetry', atol=tol)
    slack = 1e-5 if 'f4' in (ka, kb) else 1e-9
    c.ok(-1 - slack <= got <= 1 + slack, 'alignment outside [-1, 1]', got)
    c.same(alignment_centered(A, A), 1.0, 'alignment with itself', atol=max(tol, 1e-9))
    c.same(alignment_centered(A, B, value_if_zero_division=0.0), want,
           'with a substitute value', atol=tol)
    c.count('compared')
    s, t = 10.0 ** c.rng.uniform(0, 4), 10.0 ** c.rng.uniform(0, 4)
    Af, Bf = A.astype('f8'), B.astype('f8')
    c.same(alignment_centered(s * Af, t * Bf), want, 'rescaled', atol=tol)
    c.same(alignment_centered(-s * Af, Bf), -want, 'negated', atol=tol)
    c.count('rescaled')
    cA, cB = ref.center(A), ref.center(B)
    c.same(alignment_centered(cA, cB, centered_already=True), want,
           'already centered', atol=tol)
    c.same(alignment_centered(center_km(A), center_km(B), centered_already=True), want,
           'already centered by center_km', atol=tol)
    c.same(alignment_centered(cA, cB), want, 'centered again', atol=tol)
    c.count('centered')


@check.scenario(quick=1500, thorough=15000, required=['raised', 'substituted'])
def degenerate(c):
    """centered matrix is zero: constant rows or columns"""
    n = c.size(2, 10)
    A, ka = _matrix(c, n)
    if np.linalg.norm(ref.center(A)) < 1e-5:
        A = np.eye(n)
    val = float(c.pick([0, 1, -3, 5, 100]))
    kind = c.pick(['constant', 'zeros', 'row_const', 'col_const'])
    r = c.rng.integers(-5, 6, size=n).astype('f8')
    Z = {'constant': np.full((n, n), val), 'zeros': np.zeros((n, n)),
         'row_const': np.repeat(r[:, None], n, axis=1),
         'col_const': np.repeat(r[None, :], n, axis=0)}[kind]
    c.note(n=n, kind=kind, val=val, other=ka, salt=c.case_seed)
    for pair in ((A, Z), (Z, A), (Z, Z)):
        c.raises(ValueError, lambda: alignment_centered(*pair), 'zero centered matrix')
        c.raises(ValueError, lambda: alignment_centered(
            *pair, value_if_zero_division='raise'), 'zero centered matrix')
        c.count('raised')
        sub = c.pick([0.0, -1.0, 0.25, 7.0])
        c.exact(alignment_centered(*pair, value_if_zero_division=sub), sub,
                'substitute value')
        c.count('substituted')
    zero = np.zeros((n, n))
    c.raises(ValueError, lambda: alignment_centered(A, zero, centered_already=True),
             'zero matrix passed as centered')
    B = c.rng.normal(size=(n + 1, n + 1))
    c.raises(ValueError, lambda: alignment_centered(A, B), 'different shapes')


@check.scenario(quick=3000, thorough=30000, required=['corr', 'ideal'])
def correlation_and_ideal(c):
    n = c.size(2, 14)
    A, ka = _matrix(c, n, lambda c: c.randint(-30, 30))
    B, kb = _matrix(c, n, lambda c: c.randint(-30, 30))
    c.note(n=n, kinds=(ka, kb), salt=c.case_seed)
    a, b = A.astype('f8').ravel(), B.astype('f8').ravel()
    a0, b0 = a - a.mean(), b - b.mean()
    na, nb = np.linalg.norm(a0), np.linalg.norm(b0)
    if min(na / (np.abs(a).max() or 1), nb / (np.abs(b).max() or 1)) > 1e-6:
        want = float((a0 * b0).sum() / (na * nb))
        tol = 1e-4 if 'f4' in (ka, kb) else 1e-8
        tol *= max(1.0, np.abs(a).max() * n / na, np.abs(b).max() * n / nb)
        c.same(correlation_km(A, B), want, 'correlation_km', atol=tol)
        c.same(correlation_km(B, A), want, 'correlation_km swapped', atol=tol)
        c.same(correlation_km(A, A), 1.0, 'correlation with itself', atol=tol)
        c.count('corr')
    n = c.pick([n, n, n, 1])
    y = c.pick([c.rng.integers(-3, 4, size=n), c.rng.normal(size=n),
                c.rng.integers(0, 200, size=n).astype('u1'),
                c.rng.integers(-100, 100, size=n).astype('i1'),
                c.rng.integers(0, 2, size=n).astype('f4'),
                c.rng.integers(0, 2, size=n).astype(bool)])
    form = c.pick([lambda v: v, list, tuple, lambda v: v.reshape(-1, 1),
                   lambda v: np.repeat(v, 2)[::2]])
    yf = y.astype('f8')
    c.same(ideal_kernel(form(y)), np.outer(yf, yf), 'ideal_kernel', rtol=1e-6)
    c.count('ideal')


@check.scenario(quick=600, thorough=6000, required=['corr', 'align', 'pairs'])
def pairwise(c):
    n, d = c.size(3, 10, BIG_SIZES), c.dim(1, 4)
    X = c.rng.normal(size=(n, d)) + 0.1
    if c.chance(0.4):
        ks = KernelBucket(poly_degree_values=c.pick([None, (2, 3)]),
                          rbf_sigma_values=c.pick([(0.5, 2.0), None]),
                          laplace_gamma_values=(0.1,), sigmoid_gamma_values=None,
                          sigmoid_offset_values=None,
                          normalize_kernels=c.chance(0.5))
        ks.attach_to(X)
    else:
        kms = []
        for _ in range(c.few(1, 5) if c.chance(0.85) else c.randint(6, 22)):
            tag = gen.Tagged(c)
            k = gen.RecordingKernel(tag)
            kms.append(KernelMatrix(k, normalized=c.chance(0.5)))
        ks = KernelSet(kms)
        ks.attach_to(np.arange(1.0, n + 1)[:, None].repeat(2, axis=1))
    metric = c.pick(['corr', 'align'])
    c.note(n=n, size=ks.size, metric=metric, salt=c.case_seed)
    got = pairwise_similarity(ks, metric=metric)
    fulls = [km.full for km in ks]
    norms = [np.linalg.norm(ref.center(f)) for f in fulls]
    if metric == 'align' and any(1e-9 < norm < 1e-5 for norm in norms):
        c.ok(True, 'constant up to rounding')
        return
    want = np.empty((ks.size, ks.size))
    for i, a in enumerate(fulls):
        for j, b in enumerate(fulls):
            want[i, j] = np.corrcoef(a.ravel(), b.ravel())[0, 1] if metric == 'corr' \
                else _align(a, b) if min(norms[i], norms[j]) > 1e-9 else 0.0
    if metric == 'corr' and any(np.ptp(f) < 1e-6 for f in fulls):
        c.ok(True, 'constant up to rounding')
        return
    c.same(got, want, 'pairwise_similarity', rtol=1e-7, atol=1e-7)
    c.exact(got, got.T, 'pairwise_similarity is not symmetric')
    if metric == 'corr':
        c.same(pairwise_similarity(ks), want, 'default metric', rtol=1e-7, atol=1e-7)
    c.count(metric)
    c.count('pairs', ks.size ** 2)


@check.scenario(quick=200, thorough=2000, required=['substituted'])
def pairwise_degenerate(c):
    """a kernel matrix whose centered version is zero gets alignment 0 with the others"""
    n = c.size(3, 8, BIG_SIZES)
    tag = gen.Tagged(c)
    kms = [gen.RecordingKernel(gen.Tagged(c)) for _ in range(c.few(1, 3))]
    mats = [KernelMatrix(k, normalized=False) for k in kms]
    pos = c.randint(0, len(mats))
    from kernelmethods.base import KernelFromCallable
    const = KernelFromCallable(lambda x, y: 2.0, name='const')
    mats.insert(pos, KernelMatrix(const, normalized=False))
    ks = KernelSet(mats)
    ks.attach_to(tag.rows(n))
    c.note(n=n, size=len(mats), pos=pos, salt=c.case_seed)
    got = pairwise_similarity(ks, metric='align')
    for i in range(len(mats)):
        for j in range(len(mats)):
            if pos in (i, j):
                c.exact(got[i, j], 0.0, 'alignment with a constant matrix')
                c.count('substituted')
            else:
                c.same(got[i, j], _align(mats[i].full, mats[j].full), 'alignment',
                       atol=1e-8)
