"""C13: composite kernels equal the stated combination of their members."""
import numpy as np
from kernelmethods.base import (AverageKernel, KernelMatrix, KernelMatrixPrecomputed,
                                KernelSet, ProductKernel, SumKernel,
                                WeightedAverageKernel)
from kernelmethods.operations import linear_combination
from kernelmethods.sampling import KernelBucket

from kmv import gen, ref
from kmv.core import Check, MID_SIZES

check = Check(
    'C13', 'exploration',
    'random sets of 2-6 kernel matrices (lazy, partly read, precomputed, repeated, '
    'normalized or not, one or two samples) and weights; every composite is recomputed '
    'with numpy from reference Gram matrices, after the first fit and after re-attaching, '
    'appending and refitting; distinct by set, weights and history',
    ['rounding tolerance 1e-9 relative to the sum of absolute terms'])


def _set(c, n, psd=False, hi=6):
    """(KernelSet, list of reference full matrices, refs by sample function)"""
    d = c.dim(1, 4)
    X = c.rng.normal(size=(n, d)) + c.pick([0.0, 2.0])
    mats, refs = [], []
    c.normed = {}
    for _ in range(c.few(2, hi)):
        kind = c.pick(['km', 'km', 'km', 'precomputed', 'array', 'repeat'])
        if kind == 'repeat' and mats:
            i = c.randint(0, len(mats) - 1)
            mats.append(mats[i])
            refs.append(refs[i])
            continue
        if kind in ('precomputed', 'array'):
            A = c.rng.normal(size=(n, max(1, n - 1)))
            A = A @ A.T if psd else c.rng.normal(size=(n, n))
            A = A if psd else A + A.T
            if c.chance(0.2) and not psd:
                A = c.rng.integers(-100, 100, size=(n, n)).astype('i1')
                A = np.triu(A) + np.triu(A, 1).T
            if c.chance(0.05):
                A = np.zeros((n, n))
            mats.append(KernelMatrixPrecomputed(A) if kind == 'precomputed' else A)
            refs.append(np.array(A, 'f8'))
            continue
        k, _ = gen.kernel(c, psd=psd)
        normalized = c.chance(0.5)
        K = ref.gram(k, X)
        if np.any(np.diag(K) < 1e-3) or not np.isfinite(K).all():
            normalized = False
        km = KernelMatrix(k, normalized=normalized)
        c.normed[id(km)] = normalized
        km.attach_to(X)
        if c.chance(0.3):
            km[c.randint(0, n - 1), :]
        if c.chance(0.2):
            km.centered
        mats.append(km)
        refs.append(ref.cosine(K, np.diag(K), np.diag(K)) if normalized else K)
    return KernelSet(mats), refs


def _weights(c, m, nonneg=False):
    kind = c.pick(['random', 'ints', 'zeros', 'onehot', 'tiny', 'u1', 'i1', 'big',
                   'f4', 'bool'])
    if kind == 'random':
        w = c.rng.normal(size=m)
    elif kind == 'ints':
        w = c.rng.integers(-5, 6, size=m)
    elif kind == 'zeros':
        w = np.zeros(m)
    elif kind == 'onehot':
        w = np.zeros(m)
        w[c.rng.integers(m)] = 1.0
    elif kind == 'tiny':
        w = c.rng.random(m) * 1e-6
    elif kind == 'u1':
        w = c.rng.integers(0, 256, size=m).astype('u1')
    elif kind == 'i1':
        w = c.rng.integers(-128, 128, size=m).astype('i1')
    elif kind == 'f4':
        # exact in single precision
        w = (c.rng.choice([-1, 1], size=m) * 2.0 ** c.rng.integers(-8, 9, size=m)
             ).astype('f4')
    elif kind == 'bool':
        w = c.rng.random(m) < 0.6
    else:
        w = c.rng.normal(size=m) * 1e6
    if nonneg:
        w = np.abs(w.astype('f8'))
    form = c.pick(['array', 'list', 'tuple', 'readonly', 'strided'])
    if form == 'list':
        return w.tolist()
    if form == 'tuple':
        return tuple(w.tolist())
    if form == 'readonly':
        w = w.copy()
        w.setflags(write=False)
    if form == 'strided':
        big = np.zeros(2 * m, dtype=w.dtype)
        big[::2] = w
        w = big[::2]
    return w


def _want(kind, refs, w):
    stack = np.array(refs, 'f8')
    if kind == 'product':
        return np.prod(stack, axis=0), np.prod(np.abs(stack), axis=0)
    if kind == 'average':
        w = np.full(len(refs), 1.0 / len(refs))
    w = np.ones(len(refs)) if w is None else np.asarray(w, 'f8')
    return np.tensordot(w, stack, 1), np.tensordot(np.abs(w), np.abs(stack), 1)


def _make(c, ks, kind, w):
    if kind == 'sum':
        return SumKernel(ks)
    if kind == 'product':
        return ProductKernel(ks)
    if kind == 'average':
        return AverageKernel(ks)
    return WeightedAverageKernel(ks, w)


def _fit(c, comp, kind, w):
    if kind == 'sum' and w is not None:
        comp.fit(w) if c.chance(0.5) else comp.fit(kernel_weights=w)
    else:
        comp.fit()


def _compare(c, comp, kind, refs, w, where):
    want, mag = _want(kind, refs, w)
    tol = 1e-9 * (mag.max() if mag.size else 1.0) + 1e-300
    for name in ('composite_KM', 'full'):
        got = getattr(comp, name)
        c.ok(isinstance(got, np.ndarray), 'dense array', got)
        c.same(got, want, '{} of {} kernel{}'.format(name, kind, where), rtol=1e-9,
               atol=tol)
    c.count(kind)


@check.scenario(quick=3000, thorough=60000,
                required=['sum', 'product', 'average', 'weighted', 'refitted',
                          'refit_after_attach', 'refit_after_append', 'several',
                          'weight_missing'])
def composites(c):
    n = c.size(1, 8, MID_SIZES)
    ks, refs = _set(c, n)
    kind = c.pick(['sum', 'sum', 'product', 'average', 'weighted'])
    w = _weights(c, len(refs)) if kind == 'weighted' or \
        (kind == 'sum' and c.chance(0.6)) else None
    comp = _make(c, ks, kind, w)
    _fit(c, comp, kind, w)
    _compare(c, comp, kind, refs, w, '')
    hist = []
    for step in range(c.randint(0, 4)):
        op = c.pick(['refit', 'attach', 'append', 'several', 'new_weights'])
        lazy = [km for km in ks if isinstance(km, KernelMatrix)]
        if op == 'attach' and len(lazy) == len(refs):
            d = c.dim(1, 4)
            X = c.rng.normal(size=(n, d)) + 2.0
            Ks = [ref.gram(km.kernel, X) for km in ks]
            if any(np.any(np.diag(K) < 1e-3) for K in Ks):
                continue
            ks.attach_to(X)
            refs = [ref.cosine(K, np.diag(K), np.diag(K)) if c.normed[id(km)] else K
                    for K, km in zip(Ks, ks)]
            c.count('refit_after_attach')
        elif op == 'append' and kind != 'weighted':
            A = c.rng.normal(size=(n, n))
            ks.append(A + A.T)
            refs = refs + [A + A.T]
            w = None if kind != 'sum' else w
            if w is not None:
                w = list(np.asarray(w, 'f8')) + [0.5]
            c.count('refit_after_append')
        elif op == 'append':
            # there is no weight for the new member
            A = c.rng.normal(size=(n, n))
            ks.append(A + A.T)
            c.raises(ValueError, comp.fit, 'fit with a weight missing')
            comp = WeightedAverageKernel(ks, list(np.asarray(w, 'f8')) + [0.5])
            w, refs = list(np.asarray(w, 'f8')) + [0.5], refs + [A + A.T]
            c.count('weight_missing')
        elif op == 'several':
            # another composite of the same set does not disturb this one
            before = np.array(comp.full)
            other_kind = c.pick(['sum', 'product', 'average'])
            other = _make(c, ks, other_kind, None)
            other.fit()
            _compare(c, other, other_kind, refs, None, ' (second composite)')
            c.exact(comp.full, before, 'first composite after fitting a second one')
            c.count('several')
        elif op == 'new_weights' and kind == 'sum':
            w = _weights(c, len(refs)) if c.chance(0.7) else None
        hist.append(op)
        _fit(c, comp, kind, w)
        _compare(c, comp, kind, refs, w, ' after ' + '-'.join(hist))
        c.count('refitted')
    c.note(kind=kind, n=n, m=len(refs), hist=hist, salt=c.case_seed)


@check.scenario(quick=3000, thorough=60000,
                required=['one_sample', 'two_samples', 'normed_weights'])
def linear_combinations(c):
    two = c.chance(0.4)
    norm = c.chance(0.4)
    if two:
        n1, n2 = gen.two_sizes(c, 8, MID_SIZES)
        d = c.randint(1, 3)
        X = c.rng.normal(size=(n1, d)) + 2.0
        Y = c.rng.normal(size=(n2, d)) + 2.0
        mats, refs = [], []
        for _ in range(c.few(1, 4)):
            k, _ = gen.kernel(c, symmetric=False)
            K = ref.gram(k, X, Y)
            dx, dy = ref.self_sim(k, X), ref.self_sim(k, Y)
            normalized = c.chance(0.5) and min(dx.min(), dy.min()) > 1e-3
            km = KernelMatrix(k, normalized=bool(normalized))
            km.attach_to(X, sample_two=Y, name_two='t')
            mats.append(km)
            refs.append(ref.cosine(K, dx, dy) if normalized else K)
        ks = KernelSet(mats)
        c.count('two_samples')
    else:
        ks, refs = _set(c, c.randint(1, 8))
        c.count('one_sample')
    w = _weights(c, len(refs))
    wf = np.asarray(w, 'f8')
    if norm and abs(wf.sum()) < 1e-3 * max(1.0, np.abs(wf).max()):
        norm = False
    got = linear_combination(ks, w, norm_weights=norm)
    if norm:
        wf = wf / wf.sum()
        c.count('normed_weights')
    want, mag = _want('sum', refs, wf)
    # weights in single precision are normalized in single precision
    tol = 1e-5 if norm and getattr(w, 'dtype', None) == 'f4' else 1e-9
    c.same(got, want, 'linear_combination', rtol=tol, atol=tol * mag.max() + 1e-300)
    c.note(two=two, norm=norm, m=len(refs), w=[float(x) for x in wf])
    if not two and not norm and len(refs) >= 2:
        comp = SumKernel(ks)
        comp.fit(w)
        c.same(got, comp.full, 'linear_combination vs SumKernel', rtol=1e-9,
               atol=1e-9 * mag.max() + 1e-300)
        comp = WeightedAverageKernel(ks, w)
        comp.fit()
        c.same(got, comp.full, 'linear_combination vs WeightedAverageKernel', rtol=1e-9,
               atol=1e-9 * mag.max() + 1e-300)


@check.scenario(quick=40, thorough=1000, required=['sum', 'product', 'average', 'weighted'])
def large(c):
    """large precomputed members, or many of them"""
    if c.chance(0.6):
        n, m = c.pick([200, 257, 300, 450, 513, 600]), c.randint(2, 5)
    else:
        n, m = c.randint(2, 6), c.pick([13, 17, 33, 65, 101, 130])
    mats = []
    for _ in range(m):
        A = c.rng.normal(size=(n, n)).astype(c.pick(['f8', 'f8', 'f4']))
        mats.append(A + A.T)
    keep = [A.copy() for A in mats]
    form = c.pick(['array', 'precomputed'])
    ks = KernelSet([KernelMatrixPrecomputed(A) if form == 'precomputed' else A
                    for A in mats])
    refs = [A.astype('f8') for A in keep]
    c.note(n=n, m=m, form=form, salt=c.case_seed)
    for kind in c.rng.permutation(['sum', 'product', 'average', 'weighted']).tolist():
        w = _weights(c, m) if kind == 'weighted' or (kind == 'sum' and c.chance(0.6)) \
            else None
        comp = _make(c, ks, kind, w)
        _fit(c, comp, kind, w)
        want, mag = _want(kind, refs, w)
        f4 = any(A.dtype == np.float32 for A in keep)
        c.same(comp.full, want, '{} of {} members'.format(kind, m),
               rtol=1e-3 if f4 else 1e-9,
               atol=(1e-5 if f4 else 1e-9) * mag.max() + 1e-300)
        c.count(kind)
    for A, B, km in zip(mats, keep, ks):
        c.exact(A, B, 'given member after fitting')
        c.exact(km.full, B, 'member after fitting')


@check.scenario(quick=800, thorough=15000, required=['psd'])
def psd_kept(c):
    ks, refs = _set(c, c.randint(2, 8), psd=True)
    kind = c.pick(['sum', 'product', 'average', 'weighted'])
    w = _weights(c, len(refs), nonneg=True) if kind in ('weighted', 'sum') else None
    comp = _make(c, ks, kind, w)
    _fit(c, comp, kind, w)
    K = comp.full
    _, mag = _want(kind, refs, w)
    c.ok(np.allclose(K, K.T, rtol=1e-9, atol=1e-9 * mag.max()), 'symmetric', K)
    low = np.linalg.eigvalsh((K + K.T) / 2).min()
    c.ok(low >= -1e-8 * max(mag.max(), 1e-300) * len(K),
         'smallest eigenvalue {} of the {} of PSD matrices'.format(low, kind), K)
    c.count('psd')
    c.note(kind=kind, salt=c.case_seed)


@check.scenario(quick=60, thorough=600, required=['bucket'])
def of_bucket(c):
    n = c.size(2, 6, MID_SIZES)
    X = c.rng.normal(size=(n, 2)) + 2.0
    normalized = c.chance(0.5)
    kb = KernelBucket(poly_degree_values=[2, 3], rbf_sigma_values=[0.5, 2.0],
                      laplace_gamma_values=None, sigmoid_gamma_values=None,
                      sigmoid_offset_values=None, normalize_kernels=normalized)
    kb.attach_to(X)
    refs = []
    for km in kb:
        K = ref.gram(km.kernel, X)
        refs.append(ref.cosine(K, np.diag(K), np.diag(K)) if normalized else K)
    for kind in ('sum', 'product', 'average', 'weighted'):
        w = _weights(c, len(refs)) if kind == 'weighted' else None
        comp = _make(c, kb, kind, w)
        _fit(c, comp, kind, w)
        _compare(c, comp, kind, refs, w, ' of a bucket')
    c.count('bucket')
    c.note(n=n, salt=c.case_seed)
