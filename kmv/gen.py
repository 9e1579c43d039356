"""Workload generators: samples, kernels with reference formulas, index expressions."""
import numpy as np

from kernelmethods.base import BaseKernelFunction, KernelFromCallable
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.numeric_kernels import (Chi2Kernel, GaussianKernel, HadamardKernel,
                                           LaplacianKernel, LinearKernel, PolyKernel,
                                           SigmoidKernel)

KINDS = ('normal', 'uniform', 'nonneg_sparse', 'duplicates', 'collinear', 'constant',
         'large', 'small', 'binary', 'zero_rows', 'integers', 'offset')
DTYPES = ('f8', 'f8', 'f8', 'f4', 'i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4', '?', '>f8',
          '>i4')
LAYOUTS = ('C', 'F', 'strided', 'negstride', 'readonly', 'transposed_view')


def raw_sample(rng, n, d, kind):
    if kind == 'normal':
        return rng.normal(size=(n, d))
    if kind == 'uniform':
        return rng.random((n, d))
    if kind == 'nonneg_sparse':
        return rng.random((n, d)) * (rng.random((n, d)) < 0.4)
    if kind == 'duplicates':
        base = rng.normal(size=(max(1, n // 3), d))
        return base[rng.integers(base.shape[0], size=n)]
    if kind == 'collinear':
        return np.outer(rng.normal(size=n), rng.normal(size=d))
    if kind == 'constant':
        return np.full((n, d), float(rng.integers(1, 5)))
    if kind == 'large':
        return rng.normal(size=(n, d)) * 1e3
    if kind == 'small':
        return rng.normal(size=(n, d)) * 1e-3
    if kind == 'binary':
        return rng.integers(0, 2, size=(n, d)).astype(float)
    if kind == 'zero_rows':
        arr = rng.normal(size=(n, d))
        arr[rng.random(n) < 0.3] = 0.0
        return arr
    if kind == 'integers':
        return rng.integers(-9, 10, size=(n, d)).astype(float)
    if kind == 'offset':
        return 50.0 + rng.normal(size=(n, d))
    raise ValueError(kind)


def cast(arr, dtype):
    """Casting that stays within the range of dtype and keeps some variety"""
    dt = np.dtype(dtype)
    if dt.kind == 'f':
        return arr.astype(dt)
    if dt.kind == 'b':
        return arr > np.median(arr)
    info = np.iinfo(dt)
    span = np.abs(arr).max() or 1.0
    top = min(float(info.max), 1000.0)
    scaled = np.rint(arr / span * top * 0.999)
    if dt.kind == 'u':
        scaled = np.abs(scaled)
    return scaled.astype(dt)


def lay_out(rng, arr, layout):
    """Same contents, other memory layout"""
    if layout == 'C':
        return np.ascontiguousarray(arr)
    if layout == 'F':
        return np.asfortranarray(arr)
    if layout == 'strided':
        big = np.zeros((arr.shape[0] * 2, arr.shape[1] * 3), dtype=arr.dtype)
        big[::2, 1::3] = arr
        return big[::2, 1::3]
    if layout == 'negstride':
        return np.ascontiguousarray(arr[::-1, ::-1])[::-1, ::-1]
    if layout == 'readonly':
        out = np.array(arr)
        out.setflags(write=False)
        return out
    if layout == 'transposed_view':
        return np.ascontiguousarray(arr.T).T
    raise ValueError(layout)


def sample(c, n, d, nonneg=False, kind=None, dtype=None, layout=None, positive=False):
    """A sample and its description"""
    rng = c.rng
    kind = kind or c.pick(KINDS)
    dtype = dtype or c.pick(DTYPES)
    layout = layout or c.pick(LAYOUTS)
    arr = raw_sample(rng, n, d, kind)
    if nonneg or positive:
        arr = np.abs(arr)
    if positive:
        arr = arr + 0.1 * (np.abs(arr).max() or 1.0)
    arr = cast(arr, dtype)
    if positive and np.dtype(dtype).kind == 'b':
        arr = np.ones_like(arr)
    arr = lay_out(rng, arr, layout)
    return arr, '{}/{}/{}/{}x{}'.format(kind, dtype, layout, n, d)


def sizes(c, hi=24, big=None):
    """Sizes, with the small and the round ones often"""
    base = int(c.pick([1, 2, 3, c.randint(2, 8), c.randint(4, hi), c.randint(4, hi)]))
    return c.size(base, base, big)


def two_sizes(c, hi=24, big=None):
    n1 = sizes(c, hi, big)
    how = c.pick(['equal', 'wide', 'tall', 'any'])
    if how == 'equal':
        return n1, n1
    if how == 'wide':
        return n1, n1 + c.randint(1, hi // 2)
    if how == 'tall':
        return n1 + c.randint(1, hi // 2), n1
    return n1, sizes(c, hi, big)


# --------------------------------------------------------------------------- kernels
def ref_linear(x, y):
    return float(np.dot(x.astype('f8'), y.astype('f8')))


def plain_dot(x, y, scale=1.0):
    return scale * float(np.dot(np.asarray(x, 'f8'), np.asarray(y, 'f8')))


def asym_pair(x, y):
    """not symmetric: for two-sample matrices only"""
    x, y = np.asarray(x, 'f8'), np.asarray(y, 'f8')
    return float(x.sum() * 3.0 - y.sum() + np.dot(x, y))


def kernel(c, domain='real', symmetric=True, psd=False):
    """A kernel function usable on the domain ('real', 'nonneg'); returns (k, descr)"""
    rng = c.rng
    skip = c.chance(0.25)
    gam = float(2.0 ** rng.integers(-6, 4))
    names = ['linear', 'poly', 'gauss', 'laplace', 'callable']
    if domain == 'nonneg':
        names.append('chi2')
    if not psd:
        names += ['sigmoid', 'hadamard']
    if not symmetric:
        names += ['asym', 'asym']
    name = c.pick(names)
    if name == 'linear':
        k = LinearKernel(skip_input_checks=skip)
    elif name == 'poly':
        k = PolyKernel(degree=c.randint(1, 4), gamma=gam,
                       b=float(c.pick([0.0, 0.5, 1.0, 3.0])), skip_input_checks=skip)
    elif name == 'gauss':
        k = GaussianKernel(sigma=float(2.0 ** rng.integers(-3, 8)),
                           skip_input_checks=skip)
    elif name == 'laplace':
        k = LaplacianKernel(gamma=gam / 8, skip_input_checks=skip)
    elif name == 'chi2':
        k = Chi2Kernel(gamma=gam, skip_input_checks=False)
    elif name == 'sigmoid':
        k = SigmoidKernel(gamma=gam / 100, offset=float(c.pick([-1.0, 0.0, 1.0])),
                          skip_input_checks=skip)
    elif name == 'hadamard':
        k = HadamardKernel(alpha=c.pick([1, 2, 3, 0.5]), skip_input_checks=skip)
    elif name == 'asym':
        k = KernelFromCallable(asym_pair, name='asym')
    else:
        k = KernelFromCallable(plain_dot, name='plaindot', scale=float(c.pick([1., 2.5])))
    return k, '{}{}'.format(k, '/skip' if getattr(k, 'skip_input_checks', False) else '')


CATEGORIES = np.array(['red', 'green', 'blue', 'a', '', 'Red', 'x' * 12, 'a ', ' a', 'A',
                       'redder', 'gr\u00fcn', 'gru\u0308n', '1', '01', '1.0', 'nan', 'a\n',
                       'x' * 13, 'a\tb', 'a b', 'p' * 16, 'p' * 16 + 'q', 'p' * 17,
                       'long/' * 6 + 'a', 'long/' * 6 + 'b', 'long/' * 30 + 'a',
                       'long/' * 30 + 'b'])


def categorical(c, n, d):
    pool = CATEGORIES[:c.randint(2, 7)] if c.chance(0.4) else \
        c.rng.choice(CATEGORIES, size=c.randint(2, 8), replace=False)
    if c.chance(0.2):
        pool = np.array(['a', 'a ', ' a', 'A', 'a\n'])
    elif c.chance(0.2):
        stem = 'w' * c.pick([3, 7, 8, 15, 16, 19, 20, 31, 32, 63, 64, 100, 127, 255, 256])
        pool = np.array([stem, stem + 'a', stem + 'b', 'a' + stem, 'b' + stem])
    arr = c.rng.choice(pool, size=(n, d))
    return lay_out(c.rng, arr, c.pick(LAYOUTS)), 'categorical/{}x{}'.format(n, d)


# ------------------------------------------------------------------- tagged samples
WIDE = (0.0, 1.0, -1.0, 1e-3, -1e-6, 1e-9, 1e-13, 100.0, -1e3, 1e-30, 1.0)


class Tagged(object):
    """Samples whose rows carry a unique id in every column, and injective kernel values.

    value(a, b) is a fixed pseudo-random number for the (ordered or unordered) pair of
    ids, so each entry of a matrix identifies the pair of rows it was computed from.
    """

    def __init__(self, c, symmetric=True, wide=None):
        self.salt = int(c.rng.integers(1 << 30))
        self.symmetric = symmetric
        self.next_id = 1
        # values of all signs and magnitudes, zeros included
        self.wide = c.chance(0.35) if wide is None else wide
        # the type of the sample, not of the values
        self.dtype = 'f8' if c.chance(0.7) else c.pick(['f4', 'i8', 'i4', 'u4', 'u2'])

    def rows(self, n, d=2):
        ids = np.arange(self.next_id, self.next_id + n)
        self.next_id += n
        return np.repeat(ids[:, None], d, axis=1).astype(self.dtype)

    def value(self, a, b):
        a, b = int(a), int(b)
        if self.symmetric and a > b:
            a, b = b, a
        if a == b:
            return 2.0 + ((a * 2654435761 + self.salt) % 99991) / 99991.0
        h = (a * 1000003 + b * 7919 + self.salt * 31) % 1000000007
        val = ((h * 48271) % 999983) / 999983.0 + (a % 97) * 1e-4 + (b % 89) * 1e-6
        if self.wide:
            val *= WIDE[h % len(WIDE)]
        return val

    def matrix(self, A, B=None):
        B = A if B is None else B
        return np.array([[self.value(a, b) for b in B[:, 0]] for a in A[:, 0]],
                        dtype='f8').reshape(A.shape[0], B.shape[0])

    def diag(self, A):
        return np.array([self.value(a, a) for a in A[:, 0]])


class RecordingKernel(BaseKernelFunction):
    """Records the pair of row ids of every evaluation; optionally fails or blocks"""

    def __init__(self, tagged, before=None, retype=None, name='rec'):
        super().__init__(name=name)
        self.tagged = tagged
        self.calls = []
        self.before = before
        self.retype = retype

    def __call__(self, x, y):
        a, b = int(np.ravel(x)[0]), int(np.ravel(y)[0])
        self.calls.append((a, b))
        if self.before is not None:
            self.before(len(self.calls), a, b)
        val = self.tagged.value(a, b)
        return val if self.retype is None else self.retype(val)

    def __str__(self):
        return '{}()'.format(self.name)
