"""C25: precomputed and constant kernel matrices reproduce their contents."""
import numpy as np
from kernelmethods.base import ConstantKernelMatrix, KernelMatrixPrecomputed, KernelSet
from kernelmethods.config import KMAccessError

from kmv.core import Check

check = Check(
    'C25', 'exploration',
    'random symmetric and invalid matrices (shapes, dtypes, layouts, a single asymmetric, '
    'complex or missing entry at any position), sizes, constants and dtypes, with valid '
    'and invalid index expressions; compared with the given array; distinct by input',
    ['entries within the closeness of numpy.isclose count as equal for symmetry'])


def _symmetric(c, n):
    kind = c.pick(['f8', 'f8', 'f4', 'i8', 'i4', 'i1', 'u1', '?', '>f8', 'zeros', 'huge'])
    if kind in ('f8', 'f4', '>f8'):
        A = c.rng.normal(size=(n, n))
        A = (A + A.T).astype(kind)
    elif kind == 'zeros':
        A = np.zeros((n, n))
    elif kind == 'huge':
        A = c.rng.normal(size=(n, n))
        A = (A + A.T) * 1e150
    elif kind == '?':
        A = c.rng.random((n, n)) < 0.5
        A = A | A.T
    else:
        A = c.rng.integers(0, 60, size=(n, n))
        A = (np.triu(A) + np.triu(A, 1).T).astype(kind)
    form = c.pick(['C', 'F', 'list', 'readonly', 'strided', 'tuple'])
    given = A
    if form == 'F':
        given = np.asfortranarray(A)
    elif form == 'list':
        given = A.tolist()
    elif form == 'tuple':
        given = tuple(map(tuple, A.tolist()))
    elif form == 'readonly':
        given = A.copy()
        given.setflags(write=False)
    elif form == 'strided':
        big = np.zeros((2 * n, 2 * n), dtype=A.dtype)
        big[::2, ::2] = A
        given = big[::2, ::2]
    return A, given, kind, form


def _n(c):
    return c.size_of([1, 2, 3, c.randint(2, 12)], 2, 40)


@check.scenario(quick=4000, thorough=60000,
                required=['contents', 'indexed', 'bad_index', 'in_set'])
def precomputed(c):
    n = _n(c)
    A, given, kind, form = _symmetric(c, n)
    c.note(n=n, kind=kind, form=form, salt=c.case_seed)
    m = KernelMatrixPrecomputed(given, name=c.pick([None, 'pre', 7]))

    def contents(what):
        c.exact(m.full, A, 'full ' + what)
        c.exact(m.diag, np.diagonal(A), 'diag ' + what)
        c.ok(m.size == n and len(m) == n and m.num_samples == n,
             'size ' + what, m.size, len(m), m.num_samples)
        c.count('contents')

    contents('at first')
    for _ in range(4):
        i, j = c.randint(0, n - 1), c.randint(0, n - 1)
        c.exact(m[i, j], A[i, j], 'element')
        c.exact(m[i, :], A[i, :], 'row')
        c.exact(m[:, j], A[:, j], 'column')
        c.exact(m[:, :], A, 'all')
        rows = c.rng.integers(n, size=c.randint(1, 5))
        cols = c.rng.integers(n, size=c.randint(1, 5))
        c.exact(m[rows.tolist(), :], A[rows, :], 'rows')
        c.exact(m[np.ix_(rows, cols)], A[np.ix_(rows, cols)], 'submatrix')
        lo, hi = sorted((c.randint(0, n), c.randint(0, n)))
        c.exact(m[lo:hi, i:], A[lo:hi, i:], 'slices')
        c.exact(m[np.int32(i), np.int64(j)], A[i, j], 'numpy integers')
        c.count('indexed')
    for bad in ((n, 0), (0, n), (-n - 1, 0), (0, 0, 0), 'ab', ([0, n], 0), (0.5, 1),
                (0, 'x'), ('x', 0), [n], {}):
        c.raises(KMAccessError, lambda: m[bad], 'index {!r}'.format(bad))
        c.count('bad_index')
    contents('after use')
    ks = KernelSet([m])
    c.ok(ks.num_samples == n and ks[0] is m, 'in a set')
    c.exact(ks[0].full, A, 'in a set')
    if form not in ('list', 'tuple'):
        other = KernelSet([np.asarray(given)])
        c.exact(other[0].full, A, 'array added to a set')
    c.count('in_set')


def _spoil(c, n):
    """(matrix, why it is invalid)"""
    A = c.rng.normal(size=(n, n))
    A = A + A.T
    why = c.pick(['asym', 'asym', 'asym', 'shape', 'ndim', 'complex', 'wide', 'one_row',
                  'one_col', 'vector', 'scalar', '3d', 'asym_int'])
    if why in ('asym', 'asym_int'):
        if n < 2:
            n = 2
            A = np.eye(2)
        if why == 'asym_int':
            A = np.rint(A * 20).astype('i8')
        i, j = c.rng.choice(n, size=2, replace=False)
        A[i, j] += c.pick([1, -1, 3])
        return A, why
    if why in ('shape', 'wide'):
        k = c.randint(1, 4)
        return c.rng.normal(size=(n, n + k) if c.chance(0.5) else (n + k, n)), why
    if why == 'one_row':
        return np.full((1, n + 1), c.pick([0.0, 2.0])), why
    if why == 'one_col':
        return np.full((n + 1, 1), c.pick([0.0, 2.0])), why
    if why in ('ndim', '3d'):
        return c.pick([A[:, :, None], A[None], np.stack([A, A])]), why
    if why == 'vector':
        return np.ones(n), why
    if why == 'scalar':
        return c.pick([5.0, np.array(3.0)]), why
    B = A.astype(complex)
    i, j = c.randint(0, n - 1), c.randint(0, n - 1)
    B[i, j] += 1j * c.pick([1.0, -3.0, 1e-6, 1e-8, 1e-13, 1e-300])
    B[j, i] = B[i, j]
    return B, why


@check.scenario(quick=4000, thorough=60000, required=['refused'])
def invalid(c):
    n = _n(c)
    A, why = _spoil(c, n)
    c.note(n=n, why=why, salt=c.case_seed)
    given = A.tolist() if c.chance(0.3) and hasattr(A, 'tolist') else A
    c.raises(ValueError, lambda: KernelMatrixPrecomputed(given), why)
    if isinstance(given, np.ndarray) and given.ndim:
        c.raises(ValueError, lambda: KernelSet([given]), 'in a set: ' + why)
    c.count('refused')
    c.count(why)


def _selection(c, n):
    """(index of one dimension, number of distinct rows selected)"""
    kind = c.pick(['int', 'npint', 'slice', 'list', 'array', 'range', 'dups', 'all',
                   'tuple', 'step'])
    if kind == 'int':
        return c.randint(0, n - 1), 1
    if kind == 'npint':
        return c.pick([np.int8, np.int32, np.int64, np.uint8])(
            c.randint(0, min(n, 100) - 1)), 1
    if kind == 'slice':
        a = c.randint(0, n - 1)
        b = c.randint(a + 1, n)
        return slice(a, b), b - a
    if kind == 'step':
        sl = c.pick([slice(None, None, 2), slice(None, None, -1), slice(-1, None),
                     slice(0, 10 ** 6)])
        return sl, len(range(*sl.indices(n)))
    if kind == 'all':
        return slice(None), n
    idx = c.rng.integers(n, size=c.randint(1, 8))
    num = len(set(idx.tolist()))
    if kind == 'list':
        return idx.tolist(), num
    if kind == 'tuple':
        return tuple(idx.tolist()), num
    if kind == 'array':
        return idx.astype(c.pick(['i8', 'i4', 'u4'])), num
    if kind == 'dups':
        return idx.tolist() * 2, num
    a = c.randint(0, n - 1)
    return range(a, n), n - a


@check.scenario(quick=1500, thorough=20000, required=['several', 'mutated'])
def together(c):
    """many matrices alive at the same time: each keeps its own contents"""
    n = c.size_of([1, 2, 3, 5], 2, 12)
    made = []
    pool = [0, 0.0, -0.0, False, 1, 1.0, True, -1.0, -2.0, -1, -2, 0.5, np.float32(0.5),
            2, 3.0, np.int8(3), float(2 ** 40), 1e-300, np.inf, np.nan]
    for _ in range(c.randint(2, 8)):
        if c.chance(0.75):
            value = c.pick(pool)
            kw = {}
            dtype = 'f8'
            if c.chance(0.4) and np.isfinite(value) and abs(value) < 100 and value >= 0:
                dtype = c.pick(['f4', 'i8', 'i2', '?', 'f8', 'float'])
                kw['dtype'] = dtype
            size = c.pick([n, n, n, n + 1])
            if c.chance(0.3):
                kw['name'] = 'same name'
            want = np.full((size, size), np.array(value).astype(dtype))
            m = ConstantKernelMatrix(size, value=value, **kw)
            what = 'constant {!r} of {}'.format(value, kw)
        else:
            A, given, kind, form = _symmetric(c, n)
            m = KernelMatrixPrecomputed(given, name='same name')
            want, what = np.array(A), 'precomputed {} {}'.format(kind, form)
        made.append((m, want, what))
        if c.chance(0.5):
            c.exact(m.full, want, what + ', when made')
    c.note(n=n, made=[w for _, _, w in made], salt=c.case_seed)
    for i in c.rng.permutation(len(made)).tolist() * 2:
        m, want, what = made[i]
        full = np.asarray(m.full)
        c.exact(full, want, what + ' among others')
        c.ok(full.dtype == want.dtype or 'list' in what or 'tuple' in what,
             what + ': dtype', full.dtype)
        c.exact(m.diag, np.diagonal(want), what + ' among others: diagonal')
        r, k = c.randint(0, len(want) - 1), c.randint(0, len(want) - 1)
        c.exact(np.asarray(m[r, k]).ravel(), want[r, k].ravel(), what + ': one element')
        c.count('several')
    # what a caller does with an array it was given stays with that caller
    m, want, what = made[c.randint(0, len(made) - 1)]
    if 'constant' in what:
        for got in (m[:, :], m[0, :]):
            try:
                got[...] = 7
            except ValueError:
                pass
        c.count('mutated')
    for m, want, what in made:
        c.exact(m[:, :], want, what + ' at the end')


@check.scenario(quick=5000, thorough=80000, required=['contents', 'selected', 'refused'])
def constant(c):
    n = _n(c)
    value = c.pick([0.0, 1.0, -1.0, -2.0, -2.5, 3, 1e300, True, np.float32(0.5), np.inf, np.nan])
    kwargs = {}
    if c.chance(0.8):
        kwargs['value'] = value
    else:
        value = 0.0
    dtype = 'f8'
    if c.chance(0.4) and np.isfinite(value) and abs(value) < 100:
        dtype = c.pick(['float', 'f4', 'int', 'f8', float, np.float32, 'i2', '?'])
        kwargs['dtype'] = dtype
    if c.chance(0.3):
        kwargs['name'] = c.pick([None, 'const'])
    m = ConstantKernelMatrix(n, **kwargs)
    want = np.array(value).astype(dtype)
    c.note(n=n, kwargs=kwargs, salt=c.case_seed)

    def exactly(got, shape, what):
        c.exact(got, np.full(shape, want), what)
        c.ok(np.asarray(got).dtype == np.dtype(dtype), what + ': dtype', got)

    def contents(what):
        exactly(m.full, (n, n), 'full ' + what)
        exactly(m.diag, (n,), 'diag ' + what)
        c.ok(m.size == n and len(m) == n and m.num_samples == n
             and tuple(m.shape) == (n, n), 'size ' + what, m.size, len(m), m.shape)
        c.count('contents')

    if c.chance(0.6):
        contents('at first')
    for _ in range(6):
        (r, nr), (k, nk) = _selection(c, n), _selection(c, n)
        index = c.pick([(r, k), [r, k]])
        exactly(m[index], (nr, nk), 'selection {!r}'.format(index))
        c.count('selected')
    for bad in c.rng.permutation(np.array([
            'out', 'out2', 'neg', 'empty', 'emptyslice', 'str', 'none', 'one', 'three',
            'text', 'nonint', 'float', 'dict', 'list_out', 'single', 'beyond', 'zero_dim',
            'zero_dim2', 'zero_dim3'])).tolist()[:8]:
        index = {'out': (n, 0), 'out2': (0, n), 'neg': (-1, 0), 'empty': ([], 0),
                 'emptyslice': (0, slice(0, 0)), 'str': 'ab', 'none': None, 'one': (0,),
                 'three': (0, 0, 0), 'text': ('a', 0), 'nonint': (0, ['x']),
                 'float': (0.5, 0), 'dict': (0, None), 'list_out': ([0, n], 0),
                 'single': 0, 'beyond': (slice(n, n + 5), 0), 'zero_dim': np.array(0),
                 'zero_dim2': (np.array(n), 0), 'zero_dim3': (np.array('0'), 0)}[bad]
        if c.chance(0.3) and isinstance(index, tuple) and len(index) == 2:
            index = index[::-1]
        c.raises(KMAccessError, lambda: m[index], 'index {!r}'.format(index))
        c.count('refused')
    contents('after use')
