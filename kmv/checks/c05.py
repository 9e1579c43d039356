"""C05: indexing selects exactly the requested entries or is refused."""
import numpy as np
from kernelmethods.base import KernelMatrix
from kernelmethods.config import KMAccessError

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C05', 'exploration',
    'random valid and invalid index expressions of all kinds against a reference model '
    'of the selection, on tagged matrices (each entry identifies its rows) in which '
    'nothing, some or everything was computed before; distinct by shape and expression',
    ['index iterables of Python or numpy integers; expressions that are neither clearly '
     'valid nor clearly invalid (bytes, one-shot iterators as the pair) are not used'])

INT_TYPES = (int, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16,
             np.uint32, np.uint64, np.intp)


def _int(c, i):
    """i in some type that can hold it"""
    return c.pick([t for t in INT_TYPES if t is int or i <= np.iinfo(t).max])(i)


def valid_dim(c, n):
    """A valid index for a dimension of size n: (expression, selected indices)"""
    kind = c.pick(['int', 'slice', 'slice', 'iter', 'iter', 'all', 'dup'])
    if kind == 'int':
        i = c.randint(0, n - 1)
        if c.chance(0.1):
            return np.array(i), [i]
        return _int(c, i), [i]
    if kind == 'all':
        how = c.pick(['slice', 'range', 'list', 'rev'])
        if how == 'slice':
            return slice(None), list(range(n))
        if how == 'range':
            return range(n), list(range(n))
        if how == 'rev':
            return slice(None, None, -1), list(range(n))
        perm = c.rng.permutation(n).tolist()
        return perm, list(range(n))
    if kind == 'slice':
        for _ in range(50):
            def end():
                return None if c.chance(0.3) else c.randint(-n - 2, n + 2)
            step = c.pick([None, 1, 2, 3, -1, -2, n, -n])
            sl = slice(end(), end(), step)
            sel = list(range(n))[sl]
            if sel:
                return sl, sorted(sel)
        return slice(0, 1), [0]
    num = c.randint(1, min(n, 5 if c.chance(0.8) else 40))
    sel = c.rng.integers(n, size=num).tolist()
    if kind == 'dup':
        sel = sel + sel[:2]
        c.rng.shuffle(sel)
    how = c.pick(['list', 'tuple', 'array', 'set', 'generator', 'npints', 'range',
                  'frozenset', 'dictkeys'])
    want = sorted(set(sel))
    if how == 'list':
        return list(sel), want
    if how == 'tuple':
        return tuple(sel), want
    if how == 'array':
        return np.array(sel, dtype=c.pick(['i4', 'i8', 'u1' if n < 256 else 'u2', 'u4',
                                           'i2'])), want
    if how == 'set':
        return set(sel), want
    if how == 'frozenset':
        return frozenset(sel), want
    if how == 'dictkeys':
        return dict.fromkeys(sel).keys(), want
    if how == 'generator':
        return (i for i in sel), want
    if how == 'npints':
        return [_int(c, i) for i in sel], want
    lo = c.randint(0, n - 1)
    rg = range(lo, n, c.randint(1, 3))
    return rg, list(rg)


BAD_SCALARS = (0.0, 1.0, -0.5, True, False, np.bool_(True), 'a', '0', '', None,
               float('nan'), float('inf'), -float('inf'), np.float64(0), np.float32(1),
               1j, object(), Ellipsis, np.nan)


def invalid_dim(c, n):
    kind = c.pick(['scalar', 'neg', 'big', 'list_scalar', 'list_neg', 'list_big',
                   'empty', 'empty_slice', 'mask', 'nested', 'float_array', 'zero_dim'])
    if kind == 'scalar':
        return c.pick(BAD_SCALARS)
    if kind == 'neg':
        return c.pick([-1, -n, -n - 1, np.int64(-1), np.int8(-1)])
    if kind == 'big':
        return c.pick([n, n + 1, 10 * n, np.int64(n), np.uint16(n), 10 ** 9])
    good = c.rng.integers(n, size=c.randint(0, 3)).tolist()
    pos = c.randint(0, len(good))
    if kind == 'list_scalar':
        good.insert(pos, c.pick(BAD_SCALARS))
        return good
    if kind == 'list_neg':
        good.insert(pos, c.pick([-1, -n]))
        return c.pick([list, tuple, np.array])(good)
    if kind == 'list_big':
        good.insert(pos, c.pick([n, n + 5]))
        return c.pick([list, tuple, np.array])(good)
    if kind == 'empty':
        return c.pick([[], (), set(), np.array([], dtype=int), range(0), {}])
    if kind == 'empty_slice':
        return c.pick([slice(n, None), slice(0, 0), slice(2, 1), slice(n + 3, n + 9),
                       slice(0, None, -1) if n == 0 else slice(1, 1)])
    if kind == 'mask':
        return c.pick([[True] * n, np.ones(n, dtype=bool), [False] * n])
    if kind == 'nested':
        return c.pick([[[0]], np.zeros((1, 1), dtype=int), [(0,)],
                       np.zeros((2, 2), dtype=int), np.zeros((n, 1), dtype=int),
                       np.zeros((1, n), dtype=int), [np.array([0])], [[0], [0]]])
    if kind == 'zero_dim':
        return c.pick([np.array(n), np.array(-1), np.array(0.0), np.array(True),
                       np.array('0'), np.array(None), np.array(np.nan)])
    return np.arange(n, dtype='f8')


def invalid_whole(c, shape):
    n1, n2 = shape
    return c.pick([(), (0,), (0, 0, 0), ([0], [0], [0]), 'ab', '01', 'a', '', None, 1.5,
                   0.0, slice(None), slice(0, 1), Ellipsis, True, False, [0],
                   [0, 0, 0], np.array([0]), np.arange(3), {0}, float('nan'),
                   (slice(None), slice(None), slice(None)), np.bool_(False), object(),
                   np.array(1.5), np.array('ab'), np.array(None), np.array(True)])


def _show(idx):
    return repr(idx)


def _setup(c):
    two = c.chance(0.5)
    normed = c.chance(0.3)
    tag = gen.Tagged(c, symmetric=not two)
    k = gen.RecordingKernel(tag)
    n1, n2 = gen.two_sizes(c, c.pick([4, 9, 20]))
    X, Y = tag.rows(n1), tag.rows(n2) if two else None
    km = KernelMatrix(k, normalized=normed)
    ref.attach(km, X, Y)
    model = ref.Model(tag.matrix(X, Y), normed, tag.diag(X),
                      tag.diag(Y) if two else None, two=two)
    state = c.pick(['nothing', 'some', 'full', 'sparse'])
    views = ref.Views(c)
    if state == 'some':
        for _ in range(3):
            views.check(km, model, 'sub')
    elif state == 'full':
        views.check(km, model, 'full')
    elif state == 'sparse':
        views.check(km, model, 'sparse')
    c.note(two=two, normed=normed, shape=model.shape, state=state)
    return km, model, k


@check.scenario(quick=8000, thorough=120000,
                required=['selected', 'transposed_reads', 'linear'])
def valid_indices(c):
    km, model, k = _setup(c)
    n1, n2 = model.shape
    shown = []
    for _ in range(4):
        rows, want_rows = valid_dim(c, n1)
        cols, want_cols = valid_dim(c, n2)
        text = '[{}, {}]'.format(_show(rows), _show(cols))
        idx = c.pick([tuple, tuple, list])((rows, cols))
        shown.append((str(type(rows).__name__), want_rows, str(type(cols).__name__),
                      want_cols))
        c.log(text)
        got = km[idx]
        want = model.K[np.ix_(want_rows, want_cols)]
        c.ok(isinstance(got, np.ndarray) and got.ndim == 2,
             text + ' is not a 2-D array', got)
        c.exact(got, want, 'km' + text)
        c.count('selected', want.size)
        if not model.two and not isinstance(rows, type(x for x in ())) \
                and not isinstance(cols, type(x for x in ())):
            c.exact(km[cols, rows], want.T, 'km with swapped ' + text)
            c.count('transposed_reads')
    for lin in set([0, n1 * n2 - 1, c.randint(0, n1 * n2 - 1)]):
        lin = c.pick(INT_TYPES[:1] + INT_TYPES[3:5])(lin)
        c.exact(km[lin], model.K.ravel()[int(lin)].reshape(1, 1),
                'km[{!r}] of shape {}'.format(lin, model.shape))
        c.count('linear')
    lin = c.randint(0, n1 * n2 - 1)
    c.exact(km[np.array(lin)], model.K.ravel()[lin].reshape(1, 1), 'km[array({})]'.format(lin))
    c.note(idx=shown)


@check.scenario(quick=8000, thorough=120000, required=['refused', 'after_refusal'])
def invalid_indices(c):
    km, model, k = _setup(c)
    n1, n2 = model.shape
    shown = []
    for _ in range(4):
        before = len(k.calls)
        if c.chance(0.3):
            idx = invalid_whole(c, model.shape)
            if c.chance(0.1):
                idx = c.pick([n1 * n2, -1, n1 * n2 + 7])
        else:
            bad = invalid_dim(c, n1), invalid_dim(c, n2)
            which = c.randint(0, 2)
            idx = (bad[0] if which in (0, 2) else valid_dim(c, n1)[0],
                   bad[1] if which in (1, 2) else valid_dim(c, n2)[0])
        shown.append(_show(idx)[:60])
        kinds = (KMAccessError, ValueError) if isinstance(idx, int) and not isinstance(
            idx, bool) else KMAccessError
        c.raises(kinds, lambda: km[idx], 'km[{}]'.format(_show(idx)))
        c.ok(len(k.calls) == before, 'a refused index evaluated the kernel')
        c.count('refused')
    c.note(idx=shown)
    views = ref.Views(c)
    for name in ('sub', 'elem', 'all', 'full'):
        views.check(km, model, name, where=' after refused indices')
        c.count('after_refusal')


def _int_grid():
    out = []
    for n1, n2, two in ((1, 1, False), (2, 2, False), (4, 4, False), (2, 3, True),
                        (3, 2, True), (1, 4, True), (4, 1, True), (3, 3, True)):
        for r in range(-n1 - 1, n1 + 2):
            for s in range(-n2 - 1, n2 + 2):
                out.append((n1, n2, two, r, s))
    return out


GRID = _int_grid()


@check.scenario(quick=len(GRID), thorough=len(GRID), required=['accepted', 'refused'])
def small_grid(c):
    """every pair of small integers, and slices ending there, on small matrices"""
    n1, n2, two, r, s = GRID[c.index]
    c.note(case=GRID[c.index])
    tag = gen.Tagged(c, symmetric=not two)
    k = gen.RecordingKernel(tag)
    X, Y = tag.rows(n1), tag.rows(n2) if two else None
    km = KernelMatrix(k, normalized=False)
    ref.attach(km, X, Y)
    K = tag.matrix(X, Y)
    if 0 <= r < n1 and 0 <= s < n2:
        c.exact(km[r, s], K[r:r + 1, s:s + 1], 'km[{}, {}]'.format(r, s))
        c.count('accepted')
    else:
        c.raises(KMAccessError, lambda: km[r, s], 'km[{}, {}]'.format(r, s))
        c.count('refused')
    for sl1, sl2 in ((slice(r, None), slice(s, None)), (slice(None, r), slice(None, s)),
                     (slice(r, None, -1), slice(None, s, -1)),
                     (slice(r, s), slice(s, r)), (slice(r, None), slice(None, s, 2))):
        want = K[sl1, sl2]
        if want.size:
            rows = sorted(range(n1)[sl1])
            cols = sorted(range(n2)[sl2])
            c.exact(km[sl1, sl2], K[np.ix_(rows, cols)], 'km[{}, {}]'.format(sl1, sl2))
            c.count('accepted')
        else:
            c.raises(KMAccessError, lambda: km[sl1, sl2], 'km[{}, {}]'.format(sl1, sl2))
            c.count('refused')


@check.scenario(quick=1500, thorough=20000, required=['refused', 'after_refusal'])
def odd_indices(c):
    """objects that are no index expression at all are refused as well, in one way or
    another, and change nothing"""
    km, model, k = _setup(c)
    n1, n2 = model.shape
    bad_slice = c.pick([slice(None, None, 0), slice('a', None), slice(0.5, 1.5),
                        slice(None, 'b'), slice(None, None, 1.5), slice([0], [1]),
                        slice(None, np.nan)])
    good = valid_dim(c, n1)[0], valid_dim(c, n2)[0]
    shown = []
    for idx in ((bad_slice, good[1]), (good[0], bad_slice), (bad_slice, bad_slice),
                c.pick([{0: 0}, frozenset([0]), {'a', 'b'}, iter(()), 10 ** 30, -10 ** 30,
                        np.datetime64('2020-01-01'), b'',
                        np.array(1.5), np.array('a'), np.zeros((2, 0)), int, len,
                        Exception(), 2 ** 63, 2 ** 64, (None, None), ({}, {}),
                        (object(), 0), (b'', 0), (int, int), ([None], 0),
                        ([0, 'a'], [0]), ([{}], 0), (np.array([None]), 0),
                        (np.datetime64('2020-01-01'), 0), (0, np.array(['a', 'b'])),
                        (np.array([1j]), 0)])):
        before = len(k.calls)
        shown.append(_show(idx)[:60])
        c.raises(Exception, lambda: km[idx], 'km[{}]'.format(_show(idx)))
        c.ok(len(k.calls) == before, 'a refused index evaluated the kernel', _show(idx))
        c.count('refused')
    c.note(idx=shown)
    views = ref.Views(c)
    for name in ('sub', 'elem', 'all', 'full'):
        views.check(km, model, name, where=' after refused indices')
        c.count('after_refusal')
