"""C09: kernel functions compute their documented formulas and are symmetric."""
import functools
import math

import numpy as np
from kernelmethods.base import KernelFromCallable
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.numeric_kernels import (DEFINED_KERNEL_FUNCS, Chi2Kernel,
                                           GaussianKernel, HadamardKernel,
                                           LaplacianKernel, LinearKernel, PolyKernel,
                                           SigmoidKernel)

from kmv import gen
from kmv.core import Check

check = Check(
    'C09', 'exploration',
    'random vectors (length, dtype, list/array form, memory layout, special values) and '
    'parameters; values compared with the documented formula evaluated in exactly '
    'rounded arithmetic, within a rounding bound derived from the terms; distinct by '
    'kernel, parameters, dtypes and length',
    ['finite data; 64-bit integers below 2**40; float32 data small enough not to '
     'overflow in float32; half precision not covered'])

NUM_DTYPES = ('f8', 'f8', 'f4', '>f8', 'i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4', 'u8',
              '?', '>i4')


def vector(c, d, dtype, nonneg=False, positive=False):
    """A vector covering the range of the dtype"""
    rng, dt = c.rng, np.dtype(dtype)
    if dt.kind == 'b':
        v = rng.random(d) < 0.5
        return np.ones(d, bool) if positive else v
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        hi = min(int(info.max), 2 ** 40)
        lo = max(int(info.min), -2 ** 40)
        how = c.pick(['full', 'small', 'edge', 'zeros'])
        if how == 'full':
            v = rng.integers(lo, hi, size=d, endpoint=True)
        elif how == 'small':
            v = rng.integers(max(lo, -5), 6, size=d)
        elif how == 'edge':
            v = rng.choice(np.array([lo, hi, 0, 1], dtype='i8'), size=d)
        else:
            v = rng.integers(0, 4, size=d) * (rng.random(d) < 0.4)
        if nonneg or positive:
            v = np.abs(v)
            v = np.minimum(v, hi)
        if positive:
            v = np.maximum(v, 1)
        return v.astype(dt)
    how = c.pick(['normal', 'uniform', 'sparse', 'big', 'tiny', 'ints', 'mixed'])
    v = rng.normal(size=d)
    if how == 'uniform':
        v = rng.random(d)
    elif how == 'sparse':
        v = v * (rng.random(d) < 0.4)
    elif how == 'big':
        v = v * (20.0 if dt.itemsize == 4 else 1e4)
    elif how == 'tiny':
        # single precision would underflow in powers of the values
        v = v * (1e-3 if dt.itemsize == 4 or c.chance(0.5)
                 else 10.0 ** -c.randint(6, 20))
    elif how == 'ints':
        v = np.rint(v * 3)
    elif how == 'mixed':
        v = v * 10.0 ** rng.integers(-3, 2, size=d)
    if nonneg or positive:
        v = np.abs(v)
    if positive:
        v = v + 0.05
    return v.astype(dt)


def form(c, v):
    """The same numbers in another guise"""
    how = c.pick(['array', 'array', 'list', 'tuple', 'strided', 'reversed', 'readonly',
                  'column'])
    if how == 'list':
        return v.tolist(), how
    if how == 'tuple':
        return tuple(v.tolist()), how
    if how == 'strided':
        big = np.zeros((len(v), 3), dtype=v.dtype)
        big[:, 1] = v
        return big[:, 1], how
    if how == 'reversed':
        return np.ascontiguousarray(v[::-1])[::-1], how
    if how == 'readonly':
        v = v.copy()
        v.setflags(write=False)
        return v, how
    if how == 'column':
        return v.reshape(-1, 1), how
    return v, how


def _eps(x, y, how):
    """unit roundoff of the precision the formula is entitled to"""
    single = ('f4' if x.dtype == np.float32 and how[0] not in ('list', 'tuple') else '',
              'f4' if y.dtype == np.float32 and how[1] not in ('list', 'tuple') else '')
    return 2.4e-7 if 'f4' in single else 4.5e-16


def exact_dot(x, y):
    from fractions import Fraction
    prods = [Fraction(a) * Fraction(b) for a, b in zip(x, y)]
    return float(sum(prods)), float(sum(abs(p) for p in prods))


def evaluate(c, name):
    """Draws parameters and vectors; returns kernel, x, y, value, bound"""
    d = c.dim(1, 30) if c.heavy else c.pick([1, 1, 2, 3, 5, 10, 33, c.randint(1, 30)])
    nonneg = name == 'chi2'
    dx = c.pick(NUM_DTYPES)
    dy = dx if c.chance(0.6) else c.pick(NUM_DTYPES)
    alpha = None
    if name == 'hadamard':
        alpha = c.pick([1, 2, 3, 0.5, 1.5, -1, -0.5])
    x = vector(c, d, dx, nonneg=nonneg, positive=alpha is not None and alpha < 0)
    y = vector(c, d, dy, nonneg=nonneg, positive=alpha is not None and alpha < 0)
    if c.chance(0.15) and dx == dy:
        y = x.copy()
    xs, ys = [v.item() for v in x], [v.item() for v in y]
    fx, hx = form(c, x)
    fy, hy = form(c, y)
    if dx == dy and xs == ys and c.chance(0.5):
        fy, hy = fx, hx  # the same object
        c.count('same_object')
    eps = _eps(x, y, (hx, hy))
    rel = (d + 16) * eps
    kw = {}
    # expert mode: the caller guarantees floating point arrays
    if x.dtype.kind == 'f' and y.dtype.kind == 'f' and isinstance(fx, np.ndarray) \
            and isinstance(fy, np.ndarray) and fx.ndim == fy.ndim == 1 and c.chance(.3):
        kw['skip_input_checks'] = True
    if name == 'linear':
        k = LinearKernel(**kw)
        val, size = exact_dot(xs, ys)
        bound = rel * size
    elif name == 'poly':
        big = max(max(abs(float(v)) for v in xs), max(abs(float(v)) for v in ys), 1.0)
        degree = c.pick([1, 2, 3, 4, 5, 6])
        gamma = float(c.pick([1.0, 0.5, 2.0, 0.01, -1.0, 1e-3]))
        b = float(c.pick([0.0, 1.0, 0.5, -2.0, 10.0]))
        if eps > 1e-10:
            # staying within the range of single precision
            while degree > 1 and degree * math.log10(10 + 2 * d * big * big) > 35:
                degree -= 1
        if c.chance(0.2) and b == 1.0 and gamma == 1.0:
            k = PolyKernel(degree, **kw)
        else:
            k = PolyKernel(degree=degree, gamma=gamma, b=b, **kw)
        dot, size = exact_dot(xs, ys)
        s = b + gamma * dot
        err = rel * (abs(b) + abs(gamma) * size)
        val = s ** degree
        bound = degree * (abs(s) + err) ** (degree - 1) * err + 8 * eps * abs(val)
    elif name == 'gauss':
        sigma = float(c.pick([2.0 ** c.randint(-8, 12), c.rng.uniform(0.05, 20)]))
        k = GaussianKernel(sigma=sigma, **kw)
        sq = math.fsum((float(a) - float(b)) ** 2 for a, b in zip(xs, ys))
        t = sq / (2 * sigma ** 2)
        val = math.exp(-t)
        bound = (3 * rel * t + 8 * eps) * val
    elif name == 'laplace':
        gamma = float(c.pick([2.0 ** c.randint(-12, 4), c.rng.uniform(0, 3), 0.0]))
        k = LaplacianKernel(gamma=gamma, **kw)
        t = gamma * math.fsum(abs(float(a) - float(b)) for a, b in zip(xs, ys))
        val = math.exp(-t)
        bound = (2 * rel * t + 8 * eps) * val
    elif name == 'chi2':
        gamma = float(c.pick([2.0 ** c.randint(-12, 4), c.rng.uniform(0, 3), 0.0]))
        k = Chi2Kernel(gamma=gamma, **kw)
        t = gamma * math.fsum((float(a) - float(b)) ** 2 / (float(a) + float(b))
                              for a, b in zip(xs, ys) if float(a) + float(b) > 0)
        val = math.exp(-t)
        bound = (3 * rel * t + 8 * eps) * val
    elif name == 'sigmoid':
        gamma = float(c.pick([1.0, 0.1, 0.01, 2.0, -0.5]))
        offset = float(c.pick([1.0, 0.0, -2.0, 0.5]))
        k = SigmoidKernel(gamma=gamma, offset=offset, **kw)
        dot, size = exact_dot(xs, ys)
        u = offset + gamma * dot
        err = rel * (abs(offset) + abs(gamma) * size)
        val = math.tanh(u)
        bound = max(math.tanh(u + err) - val, val - math.tanh(u - err)) + 8 * eps
    else:
        k = HadamardKernel(alpha=alpha, **kw)
        terms = []
        for a, b in zip(xs, ys):
            pa = abs(float(a)) ** alpha if a or alpha > 0 else 0.0
            pb = abs(float(b)) ** alpha if b or alpha > 0 else 0.0
            if pa + pb > 0:
                terms.append(pa * pb / (2 * (pa + pb)))
        val = math.fsum(terms)
        bound = (rel + 16 * eps) * val * 4
    c.note(kernel=str(k), x=(dx, hx, d), y=(dy, hy), kw=str(kw), salt=c.case_seed)
    return k, fx, fy, val, bound + (1e-36 if eps > 1e-10 else 1e-300)


NAMES = ('linear', 'poly', 'gauss', 'laplace', 'chi2', 'sigmoid', 'hadamard')


@check.scenario(quick=30000, thorough=400000,
                required=['compared_' + n for n in NAMES] + ['swapped'])
def formulas(c):
    name = NAMES[c.index % len(NAMES)]
    k, x, y, val, bound = evaluate(c, name)
    if not math.isfinite(val):
        c.ok(True, 'overflow of the formula itself')
        return
    got = k(x, y)
    c.ok(np.ndim(got) == 0, 'kernel value is not a scalar', got)
    c.ok(math.isfinite(float(got)) and abs(float(got) - val) <= bound,
         '{}: {!r} instead of {!r} (allowed error {:.3g})'.format(k, got, val, bound),
         x, y)
    c.count('compared_' + name)
    back = k(y, x)
    c.ok(abs(float(back) - float(got)) <= 2 * bound,
         '{} is not symmetric: {!r} {!r}'.format(k, got, back), x, y)
    c.count('swapped')


@check.scenario(quick=4000, thorough=40000, required=['perc', 'count', 'matches'])
def match_count(c):
    d = c.dim(1, 30) if c.heavy else c.pick([1, 1, 2, 3, 8, 20, c.randint(1, 30)])
    x = c.rng.choice(gen.CATEGORIES, size=d)
    y = np.where(c.rng.random(d) < 0.4, x, c.rng.choice(gen.CATEGORIES, size=d))
    perc = c.chance(0.5)
    k = MatchCountKernel(return_perc=perc) if c.chance(0.7) or not perc \
        else MatchCountKernel()
    forms = []
    for v in (x, y):
        how = c.pick(['array', 'list', 'tuple', 'wide', 'strided', 'readonly'])
        forms.append({'array': lambda: v, 'list': v.tolist, 'tuple': lambda: tuple(
            v.tolist()), 'wide': lambda: v.astype('U200'),
            'strided': lambda: np.repeat(v, 2)[::2],
            'readonly': lambda: gen.lay_out(c.rng, v, 'readonly')}[how]())
    c.note(x=x.tolist(), y=y.tolist(), perc=perc)
    num = sum(a == b for a, b in zip(x.tolist(), y.tolist()))
    want = num / d if perc else num
    c.count('perc' if perc else 'count')
    c.count('matches', num)
    c.same(k(*forms), want, 'match count kernel', rtol=1e-12)
    c.same(k(*forms[::-1]), want, 'match count kernel, swapped', rtol=1e-12)


def _plain(x, y):
    return ('called', tuple(x), tuple(y))


def _with_params(x, y, gamma=1.0, offset=0.0):
    return float(np.dot(x, y)) * gamma + offset


class _CallableObject(object):
    def __init__(self, scale):
        self.scale = scale

    def __call__(self, x, y, power=1):
        return self.scale * float(np.sum(x) - np.sum(y)) ** power


@check.scenario(quick=2000, thorough=20000, required=['callables'])
def callables(c):
    """KernelFromCallable returns exactly what the callable returns"""
    d = c.dim(1, 6)
    x, y = c.rng.normal(size=(2, d))
    kind = c.pick(['plain', 'params', 'object', 'lambda', 'partial', 'method', 'some'])
    g, o = float(c.rng.normal()), float(c.rng.normal())
    if kind == 'plain':
        k, want = KernelFromCallable(_plain), _plain(x, y)
    elif kind == 'params':
        k = KernelFromCallable(_with_params, name='p', gamma=g, offset=o)
        want = _with_params(x, y, gamma=g, offset=o)
    elif kind == 'some':
        k = KernelFromCallable(_with_params, offset=o)
        want = _with_params(x, y, offset=o)
    elif kind == 'object':
        obj = _CallableObject(g)
        k, want = KernelFromCallable(obj, name='obj', power=3), obj(x, y, power=3)
    elif kind == 'lambda':
        k, want = KernelFromCallable(lambda a, b: a[0] - 2 * b[-1]), x[0] - 2 * y[-1]
    elif kind == 'partial':
        f = functools.partial(_with_params, gamma=g)
        k, want = KernelFromCallable(f, name='part'), f(x, y)
    else:
        obj = _CallableObject(o)
        k, want = KernelFromCallable(obj.__call__), obj(x, y)
    c.note(kind=kind, d=d, salt=c.case_seed)
    got = k(x, y)
    c.ok(type(got) is type(want) and got == want, 'not what the callable returns', got,
         want)
    # a second kernel on the same callable does not interfere
    other = KernelFromCallable(_with_params, gamma=g + 1)
    c.ok(other(x, y) == _with_params(x, y, gamma=g + 1), 'second kernel')
    again = k(x, y)
    c.ok(again == want, 'second call differs', again, want)
    c.count('callables')


@check.scenario(quick=500, thorough=3000, required=['defaults'])
def defaults(c):
    """default-constructed kernels use the documented default parameters"""
    d = c.dim(1, 8)
    x, y = np.abs(c.rng.normal(size=(2, d)))
    c.note(d=d, salt=c.case_seed)
    sq = float(((x - y) ** 2).sum())
    want = {'linear': float(x @ y), 'polynomial': (1 + float(x @ y)) ** 3,
            'gaussian': math.exp(-sq / 8),
            'laplacian': math.exp(-float(np.abs(x - y).sum())),
            'chi2': math.exp(-float(((x - y) ** 2 / (x + y)).sum())),
            'sigmoid': math.tanh(1 + float(x @ y)),
            'Hadamard': float((x ** 3 * y ** 3 / (2 * (x ** 3 + y ** 3))).sum())}
    for k in (LinearKernel(), PolyKernel(), GaussianKernel(), LaplacianKernel(),
              Chi2Kernel(), SigmoidKernel(), HadamardKernel()) + DEFINED_KERNEL_FUNCS:
        c.same(k(x, y), want[k.name], 'default {}'.format(k), rtol=1e-10)
        c.count('defaults')
