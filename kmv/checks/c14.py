"""C14: a KernelBucket holds exactly the requested kernels.

The monitor never asks a kernel for its parameters: it identifies each member by the
values it computes on probe vectors, and matches the multiset of members against the
multiset of requested formulas. Normalization is identified from the full matrix."""
import warnings

import numpy as np
from kernelmethods.base import BaseKernelFunction, KernelMatrix, KernelSet
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.config import KernelMethodsException, KernelMethodsWarning
from kernelmethods.numeric_kernels import (Chi2Kernel, GaussianKernel, HadamardKernel,
                                           LaplacianKernel, LinearKernel, PolyKernel,
                                           SigmoidKernel)
from kernelmethods.sampling import KernelBucket, make_kernel_bucket

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C14', 'exploration',
    'random parameter lists (with repeats, odd values, different containers) for every '
    'family and for add_parametrized_kernels, and the named strategies; members '
    'identified by the values they compute on probe vectors; distinct by request',
    ['kernels are added to buckets that are not attached to a sample yet'])

PROBES = np.array([[0.31, -0.12, 0.55], [-0.43, 0.26, 0.17], [0.21, 0.68, -0.37],
                   [0.11, 0.23, 0.19]])
POS = np.abs(PROBES) + 0.05


def f_linear(_=None):
    return lambda x, y: np.dot(x, y)


def f_poly(degree=3, gamma=1.0, b=1.0):
    return lambda x, y: (b + gamma * np.dot(x, y)) ** degree


def f_gauss(sigma=2.0):
    return lambda x, y: np.exp(-np.sum((x - y) ** 2) / (2 * sigma ** 2))


def f_laplace(gamma=1.0):
    return lambda x, y: np.exp(-gamma * np.sum(np.abs(x - y)))


def f_sigmoid(gamma=1.0, offset=1.0):
    return lambda x, y: np.tanh(offset + gamma * np.dot(x, y))


def f_chi2(gamma=1.0):
    return lambda x, y: np.exp(-gamma * np.sum((x - y) ** 2 / (x + y)))


def f_hadamard(alpha=3):
    def hada(x, y):
        ax, ay = np.abs(x) ** alpha, np.abs(y) ** alpha
        return np.sum(ax * ay / (2 * (ax + ay)))
    return hada


def signature(kernel):
    """values on the probe vectors"""
    with np.errstate(all='ignore'):
        return np.array([kernel(x, y) for x in POS for y in POS]
                        + [kernel(x, y) for x in POS * 2 for y in POS], 'f8')


def _match(c, members, formulas, what):
    """the members compute exactly these formulas, in any order"""
    c.ok(len(members) == len(formulas),
         '{}: {} kernels instead of {}'.format(what, len(members), len(formulas)),
         [str(m) for m in members], [f[0] for f in formulas])
    left = [(name, signature(f)) for name, f in formulas]
    for m in members:
        sig = signature(m.kernel)
        for i, (name, want) in enumerate(left):
            if np.allclose(sig, want, rtol=1e-9, atol=1e-12, equal_nan=True):
                del left[i]
                break
        else:
            c.fail('{}: member {} computes none of the remaining requested formulas'
                   ''.format(what, m), [name for name, _ in left])
    c.checks += 1


def _normalization(c, members, normalized, what):
    """identified by behaviour on a sample. Members are attached one by one."""
    for m in members:
        K = ref.gram(m.kernel, POS)
        if np.diag(K).min() < 1e-6 or not np.isfinite(K).all():
            continue
        N = ref.cosine(K, np.diag(K), np.diag(K))
        if np.allclose(K, N, rtol=1e-6):
            continue
        km = m
        km.attach_to(POS)
        c.same(km.full, N if normalized else K,
               '{}: normalization of {}'.format(what, m), rtol=1e-9, atol=1e-12)
        c.count('normalization_seen')


def _values(c, kind):
    if kind == 'degree':
        pool = [1, 2, 3, 4, 5, 7]
    elif kind == 'offset':
        pool = [-2, -1, 0, 0.5, 1, 2]
    else:
        pool = [2.0 ** e for e in range(-6, 7)] + [0.3, 1.7, 3]
    vals = [c.pick(pool) for _ in range(c.few(1, 5))]
    form = c.pick(['list', 'tuple', 'array', 'list'])
    if form == 'tuple':
        return tuple(vals), vals
    if form == 'array':
        return np.array(vals), [v.item() for v in np.array(vals)]
    return vals, vals


FAMILIES = [('poly_degree_values', 'degree', lambda v: ('poly degree=%r' % v,
                                                        f_poly(degree=v))),
            ('rbf_sigma_values', 'sigma', lambda v: ('gauss sigma=%r' % v,
                                                     f_gauss(sigma=v))),
            ('laplace_gamma_values', 'gamma', lambda v: ('laplace gamma=%r' % v,
                                                         f_laplace(gamma=v))),
            ('sigmoid_gamma_values', 'gamma', lambda v: ('sigmoid gamma=%r' % v,
                                                         f_sigmoid(gamma=v))),
            ('sigmoid_offset_values', 'offset', lambda v: ('sigmoid offset=%r' % v,
                                                           f_sigmoid(offset=v)))]


@check.scenario(quick=1500, thorough=30000,
                required=['none_family', 'normalization_seen', 'added_later',
                          'default_family'])
def buckets(c):
    kwargs, formulas = {}, [('linear', f_linear())]
    for arg, kind, make in FAMILIES:
        how = c.pick(['none', 'given', 'given', 'given', 'given', 'default'])
        if how == 'none':
            kwargs[arg] = None
            c.count('none_family')
        elif how == 'default':
            formulas += [make(v) for v in STRATEGIES['exhaustive'][arg]]
            c.count('default_family')
        else:
            vals, lst = _values(c, kind)
            kwargs[arg] = vals
            formulas += [make(v) for v in lst]
    normalized = c.chance(0.5)
    skip = c.chance(0.3)
    if not (normalized and c.chance(0.5)):
        kwargs['normalize_kernels'] = normalized
    if skip:
        kwargs['skip_input_checks'] = True
    if c.chance(0.5):
        kwargs['name'] = 'bucket%d' % c.randint(0, 99)
    c.note(request={k: repr(v) for k, v in kwargs.items()})
    kb = KernelBucket(**kwargs)
    members = list(kb)
    c.ok(kb.num_samples is None, 'a new bucket is not attached')
    c.ok(all(isinstance(m, KernelMatrix) for m in members), 'members')
    _match(c, members, formulas, 'bucket')
    if 'name' in kwargs:
        c.ok(kb.name == kwargs['name'], 'name', kb.name)
    if c.chance(0.6):
        add, added = _additional(c)
        for cls, param, vals in add:
            kb.add_parametrized_kernels(cls, param, vals)
        now = list(kb)
        c.ok(now[:len(members)] == members, 'earlier members stay, in order')
        _match(c, now[len(members):], added, 'added kernels')
        c.count('added_later')
        members = now
    # as a whole: attach, then every member sees the sample
    kb.attach_to(POS)
    c.ok(kb.num_samples == len(POS), 'attached')
    _normalization(c, members, normalized, 'bucket')


def _additional(c):
    """(calls, formulas)"""
    calls, formulas = [], []
    for _ in range(c.randint(1, 3)):
        cls, param, make, pool = c.pick([
            (PolyKernel, 'degree', f_poly, [1, 2, 3, 4]),
            (PolyKernel, 'gamma', f_poly, [0.5, 1.0, 2.0, 3]),
            (PolyKernel, 'b', f_poly, [0.0, 0.5, 2.0]),
            (GaussianKernel, 'sigma', f_gauss, [0.1, 1.0, 5]),
            (LaplacianKernel, 'gamma', f_laplace, [0.1, 1.0, 5]),
            (SigmoidKernel, 'gamma', f_sigmoid, [0.1, 1.0, 5]),
            (SigmoidKernel, 'offset', f_sigmoid, [-1.0, 0.0, 3]),
            (Chi2Kernel, 'gamma', f_chi2, [0.2, 1.0, 4.0]),
            (HadamardKernel, 'alpha', f_hadamard, [1, 2, 3]),
        ])
        vals = [c.pick(pool) for _ in range(c.few(1, 4))]
        calls.append((cls, param, c.pick([list, tuple, np.array])(vals)))
        formulas += [('%s %s=%r' % (cls.__name__, param, v), make(**{param: v}))
                     for v in vals]
    return calls, formulas


class PickyKernel(BaseKernelFunction):
    """rejects odd values, and some with unusual exceptions"""

    def __init__(self, value=0, skip_input_checks=False):
        super().__init__(name='picky')
        if value in (1, 3):
            raise ValueError('odd')
        if value == 5:
            raise KeyError('odd')
        if value == 7:
            raise RuntimeError('odd')
        self.value = value

    def __call__(self, x, y):
        return self.value + np.dot(x, y)

    def __str__(self):
        return 'picky({})'.format(self.value)


@check.scenario(quick=800, thorough=15000, required=['skipped', 'accepted', 'none_skipped',
                                                     'hadamard_zero'])
def rejected_values(c):
    kb = KernelBucket(poly_degree_values=None, rbf_sigma_values=None,
                      laplace_gamma_values=None, sigmoid_gamma_values=None,
                      sigmoid_offset_values=None, normalize_kernels=False)
    if c.chance(0.25):
        vals = [c.pick([0, 0.0, 1, 2, 3]) for _ in range(c.randint(1, 5))]
        cls, param = HadamardKernel, 'alpha'
        good = [v for v in vals if v != 0]
        formulas = [('hadamard', f_hadamard(v)) for v in good]
        c.count('hadamard_zero', len(good) < len(vals))
    else:
        vals = [c.randint(0, 8) for _ in range(c.few(1, 6))]
        cls, param = PickyKernel, 'value'
        good = [v for v in vals if v not in (1, 3, 5, 7)]
        formulas = [('picky', (lambda x, y, v=v: v + np.dot(x, y))) for v in good]
    c.note(cls=cls.__name__, values=[float(v) for v in vals])
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        kb.add_parametrized_kernels(cls, param, vals)
    told = [w for w in seen if issubclass(w.category, KernelMethodsWarning)]
    c.ok(len(told) == len(vals) - len(good),
         '{} warnings for {} rejected values'.format(len(told), len(vals) - len(good)),
         [str(w.message) for w in told])
    _match(c, list(kb), [('linear', f_linear())] + formulas, 'bucket')
    # order of the accepted values is kept
    for m, (_, f) in zip(list(kb)[1:], formulas):
        c.same(signature(m.kernel), signature(f), 'order of values', rtol=1e-9)
    c.count('skipped', len(vals) - len(good))
    c.count('accepted', len(good))
    c.count('none_skipped', len(good) == len(vals))
    kb.attach_to(POS)
    c.ok(all(m.num_samples == len(POS) for m in kb), 'usable afterwards')


class AnyKernel(BaseKernelFunction):
    """takes whatever it is given"""

    def __init__(self, other=None, value=None, skip_input_checks=False):
        super().__init__(name='any')
        self.other, self.value, self.skip_input_checks = other, value, skip_input_checks

    def __call__(self, x, y):
        return float(np.dot(x, y))

    def __str__(self):
        return 'any({})'.format(self.value)


ODD_VALUES = [2, 2.5, 'text', None, True, (1, 2), [1, 2], {'a': 1}, 1e-13, 1e300, -0.0, 0,
              np.float32(0.5), np.int8(3), int, 10 ** 30, 0.1 + 0.2, '3', 1 + 2j]


@check.scenario(quick=300, thorough=6000, required=['arbitrary'])
def arbitrary_values(c):
    """each kernel gets the very value that was given, whatever its type"""
    normalized = c.chance(0.5)
    skip = c.chance(0.5)
    kb = KernelBucket(poly_degree_values=None, rbf_sigma_values=None,
                      laplace_gamma_values=None, sigmoid_gamma_values=None,
                      sigmoid_offset_values=None, normalize_kernels=normalized,
                      skip_input_checks=skip)
    vals = [c.pick(ODD_VALUES) for _ in range(c.few(1, 6))]
    c.note(values=[repr(v) for v in vals], normalized=normalized, skip=skip)
    kb.add_parametrized_kernels(AnyKernel, 'value', c.pick([list, tuple])(vals))
    kernels = [m.kernel for m in kb][1:]
    c.ok(len(kernels) == len(vals), 'number of kernels', len(kernels), vals)
    for k, v in zip(kernels, vals):
        c.ok(type(k) is AnyKernel and type(k.value) is type(v)
             and repr(k.value) == repr(v), 'value given', k.value, v)
        c.ok(k.other is None, 'defaults otherwise', k.other)
        c.ok(k.skip_input_checks is skip, 'setting', k.skip_input_checks)
        c.count('arbitrary')
    c.ok(len(set(map(id, kernels))) == len(kernels), 'one kernel per value')


@check.scenario(quick=600, thorough=6000, required=['bad_class', 'bad_values', 'none'])
def refused(c):
    kb = make_kernel_bucket(c.pick(['linear_only', 'light']))
    before = list(kb)
    what = c.pick(['class', 'values', 'none'])
    if what == 'class':
        cls = c.pick([LinearKernel(), GaussianKernel(), 'PolyKernel', None, int, object,
                      KernelMatrix, KernelBucket, gen.plain_dot, 3, dict])
        c.note(cls=repr(cls)[:40])
        c.raises(KernelMethodsException,
                 lambda: kb.add_parametrized_kernels(cls, 'gamma', [1.0]), 'not a class')
        c.count('bad_class')
    elif what == 'values':
        vals = c.pick([[], (), 'abc', '', 3, 2.5, np.array([]), {}, set(), object()])
        c.note(values=repr(vals)[:20])
        c.raises(ValueError,
                 lambda: kb.add_parametrized_kernels(PolyKernel, 'degree', vals),
                 'not a non-empty list of values')
        if isinstance(vals, (list, tuple, str)) and c.chance(0.3):
            c.raises(ValueError, lambda: KernelBucket(poly_degree_values=vals),
                     'constructor')
        c.count('bad_values')
    else:
        cls, param = c.pick([(PolyKernel, 'degree'), (GaussianKernel, 'sigma'),
                             (Chi2Kernel, 'gamma')])
        kb.add_parametrized_kernels(cls, param, None)
        c.note(none=cls.__name__)
        c.count('none')
    c.ok(list(kb) == before, 'bucket unchanged')


POW = lambda *exps: [2.0 ** e for e in exps]
STRATEGIES = {
    'exhaustive': dict(poly_degree_values=[2, 3, 4],
                       rbf_sigma_values=POW(-5, -3, -1, 1, 3, 5),
                       laplace_gamma_values=POW(-5, -3, -1, 1, 3, 5),
                       sigmoid_gamma_values=POW(-5, -3, -1, 1, 3, 5),
                       sigmoid_offset_values=[-2, 1, 2]),
    'light': dict(poly_degree_values=[2, 3], rbf_sigma_values=POW(-3, -1, 1),
                  laplace_gamma_values=POW(-3, -1, 1),
                  sigmoid_gamma_values=POW(-3, -1, 1, 3, 5), sigmoid_offset_values=[1]),
    'linear_only': dict(),
}


@check.scenario(quick=120, thorough=1200,
                required=['strategy', 'existing', 'normalization_seen'])
def strategies(c):
    name = ('exhaustive', 'light', 'linear_only')[c.index % 3]
    given = c.pick([name, name.upper(), name.capitalize()])
    normalized = (c.index // 3) % 2 == 0
    skip = (c.index // 6) % 2 == 0
    formulas = [('linear', f_linear())]
    for arg, _, make in FAMILIES:
        formulas += [make(v) for v in STRATEGIES[name].get(arg, [])]
    c.note(strategy=given, normalized=normalized, skip=skip)
    if normalized and not skip and c.chance(0.5):
        kb = make_kernel_bucket(given)
    else:
        kb = make_kernel_bucket(given, normalize_kernels=normalized,
                                skip_input_checks=skip)
    c.ok(isinstance(kb, KernelBucket), 'type', kb)
    _match(c, list(kb), formulas, 'strategy ' + name)
    if name == 'exhaustive':
        _match(c, list(KernelBucket()), formulas, 'default bucket')
        _match(c, list(make_kernel_bucket()), formulas, 'default strategy')
    c.count('strategy')
    # passing a bucket (or set) returns it unchanged
    members = list(kb)
    other = kb if c.chance(0.6) else KernelSet(list(kb))
    got = make_kernel_bucket(other)
    c.ok(got is other, 'an existing bucket is returned as such')
    c.ok(list(got) == members, 'members of an existing bucket')
    c.count('existing')
    # independent of an earlier bucket of the same strategy
    second = make_kernel_bucket(name)
    second.add_parametrized_kernels(PolyKernel, 'degree', [9])
    _match(c, list(make_kernel_bucket(name)), formulas, 'a later bucket')
    c.ok(len(kb) == len(formulas), 'an earlier bucket')
    _normalization(c, members, normalized, 'strategy ' + name)
