"""C23: every object has a consistent readable representation."""
import numpy as np
from kernelmethods.base import (AverageKernel, ConstantKernelMatrix, KernelFromCallable,
                                KernelMatrix, KernelMatrixPrecomputed, KernelSet,
                                ProductKernel, SumKernel, WeightedAverageKernel)
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.numeric_kernels import (Chi2Kernel, GaussianKernel, HadamardKernel,
                                           LaplacianKernel, LinearKernel, PolyKernel,
                                           SigmoidKernel)
from kernelmethods.sampling import KernelBucket, make_kernel_bucket

from kmv import gen
from kmv.core import Check

check = Check(
    'C23', 'exploration',
    'random kernels (all classes, random parameter values), matrices in every state '
    '(unattached, attached to one or two samples, computed, re-attached, rejected), sets, '
    'buckets and composites with random members and names; distinct by text')


def texts(c, obj, what):
    """all representations of the object, which must agree"""
    t = str(obj)
    c.ok(type(t) is str and len(t) > 0, what + ': empty text')
    for how, other in (('repr', repr(obj)), ('format', format(obj)),
                       ('{}', '{}'.format(obj)), ('f-string', f'{obj}'),
                       ('!r', f'{obj!r}'), ('%s', '%s' % (obj,)), ('%r', '%r' % (obj,)),
                       ('in a list', '[{}]'.format(t) == str([obj]) and t)):
        c.ok(other == t, '{}: {} differs from str'.format(what, how), other, t)
    c.ok(t in format(obj, '>7'), what + ': format with a width')
    c.count('texts')
    return t


def _num(c):
    return c.pick([1, 2, 3, 0.5, 0.125, 7.25, 2.0 ** -5, 12345.0, 1e-4, np.float64(0.375),
                   np.int64(4), 5])


LONG = 'a name that goes on ' * 6 + 'end'


def _many(x, y, **params):
    return gen.plain_dot(x, y) + len(params)


def _kernel(c):
    """(kernel, [values to be shown])"""
    kind = c.randint(0, 8)
    a, b = _num(c), _num(c)
    if kind == 0:
        return PolyKernel(degree=c.pick([1, 2, 5, 11]), gamma=a, b=b), None
    if kind == 1:
        return GaussianKernel(sigma=a), [a]
    if kind == 2:
        return LaplacianKernel(gamma=a), [a]
    if kind == 3:
        return Chi2Kernel(gamma=a), [a]
    if kind == 4:
        off = c.pick([-2.0, 0.25, b])
        return SigmoidKernel(gamma=a, offset=off), [a, off]
    if kind == 5:
        return HadamardKernel(alpha=a), [a]
    if kind == 6:
        return LinearKernel(), []
    if kind == 7:
        return MatchCountKernel(return_perc=c.chance(0.5)), []
    name = c.pick([None, 'mine', 'with space', 5, LONG, ' spaced ', 'Mixed Case', 'a:b',
                   'two\nlines\n', '{0}', '%d', '(x)', '0'])
    if c.chance(0.3):
        num = c.randint(2, 7)
        names = ['p{}'.format(j) if c.chance(0.8) else 'parameter_{}_long'.format(j)
                 for j in range(num)]
        vals = [_num(c) for _ in names]
        return KernelFromCallable(_many, name=name, **dict(zip(names, vals))), \
            vals + names
    if c.chance(0.5):
        return KernelFromCallable(gen.plain_dot, name=name, scale=a), [a, 'scale']
    return KernelFromCallable(gen.plain_dot, name=name), []


def kernel_text(c, k, shown):
    t = texts(c, k, type(k).__name__)
    c.ok(str(k.name) in t, 'name of the kernel', t, k.name)
    if shown is None:
        shown = [k.degree, k.gamma, k.b]
    for v in shown:
        c.ok(str(v) in t or repr(v) in t, 'parameter value {!r} of the kernel'.format(v),
             t)
    c.count('values_shown', len(shown))
    return t


@check.scenario(quick=3000, thorough=40000, required=['texts', 'values_shown'])
def kernels(c):
    k, shown = _kernel(c)
    t = kernel_text(c, k, shown)
    # text does not depend on use
    X = (c.rng.random((3, 2)) + 0.1) if not isinstance(k, MatchCountKernel) \
        else np.array([['a', 'b'], ['c', 'd'], ['a', 'd']])
    k(X[0], X[1])
    c.ok(str(k) == t, 'text after use', str(k), t)
    c.note(text=t)


NAMES = ['KM', 'a name', 'x', 'matrix one', 'K{}', '%s', 'naïve', 'long name ' * 4 + 'x',
         'n' * 25, 'm' * 90 + '!', ' spaced ', 'two\nlines\n', 'UPPER lower', '(par, en)',
         'tab\t', '"quoted"', 'a:b', '-->', '0']


def _matrix(c, n=4):
    """a matrix in some state, with its text verified; (km, text)"""
    kind = c.pick(['km', 'km', 'km', 'pre', 'const'])
    name = c.pick(NAMES)
    if kind == 'pre':
        A = c.rng.random((n, n))
        given = c.chance(0.7)
        m = KernelMatrixPrecomputed(A + A.T, name=name) if given \
            else KernelMatrixPrecomputed(A + A.T)
        t = texts(c, m, 'precomputed')
        c.ok(str(m.name) in t, 'name', t)
        c.ok(name in t or not given, 'given name', t)
        c.count('precomputed')
        return m, t, kind
    if kind == 'const':
        value = _num(c)
        given = c.chance(0.7)
        m = ConstantKernelMatrix(n, value=value, name=name) if given \
            else ConstantKernelMatrix(n, value=value)
        t = texts(c, m, 'constant')
        c.ok(str(m.name) in t and str(value) in t, 'name and value', t)
        c.ok(name in t or not given, 'given name', t)
        c.count('constant')
        return m, t, kind
    k, shown = _kernel(c)
    kt = kernel_text(c, k, shown)
    m = KernelMatrix(k, normalized=c.chance(0.5), name=name)
    states = []
    if isinstance(k, MatchCountKernel):
        X = np.array([['a', 'b'], ['c', 'b'], ['a', 'd'], ['x', 'y']])
    else:
        X = c.rng.random((n, 2)) + 0.1
    for _ in range(c.few(0, 4)):
        op = c.pick(['attach', 'attach2', 'compute', 'reject'])
        if op == 'attach':
            m.attach_to(X, name_one=c.pick(['s', 'train set']))
        elif op == 'attach2':
            m.attach_to(X, sample_two=X[:2], name_two=c.pick(['other', None]))
        elif op == 'compute' and m.num_samples is not None:
            try:
                m.full
            except Exception:
                pass
        elif op == 'reject':
            try:
                m.attach_to(np.zeros((2, 2, 2)))
            except Exception:
                pass
        states.append(op)
        t = texts(c, m, 'matrix after {}'.format(states))
        c.ok(name in t and kt in t, 'name and kernel in the text', t, kt)
    t = texts(c, m, 'matrix after {}'.format(states))
    c.ok(name in t and kt in t, 'name and kernel in the text', t, kt)
    c.count('unattached' if m.num_samples is None else 'attached')
    return m, t, kind


@check.scenario(quick=3000, thorough=40000,
                required=['texts', 'unattached', 'attached', 'precomputed', 'constant'])
def matrices(c):
    m, t, kind = _matrix(c)
    c.note(text=t)


@check.scenario(quick=2000, thorough=30000,
                required=['texts', 'empty', 'members', 'composites', 'buckets'])
def collections(c):
    name = c.pick(NAMES)
    kind = c.pick(['set', 'set', 'bucket', 'take'])
    X = c.rng.random((4, 2)) + 0.1
    if kind == 'bucket':
        ks = make_kernel_bucket(c.pick(['linear_only', 'light', 'exhaustive'])) \
            if c.chance(0.5) else KernelBucket(
                poly_degree_values=c.pick([None, [2]]), rbf_sigma_values=[_num(c)],
                laplace_gamma_values=None, sigmoid_gamma_values=None,
                sigmoid_offset_values=None, name=name)
        c.count('buckets')
        name = ks.name
        attach = c.chance(0.5)
    else:
        members = []
        attach = c.chance(0.6)
        for _ in range(c.few(0, 5)):
            k, shown = _kernel(c)
            if isinstance(k, MatchCountKernel):
                k = LinearKernel()
            if attach and c.chance(0.2):
                A = c.rng.random((4, 4))
                members.append(KernelMatrixPrecomputed(A + A.T, name=c.pick(NAMES)))
                continue
            km = KernelMatrix(k, name=c.pick(NAMES), normalized=c.chance(0.5))
            if attach:
                km.attach_to(X)
            members.append(km)
        ks = KernelSet(members, name=name)
        attach = False
    for state in range(2):
        t = texts(c, ks, 'set')
        c.ok(name in t, 'name of the set', t)
        for m in ks:
            c.ok(texts(c, m, 'member') in t, 'text of every member', t, str(m))
            c.count('members')
        c.count('empty', len(ks) == 0)
        if attach and state == 0:
            ks.attach_to(X, name='the sample')
    if kind == 'take' and len(ks) > 1:
        sub = ks.take([1, 0], name='subset')
        t = texts(c, sub, 'subset')
        c.ok('subset' in t and all(str(m) in t for m in sub), 'text of a subset', t)
    if len(ks) >= 2 and ks.num_samples is not None:
        cls = c.pick([SumKernel, ProductKernel, AverageKernel, WeightedAverageKernel])
        args = (np.ones(len(ks)),) if cls is WeightedAverageKernel else ()
        comp = cls(ks, *args, name=name + ' comp') if c.chance(0.7) else cls(ks, *args)
        for state in range(2):
            t = texts(c, comp, 'composite')
            c.ok(comp.name in t, 'name of the composite', t)
            for m in ks:
                c.ok(str(m) in t, 'text of every member', t, str(m))
            c.count('composites')
            try:
                comp.fit()
            except Exception:
                break  # e.g. normalization not possible
    c.note(text=t)
