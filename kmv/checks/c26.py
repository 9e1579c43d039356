"""C26: copies and pickles reproduce an object and are independent of it.

Histories in which objects are deep-copied or pickled in the middle of their life, and
original and copies go on separately, each compared with a model of its own."""
import copy
import pickle

import numpy as np
from kernelmethods.base import (AverageKernel, ConstantKernelMatrix, KernelFromCallable,
                                KernelMatrix, KernelMatrixPrecomputed, KernelSet,
                                ProductKernel, SumKernel, WeightedAverageKernel)
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.numeric_kernels import (Chi2Kernel, GaussianKernel, HadamardKernel,
                                           LaplacianKernel, LinearKernel, PolyKernel,
                                           SigmoidKernel)
from kernelmethods.sampling import KernelBucket, make_kernel_bucket

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C26', 'exploration',
    'kernel functions of all classes, matrices in every state of computation (one or two '
    'samples, normalized or not), precomputed and constant matrices, sets, buckets, '
    'composites, deep-copied or pickled (all protocols), also copies of copies, after '
    'which original and copies are read, attached, tagged, extended and fitted in any '
    'order; distinct by history',
    ['callables, samples and attribute values that can be copied and pickled'])


def duplicate(c, obj):
    """a copy, by any of the means"""
    how = -1 if c.chance(0.4) else c.randint(0, pickle.HIGHEST_PROTOCOL)
    c.count('deepcopy' if how < 0 else 'pickle')
    c.log('copy', how)
    if how < 0:
        return copy.deepcopy(obj)
    return pickle.loads(pickle.dumps(obj, protocol=how))


def scaled(x, y, scale=1.0, shift=0.0):
    return gen.plain_dot(x, y, scale) + shift


def _value(c):
    return float(c.pick([1, 2, 3, 0.5, 0.125, 7.25, 2.0 ** -5, 0.3]))


def _kernel(c):
    a, b = _value(c), _value(c)
    skip = c.chance(0.5)
    kind = c.randint(0, 8)
    if kind == 0:
        return PolyKernel(degree=c.randint(1, 4), gamma=a, b=b, skip_input_checks=skip)
    if kind == 1:
        return GaussianKernel(sigma=a, skip_input_checks=skip)
    if kind == 2:
        return LaplacianKernel(gamma=a, skip_input_checks=skip)
    if kind == 3:
        return Chi2Kernel(gamma=a, skip_input_checks=skip)
    if kind == 4:
        return SigmoidKernel(gamma=a, offset=b, skip_input_checks=skip)
    if kind == 5:
        return HadamardKernel(alpha=a, skip_input_checks=skip)
    if kind == 6:
        return KernelFromCallable(scaled, name=c.pick(['named', None]), scale=a, shift=b)
    if kind == 7:
        return MatchCountKernel(return_perc=c.chance(0.5), skip_input_checks=skip)
    return LinearKernel(skip_input_checks=skip)


@check.scenario(quick=6000, thorough=120000, required=['kernels', 'deepcopy', 'pickle'])
def kernel_functions(c):
    """same text, same values, same refusals"""
    k = _kernel(c)
    text = str(k)
    c.note(kernel=text, salt=c.case_seed)
    d = c.randint(1, 5)
    probes = []
    for _ in range(4):
        if isinstance(k, MatchCountKernel):
            x, y = gen.categorical(c, 2, d)[0]
        else:
            x, y = c.rng.random((2, d))
        probes.append((x, y, k(x, y)))
    twin = k
    for _ in range(c.randint(1, 3)):
        twin = duplicate(c, twin)
    c.ok(type(twin) is type(k), 'type of the copy', type(twin))
    c.ok(twin is not k, 'the copy is the original')
    for which, kern in (('copy', twin), ('original', k)):
        c.ok(str(kern) == text, 'text of the ' + which, str(kern), text)
        for x, y, val in probes:
            c.exact(kern(x, y), val, 'value of the ' + which)
    if not isinstance(k, KernelFromCallable):
        refused = _refused(k, d)
        c.ok(refused == _refused(twin, d), 'the copy treats input checks differently')
    # changing a parameter of one is not seen by the other
    name = next((n for n in ('gamma', 'sigma', 'degree', 'alpha') if hasattr(twin, n)),
                None)
    if name is not None:
        setattr(twin, name, getattr(twin, name) + 1)
        for x, y, val in probes:
            c.exact(k(x, y), val, 'value of the original after a change of the copy')
    c.count('kernels')


def _refused(k, d):
    """whether 3-dimensional input is refused"""
    try:
        if isinstance(k, MatchCountKernel):
            k(np.full((2, 2, 2), 'a'), np.full((2, 2, 2), 'a'))
        else:
            k(np.ones((2, 2, 2)), np.ones((2, 2, 2)))
    except (ValueError, TypeError):
        return True
    return False


# --------------------------------------------------------------------------- matrices
class Life(object):
    """A matrix with what it should show"""

    def __init__(self, c, tag, km, normalized, pool):
        self.c, self.tag, self.km, self.normalized = c, tag, km, normalized
        self.pool = pool
        self.X = self.Y = self.model = None
        self.attrs = {}

    def attach(self, two=None):
        c = self.c
        two = c.chance(0.3) if two is None else two
        self.X, self.Y = c.pick(self.pool), c.pick(self.pool) if two else None
        ref.attach(self.km, self.X, self.Y, name=c.pick(['s', 'train', 'other']))
        tag = self.tag
        self.model = ref.Model(tag.matrix(self.X, self.Y), self.normalized,
                               tag.diag(self.X), tag.diag(self.Y) if two else None, two)
        self.attrs = {}

    def twin(self):
        c = self.c
        km = duplicate(c, self.km)
        c.ok(type(km) is type(self.km) and km is not self.km, 'type of the copy')
        c.ok(str(km) == str(self.km), 'text of the copy', str(km), str(self.km))
        other = Life(c, self.tag, km, self.normalized, self.pool)
        other.X, other.Y, other.model = self.X, self.Y, self.model
        other.attrs = dict(self.attrs)
        return other

    def step(self, views, where):
        c = self.c
        how = c.randint(0, 9)
        if self.model is None or how == 0:
            self.attach()
        elif how == 1:
            name = c.pick(['a', 'b', 3])
            self.attrs[name] = c.randint(0, 1000)
            self.km.set_attr(name, self.attrs[name])
        else:
            views.check(self.km, self.model, c.pick(views.names(self.model)), where=where)
        self.check_attrs(where)

    def check_attrs(self, where):
        c = self.c
        c.ok(dict(self.km.attributes()) == self.attrs, 'attributes' + where,
             dict(self.km.attributes()), self.attrs)
        for name in ('a', 'b', 3):
            c.ok(self.km.get_attr(name, 'none') == self.attrs.get(name, 'none'),
                 'attribute {}{}'.format(name, where))


@check.scenario(quick=6000, thorough=120000,
                required=['copies', 'deepcopy', 'pickle', 'unattached', 'computed',
                          'views_compared'])
def matrices(c):
    """original and copies go on separately"""
    tag = gen.Tagged(c, symmetric=c.chance(0.5))
    kern = gen.RecordingKernel(tag)
    pool = [tag.rows(c.randint(1, 6)) for _ in range(3)]
    views = ref.Views(c)
    normalized = c.chance(0.5)
    c.note(normalized=normalized, symmetric=tag.symmetric, salt=c.case_seed)
    first = Life(c, tag, KernelMatrix(kern, normalized=normalized,
                                      name=c.pick(['KM', 'second'])), normalized, pool)
    lives = [first]
    if not tag.symmetric:
        # one-sample matrices of an asymmetric kernel are not defined
        first.attach = lambda two=None: Life.attach(first, True)
    for _ in range(c.randint(0, 6)):
        first.step(views, ' before copying')
    for _ in range(c.randint(1, 3)):
        c.count('unattached', first.model is None)
        c.count('computed', first.model is not None)
        src = c.pick(lives)
        other = src.twin()
        if not tag.symmetric:
            other.attach = lambda two=None, o=other: Life.attach(o, True)
        lives.append(other)
        c.count('copies')
        for _ in range(c.randint(1, 8)):
            i = c.randint(0, len(lives) - 1)
            lives[i].step(views, ' of {}'.format('copy %d' % i if i else 'the original'))
    for i, life in enumerate(lives):
        where = ' at the end, of {}'.format('copy %d' % i if i else 'the original')
        if life.model is not None:
            views.check_all(life.km, life.model, where)
        life.check_attrs(where)


@check.scenario(quick=2500, thorough=50000, required=['copies', 'views_compared'])
def other_kernels(c):
    """matrices of the kernels of the library, with samples of any type"""
    n, d = gen.sizes(c, 10), c.randint(1, 4)
    X, descr = gen.sample(c, n, d, positive=True,
                          dtype=c.pick(['f8', 'f8', 'f4', 'i8', 'i4', '>f8']))
    Y, _ = gen.sample(c, c.randint(1, 6), d, positive=True, dtype=X.dtype.str)
    k, kdescr = gen.kernel(c, 'nonneg')
    two = c.chance(0.3)
    normalized = bool(c.chance(0.3) and np.all(ref.self_sim(k, X) > 1e-3) and
                      np.all(ref.self_sim(k, Y) > 1e-3))
    c.note(sample=descr, kernel=kdescr, two=two, normalized=normalized)
    km = KernelMatrix(k, normalized=normalized)
    ref.attach(km, X, Y if two else None)
    plain = KernelMatrix(k, normalized=normalized)
    ref.attach(plain, X, Y if two else None)
    for _ in range(c.randint(0, 3)):
        km[c.randint(0, km.shape[0] - 1), c.randint(0, km.shape[1] - 1)]
    if c.chance(0.4):
        km.full
    twin = duplicate(c, km)
    rtol = 1e-4 if X.dtype.itemsize == 4 and X.dtype.kind == 'f' else 1e-10

    def same(got, want, what):
        # a copy can have another memory layout, and so other rounding
        c.same(got, want, what, rtol=rtol, atol=rtol * (np.abs(want).max() or 1.0))

    for which, m in (('copy', twin), ('original', km)):
        c.ok(m.shape == plain.shape and len(m) == len(plain), 'shape of the ' + which)
        same(m.full, plain.full, 'full matrix of the ' + which)
        same(m[:, :], plain[:, :], 'raw matrix of the ' + which)
        same(m.frob_norm, plain.frob_norm, 'norm of the ' + which)
        c.count('views_compared', 3)
    ref.attach(twin, Y)
    same(km.full, plain.full, 'original after attaching the copy')
    same(km[:, :], plain[:, :], 'original after attaching the copy')
    c.count('copies')


@check.scenario(quick=2500, thorough=50000, required=['precomputed', 'constant'])
def fixed_matrices(c):
    """precomputed and constant ones"""
    n = gen.sizes(c, 12)
    if c.chance(0.6):
        M = c.rng.normal(size=(n, n))
        M = M + M.T
        km = KernelMatrixPrecomputed(M.copy(), name=c.pick([None, 'mine']))
        c.count('precomputed')
    else:
        value = c.pick([0.0, 1.5, -2, 7])
        dtype = c.pick(['float', 'f4', 'i8']) if value != 1.5 else 'float'
        km = ConstantKernelMatrix(n, value=value, dtype=dtype, name=c.pick([None, 'mine']))
        M = np.full((n, n), value, dtype=dtype)
        c.count('constant')
        if c.chance(0.5):
            km.full
    text = str(km)
    c.note(text=text, salt=c.case_seed)
    twin = duplicate(c, duplicate(c, km) if c.chance(0.3) else km)
    order = [('copy', twin), ('original', km)]
    for which, m in (order if c.chance(0.5) else order[::-1]):
        full = m.full
        c.exact(full, M, 'full matrix of the ' + which)
        c.ok(np.asarray(full).dtype == M.dtype, 'type of the ' + which)
        c.exact(m.diag, M.diagonal(), 'diagonal of the ' + which)
        c.ok(m.size == n and len(m) == n and m.num_samples == n, 'size of the ' + which)
        i, j = c.randint(0, n - 1), c.randint(0, n - 1)
        c.exact(np.ravel(m[i, j])[0], M[i, j], 'element of the ' + which)
        c.ok(str(m) == text, 'text of the ' + which)


# ----------------------------------------------------------------------- sets, buckets
class Shadow(object):
    """A set with the values its members should have"""

    def __init__(self, c, ks, members):
        self.c, self.ks, self.members = c, ks, members

    def verify(self, where):
        c = self.c
        c.ok(len(self.ks) == len(self.members) and self.ks.size == len(self.members),
             'number of members' + where)
        for i, km in enumerate(self.ks):
            full, tagged = self.members[i]
            if full is not None:
                c.exact(km.full, full, 'member {}{}'.format(i, where))
            if isinstance(km, KernelMatrix):
                c.ok(km.get_attr('t', None) == tagged, 'attribute of member {}{}'.format(
                    i, where), km.get_attr('t', None), tagged)


def _positive(c):
    """a kernel with self-similarities well above zero on positive samples"""
    kind = c.randint(0, 4)
    a = float(c.pick([0.25, 0.5, 1.0, 2.0]))
    if kind == 0:
        return LinearKernel()
    if kind == 1:
        return PolyKernel(degree=c.randint(1, 3), gamma=a, b=1.0)
    if kind == 2:
        return LaplacianKernel(gamma=a)
    if kind == 3:
        return Chi2Kernel(gamma=a)
    return GaussianKernel(sigma=a)


def _fulls(kerns, X):
    """fresh matrices of (kernel, normalized) on the sample"""
    out = []
    for k, normalized in kerns:
        km = KernelMatrix(k, normalized=normalized)
        km.attach_to(X)
        out.append(km.full)
    return out


@check.scenario(quick=1500, thorough=30000,
                required=['sets', 'buckets', 'shared_members', 'extended', 'attached'])
def sets(c):
    n, d = c.randint(2, 6), c.randint(1, 3)
    X, Z = (c.rng.random((n, d)) + 0.1 for _ in range(2))
    bucket = c.chance(0.4)
    if bucket:
        values = dict(poly_degree_values=c.pick([None, [2, 3]]),
                      rbf_sigma_values=c.pick([None, [0.5, 2.0]]),
                      laplace_gamma_values=c.pick([None, [0.3]]),
                      sigmoid_gamma_values=c.pick([None, [0.1]]),
                      sigmoid_offset_values=None, normalize_kernels=c.chance(0.5))
        light = c.chance(0.3)

        def make():
            return make_kernel_bucket('light') if light else KernelBucket(**values)

        ks = make()
        on = {}
        for which, S in (('X', X), ('Z', Z)):
            fresh = make()
            fresh.attach_to(S)
            on[which] = [km.full for km in fresh]
        c.count('buckets')
        attached = c.chance(0.5)
        if attached:
            ks.attach_to(X)
    else:
        kerns, kms = [], []
        for _ in range(c.randint(1, 4)):
            k, normalized = _positive(c), c.chance(0.5)
            km = KernelMatrix(k, normalized=normalized)
            km.attach_to(X)
            kms.append(km)
            kerns.append((k, normalized))
        if c.chance(0.3):  # the same matrix twice
            kms.append(kms[0])
            kerns.append(kerns[0])
            c.count('shared_members')
        ks = KernelSet(kms, name='mine')
        on = {'X': _fulls(kerns, X), 'Z': _fulls(kerns, Z)}
        attached = True
        c.count('sets')
    none = [None] * len(on['X'])
    text = str(ks)
    if attached and c.chance(0.5):
        [km.full for km in ks]
    tag_value = None
    if attached and c.chance(0.5):
        tag_value = 'first'
        ks.set_attr('t', 'first')
    twin = duplicate(c, ks)
    c.ok(type(twin) is type(ks) and twin.name == ks.name, 'type of the copy')
    c.ok(str(twin) == text, 'text of the copy', str(twin), text)
    c.ok(twin.num_samples == ks.num_samples, 'num_samples of the copy')
    start = [(f, tag_value) for f in (on['X'] if attached else none)]
    pair = [Shadow(c, ks, list(start)), Shadow(c, twin, list(start))]
    c.note(text=text, salt=c.case_seed)
    for _ in range(c.randint(2, 6)):
        i = c.randint(0, 1)
        s, where = pair[i], ' of the {}'.format('copy' if i else 'original')
        how = c.randint(0, 3)
        if how == 0:
            which = c.pick(['X', 'Z'])
            s.ks.attach_to(X if which == 'X' else Z)
            if len(s.members) == len(on['X']):
                s.members = [(f, None) for f in on[which]]
            else:
                s.members = [(None, None) for _ in s.members]
            c.count('attached')
        elif how == 1 and s.members[0][0] is not None:
            val = c.randint(0, 99)
            s.ks.set_attr('t', val)
            s.members = [(f, val) for f, _ in s.members]
        elif how == 2 and s.members[0][0] is not None and len(s.members) < 9:
            km = KernelMatrix(LinearKernel(), normalized=False)
            km.attach_to(X)
            s.ks.append(km)
            s.members.append((km.full, None))
            c.count('extended')
        for j, other in enumerate(pair):
            other.verify(' of the {} after a step of the {}'.format(
                'copy' if j else 'original', 'copy' if i else 'original'))


COMPOSITES = (SumKernel, ProductKernel, AverageKernel, WeightedAverageKernel)


@check.scenario(quick=1500, thorough=30000, required=['fitted', 'unfitted', 'refitted', 'moved'])
def composites(c):
    n, d = c.randint(2, 6), c.randint(1, 3)
    X, Z = (c.rng.random((n, d)) + 0.1 for _ in range(2))
    kerns = [(_positive(c), c.chance(0.5))
             for _ in range(c.randint(2, 4))]
    kms = []
    for k, normalized in kerns:
        kms.append(KernelMatrix(k, normalized=normalized))
        kms[-1].attach_to(X)
    w = c.rng.random(len(kms))
    cls = COMPOSITES[c.index % 4]
    ks = KernelSet(kms)
    comp = cls(ks, w) if cls is WeightedAverageKernel else cls(ks)

    def expect(S):
        fulls = np.array(_fulls(kerns, S))
        if cls is SumKernel:
            return fulls.sum(axis=0)
        if cls is ProductKernel:
            return fulls.prod(axis=0)
        if cls is AverageKernel:
            return fulls.mean(axis=0)
        return np.tensordot(w, fulls, axes=1)

    on_x, on_z = expect(X), expect(Z)
    fitted = c.chance(0.6)
    if fitted:
        comp.fit()
    c.count('fitted' if fitted else 'unfitted')
    moved = c.chance(0.4)  # since it was fitted
    if moved:
        ks.attach_to(Z)
        c.count('moved')
    text = str(comp)
    c.note(text=text, moved=moved, salt=c.case_seed)
    twin = duplicate(c, comp)
    c.ok(type(twin) is cls and str(twin) == text, 'text of the copy', str(twin), text)
    both = [comp, twin]
    c.rng.shuffle(both)
    if fitted:
        for m in both:
            c.same(m.composite_KM, on_x, 'fitted composite and copy', atol=1e-12)
    else:
        for m in both:
            c.raises(ValueError, lambda: m.composite_KM, 'unfitted composite and copy')
    # one of them moves on, the other does not
    a, b = both
    a.km_set.attach_to(Z)
    if fitted:
        c.same(a.composite_KM, on_x, 'after attaching, not fitted again', atol=1e-12)
    a.fit()
    c.same(a.composite_KM, on_z, 'fitted on another sample', atol=1e-12)
    if fitted:
        c.same(b.composite_KM, on_x, 'the other one of original and copy', atol=1e-12)
    else:
        c.raises(ValueError, lambda: b.composite_KM, 'the other one, unfitted')
    b.fit()
    c.same(b.composite_KM, on_z if moved else on_x, 'the other one, fitted afterwards', atol=1e-12)
    c.same(a.composite_KM, on_z, 'the first one later', atol=1e-12)
    c.count('refitted')
