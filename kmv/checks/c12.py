"""C12: a KernelSet is an ordered collection of matrices of one common size.

Model-based monitor: a plain Python list shadows each KernelSet."""
import numpy as np
from kernelmethods.base import KernelMatrix, KernelMatrixPrecomputed, KernelSet
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.config import KMSetAdditionError
from kernelmethods.numeric_kernels import LinearKernel, PolyKernel
from kernelmethods.sampling import KernelBucket

from kmv import gen, ref
from kmv.core import BIG_SIZES, MID_SIZES, Check

check = Check(
    'C12', 'exploration',
    'random histories of construct/append/extend/take/attach_to and refused operations '
    'on kernel sets, shadowed by a list; after each operation order, identity, sizes '
    'and members are compared with the shadow; distinct by history',
    ['members are not re-attached individually behind the back of the set'])


class Shadow(object):
    def __init__(self, ks, members, num):
        self.ks, self.members, self.num = ks, list(members), num


def _identical(c, item, member):
    if isinstance(member, np.ndarray):
        # given as array: wrapped by the set
        return isinstance(item, KernelMatrixPrecomputed) and \
            np.array_equal(item.full, member)
    return item is member


def _verify(c, sh, where=''):
    ks = sh.ks
    c.ok(len(ks) == len(sh.members) == ks.size, 'len / size' + where, len(ks), ks.size,
         len(sh.members))
    listed = list(ks)
    c.ok(len(listed) == len(sh.members), 'iteration length' + where)
    for i, (item, member) in enumerate(zip(listed, sh.members)):
        c.ok(_identical(c, item, member), 'member {} by iteration{}'.format(i, where),
             item, member)
        idx = i if c.chance(0.5) else np.int64(i)
        c.ok(ks[idx] is item, 'member {} by index{}'.format(i, where))
        c.ok(item.num_samples == ks.num_samples or
             (item.num_samples is None and ks.num_samples is None),
             'member {} has {} samples, the set {}{}'.format(
                 i, item.num_samples, ks.num_samples, where))
    c.ok(ks.num_samples == sh.num, 'num_samples {} instead of {}{}'.format(
        ks.num_samples, sh.num, where))
    if 0 < len(listed) <= 70 and c.chance(0.3):
        # two iterations at once
        pairs = [(a, b) for a in ks for b in ks]
        c.ok(len(pairs) == len(listed) ** 2 and all(
            pairs[i * len(listed) + j][0] is listed[i]
            and pairs[i * len(listed) + j][1] is listed[j]
            for i in range(len(listed)) for j in range(len(listed))),
             'nested iteration' + where)
    c.count('verified')


def _member(c, n, tag):
    """A new member with n samples: (object to add)"""
    kind = c.pick(['km', 'km', 'precomputed', 'array', 'km2'])
    if kind in ('precomputed', 'array'):
        A = c.rng.normal(size=(n, n))
        A = A + A.T
        return KernelMatrixPrecomputed(A) if kind == 'precomputed' else A
    km = KernelMatrix(gen.RecordingKernel(gen.Tagged(c)), normalized=c.chance(0.5),
                      name='m{}'.format(c.randint(0, c.pick([1, 999]))))
    if kind == 'km2':
        # not compatible with one-sample sets of n samples
        pass
    km.attach_to(tag.rows(n))
    return km


def _unattached(c):
    return KernelMatrix(gen.RecordingKernel(gen.Tagged(c)), normalized=c.chance(0.5))


@check.scenario(quick=4000, thorough=60000,
                required=['verified', 'append', 'append_refused', 'extend',
                          'extend_refused', 'take', 'index_refused', 'take_refused',
                          'funcs', 'construct', 'asym_refused'])
def histories(c):
    """sets of matrices on n samples each"""
    tag = gen.Tagged(c)
    n = c.size(1, 6)
    hist = []
    pool = []
    for step in range(c.randint(4, 14)):
        op = c.pick(['construct', 'append', 'append', 'append', 'append_refused',
                     'extend', 'extend', 'extend_refused', 'take', 'take',
                     'take_refused', 'index_refused', 'funcs', 'asym_refused'])
        if not pool:
            op = 'construct'
        if op == 'construct':
            members = [_member(c, n, tag) for _ in range(c.few(0, 4))]
            if members and c.chance(0.2):
                members.append(members[0])
            how = c.pick(['list', 'tuple', 'generator', 'numbered', 'single', 'none'])
            if how == 'single':
                members = [KernelMatrix(gen.RecordingKernel(tag))]
                members[0].attach_to(tag.rows(n))
                ks = KernelSet(members[0])
            elif how == 'none':
                members = []
                ks = KernelSet(num_samples=n) if c.chance(0.5) else KernelSet()
            elif how == 'numbered':
                ks = KernelSet(members, num_samples=n)
            elif how == 'generator':
                ks = KernelSet(m for m in members)
            else:
                ks = KernelSet(list(members) if how == 'list' else tuple(members))
            pool.append(Shadow(ks, members, n if members or how == 'numbered'
                               else ks.num_samples))
            if how == 'none':
                c.ok(ks.num_samples in (None, n), 'num_samples of an empty set')
        sh = c.pick(pool)
        ks = sh.ks
        if op == 'append':
            m = _member(c, n, tag)
            if sh.members and c.chance(0.15):
                m = ks[c.randint(0, len(ks) - 1)]  # duplicate
            ks.append(m)
            sh.members.append(m)
            sh.num = n
        elif op == 'append_refused' and sh.num is not None:
            other = n + c.randint(1, 3)
            how = c.pick(['bigger', 'unattached', 'two_samples', 'smaller'])
            if how == 'unattached':
                m = _unattached(c)
            elif how == 'two_samples':
                m = _unattached(c)
                m.attach_to(tag.rows(n), sample_two=tag.rows(other), name_two='t')
            elif how == 'smaller' and n > 1:
                m = _member(c, n - 1, tag)
            else:
                m = _member(c, other, tag)
            c.raises(KMSetAdditionError, lambda: ks.append(m), 'append ' + how)
        elif op == 'asym_refused':
            A = np.arange(float(n * n + 2 * n + 1)).reshape(n + 1, n + 1)
            if n > 1:
                A = A[:n, :n]
            c.raises(ValueError, lambda: ks.append(A), 'append an asymmetric array')
        elif op == 'extend':
            src = c.pick(pool)
            if src.num is not None and src.num == sh.num and \
                    len(src.members) + len(sh.members) <= 300:
                added = list(src.members)
                ks.extend(src.ks)
                sh.members.extend(added)
        elif op == 'extend_refused':
            how = c.pick(['list', 'other', 'km', 'mixed'])
            if how == 'list':
                bad = [_member(c, n, tag)]
            elif how == 'km':
                bad = _unattached(c)
            else:
                bad = KernelSet([_member(c, n + 1, tag) for _ in range(2)])
                if sh.num is None:
                    bad = None
            c.raises(KMSetAdditionError, lambda: ks.extend(bad), 'extend ' + how)
        elif op == 'take' and sh.members:
            idx = c.rng.integers(len(sh.members), size=c.few(1, 4)).tolist()
            arg = c.pick([list, tuple, np.array])(idx)
            if len(idx) == 1 and c.chance(0.5):
                arg = idx[0]
            new = ks.take(arg)
            c.ok(isinstance(new, KernelSet) and new is not ks, 'take returns a new set')
            taken = Shadow(new, [sh.members[i] for i in idx], n)
            _verify(c, taken, ' after take {}'.format(idx))
            pool.append(taken)
        elif op == 'take_refused':
            size = len(sh.members)
            bad = c.pick([[size], [-1], [0, size + 3] if size else [0], size + 1, -2])
            c.raises(IndexError, lambda: ks.take(bad), 'take {}'.format(bad))
            c.raises(IndexError, lambda: list(ks.get_kernel_funcs(bad)),
                     'get_kernel_funcs {}'.format(bad))
        elif op == 'index_refused':
            size = len(sh.members)
            bad = c.pick([size, -1, size + 4, -size - 1, np.int64(size)])
            c.raises(IndexError, lambda: ks[bad], 'index {}'.format(bad))
            c.raises((ValueError, TypeError, IndexError),
                     lambda: ks[c.pick([0.5, 'a', None, 1.0])], 'malformed index')
        elif op == 'funcs':
            idx = [i for i, m in enumerate(sh.members) if isinstance(m, KernelMatrix)]
            if not idx:
                continue
            idx = [c.pick(idx) for _ in range(c.randint(1, 3))]
            funcs = list(ks.get_kernel_funcs(idx))
            c.ok(len(funcs) == len(idx) and all(
                f is sh.members[i].kernel for f, i in zip(funcs, idx)),
                 'get_kernel_funcs {}'.format(idx))
        hist.append(op)
        c.log(op, len(pool))
        c.count(op)
        for s in pool:
            _verify(c, s, ' after {}'.format(hist[-1]))
    c.note(n=n, hist=hist)


@check.scenario(quick=2500, thorough=30000,
                required=['attached', 'refused', 'values', 'categorical', 'object_like',
                          'shared_kernel'])
def attaching(c):
    """sets of unattached matrices, attached together, several times"""
    size = c.few(1, 4)
    tag = gen.Tagged(c)
    cat = c.chance(0.25)
    if cat:
        kernels = [MatchCountKernel(return_perc=c.chance(0.5)) for _ in range(size)]
    else:
        kernels = [gen.RecordingKernel(gen.Tagged(c)) for _ in range(size)]
    if size > 1 and c.chance(0.3):
        # several matrices of one kernel function
        for _ in range(c.randint(1, size)):
            kernels[c.randint(0, size - 1)] = kernels[c.randint(0, size - 1)]
        c.count('shared_kernel')
    normed = [c.chance(0.5) for _ in range(size)]
    kms = [KernelMatrix(k, normalized=f) for k, f in zip(kernels, normed)]
    bucket = False
    if not cat and c.chance(0.2):
        ks = KernelBucket(poly_degree_values=None, rbf_sigma_values=None,
                          laplace_gamma_values=None, sigmoid_gamma_values=None,
                          sigmoid_offset_values=None)
        for km in kms:
            ks.append(km)
        bucket = True
    else:
        ks = KernelSet(kms)
    sh = Shadow(ks, list(ks), None)
    _verify(c, sh)
    n = c.size(2, 6, MID_SIZES if size < 8 else BIG_SIZES)
    hist = []
    X = None
    for step in range(c.randint(1, 4)):
        if X is not None and c.chance(0.4):
            bad = tag.rows(n + c.pick([-1, 1, 3]))
            if cat:
                bad = bad.astype(str)
            how = c.pick(['length', '1d', '3d'])
            bad = {'length': bad, '1d': bad[:, 0], '3d': np.ones((n, 2, 2))}[how]
            c.raises(ValueError, lambda: ks.attach_to(bad), 'attach_to ' + how)
            c.count('refused')
            hist.append(how)
        else:
            X = gen.categorical(c, n, 3)[0] if cat else tag.rows(n, c.randint(1, 3))
            given = X
            if c.chance(0.2):
                given = X.tolist()
                c.count('object_like')
            attr = c.chance(0.3)
            if attr:
                ks.attach_to(given, name='S{}'.format(step), attr_name='who',
                             attr_value=step)
            else:
                ks.attach_to(given, name='S{}'.format(step))
            for km in kms:
                c.ok(km.get_attr('who', 'none') == (step if attr else 'none'),
                     'attribute after attach_to')
            hist.append('attach')
            c.count('attached')
            c.count('categorical' if cat else 'numeric')
        sh.num = n
        _verify(c, sh, ' after {}'.format(hist))
        # every member works on the last accepted sample
        if bucket:
            c.same(ks[0][:, :], ref.gram(LinearKernel(), X), 'linear kernel of the '
                   'bucket', rtol=1e-9)
        for k, km, f in zip(kernels, kms, normed):
            if c.chance(0.5):
                continue
            K = ref.gram(k, X)
            model = ref.Model(K, f)
            ref.Views(c, rtol_raw=1e-12, can_norm=K.diagonal().min() > 0).check_all(
                km, model, where=' after {}'.format(hist))
            c.count('values')
    c.note(size=size, n=n, cat=cat, hist=hist)


@check.scenario(quick=800, thorough=8000, required=['verified', 'refused'])
def precomputed_members(c):
    """a set with a member that can not be attached to a sample"""
    n = c.size(2, 6)
    X = gen.Tagged(c).rows(n)
    size = c.randint(1, 4)
    kms = [KernelMatrix(gen.RecordingKernel(gen.Tagged(c)), normalized=False)
           for _ in range(size)]
    for i, km in enumerate(kms):
        km.attach_to(X, name_one='first')
        km.set_attr('who', i)
        if c.chance(0.5):
            km.full
    want = [ref.gram(km.kernel, X) for km in kms]
    A = c.rng.normal(size=(n, n))
    members = list(kms)
    members.insert(c.randint(0, size), KernelMatrixPrecomputed(A + A.T))
    if c.chance(0.3):
        members.insert(c.randint(0, size + 1), KernelMatrixPrecomputed(np.eye(n)))
    ks = KernelSet(members)
    sh = Shadow(ks, members, n)
    _verify(c, sh)
    Z = gen.Tagged(c).rows(c.pick([n, n, n, n + 1]))
    try:
        ks.attach_to(Z, name='second', attr_name='who', attr_value='new')
    except Exception:
        c.count('refused')
    else:
        c.fail('a precomputed matrix was attached to a sample')
    _verify(c, sh, ' after a refused attach_to')
    for i, km in enumerate(kms):
        c.ok(km.get_attr('who') == i, 'attribute after a refused attach_to',
             km.get_attr('who'))
        c.ok('first' in str(km), 'name of the sample after a refused attach_to', str(km))
        c.exact(km.full, want[i], 'matrix after a refused attach_to')
    c.note(n=n, size=size)


@check.scenario(quick=500, thorough=5000, required=['verified', 'refused'])
def two_samples(c):
    """sets of matrices attached to two samples"""
    tag = gen.Tagged(c, symmetric=False)
    n1, n2 = c.size(1, 5, BIG_SIZES), c.size(1, 5, BIG_SIZES)
    X, Y = tag.rows(n1), tag.rows(n2)
    kms = []
    for _ in range(c.few(1, 4)):
        km = KernelMatrix(gen.RecordingKernel(tag))
        km.attach_to(X, sample_two=Y, name_two='t')
        kms.append(km)
    ks = KernelSet(kms)
    sh = Shadow(ks, kms, (n1, n2))
    _verify(c, sh)
    bad = KernelMatrix(gen.RecordingKernel(tag))
    how = c.pick(['swapped', 'one', 'other'])
    if how == 'swapped' and n1 != n2:
        bad.attach_to(Y, sample_two=X, name_two='t')
    elif how == 'one':
        bad.attach_to(X)
    else:
        bad.attach_to(X, sample_two=tag.rows(n2 + 1), name_two='t')
    c.raises(KMSetAdditionError, lambda: ks.append(bad), 'append ' + how)
    c.raises(KMSetAdditionError, lambda: ks.extend(KernelSet([bad])), 'extend ' + how)
    c.count('refused')
    _verify(c, sh, ' after refusal')
    c.raises(ValueError, lambda: ks.attach_to(X), 'attach_to of a two-sample set')
    _verify(c, sh, ' after refused attach')
    for km in kms:
        c.exact(km[:, :], tag.matrix(X, Y), 'values after refusals')
    c.note(n=(n1, n2), size=len(kms), how=how)
