"""C04: kernel values are computed lazily and at most once per pair.

Offline checker over the log of kernel evaluations: every evaluation is attributed to
the operation during which it happened."""
from collections import Counter

import numpy as np
from kernelmethods.base import KernelMatrix, KernelSet, SumKernel
from kernelmethods.operations import linear_combination

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C04', 'exploration',
    'random sequences of reads on kernel matrices whose kernel logs the pair of rows of '
    'each evaluation; the log is checked against the pairs each operation may evaluate '
    'and against the at-most-once bound; distinct by configuration and sequence',
    ['single-threaded use; normalization succeeds'])

# operations that may evaluate everything
WHOLE = ('full', 'sparse', 'normed', 'centered', 'frob', 'all', 'center()',
         'normalize()')
NORMALIZING = ('normed', 'normalize()')


def _pairs(two, ids1, ids2, rows, cols):
    out = set()
    for i in rows:
        for j in cols:
            a, b = ids1[i], ids2[j]
            out.add((a, b) if two or a <= b else (b, a))
    return out


class Tracker(object):
    """Checks the log of one kernel matrix, operation by operation"""

    def __init__(self, c, k, X, Y, normed):
        self.c, self.k, self.normed = c, k, normed
        self.two = Y is not None
        self.ids1 = X[:, 0].astype(int).tolist()
        self.ids2 = (X if Y is None else Y)[:, 0].astype(int).tolist()
        self.pairs = Counter()
        self.selfs = Counter()
        self.pos = len(k.calls)
        self.may_normalize = False

    def allowed(self, name, arg):
        n1, n2 = len(self.ids1), len(self.ids2)
        if name in WHOLE:
            rows, cols = range(n1), range(n2)
        elif name == 'diag':
            return set((a, a) for a in self.ids1)
        elif name == 'elem':
            rows, cols = [arg[0]], [arg[1]]
        elif name == 'lin':
            rows, cols = [arg // n2], [arg % n2]
        elif name == 'row':
            rows, cols = [arg[0]], range(n2)
        elif name == 'sub':
            rows, cols = arg
        else:
            return set()
        return _pairs(self.two, self.ids1, self.ids2, rows, cols)

    def after(self, name, arg):
        c = self.c
        new = self.k.calls[self.pos:]
        self.pos = len(self.k.calls)
        c.count('evaluations', len(new))
        c.count('operations')
        allowed = self.allowed(name, arg)
        normalizing = name in NORMALIZING or \
            (self.normed and name in ('full', 'sparse'))
        self.may_normalize |= normalizing
        for a, b in new:
            key = (a, b) if self.two or a <= b else (b, a)
            if self.two and a == b and normalizing and \
                    self.selfs[a] < (a in self.ids1) + (a in self.ids2):
                # same ids on both sides: attribute to the cross matrix if still missing
                if key in allowed and not self.pairs[key]:
                    self.pairs[key] += 1
                else:
                    self.selfs[a] += 1
                continue
            c.ok(key in allowed,
                 '{}{} evaluated the kernel on rows {} it does not need'.format(
                     name, '' if arg is None else arg, key))
            c.ok(self.pairs[key] == 0,
                 '{}{} evaluated the kernel on rows {} again'.format(
                     name, '' if arg is None else arg, key))
            self.pairs[key] += 1

    def total(self):
        n1, n2 = len(self.ids1), len(self.ids2)
        if self.two:
            limit = n1 * n2 + (n1 + n2 if self.may_normalize else 0)
        else:
            limit = n1 * (n1 + 1) // 2
        num = sum(self.pairs.values()) + sum(self.selfs.values())
        self.c.ok(num <= limit, '{} evaluations, at most {} allowed'.format(num, limit))
        self.c.count('matrices')


@check.scenario(quick=5000, thorough=80000,
                required=['evaluations', 'operations', 'matrices', 'attached',
                          'repeats'])
def one_matrix(c):
    two, normed = c.chance(0.5), c.chance(0.5)
    tag = gen.Tagged(c, symmetric=not two)
    k = gen.RecordingKernel(tag)
    km = KernelMatrix(k, normalized=normed)
    seqs = []
    for _ in range(c.randint(1, 2)):
        n1, n2 = gen.two_sizes(c, c.pick([6, 14]))
        d = 2 if c.chance(0.8) else c.pick([1, 5, 40, 150])
        X = tag.rows(n1, d)
        Y = None if not two else X if c.chance(0.1) else tag.rows(n2, d)
        if c.chance(0.15):
            X.setflags(write=False)
        before = len(k.calls)
        ref.attach(km, X, Y)
        c.ok(len(k.calls) == before, 'attach_to evaluated the kernel')
        c.count('attached')
        tracker = Tracker(c, k, X, Y, normed)
        views = ref.Views(c)
        model = ref.Model(tag.matrix(X, Y), normed, tag.diag(X),
                          tag.diag(Y) if two else None, two=two)
        names = ref.Views.TWO if two else ref.Views.ONE
        seq = [c.pick(names) for _ in range(c.randint(2, 14))]
        if c.chance(0.5):
            # mostly partial reads, before anything is complete
            part = [n for n in names if n not in WHOLE]
            seq = [c.pick(part) for _ in range(c.randint(3, 12))] + seq
        args = [views.arg(name, model.shape) for name in seq]
        if c.chance(0.5):
            seq, args = seq + seq[:5], args + args[:5]
            c.count('repeats')
        for name, arg in zip(seq, args):
            views.check(km, model, name, arg)
            tracker.after(name, arg)
        tracker.total()
        seqs.append((n1, None if Y is None else n2, tuple(seq)))
    c.note(two=two, normed=normed, seqs=seqs)


@check.scenario(quick=1500, thorough=20000, required=['evaluations', 'refused'])
def refused_and_free_operations(c):
    """refused indices, attributes, descriptions and sizes evaluate nothing"""
    two, normed = c.chance(0.5), c.chance(0.5)
    tag = gen.Tagged(c, symmetric=not two)
    k = gen.RecordingKernel(tag)
    km = KernelMatrix(k, normalized=normed)
    n1, n2 = gen.two_sizes(c, 8)
    X, Y = tag.rows(n1), tag.rows(n2) if two else None
    n2 = n2 if two else n1
    ref.attach(km, X, Y)
    tracker = Tracker(c, k, X, Y, normed)
    views = ref.Views(c)
    model = ref.Model(tag.matrix(X, Y), normed, tag.diag(X),
                      tag.diag(Y) if two else None, two=two)
    from kernelmethods.config import KMAccessError
    for _ in range(c.randint(3, 10)):
        how = c.randint(0, 6)
        if how == 0:
            c.raises(KMAccessError, lambda: km[0, n2], 'index out of range')
        elif how == 1:
            c.raises(KMAccessError, lambda: km[range(n1), 'abc'], 'string index')
        elif how == 2:
            c.raises(KMAccessError, lambda: km[:, []], 'empty index')
        elif how == 3:
            km.set_attr('a', 1), km.get_attr('a'), km.attributes()
        elif how == 4:
            str(km), repr(km)
        elif how == 5:
            km.size, km.shape, len(km), km.num_samples
        else:
            name = c.pick(['elem', 'sub', 'row'])
            arg = views.arg(name, model.shape)
            views.check(km, model, name, arg)
            tracker.after(name, arg)
            continue
        c.count('refused')
        c.checks += 1
        tracker.after('none', how)
    views.check(km, model, 'full')
    tracker.after('full', None)
    tracker.total()
    c.note(two=two, normed=normed, n=(n1, n2))


@check.scenario(quick=800, thorough=10000, required=['evaluations', 'shared'])
def sets_and_composites(c):
    """using a matrix in sets, composites and combinations does not recompute it"""
    tag = gen.Tagged(c)
    n = c.size(2, 9)
    X = tag.rows(n)
    kms, trackers = [], []
    for _ in range(c.pick([2, 2, 3, 3, 4, 6, 9])):
        k = gen.RecordingKernel(gen.Tagged(c))
        normed = c.chance(0.5)
        km = KernelMatrix(k, normalized=normed)
        kms.append(km)
    ks = KernelSet(kms)
    ks.attach_to(X)
    for km in kms:
        c.ok(len(km.kernel.calls) == 0, 'KernelSet.attach_to evaluated the kernel')
        trackers.append(Tracker(c, km.kernel, X, None, True))
    for _ in range(c.randint(1, 3)):
        how = c.randint(0, 2)
        if how == 0:
            SumKernel(ks).fit()
        elif how == 1:
            linear_combination(ks, [1.0] * ks.size)
        else:
            [km.full for km in ks]
        for tr in trackers:
            tr.after('full', None)
        c.count('shared')
    for tr in trackers:
        tr.total()
    c.note(n=n, size=ks.size)


@check.scenario(quick=4, thorough=12, required=['evaluations'])
def bigger(c):
    two = c.index % 2 == 1
    tag = gen.Tagged(c, symmetric=not two)
    k = gen.RecordingKernel(tag)
    X = tag.rows(c.randint(100, 160), 1)
    Y = tag.rows(c.randint(100, 160), 1) if two else None
    km = KernelMatrix(k, normalized=True)
    ref.attach(km, X, Y)
    tracker = Tracker(c, k, X, Y, True)
    for name in ('row', 'sub', 'elem', 'full', 'all', 'sparse', 'frob', 'normed'):
        arg = ref.Views(c).arg(name, km.shape)
        ref.Views(c).read(km, name, arg)
        tracker.after(name, arg)
    tracker.total()
    c.note(n=km.shape)
