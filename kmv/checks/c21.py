"""C21: user-defined attributes behave like a per-matrix dictionary."""
import numpy as np
from kernelmethods.base import (AverageKernel, KernelMatrix, KernelSet, ProductKernel,
                                SumKernel)
from kernelmethods.numeric_kernels import GaussianKernel, LinearKernel
from kernelmethods.sampling import KernelBucket, make_kernel_bucket

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C21', 'exploration',
    'random histories of set_attr, get_attr, attributes, reads of all views, attach_to '
    'and rejected operations on several matrices and sets, next to a model made of one '
    'dictionary per matrix; distinct by history')

NAMES = ['weight', 'w', '', 'kernel', 'name', 'full', 'size', '_attr', 5, None, (1, 2),
         'a b', 1.5, True, frozenset([3]), '_KM', 'shape', 'long name ' * 12,
         'n' * 31, 'n' * 32]


class Thing(object):
    pass


def _value(c):
    return c.pick([0, None, False, '', 'text', 3.5, [1, 2], [7], (), {'a': 1}, Thing(), np.arange(3),
                   float('nan'), Thing, [None], 'x' * 50, np.float64(2.0), b'by'])


def _same(a, b):
    return a is b or (type(a) is type(b) and repr(a) == repr(b))


MISSING = Thing()


class World(object):
    """matrices and the dictionaries they should hold"""

    def __init__(self, c, num):
        self.c = c
        self.kernel = LinearKernel()
        self.kms = [KernelMatrix(c.pick([self.kernel, GaussianKernel()]),
                                 normalized=c.chance(0.5)) for _ in range(num)]
        self.dicts = [dict() for _ in range(num)]

    def verify(self, what):
        c = self.c
        for i, (km, want) in enumerate(zip(self.kms, self.dicts)):
            got = km.attributes()
            c.ok(set(got.keys()) == set(want.keys()) and len(got) == len(want),
                 'attributes() of matrix {} {}'.format(i, what), dict(got), want)
            for name in NAMES + [n for n in want if n not in NAMES]:
                d = Thing()
                val = km.get_attr(name, d)
                if name in want:
                    c.ok(_same(val, want[name]) and _same(got[name], want[name]),
                         'value of {!r} in matrix {} {}'.format(name, i, what),
                         val, want[name])
                else:
                    c.ok(val is d, 'default for {!r} in matrix {} {}'.format(
                        name, i, what), val)
                    c.ok(km.get_attr(name) is None, 'implicit default')
            c.count('dicts_compared')


def _read(c, km):
    name = c.pick(['full', 'sparse', 'normed', 'centered', 'frob', 'diag', 'elem', 'sub',
                   'all', 'center()', 'normalize()', 'info', 'str'])
    views = ref.Views(c)
    return name, lambda: views.read(km, name, views.arg(name, km.shape))


@check.scenario(quick=3000, thorough=60000,
                required=['set', 'overwritten', 'attached', 'reads', 'rejected',
                          'two_samples', 'dicts_compared', 'many'])
def single(c):
    w = World(c, c.randint(1, 4))
    X = c.rng.random((5, 2)) + 0.2
    hist = []
    for _ in range(c.randint(4, 16)):
        i = c.randint(0, len(w.kms) - 1)
        km, model = w.kms[i], w.dicts[i]
        if c.chance(0.01):
            # many of them
            for j in range(c.randint(10, 60)):
                model['extra{}'.format(j)] = value = _value(c)
                km.set_attr('extra{}'.format(j), value)
                got = km.get_attr('extra{}'.format(j))
                c.ok(_same(got, value), 'value of one of many attributes', got, value)
            c.count('many')
        op = c.pick(['set', 'set', 'set', 'attach', 'read', 'read', 'reject', 'failread'])
        if op == 'set':
            name, value = c.pick(NAMES), _value(c)
            if name in model:
                c.count('overwritten')
            c.ok(km.set_attr(name, value) is None, 'set_attr returns nothing')
            # 1 == True as names
            model[name] = value
            c.count('set')
        elif op == 'attach':
            n = c.randint(2, 5)
            if c.chance(0.3):
                km.attach_to(X[:n], sample_two=X[1:])
                c.count('two_samples')
            else:
                km.attach_to(X[:n], name_one=c.pick(['s', 't']))
            model.clear()
            c.count('attached')
        elif op == 'read' and km.num_samples is not None:
            what, read = _read(c, km)
            try:
                read()
            except Exception:
                pass  # view not defined for two samples
            c.count('reads')
        elif op == 'reject':
            bad = c.pick([np.zeros(3), np.zeros((2, 2, 2))])
            try:
                km.attach_to(X, sample_two=c.rng.random((3, 5))) if c.chance(0.5) \
                    else km.attach_to(bad)
            except Exception:
                c.count('rejected')
            else:
                c.fail('an invalid sample was accepted')
        elif op == 'failread' and km.num_samples is not None:
            try:
                km[100, 0]
            except Exception:
                pass
        hist.append(op)
        w.verify('after ' + ','.join(hist))
    c.note(hist=hist, num=len(w.kms), salt=c.case_seed % 7)


@check.scenario(quick=3000, thorough=60000,
                required=['scalar', 'string', 'one_element', 'each', 'wrong_count',
                          'tagged', 'reads', 'subset', 'attached', 'dicts_compared'])
def sets(c):
    w = World(c, c.few(2, 5))
    X = c.rng.random((5, 2)) + 0.2
    if c.chance(0.5):
        for km in w.kms:
            km.attach_to(X)
    if c.chance(0.3):
        ks = KernelBucket(poly_degree_values=None, rbf_sigma_values=[1.0, 2.0],
                          laplace_gamma_values=[0.5], sigmoid_gamma_values=None,
                          sigmoid_offset_values=None)
        w.kms = [km for km in ks]
        w.dicts = [dict() for _ in w.kms]
        c.count('bucket')
    else:
        ks = KernelSet(w.kms)
    num = len(w.kms)
    outside = KernelMatrix(w.kms[0].kernel)
    hist = []
    for _ in range(c.randint(3, 12)):
        op = c.pick(['scalar', 'string', 'one', 'each', 'each', 'wrong', 'tag', 'attach',
                     'read', 'member', 'subset', 'composite'])
        name = c.pick(NAMES)
        if op in ('scalar', 'string'):
            value = c.pick([0, 3.5, None, False, np.float64(1.5), Thing()]) \
                if op == 'scalar' else c.pick(['', 'x', 'text', 'ab' * num, 'y' * num])
            ks.set_attr(name, value)
            for d in w.dicts:
                d[name] = value
            c.count(op)
        elif op == 'one':
            value = c.pick([4, 'only', None, [1, 2], Thing()])
            ks.set_attr(name, c.pick([[value], (value,)]))
            for d in w.dicts:
                d[name] = value
            c.count('one_element')
        elif op == 'each':
            values = [c.pick([j, 'v{}'.format(j), [j], Thing()]) for j in range(num)]
            ks.set_attr(name, c.pick([values, tuple(values)]))
            for d, v in zip(w.dicts, values):
                d[name] = v
            c.count('each')
        elif op == 'wrong':
            count = c.pick([n for n in range(0, num + 4) if n not in (1, num)])
            values = list(range(count))
            c.raises(ValueError, lambda: ks.set_attr(name, values),
                     '{} values for {} matrices'.format(count, num))
            c.count('wrong_count')
        elif op in ('tag', 'attach'):
            n = 5
            sample = c.rng.random((n, c.randint(1, 3))) + 0.1
            value = _value(c)
            tag = name if name is not None else 'tagname'
            if op == 'tag':
                ks.attach_to(sample, name='s', attr_name=tag, attr_value=value)
            else:
                ks.attach_to(sample)
            for d in w.dicts:
                d.clear()
                if op == 'tag':
                    d[tag] = value
            c.count('tagged' if op == 'tag' else 'attached')
        elif op == 'read' and w.kms[0].num_samples is not None:
            what, read = _read(c, c.pick(w.kms))
            read()
            c.count('reads')
        elif op == 'member':
            i = c.randint(0, num - 1)
            value = _value(c)
            ks[i].set_attr(name, value)
            w.dicts[i][name] = value
        elif op == 'subset':
            idx = sorted(c.rng.choice(num, size=c.randint(1, num), replace=False).tolist())
            sub = ks.take(idx)
            d = Thing()
            got = sub.get_attr(name, d)
            c.ok(len(got) == len(idx) and all(
                _same(g, w.dicts[i].get(name, d)) for g, i in zip(got, idx)),
                 'attributes of a subset', got)
            c.count('subset')
        elif op == 'composite' and w.kms[0].num_samples is not None:
            comp = c.pick([SumKernel, ProductKernel, AverageKernel])(ks)
            comp.fit()
        hist.append(op)
        w.verify('after ' + ','.join(hist))
        for nm in NAMES[:4] + [name]:
            d = Thing()
            got = ks.get_attr(nm, d)
            want = [x.get(nm, d) for x in w.dicts]
            c.ok(isinstance(got, list) and len(got) == num
                 and all(_same(g, v) for g, v in zip(got, want)),
                 'get_attr({!r}) of the set after {}'.format(nm, hist), got, want)
            got = ks.get_attr(nm)
            c.ok(all(_same(g, x.get(nm)) for g, x in zip(got, w.dicts)),
                 'default of get_attr of the set', got)
        c.ok(len(outside.attributes()) == 0, 'a matrix outside of the set is untouched')
    c.note(hist=hist, num=num)
