"""C02: views do not depend on the order they are read in."""
import itertools

from kernelmethods.base import KernelMatrix

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C02', 'exploration',
    'enumerates all ordered pairs (thorough: triples) of views on every configuration '
    '(one/two samples x kept normalized or not x square/wide/tall), plus random longer '
    'sequences; every result of every step is compared with the reference model; '
    'distinct by configuration and sequence of views',
    ['kernel function is deterministic'])

CONFIGS = [(two, normed, shape)
           for two in (False, True) for normed in (False, True)
           for shape in ((3, 3), (2, 5), (5, 2), (1, 1))
           if two or shape in ((3, 3), (1, 1))]


def _space(length):
    out = []
    for two, normed, shape in CONFIGS:
        names = ref.Views.TWO if two else ref.Views.ONE
        names = [n for n in names if n not in ('info', 'str')]
        if length == 3 and shape == (1, 1):
            continue
        out += [(two, normed, shape, seq)
                for seq in itertools.product(names, repeat=length)]
    return out


PAIRS = _space(2)
TRIPLES = _space(3)


def _past(c, km, tag):
    """The matrix was attached to, and read on, other samples before"""
    for _ in range(c.pick([0, 1, 1, 2, 3, c.randint(4, 9)])):
        other = tag.rows(c.randint(1, 4))
        ref.attach(km, other, tag.rows(c.randint(1, 4)) if c.chance(0.5) else None)
        for name in range(c.randint(0, 2)):
            c.pick([lambda: km.full, lambda: km[0, 0], lambda: km.frob_norm,
                    lambda: km.normed_km])()
        c.count('earlier_samples')


def _drive(c, two, normed, shape, seq, retype=None, past=False):
    tag = gen.Tagged(c, symmetric=True if not two else c.chance(0.5))
    k = gen.RecordingKernel(tag, retype=retype)
    X = tag.rows(shape[0])
    Y = tag.rows(shape[1]) if two else None
    model = ref.Model(tag.matrix(X, Y), normed, tag.diag(X),
                      tag.diag(Y) if two else None, two=two)
    km = KernelMatrix(k, normalized=normed)
    if past:
        _past(c, km, tag)
    ref.attach(km, X, Y, c.pick(['sample', 'sample', 'train', 'a name with spaces']))
    views = ref.Views(c)
    marks = c.chance(0.3)
    for step, name in enumerate(seq):
        if marks and c.chance(0.6):
            km.set_attr('step{}'.format(step), step)
            c.count('attributes')
        views.check(km, model, name, where=' at step {} of {}'.format(step, seq))
        c.count('steps')
    # and every view once more after the sequence
    views.check_all(km, model, where=' after {}'.format(seq))


@check.scenario(quick=len(PAIRS), thorough=len(PAIRS),
                required=['steps', 'views_compared'])
def all_pairs(c):
    two, normed, shape, seq = PAIRS[c.index]
    c.note(two=two, normed=normed, shape=shape, seq=seq)
    _drive(c, two, normed, shape, seq)


@check.scenario(quick=4000, thorough=len(TRIPLES), required=['steps'])
def triples(c):
    """quick: random ones; thorough: all of them"""
    if c.tier == 'thorough':
        two, normed, shape, seq = TRIPLES[c.index]
    else:
        two, normed, shape, seq = c.pick(TRIPLES)
    c.note(two=two, normed=normed, shape=shape, seq=seq)
    _drive(c, two, normed, shape, seq, past=c.chance(0.3))


@check.scenario(quick=4000, thorough=60000,
                required=['steps', 'earlier_samples', 'attributes'])
def long_sequences(c):
    two, normed = c.chance(0.5), c.chance(0.5)
    n1, n2 = gen.two_sizes(c, c.pick([6, 20]))
    names = ref.Views.TWO if two else ref.Views.ONE
    seq = tuple(c.pick(names) for _ in range(c.randint(4, 25)))
    c.note(two=two, normed=normed, shape=(n1, n2 if two else n1), seq=seq)
    _drive(c, two, normed, (n1, n2 if two else n1), seq, past=c.chance(0.4))


@check.scenario(quick=1500, thorough=20000, required=['steps'])
def real_kernels(c):
    """library kernels on real data, views in random order, several times each"""
    two, normed = c.chance(0.5), c.chance(0.5)
    n1, n2 = gen.two_sizes(c, 16)
    k, kd = gen.kernel(c, 'nonneg', psd=True)
    d = c.pick([1, 2, 5])
    X, dX = gen.sample(c, n1, d, kind=c.pick(['uniform', 'normal']), dtype='f8',
                       positive=True)
    Y, dY = gen.sample(c, n2, d, kind='uniform', dtype='f8', positive=True) if two \
        else (None, '-')
    K = ref.gram(k, X, Y)
    rtol, atol = ref.tolerance(k, K, X, Y)
    model = ref.Model(K, normed, ref.self_sim(k, X),
                      None if Y is None else ref.self_sim(k, Y), two=two)
    if min(model.dx.min(), model.dy.min()) < 1e-5:
        normed_ok = False
    else:
        normed_ok = True
    c.note(kernel=kd, X=dX, Y=dY, normed=normed)
    km = KernelMatrix(k, normalized=normed)
    ref.attach(km, X, Y)
    views = ref.Views(c, rtol_raw=rtol, atol_raw=atol, rtol=1e-8, can_norm=normed_ok)
    names = views.names(model)
    for _ in range(c.randint(3, 15)):
        views.check(km, model, c.pick(names))
        c.count('steps')
    views.check_all(km, model)
