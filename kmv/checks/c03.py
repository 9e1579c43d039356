"""C03: attaching a new sample leaves nothing of the previous one behind."""
import numpy as np
from kernelmethods.base import KernelMatrix

from kmv import gen, ref
from kmv.core import Check

check = Check(
    'C03', 'exploration',
    'random histories of attach_to (one/two samples, same/other shapes, same array '
    'changed in place, rejected attaches) interleaved with reads and attributes; after '
    'each attach all views, sizes and the description are compared with those of the new '
    'sample(s); distinct by history',
    ['samples are not modified by the caller while attached'])


def _reject(c, km, tag, state):
    """An attach_to that must be refused"""
    d = state['d']
    good = tag.rows(c.randint(1, 4), d)
    how = c.pick(['dim_mismatch', 'one_1d', 'one_3d', 'two_1d', 'two_3d', 'one_0d'])
    bad3 = np.ones((2, 3, 4))
    if how == 'dim_mismatch':
        args = dict(sample_one=good, sample_two=tag.rows(c.randint(1, 5), d + 1))
    elif how == 'one_1d':
        args = dict(sample_one=np.arange(1.0, 5.0))
        if c.chance(0.5):
            args['sample_two'] = good
    elif how == 'one_3d':
        args = dict(sample_one=bad3)
    elif how == 'one_0d':
        args = dict(sample_one=np.array(3.0))
    elif how == 'two_1d':
        args = dict(sample_one=good, sample_two=np.arange(1.0, 5.0))
    else:
        args = dict(sample_one=good, sample_two=bad3)
    c.raises((ValueError, TypeError),
             lambda: km.attach_to(name_one='rejected', name_two='rejected', **args),
             'attach_to with ' + how)
    c.count('rejected')
    c.log('reject', how)
    return how


def _similar(c, tag, X, Y):
    """Another sample made of mostly the same rows"""
    how = c.pick(['permuted', 'one_row', 'last_row', 'swapped', 'reversed', 'same',
                  'subset', 'repeat', 'both_same', 'copy_two'])
    new = np.array(X)
    n = len(new)
    c.log('similar', how)
    if how == 'permuted':
        new = new[c.rng.permutation(n)]
    elif how == 'one_row':
        new[c.randint(0, n - 1)] = tag.rows(1, X.shape[1])[0]
    elif how == 'last_row':
        new[-1] = tag.rows(1, X.shape[1])[0]
    elif how == 'reversed':
        new = new[::-1]
    elif how == 'subset':
        new = new[:c.randint(1, n)]
    elif how == 'repeat':
        new = new[c.rng.integers(n, size=n)]
    elif how == 'both_same':
        return X, X
    elif how == 'copy_two':
        return new, new.copy()
    elif how == 'swapped' and Y is not None:
        return Y, X
    if Y is not None and c.chance(0.3):
        return X, (Y[c.rng.permutation(len(Y))] if c.chance(0.5) else new)
    return new, Y


def _attach(km, X, Y, name, name_two):
    args = dict() if name == 'sample' else dict(name_one=name)
    if Y is not None:
        args['sample_two'] = Y
        if name_two != 'omitted':
            args['name_two'] = name_two
    km.attach_to(X, **args)


@check.scenario(quick=5000, thorough=80000,
                required=['attached', 'rejected', 'inplace', 'switched', 'attrs',
                          'views_compared', 'same_shape', 'similar'])
def histories(c):
    normed = c.chance(0.5)
    tag = gen.Tagged(c, symmetric=True)
    k = gen.RecordingKernel(tag)
    km = KernelMatrix(k, normalized=normed)
    views = ref.Views(c)
    hist = []
    state, model, prev_two = None, None, None
    shape = gen.two_sizes(c, 8)
    for step in range(c.randint(2, 7) if c.chance(0.97) else c.randint(8, 24)):
        # a new sample
        how = c.pick(['fresh', 'fresh', 'same_shape', 'inplace', 'reject', 'similar'])
        if state is None:
            how = 'fresh'
        if how == 'reject':
            before = str(km)
            attrs = dict(km.attributes())
            hist.append(_reject(c, km, tag, state))
            c.ok(str(km) == before, 'description changed by a rejected attach',
                 before, str(km))
            c.ok(dict(km.attributes()) == attrs,
                 'attributes changed by a rejected attach', attrs, km.attributes())
            views.check_all(km, model, where=' after rejected {}'.format(hist[-1]))
            continue
        d = c.pick([1, 2, 3]) if state is None or how == 'fresh' else state['d']
        two = c.chance(0.5)
        if how == 'fresh':
            shape = gen.two_sizes(c, 8)
        if how == 'inplace':
            X, Y = state['X'], state['Y']
            two = Y is not None
            X[...] = tag.rows(*X.shape)
            if Y is not None and c.chance(0.7):
                Y[...] = tag.rows(*Y.shape)
            if c.chance(0.2):
                Y, two = None, False
            c.count('inplace')
        elif how == 'similar':
            X, Y = _similar(c, tag, state['X'], state['Y'])
            two = Y is not None
            c.count('similar')
        else:
            X = tag.rows(shape[0], d)
            Y = tag.rows(shape[1], d) if two else None
            if how == 'same_shape':
                c.count('same_shape')
                if two and c.chance(0.4) and state['X'].shape[0] == shape[0]:
                    X = state['X']  # only the second sample is new
        if prev_two is not None and prev_two != two:
            c.count('switched')
        prev_two = two
        name = c.pick(['s{}'.format(step), 'train', 'train', 'sample'])
        name_two = c.pick(['omitted', None, name + '_two', 'test'])
        _attach(km, X, Y, name, name_two)
        hist.append((how, X.shape, None if Y is None else Y.shape))
        c.log('attach', how, X.shape, None if Y is None else Y.shape)
        c.count('attached')
        c.ok(dict(km.attributes()) == {} and km.get_attr('tag', 'gone') == 'gone',
             'attributes survive attach_to', km.attributes())
        twin = KernelMatrix(k, normalized=normed)
        _attach(twin, X, Y, name, name_two)
        c.ok(str(km) == str(twin), 'description is not that of the new sample',
             str(km), str(twin))
        model = ref.Model(tag.matrix(X, Y), normed, tag.diag(X),
                          tag.diag(Y) if two else None, two=two)
        state = dict(X=X, Y=Y, d=d)
        names = views.names(model)
        for _ in range(c.randint(0, 6)):
            views.check(km, model, c.pick(names), where=' after attach')
        if c.chance(0.5):
            km.set_attr('tag', step)
            km.set_attr(('k', step), [step])
            c.count('attrs')
            c.ok(km.get_attr('tag') == step, 'attribute not stored')
    # history only in short; the final state in full
    c.note(hist=hist, normed=normed)
    views.check_all(km, model, where=' at the end')


@check.scenario(quick=1000, thorough=10000, required=['attached', 'views_compared'])
def after_failed_normalization(c):
    """a sample that can not be normalized leaves no trace for the next one"""
    tag = gen.Tagged(c)
    zero = set()

    class Zeroing(gen.RecordingKernel):
        def __call__(self, x, y):
            val = super().__call__(x, y)
            return 0.0 if int(np.ravel(x)[0]) in zero and \
                int(np.ravel(x)[0]) == int(np.ravel(y)[0]) else val

    from kernelmethods.config import KMNormError
    k = Zeroing(tag)
    km = KernelMatrix(k, normalized=True)
    two = c.chance(0.5)
    n = c.size(2, 6)
    X = tag.rows(n)
    Y = tag.rows(c.size(2, 6)) if two else None
    zero.add(int(X[c.randint(0, n - 1), 0]))
    ref.attach(km, X, Y)
    for _ in range(2):
        c.raises(KMNormError, lambda: km.full, 'zero self-similarity')
    zero.clear()
    two2 = c.chance(0.5)
    X2 = tag.rows(n if c.chance(0.6) else c.randint(1, 6))
    Y2 = tag.rows(c.randint(1, 6)) if two2 else None
    c.note(n=n, two=two, two2=two2, n2=X2.shape[0])
    ref.attach(km, X2, Y2)
    c.count('attached')
    model = ref.Model(tag.matrix(X2, Y2), True, tag.diag(X2),
                      tag.diag(Y2) if two2 else None, two=two2)
    ref.Views(c).check_all(km, model)


@check.scenario(quick=1000, thorough=10000, required=['attached', 'compared'])
def close_samples(c):
    """samples that differ by very little are different samples"""
    k = gen.KernelFromCallable(gen.plain_dot, name='pd')
    normed = c.chance(0.3)
    km = KernelMatrix(k, normalized=normed)
    n, d = c.size(2, 8), c.dim(1, 4)
    X = c.rng.normal(size=(n, d)) * 10.0 ** c.randint(-3, 3)
    X[np.abs(X) < 1e-3] += 1e-2
    Y = X[: c.randint(1, n)].copy() if c.chance(0.3) else None
    hows = []
    for step in range(c.randint(2, 4)):
        ref.attach(km, X, Y, 'same name')
        c.count('attached')
        K = ref.gram(k, X, Y)
        where = 'after {}'.format(hows)
        if normed:
            dy = X if Y is None else Y
            want = K / np.sqrt(np.outer((X * X).sum(1), (dy * dy).sum(1)))
            c.same(km.full, want, 'full ' + where, rtol=1e-13, atol=1e-15)
        elif c.chance(0.8):
            c.same(km.full, K, 'full ' + where, rtol=1e-14)
        i, j = c.randint(0, K.shape[0] - 1), c.randint(0, K.shape[1] - 1)
        c.same(km[i, j], K[i:i + 1, j:j + 1], 'element ' + where, rtol=1e-14)
        c.same(km[:, :], K, 'submatrix ' + where, rtol=1e-14)
        if Y is None:
            c.same(km.diagonal(), np.diag(K), 'diagonal ' + where, rtol=1e-14)
            c.same(km.centered, ref.center(K), 'centered ' + where, rtol=1e-12,
                   atol=1e-14 * np.abs(K).max() * n)
        c.same(km.frob_norm, np.linalg.norm(K), 'frob_norm ' + where, rtol=1e-14)
        c.count('compared')
        how = c.pick(['scale', 'shift', 'one_value', 'negate', 'f4', 'offset'])
        eps = 10.0 ** -c.randint(4, 11)
        hows.append((how, eps))
        X = np.array(X)
        if how == 'scale':
            X *= 1 + eps
        elif how == 'shift':
            X += eps * np.abs(X).max()
        elif how == 'one_value':
            X[c.randint(0, n - 1), c.randint(0, d - 1)] *= 1 + eps
        elif how == 'negate':
            X = -X
        elif how == 'f4':
            X = X.astype('f4').astype('f8')
        else:
            X[:, 0] += 1.0
    c.note(n=n, d=d, two=Y is not None, normed=normed, hows=hows)


@check.scenario(quick=1000, thorough=10000, required=['attached', 'views_compared'])
def real_kernels(c):
    """library kernels, reused over many real samples of the same and other shapes"""
    k, kd = gen.kernel(c, 'nonneg', psd=True)
    normed = c.chance(0.5)
    km = KernelMatrix(k, normalized=normed)
    d, n = c.dim(1, 4), c.size(2, 10)
    descs = []
    for _ in range(c.randint(2, 4)):
        X, dX = gen.sample(c, n if c.chance(0.6) else c.randint(1, 10), d,
                           kind='uniform', dtype='f8', positive=True)
        Y = gen.sample(c, c.randint(1, 10), d, kind='uniform', dtype='f8',
                       positive=True)[0] if c.chance(0.4) else None
        descs.append((dX, None if Y is None else Y.shape))
        K = ref.gram(k, X, Y)
        rtol, atol = ref.tolerance(k, K, X, Y)
        model = ref.Model(K, normed, ref.self_sim(k, X),
                          None if Y is None else ref.self_sim(k, Y),
                          two=Y is not None)
        ok = min(model.dx.min(), model.dy.min()) > 1e-5
        ref.attach(km, X, Y)
        c.count('attached')
        ref.Views(c, rtol_raw=rtol, atol_raw=atol, rtol=1e-8, can_norm=ok).check_all(
            km, model)
    c.note(kernel=kd, hist=descs, normed=normed)
