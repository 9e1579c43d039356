"""Reference model of the views of a kernel matrix."""
import numpy as np
from scipy.sparse import issparse


def gram(kernel, X, Y=None):
    """The kernel function called on the rows, outside of the library's classes"""
    if Y is None:
        n = X.shape[0]
        K = np.empty((n, n))
        for i in range(n):
            for j in range(i, n):
                K[i, j] = K[j, i] = kernel(X[i, :], X[j, :])
        return K
    return np.array([[kernel(x, y) for y in Y] for x in X],
                    dtype='f8').reshape(X.shape[0], Y.shape[0])


def self_sim(kernel, X):
    return np.array([kernel(x, x) for x in X], dtype='f8')


def tolerance(kernel, K, X, Y=None):
    """(rtol, atol): rounding differences correct code may show in raw values.

    The absolute part covers cancellation, in relation to the size of the terms."""
    single = X.dtype == np.float32 or (Y is not None and Y.dtype == np.float32)
    rel = 1e-4 if single else 1e-9
    scale = np.abs(K[np.isfinite(K)]).max() if np.isfinite(K).any() else 1.0
    if X.dtype.kind in 'fiub':
        with np.errstate(all='ignore'):
            ax = np.abs(X.astype('f8')).max(axis=0)
            ay = ax if Y is None else np.abs(Y.astype('f8')).max(axis=0)
            top = kernel(ax, ay)
        if np.isfinite(top):
            scale = max(scale, abs(float(top)))
    return rel, rel * scale


def cosine(K, dx, dy):
    return K / (np.sqrt(dx)[:, None] * np.sqrt(dy)[None, :])


def center(K):
    K = np.asarray(K, dtype='f8')
    return K - K.mean(axis=0)[None, :] - K.mean(axis=1)[:, None] + K.mean()


class Model(object):
    """What every view of an attached kernel matrix must return."""

    def __init__(self, K, normalized, dx=None, dy=None, two=False):
        self.K = np.asarray(K, dtype='f8')
        self.normalized, self.two = normalized, two
        if not two:
            dx = dy = np.diagonal(self.K)
        self.dx, self.dy = dx, dy
        self.shape = self.K.shape
        self._N = None

    @property
    def N(self):
        if self._N is None:
            with np.errstate(all='ignore'):
                self._N = cosine(self.K, self.dx, self.dy)
        return self._N


# each view: (name, needs one sample, reader(km, c), checker(c, model, got, arg))
def _dense(c, got, want, what, rtol, atol):
    c.ok(isinstance(got, np.ndarray) and not isinstance(got, np.matrix),
         '{} is not a dense numpy array but {}'.format(what, type(got)), got)
    c.same(got, want, what, rtol=rtol, atol=atol)


def _todense(got):
    return np.asarray(got.todense()) if issparse(got) else np.asarray(got)


class Views(object):
    """Reads any view of a KernelMatrix and compares it to the model.

    rtol_raw: allowed rounding in raw values (0: exact)."""

    ONE = ('full', 'sparse', 'normed', 'centered', 'frob', 'diag', 'elem', 'lin',
           'sub', 'all', 'center()', 'normalize()', 'info', 'row', 'str')
    TWO = ('full', 'sparse', 'normed', 'frob', 'elem', 'lin', 'sub', 'all',
           'normalize()', 'info', 'row', 'str')

    def __init__(self, c, rtol_raw=0.0, rtol=1e-9, can_norm=True, atol_raw=0.0):
        self.c, self.rtol_raw, self.rtol = c, rtol_raw, rtol
        self.atol_raw = atol_raw
        self.can_norm = can_norm

    def names(self, model):
        names = self.TWO if model.two else self.ONE
        if not self.can_norm:
            names = [n for n in names if n not in ('normed', 'normalize()')]
            if model.normalized:
                names = [n for n in names if n not in ('full', 'sparse')]
        return list(names)

    def arg(self, name, shape):
        """random argument of a view"""
        c = self.c
        if name == 'elem':
            return (c.randint(0, shape[0] - 1), c.randint(0, shape[1] - 1))
        if name == 'lin':
            return c.randint(0, shape[0] * shape[1] - 1)
        if name == 'row':
            return (c.randint(0, shape[0] - 1), slice(None))
        if name == 'sub':
            return tuple(self._some(num) for num in shape)
        return None

    def _some(self, num):
        c = self.c
        how = c.randint(0, 7)
        if how == 0:  # a block
            lo = c.randint(0, num - 1)
            return list(range(lo, c.randint(lo, num - 1) + 1))
        if how == 1:  # most
            return np.flatnonzero(c.rng.random(num) < 0.8).tolist() or [0]
        if how == 2:
            return list(range(0, num, c.randint(1, 3)))
        return sorted(set(c.rng.integers(num, size=c.randint(1, 4)).tolist()))

    def read(self, km, name, arg=None):
        """performs the read only"""
        if name == 'full':
            return km.full
        if name == 'sparse':
            return km.full_sparse
        if name == 'normed':
            return km.normed_km
        if name == 'centered':
            return km.centered
        if name == 'frob':
            return km.frob_norm
        if name == 'diag':
            return km.diagonal()
        if name in ('elem', 'sub', 'row', 'lin'):
            return km[arg]
        if name == 'all':
            return km[:, :]
        if name == 'center()':
            return km.center()
        if name == 'normalize()':
            return km.normalize()
        if name == 'info':
            return (km.shape, km.size, len(km), km.num_samples)
        if name == 'str':
            return str(km)
        raise ValueError(name)

    def compare(self, model, name, arg, got, where=''):
        c, K = self.c, model.K
        what = 'view {}{}{}'.format(name, '' if arg is None else repr(arg), where)
        scale = np.abs(K).max() or 1.0
        raw = self.rtol_raw
        # normalized values are products: their relative error stays tiny
        natol = 0.0 if raw == 0 and self.atol_raw == 0 else self.rtol * 1e-3
        if name == 'full':
            if model.normalized:
                _dense(c, got, model.N, what, self.rtol, natol)
            else:
                _dense(c, got, K, what, raw, self.atol_raw)
        elif name == 'sparse':
            if model.normalized:
                # normalized matrices are dense anyway
                c.same(_todense(got), model.N, what, rtol=self.rtol, atol=natol)
            else:
                c.ok(issparse(got), what + ' is not sparse: {}'.format(type(got)))
                c.same(_todense(got), K if model.two else np.triu(K), what, rtol=raw, atol=self.atol_raw)
        elif name == 'normed':
            _dense(c, got, model.N, what, self.rtol, natol)
        elif name == 'centered':
            c.ok(isinstance(got, np.ndarray), what + ' is not dense', got)
            c.same(got, center(K), what, rtol=self.rtol,
                   atol=scale * max(1e-14 * len(K), raw * 10) + 8 * self.atol_raw)
        elif name == 'frob':
            c.same(got, np.linalg.norm(K), what, rtol=max(self.rtol, raw * 10),
                   atol=self.atol_raw * np.sqrt(K.size))
        elif name == 'diag':
            c.same(got, np.diagonal(K), what, rtol=raw, atol=self.atol_raw)
        elif name == 'elem':
            c.same(got, K[arg[0]:arg[0] + 1, arg[1]:arg[1] + 1], what, rtol=raw, atol=self.atol_raw)
        elif name == 'lin':
            i, j = divmod(arg, model.shape[1])
            c.same(got, K[i:i + 1, j:j + 1], what, rtol=raw, atol=self.atol_raw)
        elif name == 'sub':
            c.same(got, K[np.ix_(*arg)], what, rtol=raw, atol=self.atol_raw)
        elif name == 'row':
            c.same(got, K[arg[0]:arg[0] + 1, :], what, rtol=raw, atol=self.atol_raw)
        elif name == 'all':
            _dense(c, got, K, what, raw, self.atol_raw)
        elif name in ('center()', 'normalize()'):
            pass
        elif name == 'str':
            c.ok(isinstance(got, str) and len(got) > 0, what)
        elif name == 'info':
            n1, n2 = model.shape
            shape, size, length, num = got
            c.ok(tuple(shape) == (n1, n2), what + ': shape', got)
            c.ok(size == n1 * n2 and length == n1 * n2, what + ': size / len', got)
            if model.two:
                c.ok(tuple(num) == (n1, n2), what + ': num_samples', got)
            else:
                c.ok(num == n1, what + ': num_samples', got)
        else:
            raise ValueError(name)
        c.count('views_compared')

    def check(self, km, model, name, arg=None, where=''):
        if arg is None:
            arg = self.arg(name, model.shape)
        self.c.log(name, arg)
        got = self.read(km, name, arg)
        self.compare(model, name, arg, got, where)
        return got

    def check_all(self, km, model, where='', shuffle=True):
        names = self.names(model)
        if shuffle:
            self.c.rng.shuffle(names)
        for name in names:
            self.check(km, model, name, where=where)


def attach(km, X, Y=None, name='sample'):
    if Y is None:
        km.attach_to(X, name_one=name)
    else:
        km.attach_to(X, name_one=name, sample_two=Y, name_two=name + '_two')
