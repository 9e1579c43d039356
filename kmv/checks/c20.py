"""C20: concurrent reads of a kernel matrix are correct.

Interleavings are controlled, not hoped for: a reader is stopped at every kernel
evaluation, at every line and (thorough) at every bytecode of the library, while others
read; plus free-running stress with a tiny switch interval."""
import os
import sys
import threading
import time
from copy import deepcopy

import kernelmethods
import numpy as np
from scipy.sparse import issparse

from kernelmethods.algorithms import (KernelMachine, KernelMachineRegressor,
                                      OptimalKernelSVC, OptimalKernelSVR)
from kernelmethods.base import KernelMatrix
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.numeric_kernels import (Chi2Kernel, GaussianKernel, HadamardKernel,
                                           LaplacianKernel, LinearKernel, PolyKernel,
                                           SigmoidKernel)
from kernelmethods.sampling import KernelBucket
from kmv import gen, ref
from kmv.core import BIG_SIZES, Check, Inconclusive
from kmv.sched import Worker

check = Check(
    'C20', 'exploration',
    'schedules: reader A of each view paused at each kernel evaluation / library line / '
    'bytecode while reader B of each view runs (or is itself paused, A resuming first), '
    'one and two samples, normalized or not; free-running threads with random delays; '
    'distinct by views and pause point',
    ['attaching is not concurrent with reading'])

SOURCES = os.path.dirname(os.path.realpath(kernelmethods.__file__)) + os.sep

SHAPES = [((3, 3), False), ((2, 3), True), ((2, 2), False), ((3, 2), True)]


def _copy(res):
    """what the reader sees at this moment"""
    if issparse(res):
        return res.copy()
    return np.array(res) if isinstance(res, np.ndarray) else res


class Setup(object):
    def __init__(self, c, shape, two, normalized, delay=None, prior=(), apart=False):
        self.c = c
        self.tag = tag = gen.Tagged(c, symmetric=not two)
        self.X = tag.rows(shape[0])
        self.Y = tag.rows(shape[1]) if two else None
        self.workers = []
        self.delay = delay
        self.kern = gen.RecordingKernel(tag, before=self._before)
        self.km = KernelMatrix(self.kern, normalized=normalized)
        ref.attach(self.km, self.X, self.Y)
        self.model = ref.Model(tag.matrix(self.X, self.Y), normalized, tag.diag(self.X),
                               tag.diag(self.Y) if two else None, two)
        self.views = ref.Views(c)
        # what was read before the concurrent readers start
        for view, arg in prior:
            self.views.read(self.km, view, arg)
        # a second matrix of the same kernel function and samples
        self.km_b, self.model_b = self.km, self.model
        if apart:
            self.km_b = KernelMatrix(self.kern, normalized=not normalized)
            ref.attach(self.km_b, self.X, self.Y)
            self.model_b = ref.Model(tag.matrix(self.X, self.Y), not normalized,
                                     tag.diag(self.X),
                                     tag.diag(self.Y) if two else None, two)

    def _before(self, count, a, b):
        for w in self.workers:
            w.evaluation()
        if self.delay is not None:
            self.delay()

    def reader(self, view, arg, pause_at=None, unit='line', second=False):
        km = self.km_b if second else self.km
        w = Worker(lambda: _copy(self.views.read(km, view, arg)), SOURCES, pause_at, unit)
        w.model = self.model_b if second else self.model
        self.workers.append(w)
        return w

    def verdict(self, w, view, arg, what):
        c = self.c
        if not w.done.is_set():
            c.fail('{}: reader of {} never finished'.format(what, view))
        if w.error is not None:
            c.fail('{}: reader of {} raised {!r}'.format(what, view, w.error))
        self.views.compare(w.model, view, arg, w.result, ' ({})'.format(what))

    def afterwards(self, what):
        self.views.check_all(self.km, self.model, ' later, ' + what)
        if self.km_b is not self.km:
            self.views.check_all(self.km_b, self.model_b, ' of the second, later, ' + what)


VIEWS = {False: [v for v in ref.Views.ONE if v not in ('info', 'str', 'lin')],
         True: [v for v in ref.Views.TWO if v not in ('info', 'str', 'lin')]}


def _pairs():
    out = []
    for shape, two in SHAPES:
        for normalized in (False, True):
            for va in VIEWS[two]:
                for vb in VIEWS[two]:
                    out.append((shape, two, normalized, va, vb))
    return out


PAIRS = _pairs()


def _prior(c, shape, two):
    """views read before the readers under test start: nothing, or a few"""
    if c.chance(0.5):
        return ()
    views = ref.Views(c)
    names = [c.pick(VIEWS[two]) for _ in range(c.randint(1, 3))]
    c.count('read_before')
    return tuple((v, views.arg(v, shape)) for v in names)


def _one_preemption(c, conf, unit, points, prior=(), apart=False):
    """A paused at a point, B runs to the end, A resumes"""
    shape, two, normalized, va, vb = conf
    for at in points:
        s = Setup(c, shape, two, normalized, prior=prior, apart=apart)
        arg_a, arg_b = s.views.arg(va, shape), s.views.arg(vb, shape)
        A = s.reader(va, arg_a, at, unit)
        paused = A.run_to_pause()
        B = s.reader(vb, arg_b, second=apart)
        B.unit = 'none'
        B.start()
        B.thread.join(0.5 if paused else 60)
        if B.thread.is_alive():
            c.count('infeasible')
            A.finish()
            B.finish()
        A.finish()
        what = '{} paused at {} {} ({}), then {}{}{}'.format(
            va, unit, at, A.where, vb, ' of another matrix' if apart else '',
            ', having read {}'.format([v for v, _ in prior]) if prior else '')
        s.verdict(A, va, arg_a, what)
        s.verdict(B, vb, arg_b, what)
        s.afterwards(what)
        c.count('schedules')
        c.count('paused', A.was_paused)
        if not A.was_paused:
            break


def _count_points(c, conf, unit, prior=()):
    """number of pause points of A alone"""
    shape, two, normalized, va, vb = conf
    s = Setup(c, shape, two, normalized, prior=prior)
    A = s.reader(va, s.views.arg(va, shape), None, unit)
    A.run_to_pause()
    A.finish()
    if A.error is not None:
        c.fail('reader of {} raised {!r}'.format(va, A.error))
    return A.count


@check.scenario(quick=len(PAIRS), thorough=2 * len(PAIRS),
                required=['schedules', 'paused', 'views_compared', 'read_before',
                          'apart'])
def paused_in_kernel(c):
    """all kernel evaluations of A"""
    conf = PAIRS[c.index % len(PAIRS)]
    prior = _prior(c, conf[0], conf[1])
    apart = c.chance(0.2)
    c.note(conf=conf, prior=[v for v, _ in prior], apart=apart)
    _one_preemption(c, conf, 'eval', range(1, 50), prior, apart)
    c.count('apart', apart)


@check.scenario(quick=len(PAIRS), thorough=4 * len(PAIRS),
                required=['schedules', 'paused', 'views_compared', 'read_before',
                          'apart'])
def paused_at_line(c):
    """lines of the library executed by A: all near the end, others sampled (quick)"""
    conf = PAIRS[c.index % len(PAIRS)]
    prior = _prior(c, conf[0], conf[1])
    apart = c.chance(0.2)
    num = _count_points(c, conf, 'line', prior)
    if c.tier == 'thorough':
        points = list(range(1, num + 1))
    else:
        points = set(range(max(1, num - 9), num + 1))
        points |= set(c.rng.integers(1, num + 1, size=8).tolist())
    c.note(conf=conf, prior=[v for v, _ in prior], apart=apart)
    _one_preemption(c, conf, 'line', sorted(points), prior, apart)
    c.count('line_points', num)
    c.count('apart', apart)


@check.scenario(quick=200, thorough=2 * len(PAIRS), required=['schedules', 'paused'])
def paused_at_bytecode(c):
    conf = PAIRS[int(c.rng.integers(len(PAIRS)))] if c.tier == 'quick' \
        else PAIRS[c.index % len(PAIRS)]
    prior = _prior(c, conf[0], conf[1])
    num = _count_points(c, conf, 'opcode', prior)
    if num == 0:  # the interpreter starts to report bytecodes from the next trace on
        num = _count_points(c, conf, 'opcode', prior)
    if num == 0:
        c.count('no_bytecode_events')
        c.ok(True, 'nothing to pause at')
        return
    size = 12 if c.tier == 'quick' else 150
    points = set(c.rng.integers(1, num + 1, size=size).tolist()) | \
        set(range(max(1, num - size), num + 1))
    c.note(conf=conf, salt=c.case_seed)
    _one_preemption(c, conf, 'opcode', sorted(points), prior)


@check.scenario(quick=1500, thorough=40000, required=['both_paused', 'views_compared'])
def two_preemptions(c):
    """A paused, B paused, then A to its end, then B; or in turn with a third reader"""
    shape, two, normalized, va, vb = PAIRS[int(c.rng.integers(len(PAIRS)))]
    unit = c.pick(['eval', 'line', 'line', 'opcode'])
    top = {'eval': 6, 'line': 90, 'opcode': 900}[unit]
    prior = _prior(c, shape, two)
    apart = c.chance(0.2)
    s = Setup(c, shape, two, normalized, prior=prior, apart=apart)
    arg_a, arg_b = s.views.arg(va, shape), s.views.arg(vb, shape)
    A = s.reader(va, arg_a, c.randint(1, top), unit)
    B = s.reader(vb, arg_b, c.randint(1, top), unit, second=apart)
    c.note(conf=(shape, two, normalized, va, vb), unit=unit, a=A.pause_at, b=B.pause_at,
           prior=[v for v, _ in prior], apart=apart)
    A.run_to_pause()
    B.start()
    B.wait_pause(0.5 if A.was_paused else 60)
    if A.was_paused and B.was_paused:
        c.count('both_paused')
    vc = c.pick(VIEWS[two])
    arg_c = s.views.arg(vc, shape)
    third = None
    if c.chance(0.5):
        third = s.reader(vc, arg_c)
        third.unit = 'none'
        third.start()
        third.thread.join(0.5)
    if c.chance(0.5):
        A.finish(1.0)
        B.finish()
    else:
        B.finish(1.0)
    A.finish()
    B.finish()
    what = '{} {}@{}, {} {}@{}'.format(unit, va, A.pause_at, unit, vb, B.pause_at)
    s.verdict(A, va, arg_a, what)
    s.verdict(B, vb, arg_b, what)
    if third is not None:
        third.finish()
        s.verdict(third, vc, arg_c, what)
        c.count('third_reader')
    s.afterwards(what)


@check.scenario(quick=250, thorough=5000, required=['reads', 'threads'])
def stress(c):
    """free-running threads, tiny switch interval, random delays in the kernel"""
    two = c.chance(0.4)
    shape = gen.two_sizes(c, 6, BIG_SIZES) if two else (c.randint(2, 6),) * 2
    normalized = c.chance(0.5)
    sleeps = c.rng.random(256) * 2e-4
    counter = [0]

    def delay():
        counter[0] += 1
        if counter[0] % 3 == 0:
            time.sleep(sleeps[counter[0] % 256])

    s = Setup(c, shape, two, normalized, delay)
    names = [v for v in (ref.Views.TWO if two else ref.Views.ONE)]
    plans = []
    for t in range(c.randint(2, 6)):
        plan = []
        for _ in range(c.randint(1, 6)):
            v = c.pick(names)
            plan.append((v, s.views.arg(v, shape)))
        plans.append(plan)
    out = [[] for _ in plans]
    barrier = threading.Barrier(len(plans))

    def run(i):
        barrier.wait()
        for v, a in plans[i]:
            try:
                out[i].append((v, a, _copy(s.views.read(s.km, v, a)), None))
            except BaseException as exc:
                out[i].append((v, a, None, exc))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=run, args=(i,), daemon=True)
                   for i in range(len(plans))]
        for t in threads:
            t.start()
        for t in threads:
            t.join(60)
        if any(t.is_alive() for t in threads):
            c.fail('readers never finished')
    finally:
        sys.setswitchinterval(old)
    for i, plan in enumerate(out):
        for v, a, res, exc in plan:
            if exc is not None:
                c.fail('thread {}: view {} raised {!r}'.format(i, v, exc))
            s.views.compare(s.model, v, a, res, ' (thread {})'.format(i))
            c.count('reads')
    c.count('threads', len(plans))
    s.afterwards('after stress')
    c.note(shape=shape, two=two, normalized=normalized,
           plans=[[v for v, _ in p] for p in plans])


@check.scenario(quick=400, thorough=8000, required=['matrices', 'threaded', 'sequential'])
def distinct_matrices(c):
    """matrices that share kernel function and samples, in one thread or several"""
    two = c.chance(0.3)
    tag = gen.Tagged(c, symmetric=not two)
    kern = gen.RecordingKernel(tag, before=lambda *_: time.sleep(0))
    samples = [tag.rows(c.randint(2, 5)) for _ in range(3)]
    kms = []
    for _ in range(c.randint(2, 5)):
        X = c.pick(samples)
        Y = c.pick(samples) if two else None
        normalized = c.chance(0.5)
        km = KernelMatrix(kern, normalized=normalized)
        ref.attach(km, X, Y)
        kms.append((km, ref.Model(tag.matrix(X, Y), normalized, tag.diag(X),
                                  None if Y is None else tag.diag(Y), two)))
    views = ref.Views(c)
    jobs = []
    for km, model in kms:
        for _ in range(c.randint(1, 5)):
            v = c.pick(views.names(model))
            jobs.append((km, model, v, views.arg(v, model.shape)))
    c.rng.shuffle(jobs)
    c.note(two=two, views=[j[2] for j in jobs], salt=c.case_seed)
    results = [None] * len(jobs)

    def run(i):
        km, model, v, a = jobs[i]
        try:
            results[i] = (_copy(views.read(km, v, a)), None)
        except BaseException as exc:
            results[i] = (None, exc)

    if c.chance(0.6):
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            threads = [threading.Thread(target=run, args=(i,), daemon=True)
                       for i in range(len(jobs))]
            for t in threads:
                t.start()
            for t in threads:
                t.join(60)
        finally:
            sys.setswitchinterval(old)
        c.count('threaded')
    else:
        for i in range(len(jobs)):
            run(i)
        c.count('sequential')
    for i, (km, model, v, a) in enumerate(jobs):
        if results[i] is None or results[i][1] is not None:
            c.fail('view {}: {!r}'.format(v, results[i]))
        views.compare(model, v, a, results[i][0], ' (one of several matrices)')
    for km, model in kms:
        views.check_all(km, model, ' later')
    c.count('matrices', len(kms))


BUILTIN = [lambda s: LinearKernel(skip_input_checks=s),
           lambda s: PolyKernel(degree=2, skip_input_checks=s),
           lambda s: GaussianKernel(sigma=1.5, skip_input_checks=s),
           lambda s: LaplacianKernel(gamma=0.4, skip_input_checks=s),
           lambda s: Chi2Kernel(gamma=0.3, skip_input_checks=s),
           lambda s: SigmoidKernel(gamma=0.2, offset=0.5, skip_input_checks=s),
           lambda s: HadamardKernel(alpha=2, skip_input_checks=s),
           lambda s: MatchCountKernel(skip_input_checks=s),
           lambda s: gen.KernelFromCallable(gen.plain_dot, name='dot', scale=2.0)]


@check.scenario(quick=900, thorough=12000,
                required=['schedules', 'paused', 'views_compared', 'apart', 'together'])
def builtin_kernels(c):
    """one reader paused inside a kernel function of the library, while another reads
    the same matrix, or another one sharing the kernel function"""
    make = BUILTIN[c.index % len(BUILTIN)]
    for _ in range(4):
        _builtin(c, make)


def _builtin(c, make):
    skip = c.chance(0.5)
    two = c.chance(0.3)
    n, m, d = c.randint(2, 4), c.randint(2, 4), c.randint(1, 4)
    if isinstance(make(skip), MatchCountKernel):
        X, Y, Z = (c.rng.choice(['a', 'b', 'cc'], size=(rows, d)) for rows in (n, m, n))
    else:
        X, Y, Z = (c.rng.random((rows, d)) + 0.1 for rows in (n, m, n))
    shared = make(skip)
    apart = c.chance(0.5)
    unit = c.pick(['line', 'line', 'opcode'])
    km = KernelMatrix(shared, normalized=False)
    ref.attach(km, X, Y if two else None)
    views = ref.Views(c, rtol_raw=1e-12, atol_raw=1e-14, can_norm=False)

    def model(S):
        two_diag = dict(dx=ref.self_sim(make(skip), S), dy=ref.self_sim(make(skip), Y),
                        two=True) if two else {}
        return ref.Model(ref.gram(make(skip), S, Y if two else None), False, **two_diag)

    km_b, model_a = km, model(X)
    model_b = model_a
    if apart:
        km_b = KernelMatrix(shared, normalized=False)
        other = c.pick([X, Z])
        ref.attach(km_b, other, Y if two else None)
        model_b = model(other)
    names = [v for v in VIEWS[two] if v not in ('normed', 'normalize()')]
    va, vb = c.pick(names), c.pick(names)
    arg_a, arg_b = views.arg(va, km.shape), views.arg(vb, km_b.shape)
    at = c.randint(1, 60 if unit == 'line' else 700)
    c.note(kernel=str(shared), two=two, va=va, vb=vb, at=at, unit=unit, apart=apart,
           salt=c.case_seed)
    A = Worker(lambda: _copy(views.read(km, va, arg_a)), SOURCES, at, unit)
    A.run_to_pause()
    B = Worker(lambda: _copy(views.read(km_b, vb, arg_b)), SOURCES, None, 'none')
    B.start()
    B.thread.join(0.5 if A.was_paused else 60)
    A.finish()
    B.finish()
    what = '{} paused at {}, then {}'.format(va, A.where, vb)
    for w, v, arg, mod in ((A, va, arg_a, model_a), (B, vb, arg_b, model_b)):
        if w.error is not None or not w.done.is_set():
            c.fail('{}: reader of {}: {!r}'.format(what, v, w.error))
        views.compare(mod, v, arg, w.result, ' ({})'.format(what))
        c.count('views_compared')
    views.check_all(km, model_a, ' later, ' + what)
    views.check_all(km_b, model_b, ' of the second, later, ' + what)
    c.count('schedules')
    c.count('paused', A.was_paused)
    c.count('apart' if apart else 'together')


@check.scenario(quick=300, thorough=5000, required=['matrices', 'changed_in_place'])
def changed_between(c):
    """the caller reuses one array for several samples: matrices computed before keep
    their values, new ones get those of the current contents"""
    two = c.chance(0.3)
    tag = gen.Tagged(c, symmetric=not two)
    kern = gen.RecordingKernel(tag)
    n, m = c.randint(2, 6), c.randint(2, 6)
    X, Y = tag.rows(n), tag.rows(m) if two else None
    views = ref.Views(c)
    kms = []
    for _ in range(c.randint(2, 4)):
        normalized = c.chance(0.5)
        km = KernelMatrix(kern, normalized=normalized)
        ref.attach(km, X, Y)
        model = ref.Model(tag.matrix(X, Y), normalized, tag.diag(X),
                          None if Y is None else tag.diag(Y), two)
        views.check_all(km, model, ' of a new matrix')
        kms.append((km, model))
        c.count('matrices')
        if c.chance(0.7):
            X[:] = tag.rows(n)
            c.count('changed_in_place')
        if two and c.chance(0.4):
            Y[:] = tag.rows(m)
    c.note(two=two, n=n, m=m, num=len(kms), salt=c.case_seed)


def _estimator(c):
    """a fitted estimator of any kind, and batches of test rows"""
    d = c.randint(1, 4)
    n = c.randint(6, 14)
    X = c.rng.random((n, d)) + 0.1
    kind = c.pick(['machine', 'machine', 'regressor', 'optimal_svc', 'optimal_svr'])
    labels = c.rng.integers(0, c.randint(2, 3), size=n)
    labels[:2] = (0, 1)
    real = c.rng.normal(size=n)
    if kind in ('machine', 'regressor'):
        kern = c.pick(BUILTIN[:7])(c.chance(0.5))
        cls = KernelMachine if kind == 'machine' else KernelMachineRegressor
        est = cls(kern, normalized=c.chance(0.5))
    else:
        bucket = KernelBucket(poly_degree_values=[2], rbf_sigma_values=[0.5, 1.0],
                              laplace_gamma_values=None, sigmoid_gamma_values=None,
                              sigmoid_offset_values=None,
                              normalize_kernels=c.chance(0.5))
        cls = OptimalKernelSVC if kind == 'optimal_svc' else OptimalKernelSVR
        est = cls(k_bucket=bucket, method='align/corr')
    est.fit(X, labels if kind in ('machine', 'optimal_svc') else real)
    return kind, est, [c.rng.random((c.randint(1, 4), d)) + 0.1 for _ in range(3)]


@check.scenario(quick=500, thorough=10000,
                required=['schedules', 'paused', 'machine', 'regressor', 'optimal_svc',
                          'optimal_svr'])
def predictions(c):
    """predict of one fitted estimator in several threads: one paused anywhere in the
    library while another one predicts for other rows"""
    kind, est, batches = _estimator(c)
    alone = deepcopy(est)
    expected = [np.array(deepcopy(alone).predict(b)) for b in batches]
    probe = Worker(lambda: alone.predict(batches[0]), SOURCES, None, 'line')
    probe.run_to_pause()
    num = probe.count
    if num == 0:
        raise Inconclusive('no line events')
    points = set(c.rng.integers(1, num + 1, size=6).tolist()) | {num, num - 1, num - 2}
    c.note(kind=kind, points=sorted(points), salt=c.case_seed)
    for at in sorted(p for p in points if p > 0):
        A = Worker(lambda: np.array(est.predict(batches[0])), SOURCES, at, 'line')
        A.run_to_pause()
        which = c.randint(1, 2)
        B = Worker(lambda: np.array(est.predict(batches[which])), SOURCES, None, 'none')
        B.start()
        B.thread.join(0.5 if A.was_paused else 60)
        A.finish()
        B.finish()
        what = '{}: prediction paused at {}'.format(kind, A.where)
        for w, exp in ((A, expected[0]), (B, expected[which])):
            if w.error is not None or not w.done.is_set():
                c.fail('{}: predict: {!r}'.format(what, w.error))
            c.same(w.result, exp, what, atol=1e-9)
        later = np.array(est.predict(batches[0]))
        c.same(later, expected[0], what + ': later prediction', atol=1e-9)
        c.count('schedules')
        c.count('paused', A.was_paused)
    c.count(kind)
