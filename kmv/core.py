"""Case runner, verdicts, replay files and evidence.

A check is a list of scenarios. A scenario is a function case(c) that drives the real
library with a workload drawn from c.rng, and feeds what it observes to oracles
(c.ok, c.same, c.raises, ...). Scenarios that enumerate a finite space use c.index.
All randomness derives from (VERIF_SEED, property, scenario, case index): a case can be
replayed from those four values alone.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

WATCHDOG_S = {'quick': 840, 'thorough': 4 * 3600}
# no new cases are awaited after this long; what was explored until then decides
SOFT_S = {'quick': 600, 'thorough': 3 * 3600}
CASE_CPU_S = 240  # most cases take milliseconds
MAX_REPORTED = 5
# factors on the numbers of quick cases given in the checks, for 10 to 30 s on 8 cores
QUICK_BOOST = dict(C01=4, C02=5, C03=4, C04=6, C05=4, C06=3, C07=10, C08=6, C09=8, C10=8,
                   C11=5, C12=6, C13=5, C14=5, C16=2, C17=2, C18=4, C19=4, C20=2, C21=8,
                   C22=10, C23=10, C24=2, C25=8, C26=2)
# mostly around the round numbers implementations like to switch at
BIG_SIZES = (17, 32, 33, 41, 50, 51, 55, 64, 65, 70, 101, 129)
MID_SIZES = BIG_SIZES + (257,)
GIANT_SIZES = (130, 150, 200, 250, 256, 257, 257, 300, 301, 400, 500, 501, 512, 513, 520,
               650, 1001, 1025)
BIG_DIMS = (9, 16, 17, 32, 33, 51, 64, 65, 100, 101, 130, 257)


class Violation(Exception):
    """The property does not hold on the observed execution."""


class Inconclusive(Exception):
    """The execution did not exercise what it was meant to."""


def _short(obj, limit=600):
    if isinstance(obj, np.ndarray):
        text = 'array(shape={}, dtype={}) {}'.format(
            obj.shape, obj.dtype,
            np.array2string(obj, threshold=40, edgeitems=4, precision=12))
    else:
        try:
            text = repr(obj)
        except Exception as exc:
            text = '<repr failed: {!r}>'.format(exc)
    return text if len(text) <= limit else text[:limit] + '...'


class Case(object):
    """One execution: its source of randomness, its oracles and what it observed."""

    def __init__(self, prop, scenario, index, seed, tier):
        self.prop, self.scenario, self.index = prop, scenario, index
        self.seed, self.tier = seed, tier
        digest = hashlib.sha256('{}|{}|{}|{}'.format(
            seed, prop, scenario, index).encode()).digest()
        self.case_seed = int.from_bytes(digest[:8], 'little')
        self.rng = np.random.default_rng(self.case_seed)
        self.counters = {}
        self.desc = {}
        self.trace = []
        self.checks = 0

    # ---- bookkeeping
    def count(self, name, by=1):
        self.counters[name] = self.counters.get(name, 0) + int(by)

    def note(self, **kwargs):
        self.desc.update(kwargs)

    def log(self, *event):
        self.trace.append(event)

    # ---- random helpers
    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def randint(self, lo, hi):
        """lo..hi inclusive"""
        return int(self.rng.integers(lo, hi + 1))

    @property
    def heavy(self):
        """a few cases of every scenario use much larger sizes than the others"""
        return (self.case_seed >> 40) % 1000 < 18

    @property
    def giant(self):
        """and a few of these even larger ones, where that is affordable"""
        return (self.case_seed >> 40) % 1000 < 1

    def size(self, lo, hi, big=None):
        """lo..hi inclusive; beyond in heavy cases"""
        base = self.randint(lo, hi)
        if self.heavy and self.chance(0.7):
            self.count('heavy_sizes')
            if big is None and self.giant:
                self.count('giant_sizes')
                return max(base, self.pick(GIANT_SIZES))
            return max(base, self.pick(big or BIG_SIZES))
        return base

    def size_of(self, small, lo, hi, big=None):
        """one of a few small sizes, or lo..hi, or beyond in heavy cases"""
        if self.heavy or self.chance(1.0 / (len(small) + 1)):
            return self.size(lo, hi, big)
        return self.pick(small)

    def dim(self, lo, hi):
        """number of features"""
        return self.size(lo, hi, GIANT_SIZES if self.giant else BIG_DIMS)

    def few(self, lo, hi):
        """number of members of a collection, or of steps"""
        return self.size(lo, hi, (8, 9, 10, 11, 12, 13, 16, 17, 20, 33))

    # ---- oracles
    def fail(self, msg, *objs):
        raise Violation(msg + ''.join('\n   ' + _short(o) for o in objs))

    def ok(self, cond, msg, *objs):
        self.checks += 1
        if not cond:
            self.fail(msg, *objs)

    def same(self, got, want, msg, rtol=1e-9, atol=0.0):
        """got has the shape and (up to rounding) the values of want, NaN == NaN"""
        self.checks += 1
        got_a = np.asarray(got)
        want_a = np.asarray(want)
        if got_a.dtype == object:
            self.fail(msg + ': not a numeric result', got)
        if got_a.shape != want_a.shape:
            self.fail('{}: shape {} instead of {}'.format(
                msg, got_a.shape, want_a.shape), got, want)
        with np.errstate(all='ignore'):
            close = np.isclose(got_a, want_a, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(close):
            bad = np.argwhere(~np.atleast_1d(close))[:3].tolist()
            self.fail('{}: values differ at {}'.format(msg, bad), got, want)

    def exact(self, got, want, msg):
        self.same(got, want, msg, rtol=0.0, atol=0.0)

    def raises(self, exc_types, func, msg):
        """func() must raise one of exc_types; returns the exception"""
        self.checks += 1
        try:
            res = func()
        except exc_types as exc:
            return exc
        except Exception as exc:
            self.fail('{}: raised {!r} instead of {}'.format(msg, exc, exc_types))
        self.fail('{}: accepted, returned'.format(msg), res)


class Check(object):
    """What decides one property."""

    def __init__(self, prop, level, rule, assumptions=()):
        self.prop, self.level, self.rule = prop, level, rule
        self.assumptions = list(assumptions)
        self.scenarios = {}
        self.required = []

    def scenario(self, quick, thorough, required=(), parallel=True):
        """Decorator. quick/thorough: number of cases."""

        def wrap(func):
            name = func.__name__
            self.scenarios[name] = dict(func=func, quick=quick, thorough=thorough)
            self.required.extend((name, req) for req in required)
            return func

        return wrap


def _run_case(check, name, index, seed, tier):
    """Runs one case; returns a plain dict"""
    c = Case(check.prop, name, index, seed, tier)
    np.random.seed(c.case_seed % (2 ** 32))
    out = dict(scenario=name, index=index, status='held')
    signal.signal(signal.SIGPROF, _on_stuck)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                check.scenarios[name]['func'](c)
        if c.checks == 0:
            out['status'] = 'inconclusive'
            out['message'] = 'case made no observation'
    except Violation as exc:
        out.update(status='violated', message=str(exc))
    except Inconclusive as exc:
        out.update(status='inconclusive', message=str(exc))
    except (MemoryError, KeyboardInterrupt):
        out.update(status='inconclusive', message=traceback.format_exc())
    except BaseException as exc:  # valid use must not raise
        out.update(status='violated', message='unexpected {!r} in valid use\n{}'.format(
            exc, traceback.format_exc()[-3000:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    desc = dict(c.desc)
    out['sig'] = hashlib.md5(json.dumps([name, desc], default=_short,
                                        sort_keys=True).encode()).hexdigest()
    out['counters'] = c.counters
    out['checks'] = c.checks
    if index < 2 or out['status'] != 'held':
        out['desc'] = json.loads(json.dumps(desc, default=_short))
        out['trace'] = json.loads(json.dumps(c.trace[-60:], default=_short))
    return out


class Stuck(BaseException):
    """A case does not come to an end."""


def _on_stuck(signum, frame):
    raise Stuck('no end after {} s of CPU time'.format(CASE_CPU_S))


_CHECK = None


def _work(task):
    name, lo, hi, seed, tier = task
    res = []
    for index in range(lo, hi):
        one = _run_case(_CHECK, name, index, seed, tier)
        res.append(one)
        if one['status'] == 'violated':
            break
    return res


def load_check(prop):
    return importlib.import_module('kmv.checks.{}'.format(prop.lower())).check


def known_findings(verif, prop):
    """Open findings: lines 'KNOWN-FINDING: property=<id> scenario=<name> match=<text>'.

    A violation matches if it occurs in that scenario and its message contains the text.
    """
    path = os.path.join(verif, 'KNOWN_FINDINGS.txt')
    found = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('KNOWN-FINDING: property={} '.format(prop)):
                scen = line.split('scenario=')[1].split(' ')[0]
                text = line.split('match=')[1].strip()
                found.append((scen, text, line.strip()))
    return found


def main(argv, verif, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--scenario')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=0)
    args = ap.parse_args(argv)

    tier = 'thorough' if args.thorough else os.environ.get('VERIF_TIER', 'quick')
    if tier not in WATCHDOG_S:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    # bytecode caches lying in the repository are not trusted: compile its sources
    import scipy.linalg, scipy.sparse, scipy.stats, sklearn.svm  # noqa
    import sklearn.model_selection, sklearn.base, sklearn.pipeline  # noqa
    sys.pycache_prefix = '/nonexistent-kmv'
    warnings.simplefilter('ignore')
    import kernelmethods
    import kernelmethods.algorithms, kernelmethods.base, kernelmethods.categorical
    import kernelmethods.config, kernelmethods.numeric_kernels
    import kernelmethods.operations, kernelmethods.ranking, kernelmethods.sampling
    import kernelmethods.utils
    sys.pycache_prefix = None
    src = os.path.realpath(kernelmethods.__file__)
    if not src.startswith(os.path.realpath(repo) + os.sep):
        print('kernelmethods imported from {}, not {}'.format(src, repo))
        return 2

    global _CHECK
    check = _CHECK = load_check(args.prop)

    if args.replay:
        rec = json.load(open(args.replay))
        res = _run_case(check, rec['scenario'], rec['index'], rec['seed'], rec['tier'])
        print(json.dumps(res, indent=1))
        if res['status'] == 'violated':
            print('VIOLATION property={} replay={}'.format(check.prop, args.replay))
            return 1
        return 0 if res['status'] == 'held' else 2

    jobs = args.jobs or min(os.cpu_count() or 1, 16)
    start = time.time()
    tasks = []
    for name, sc in check.scenarios.items():
        if args.scenario and name != args.scenario:
            continue
        num = sc[tier]
        if tier == 'quick':
            num = max(num, min(num * QUICK_BOOST.get(check.prop, 1),
                                sc['thorough']))
        if args.scale != 1.0:
            num = max(1, int(num * args.scale))
        size = max(1, min(50, num // (jobs * 4) or 1))
        tasks += [(lo / num, (name, lo, min(lo + size, num), seed, tier))
                  for lo in range(0, num, size)]
    tasks = [task for _, task in sorted(tasks)]  # all scenarios advance together

    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(WATCHDOG_S[tier])
    results, aborted, truncated, last = [], None, False, time.time()
    pool = mp.get_context('fork').Pool(jobs)
    try:
        bad, stop_at = 0, None
        pending = pool.imap_unordered(_work, tasks)
        while True:
            try:
                chunk = pending.next(timeout=1.0)
            except StopIteration:
                break
            except mp.TimeoutError:
                chunk = []
            results.extend(chunk)
            if chunk:
                last = time.time()
            bad += sum(r['status'] == 'violated' for r in chunk)
            if bad and stop_at is None:
                # collect a little more, then report
                stop_at = time.time() + 60
            if time.time() - start > SOFT_S[tier]:
                truncated = True
                if time.time() - last > 200:
                    aborted = 'no progress'
                break
            if bad >= 20 or (stop_at is not None and time.time() > stop_at):
                break
    except _Alarm:
        aborted = 'watchdog of {} s'.format(WATCHDOG_S[tier])
    finally:
        signal.alarm(0)
        pool.terminate()
        pool.join()

    return _verdict(check, results, aborted, tier, seed, time.time() - start,
                    verif, partial=bool(args.scenario), truncated=truncated,
                    planned=sum(hi - lo for _, lo, hi, _, _ in tasks))


class _Alarm(Exception):
    pass


def _on_alarm(signum, frame):
    raise _Alarm()


def _verdict(check, results, aborted, tier, seed, wall, verif, partial, truncated,
             planned):
    results.sort(key=lambda r: (r['scenario'], r['index']))
    violated = [r for r in results if r['status'] == 'violated']
    unclear = [r for r in results if r['status'] == 'inconclusive']

    counters, per_scen = {}, {}
    for r in results:
        per = per_scen.setdefault(r['scenario'], dict(cases=0, oracle_checks=0))
        per['cases'] += 1
        per['oracle_checks'] += r['checks']
        for key, val in r['counters'].items():
            full = '{}.{}'.format(r['scenario'], key)
            counters[full] = counters.get(full, 0) + val

    known = known_findings(verif, check.prop)
    new, matched = [], {}
    for r in violated:
        for scen, text, line in known:
            if r['scenario'] == scen and text in r['message']:
                matched.setdefault(line, r)
                break
        else:
            new.append(r)

    samples = {}
    for r in results:
        if 'desc' in r and len(samples.setdefault(r['scenario'], [])) < 2:
            samples[r['scenario']].append(dict(scenario=r['scenario'], index=r['index'],
                                               case=r['desc'], trace=r['trace'][-12:]))
    evidence = dict(
        property=check.prop, tier=tier, seed=seed, level=check.level,
        coverage=dict(
            evaluations=len(results),
            planned=planned,
            stopped_at_time_limit=truncated,
            distinct_nontrivial=len(set(r['sig'] for r in results
                                        if r['checks'] > 0
                                        and r['status'] != 'inconclusive')),
            rule=check.rule,
            samples=[s for lst in samples.values() for s in lst],
            oracle_checks=sum(r['checks'] for r in results),
            per_scenario=per_scen,
            observed=counters,
        ),
        assumptions=check.assumptions,
        wall_s=round(wall, 2),
        violations=len(new),
    )
    if not partial:
        os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
        path = os.path.join(verif, 'evidence', '{}.json'.format(check.prop))
        with open(path + '.tmp', 'w') as fh:
            json.dump(evidence, fh, indent=1, sort_keys=True)
        os.replace(path + '.tmp', path)

    print('{}: {} cases, {} distinct, {} oracle checks, {:.1f} s ({})'.format(
        check.prop, len(results), evidence['coverage']['distinct_nontrivial'],
        evidence['coverage']['oracle_checks'], wall, tier))
    if truncated:
        print('   stopped after {:.0f} s with {} of {} cases run'.format(
            wall, len(results), planned))
    for key in sorted(counters):
        print('   {:55s} {}'.format(key, counters[key]))
    for line in matched:
        print(line)

    if new:
        folder = os.path.join(verif, 'evidence', 'replay')
        os.makedirs(folder, exist_ok=True)
        seen = set()
        for r in new:
            if r['scenario'] in seen and len(seen) >= 1 and len(new) > MAX_REPORTED:
                continue
            seen.add(r['scenario'])
            path = os.path.join(folder, '{}-{}-{}-{}.json'.format(
                check.prop, r['scenario'], seed, r['index']))
            with open(path, 'w') as fh:
                json.dump(dict(property=check.prop, scenario=r['scenario'],
                               index=r['index'], seed=seed, tier=tier,
                               message=r['message'], case=r.get('desc'),
                               trace=r.get('trace'),
                               how='run.py {} --replay <this file>'.format(
                                   check.prop)), fh, indent=1)
            print('--- {} case {}: {}'.format(r['scenario'], r['index'], r['message']))
            print('VIOLATION property={} replay={}'.format(check.prop, path))
        return 1

    if aborted:
        print('INCONCLUSIVE: {}'.format(aborted))
        return 2
    if unclear:
        print('INCONCLUSIVE: {} case(s), first: {} {}: {}'.format(
            len(unclear), unclear[0]['scenario'], unclear[0]['index'],
            unclear[0]['message']))
        return 2
    if not partial:
        for name, req in check.required:
            if not counters.get('{}.{}'.format(name, req)):
                print('INCONCLUSIVE: monitor {}.{} observed nothing'.format(name, req))
                return 2
    return 0
