"""Case runner: Hypothesis drives plain functions over JSON cases."""
import contextlib
import hashlib
import io
import json
import math
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

from vf import REPO, VERIF

import hypothesis
from hypothesis import HealthCheck, Phase, settings, strategies as st

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SHRINK_S = {'quick': 40, 'thorough': 240}[TIER]
CASE_CPU_S = 150


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(got, want, what, rtol=1e-9, atol=0.0, scale=None):
    """Arrays agree within rtol * max(|want|) + atol."""
    import numpy as np
    got = np.asarray(got)
    want = np.asarray(want)
    require(got.shape == want.shape, '%s: shape %s, expected %s', what,
            got.shape, want.shape)
    if want.size == 0:
        return
    if scale is None:
        scale = float(np.max(np.abs(want)))
    tol = rtol * scale + atol
    with np.errstate(all='ignore'):
        diff = np.abs(got - want)
    bad = ~(diff <= tol)
    if np.any(bad):
        i = int(np.argmax(np.where(np.isnan(diff), np.inf, diff)))
        raise Violation('%s: %d of %d values differ, worst at %s: got %r, expected %r (tolerance %.3g)' % (
            what, int(bad.sum()), want.size, i, got.flat[i].item(), want.flat[i].item(), tol))


def raises(excs, func, what):
    try:
        func()
    except excs as ex:
        return ex
    except Exception as ex:
        raise Violation('%s: raised %s: %s instead of %s' % (
            what, type(ex).__name__, ex, excs))
    raise Violation('%s: no exception, expected %s' % (what, excs))


KNOWN_FILE = os.path.join(VERIF, 'known-findings.txt')


def known_findings(prop):
    """Findings listed for the property: {id: description}. Lines 'fixed:' suppress nothing."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + prop:
                    out[w[2][len('id='):]] = w[3].strip()
    return out


class Ctx(object):
    """What a case reports about itself."""

    def __init__(self, listed=()):
        self.labels = set()
        self.trivial = False
        self.listed = listed
        self.found = set()

    def known(self, name, msg, *args):
        """A deviation: violation unless this finding is listed for the property."""
        if name not in self.listed:
            raise Violation(msg % args if args else msg)
        self.found.add(name)

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, flag=True):
        self.trivial = not flag


class Sub(object):
    def __init__(self, name, cases, func, quick, thorough, rule, shards):
        self.name, self.cases, self.func = name, cases, func
        self.quick, self.thorough = quick, thorough
        self.rule, self.shards = rule, shards


class Check(object):
    def __init__(self, property, level='exploration', assumptions=()):
        self.property = property
        self.subs = []
        self.level = level
        self.assumptions = list(assumptions)

    def sub(self, cases, quick, thorough, rule, shards=None, name=None):
        def deco(func):
            self.subs.append(Sub(name or func.__name__, cases, func, quick,
                                 thorough, rule, shards))
            return func
        return deco


def _key(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def _hash(s):
    return hashlib.md5(s.encode()).hexdigest()[:16]


def _alarm(signum, frame):
    raise Violation('no result after %d s of CPU time' % CASE_CPU_S)


def run_one(sub, case, ctx):
    """Run one case. Any exception other than HarnessError, MemoryError... is a failure."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with contextlib.redirect_stdout(io.StringIO()):
                sub.func(case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ctx


def describe(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    where = ''
    for fr in reversed(tb):
        if fr.filename.startswith(os.path.join(REPO, 'rf')):
            where = ' (in %s:%d %s)' % (os.path.relpath(fr.filename, REPO), fr.lineno, fr.name)
            break
    if isinstance(ex, Violation):
        return str(ex)
    return '%s: %s%s' % (type(ex).__name__, ex, where)


HARNESS = (HarnessError, MemoryError, ImportError)


def _is_harness(ex):
    if isinstance(ex, ImportError):
        # an import that fails inside rf is a failure of rf
        return not any(fr.filename.startswith(os.path.join(REPO, 'rf'))
                       for fr in traceback.extract_tb(ex.__traceback__))
    if isinstance(ex, OSError) and ex.errno in (28, 12, 24):
        return True
    return isinstance(ex, (HarnessError, MemoryError))


class Task(object):
    def __init__(self, check, sub, shard, n):
        self.check, self.sub, self.shard, self.n = check, sub, shard, n
        s = '%s/%s/%d/%d' % (check.property, sub.name, shard, SEED)
        self.seed = int(hashlib.md5(s.encode()).hexdigest()[:8], 16)

    def run(self):
        sub = self.sub
        listed = known_findings(self.check.property)
        res = {'known': set(), 'sub': sub.name, 'shard': self.shard, 'evaluations': 0,
               'keys': set(), 'labels': {}, 'samples': [], 'failure': None,
               'error': None}
        state = {'first': None, 'failed': {}, 'last': None}

        def body(case):
            k = _key(case)
            h = _hash(k)
            if state['first'] is not None:
                if h in state['failed']:
                    state['last'] = h
                    raise Violation(state['failed'][h][1])
                if time.monotonic() - state['first'] > SHRINK_S:
                    return
            ctx = Ctx(listed)
            try:
                run_one(sub, json.loads(k), ctx)
            except KeyboardInterrupt:
                raise
            except Exception as ex:
                if _is_harness(ex):
                    raise HarnessError('%s: %s' % (type(ex).__name__, ex)) from ex
                msg = describe(ex)
                if state['first'] is None:
                    state['first'] = time.monotonic()
                state['failed'][h] = (case, msg)
                state['last'] = h
                raise Violation(msg)
            if state['first'] is None:
                res['evaluations'] += 1
                res['known'] |= ctx.found
                for l in ctx.labels:
                    res['labels'][l] = res['labels'].get(l, 0) + 1
                if not ctx.trivial:
                    res['keys'].add(h)
                    if len(res['samples']) < 2 and len(k) < 1500:
                        res['samples'].append(case)

        strategy = sub.cases() if callable(sub.cases) else sub.cases
        test = hypothesis.given(strategy)(body)
        test = hypothesis.seed(self.seed)(test)
        test = settings(
            max_examples=self.n, deadline=None, database=None,
            suppress_health_check=list(HealthCheck), print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            report_multiple_bugs=False,
            verbosity=hypothesis.Verbosity.quiet)(test)
        try:
            test()
        except KeyboardInterrupt:
            raise
        except BaseException as ex:
            if state['last'] is not None:
                case, msg = state['failed'][state['last']]
                res['failure'] = {'case': case, 'message': msg,
                                  'first': list(state['failed'].values())[0][1]}
            else:
                res['error'] = ''.join(traceback.format_exception(ex))[-4000:]
        return res


def _worker(task):
    tmp = tempfile.mkdtemp(prefix='vf-')
    old = os.getcwd()
    os.chdir(tmp)
    os.environ['VF_TMP'] = tmp
    dn = open(os.devnull, 'w')
    stderr, sys.stderr = sys.stderr, dn
    try:
        return task.run()
    except Exception as ex:
        return {'sub': task.sub.name, 'error': ''.join(traceback.format_exception(ex))[-4000:],
                'failure': None, 'evaluations': 0, 'keys': set(), 'labels': {}, 'samples': []}
    finally:
        sys.stderr = stderr
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


_TASKS = []


def _run_index(i):
    return _worker(_TASKS[i])


@contextlib.contextmanager
def scratch():
    """A fresh empty directory, removed afterwards; also the working directory."""
    base = os.environ.get('VF_TMP') or None
    d = tempfile.mkdtemp(prefix='c-', dir=base)
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def forked(func):
    """Run func in a forked child process, raise its violation here, return its JSON result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ['ok', func()]
            except Violation as ex:
                out = ['violation', str(ex)]
            except BaseException as ex:
                out = ['harness' if _is_harness(ex) else 'error', describe(ex)]
            with os.fdopen(w, 'w') as f:
                json.dump(out, f)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            text = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not text:
        raise HarnessError('child process ended without result')
    kind, out = json.loads(text)
    if kind == 'harness':
        raise HarnessError(out)
    require(kind == 'ok', '%s', out)
    return out


def save_replay(prop, sub, fail):
    d = os.path.join(VERIF, 'replays', prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (sub, _hash(_key(fail['case']))))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'sub': sub, 'message': fail['message'],
                   'case': fail['case']}, f, indent=1)
    return os.path.relpath(path, VERIF)


def replay(check, path):
    with open(path) as f:
        r = json.load(f)
    sub = [s for s in check.subs if s.name == r['sub']]
    if not sub:
        raise HarnessError('no sub-check %s' % r['sub'])
    with scratch():
        os.environ['VF_TMP'] = os.getcwd()
        try:
            run_one(sub[0], r['case'], Ctx(known_findings(check.property)))
        except Exception as ex:
            if _is_harness(ex):
                raise
            return describe(ex) if not os.environ.get('VF_TRACE') else ''.join(traceback.format_exception(ex))
        finally:
            os.environ.pop('VF_TMP')
    return None


def run_check(check, only=None, scale=1.0, procs=None):
    t0 = time.time()
    fails = []
    # seconds-long tier: saved inputs
    cdir = os.path.join(VERIF, 'corpus', check.property)
    ncorpus = 0
    for name in sorted(os.listdir(cdir)) if os.path.isdir(cdir) else ():
        path = os.path.join(cdir, name)
        if not name.endswith('.json') or (only and not json.load(open(path))['sub'] in only):
            continue
        ncorpus += 1
        stderr, sys.stderr = sys.stderr, open(os.devnull, 'w')
        try:
            msg = replay(check, path)
        finally:
            sys.stderr = stderr
        if msg:
            fails.append((os.path.relpath(path, VERIF), json.load(open(path))['sub'], msg))
    cpus = procs or max(1, min(8, os.cpu_count() or 1))
    tasks = []
    for sub in check.subs:
        if only and sub.name not in only:
            continue
        n = sub.quick if TIER == 'quick' else sub.thorough
        n = max(1, int(n * scale))
        shards = sub.shards or max(1, min(8, n // 5))
        for i in range(shards):
            k = n // shards + (i < n % shards)
            if k:
                tasks.append(Task(check, sub, i, k))
    # large tasks first, deterministic
    tasks.sort(key=lambda t: -t.n)
    _TASKS[:] = tasks
    if cpus == 1:
        results = [_run_index(i) for i in range(len(tasks))]
    else:
        mp = multiprocessing.get_context('fork')
        with mp.Pool(cpus, maxtasksperchild=1) as pool:
            results = pool.map(_run_index, range(len(tasks)), chunksize=1)
    errors = [r['error'] for r in results if r.get('error')]
    evals, keys, per_sub, samples = ncorpus, 0, {}, []
    for sub in check.subs:
        rs = [r for r in results if r['sub'] == sub.name]
        if not rs:
            continue
        ks = set().union(*[r['keys'] for r in rs])
        labels = {}
        for r in rs:
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
        ev = sum(r['evaluations'] for r in rs)
        per_sub[sub.name] = {'evaluations': ev, 'distinct_nontrivial': len(ks),
                             'rule': sub.rule, 'classes': dict(sorted(labels.items()))}
        evals += ev
        keys += len(ks)
        for r in rs:
            if r['samples']:
                samples.append({'sub': sub.name, 'case': r['samples'][0]})
                break
        best = None
        for r in rs:
            if r['failure']:
                k = len(_key(r['failure']['case']))
                if best is None or k < best[0]:
                    best = (k, r['failure'])
        if best:
            path = save_replay(check.property, sub.name, best[1])
            fails.append((path, sub.name, best[1]['message']))
    ev = {'property': check.property, 'tier': TIER, 'seed': SEED,
          'level': check.level,
          'coverage': {'evaluations': evals, 'distinct_nontrivial': keys,
                       'rule': 'Cases are drawn by Hypothesis strategies, one set per sub-check; distinct = different JSON cases. '
                               + ' '.join('[%s] %s' % (k, v['rule']) for k, v in per_sub.items()),
                       'samples': samples, 'subchecks': per_sub,
                       'replayed_saved_inputs': ncorpus},
          'assumptions': check.assumptions,
          'known_findings': sorted(set().union(*[r.get('known', set()) for r in results])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(fails)}
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', check.property + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for name, v in per_sub.items():
        print('%s %-24s %6d cases, %6d distinct non-trivial  %s' % (
            check.property, name, v['evaluations'], v['distinct_nontrivial'],
            ' '.join('%s=%d' % kv for kv in v['classes'].items())))
    print('%s %s: %d cases in %.1f s' % (check.property, TIER, evals, time.time() - t0))
    listed = known_findings(check.property)
    for name in sorted(set().union(*[r.get('known', set()) for r in results])):
        print('KNOWN-FINDING: property=%s %s: %s' % (check.property, name, listed[name]))
    for path, sub, msg in fails:
        print('  %s: %s' % (sub, msg[:1500]))
        print('VIOLATION property=%s replay=%s' % (check.property, path))
    if fails:
        return 1
    if errors:
        print('HARNESS ERROR\n%s' % errors[0])
        return 2
    return 0
