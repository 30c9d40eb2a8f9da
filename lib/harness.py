"""Runs the generated-input checks of one property.

A check module (checks/cNN.py) registers tests with @prop(strategy) or
@enum(cases).  Each test is a function f(case, ctx): `case` is plain JSON
data, and the function raises Violation when the property does not hold for
it.  Everything random in a case is drawn by Hypothesis, or derived from the
case itself (the operating system's random source is replaced by a stream
seeded with the case), so a saved case replays without Hypothesis.
"""
import contextlib
import errno
import hashlib
import io
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

import env
import guard

VERIF = env.VERIF
CPU_LIMIT_S = 150          # CPU seconds for one case; a case takes milliseconds
SHRINK_LIMIT_S = 60
MEM_LIMIT = 6 << 30
MIN_SHARD = 100            # cases of one process, at least


class Violation(Exception):
    """The property does not hold for this case."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(v, n=160):
    s = v[:n + 1] if isinstance(v, str) else repr(v)
    s = s.encode('unicode_escape').decode() if isinstance(v, str) else s
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


class Ctx(object):
    def __init__(self):
        self.labels = {}
        self.case_labels = set()
        self.is_nontrivial = False
        self.scratch_dirs = []

    def begin(self):
        self.case_labels = set()
        self.is_nontrivial = False
        self.scratch_dirs = []

    def label(self, *names):
        self.case_labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def scratch(self):
        base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        d = tempfile.mkdtemp(prefix='kzverif.', dir=base)
        self.scratch_dirs.append(d)
        return d

    def end(self):
        for d in self.scratch_dirs:
            shutil.rmtree(d, ignore_errors=True)
        for l in self.case_labels:
            self.labels[l] = self.labels.get(l, 0) + 1


# The counts at the tests were chosen for a machine with one core.
QUICK_SCALE = 3


class Test(object):
    def __init__(self, fn, kind, source, quick, thorough, real_random, min_shard=MIN_SHARD):
        self.fn = fn
        self.name = fn.__name__
        self.kind = kind
        self.source = source
        self.quick = quick
        self.thorough = thorough
        self.real_random = real_random
        self.min_shard = min_shard

    def count(self, tier):
        return QUICK_SCALE * self.quick if tier == 'quick' else self.thorough

    def shards(self, tier, most):
        """How many processes share the cases of this test."""
        if self.kind == 'enum':
            return most if tier != 'quick' else min(most, self.min_shard)
        return max(1, min(most, self.count(tier) // self.min_shard))


class Registry(object):
    def __init__(self):
        self.tests = []
        self.rule = ''
        self.level = 'exploration'
        self.assumptions = []

    def prop(self, strategy, quick=100, thorough=None, real_random=False, min_shard=MIN_SHARD):
        """A test over cases drawn from a Hypothesis strategy."""
        def deco(fn):
            self.tests.append(Test(fn, 'prop', strategy, quick,
                                   thorough or quick * 25, real_random, min_shard))
            return fn
        return deco

    def enum(self, cases, real_random=False, shards=1):
        """A test over every case that cases(tier) yields, in so many processes."""
        def deco(fn):
            self.tests.append(Test(fn, 'enum', cases, None, None, real_random, shards))
            return fn
        return deco


def case_json(case):
    return json.dumps(case, sort_keys=True)


def is_sut_error(exc):
    """True if exc came out of a call into the code under test."""
    tb = exc.__traceback__
    while tb:
        if tb.tb_frame.f_code.co_filename.startswith(env.REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def is_harness_fault(exc):
    """True for what the machine or the test library did, not the code under test."""
    if isinstance(exc, (MemoryError, ImportError)):
        return True
    if isinstance(exc, OSError) and exc.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE,
                                                  errno.ENOMEM, errno.EAGAIN):
        return True
    return type(exc).__module__.startswith('hypothesis')


def run_case(test, case, ctx):
    """Runs one case; raises Violation, or any other exception for a fault of
    the harness."""
    js = case_json(case)
    ctx.begin()
    if not test.real_random:
        env.set_urandom(env.Drbg(js).read)
    guard.start(Violation)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            test.fn(json.loads(js), ctx)
    except Violation:
        raise
    except Exception as e:
        if is_sut_error(e):
            lines = traceback.format_exception(type(e), e, e.__traceback__)
            raise Violation('unexpected %s from the code under test: %s\n%s' % (
                type(e).__name__, e, ''.join(lines[-4:])))
        if is_harness_fault(e):
            raise
        # the oracle could not make sense of what the code under test produced
        raise Violation('the result could not be judged: %s: %s\n%s' % (
            type(e).__name__, e, ''.join(
                traceback.format_exception(type(e), e, e.__traceback__)[-3:])))
    finally:
        guard.stop()
        env.reset_urandom()
        ctx.end()


def _worker(test, tier, seed, out_path, shard=0, shards=1):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    ctx = Ctx()
    t0 = time.time()
    state = {'evaluations': 0, 'hashes': set(), 'nontrivial': set(), 'samples': [],
             'best': None, 'first_fail': None}

    def result(**kw):
        r = {'test': test.name, 'evaluations': state['evaluations'],
             'distinct': len(state['hashes']),
             'distinct_nontrivial': len(state['nontrivial']),
             'hashes': [h.hex() for h in state['hashes']],
             'nontrivial': [h.hex() for h in state['nontrivial']],
             'samples': state['samples'], 'labels': ctx.labels,
             'fail': state['best'], 'error': None,
             'wall_s': round(time.time() - t0, 2)}
        r.update(kw)
        with open(out_path + '.part', 'w') as f:
            json.dump(r, f)
        os.replace(out_path + '.part', out_path)

    def on_cpu(signum, frame):
        guard.stop()
        case, js = state['current']
        state['best'] = {'case': case, 'message':
                         'did not terminate within %d CPU seconds' % CPU_LIMIT_S}
        result()
        os._exit(0)

    signal.signal(signal.SIGPROF, on_cpu)

    def one(case):
        js = case_json(case)
        state['current'] = (case, js)
        state['evaluations'] += 1
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_S)
        try:
            run_case(test, case, ctx)
        except Violation as v:
            if state['best'] is None or len(js) <= len(case_json(state['best']['case'])):
                state['best'] = {'case': case, 'message': str(v)}
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            elif time.time() - state['first_fail'] > SHRINK_LIMIT_S:
                result()
                os._exit(0)
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        h = hashlib.sha1(js.encode()).digest()[:8]
        new = h not in state['hashes']
        state['hashes'].add(h)
        if ctx.is_nontrivial:
            if h not in state['nontrivial']:
                state['nontrivial'].add(h)
                n = len(state['nontrivial'])
                if n in (1, 5, 25) or (n < 3):
                    if len(state['samples']) < 3:
                        state['samples'].append(
                            {'test': test.name, 'case': js if len(js) < 600 else
                             js[:600] + '...(%d chars)' % len(js)})

    try:
        if test.kind == 'enum':
            for i, case in enumerate(test.source(tier)):
                if i % shards != shard:
                    continue
                try:
                    one(case)
                except Violation:
                    break
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, settings
            n = -(-test.count(tier) // shards)
            tseed = int.from_bytes(hashlib.sha256(
                ('%d|%s|%d' % (seed, test.name, shard)).encode()).digest()[:6], 'big')

            def body(case):
                one(case)
            body.__name__ = test.name
            strategy = test.source(tier) if callable(test.source) and not hasattr(
                test.source, 'example') else test.source
            f = hypothesis.given(strategy)(body)
            f = settings(max_examples=n, deadline=None, database=None,
                         print_blob=False, report_multiple_bugs=False,
                         phases=(Phase.generate, Phase.target, Phase.shrink),
                         suppress_health_check=list(HealthCheck))(f)
            f = hypothesis.seed(tseed)(f)
            try:
                f()
            except Violation:
                pass
            except BaseException:
                if state['best'] is None:
                    raise
        result()
    except BaseException:
        result(error=traceback.format_exc())
    os._exit(0)


def run_tests(reg, tier, seed, only=None, jobs=8):
    tests = [t for t in reg.tests if not only or t.name in only]
    tmp = tempfile.mkdtemp(prefix='kzrun.')
    scratch = os.path.join(tmp, 'scratch')
    os.mkdir(scratch)
    os.environ['VERIF_SCRATCH'] = os.environ['TMPDIR'] = tempfile.tempdir = scratch
    results = {t.name: [] for t in tests}
    most = max(1, jobs // len(tests)) if tests else 1
    pending = []
    for t in tests:
        n = t.shards(tier, most if tier == 'quick' and t.kind != 'enum' else jobs)
        pending += [(t, i, n) for i in range(n)]
    pending.sort(key=lambda p: p[1])
    running = {}
    failed = set()
    try:
        while pending or running:
            while pending and len(running) < jobs:
                t, i, n = pending.pop(0)
                if t.name in failed:
                    continue
                out = os.path.join(tmp, '%s.%d.json' % (t.name, i))
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        _worker(t, tier, seed, out, i, n)
                    finally:
                        os._exit(3)
                running[pid] = (t, out)
            if not running:
                break
            pid, status = os.wait()
            if pid not in running:
                continue
            t, out = running.pop(pid)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
            else:
                r = {'test': t.name, 'evaluations': 0, 'distinct': 0,
                     'distinct_nontrivial': 0, 'samples': [], 'labels': {}, 'fail': None,
                     'error': 'worker ended with status %d' % status, 'wall_s': 0}
            results[t.name].append(r)
            if r['fail']:
                failed.add(t.name)
    finally:
        for pid in running:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    return [merge(results[t.name]) for t in tests]


def merge(parts):
    """One result from those of the shards."""
    r = dict(parts[0])
    r['labels'] = dict(r['labels'])
    r['samples'] = list(r['samples'])
    for p in parts[1:]:
        r['evaluations'] += p['evaluations']
        for k, v in p['labels'].items():
            r['labels'][k] = r['labels'].get(k, 0) + v
        r['samples'] += p['samples']
        r['wall_s'] = max(r['wall_s'], p['wall_s'])
        r['error'] = r['error'] or p['error']
        if p['fail'] and (not r['fail'] or len(case_json(p['fail']['case'])) <
                          len(case_json(r['fail']['case']))):
            r['fail'] = p['fail']
    r['distinct'] = len(set(h for p in parts for h in p.pop('hashes', [])))
    r['distinct_nontrivial'] = len(set(h for p in parts for h in p.pop('nontrivial', [])))
    return r


def known_findings(prop):
    """[(test, case)] of the known findings of this property."""
    path = os.path.join(VERIF, 'known-findings.json')
    with open(path) as f:
        data = json.load(f)
    return [x for x in data.get('findings', []) if x['property'] == prop]


def write_evidence(prop, reg, tier, seed, results, wall, violations):
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': reg.level,
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in results),
            'rule': reg.rule,
            'samples': [s for r in results for s in r['samples'][:2]],
            'tests': {r['test']: {'evaluations': r['evaluations'],
                                  'distinct': r['distinct'],
                                  'distinct_nontrivial': r['distinct_nontrivial'],
                                  'wall_s': r.get('wall_s'),
                                  'classes': dict(sorted(r['labels'].items()))}
                      for r in results},
        },
        'assumptions': reg.assumptions + [
            'PyCrypto 2.6.1 does not run AES and Crypto.Random on Python 3.12; '
            'the harness supplies stand-ins for these two (lib/shim.py).'],
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + '.json')
    with open(path + '.part', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.part', path)
