"""Harness core: workload driver, event counting, verdicts, evidence.

A check module defines

    PID      property id
    RULE     how cases are made, what makes one non-trivial
    MONITORS optional list of monitor names which must have observed at least one event
    run(ctx) drives the workloads

Each workload is a named stream of cases.  A case receives its own random generator, seeded by
(VERIF_SEED, property, stream, index), so every case replays alone (--only stream:index).  Oracles
report through ctx.check / ctx.close: every call is an observed event of a named monitor.

Verdicts: 0 held on what was observed, 1 violated (witness in the replay file), 2 inconclusive (a
deciding monitor observed nothing, or the harness itself failed).
"""

import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known-findings.txt')

CASE_CPU_LIMIT = 60 # s of CPU in one case: the operations under test take milliseconds


class CaseStop(Exception):
    """Abandon the current case (its violation is recorded)."""


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class Ctx:

    def __init__(self, pid, tier, seed, only=None, scale=1.):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.only = only
        self.scale = scale
        self.quick_factor = 1 # of a cheap check
        self.t0 = time.time()
        self.deadline = None
        self.evaluations = 0
        self.distinct = set()
        self.streams = {}
        self.monitors = {}
        self.samples = []
        self.violations = {} # key -> record
        self.number_of_violations = 0
        self.known_seen = set()
        self.truncated = []
        self._current = None
        self._note = {}
        self._failed = False

    ##############################################

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def cases(self, stream, function, quick, thorough=None):
        """Run *function(rng)* on *quick* or *thorough* cases of a stream"""
        n = quick if not self.thorough else (thorough if thorough is not None else quick*20)
        if not self.thorough and n >= 50:
            n *= self.quick_factor
        n = max(1, int(n*self.scale))
        if self.only is not None:
            only_stream, only_index = self.only
            if only_stream != stream:
                return
            indexes = [only_index] if only_index is not None else range(n)
        else:
            indexes = range(n)
        s = self.streams.setdefault(stream, dict(cases=0, events=0))
        for i in indexes:
            if self.deadline is not None and time.time() > self.deadline:
                self.truncated.append('%s at %d/%d' % (stream, i, n))
                break
            h = hashlib.sha256(('%s/%s/%s/%s' % (self.seed, self.pid, stream, i)).encode()).digest()
            rng = random.Random(int.from_bytes(h[:8], 'big'))
            self.one(stream, i, function, rng)
            s['cases'] += 1

    def one(self, stream, i, function, rng):
        self._current = (stream, i)
        self._note = {}
        self._failed = False
        self.evaluations += 1
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
        try:
            function(rng)
        except CaseStop:
            pass
        except CaseTimeout:
            self.fail('%s:no-termination' % stream, 'no answer after %d s of CPU' % CASE_CPU_LIMIT)
        except HarnessError:
            raise
        except Exception as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            self.fail('%s:exception:%s' % (stream, type(e).__name__),
                      'unexpected exception on a valid input: %r' % e,
                      trace=traceback.format_exc()[-3000:])
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        if self._note and not self._note.get('trivial'):
            sig = hashlib.sha1((stream + repr(sorted(self._note.items(), key=lambda x: x[0]))).encode()).digest()[:10]
            if sig not in self.distinct:
                self.distinct.add(sig)
                st = self.streams[stream]
                if st.get('sampled', 0) < 2 and len(self.samples) < 40:
                    st['sampled'] = st.get('sampled', 0) +1
                    self.samples.append('%s[%d] %s' % (stream, i, short(self._note)))

    def note(self, **kwargs):
        """Record the inputs of the case"""
        self._note.update({k: bool(v) if k == 'trivial' else short(v, 2000) for k, v in kwargs.items()})

    ##############################################

    def seen(self, monitor, n=1):
        self.monitors[monitor] = self.monitors.get(monitor, 0) + n
        if self._current is not None:
            self.streams[self._current[0]]['events'] += n

    def check(self, condition, monitor, detail=None, stop=False):
        """Observe an event of a monitor"""
        self.seen(monitor)
        if condition is None or not condition:
            if callable(detail):
                detail = detail()
            self.fail(monitor, detail)
            if stop:
                raise CaseStop()
            return False
        return True

    def equal(self, got, expected, monitor, detail=None, stop=False):
        return self.check(got == expected, monitor,
                          lambda: 'got %s, expected %s%s' % (short(got), short(expected), _d(detail)), stop)

    def close(self, got, expected, monitor, tol=1e-7, scale=1., detail=None, stop=False):
        """|got - expected| <= tol * max(scale, |expected|)"""
        try:
            got_ = float(got)
            ok = abs(got_ - float(expected)) <= tol * max(abs(scale), abs(float(expected)))
        except (TypeError, ValueError):
            ok = False
        return self.check(ok, monitor, lambda: 'got %s, expected %s%s' % (short(got), short(expected), _d(detail)), stop)

    def close_point(self, got, expected, monitor, tol=1e-7, scale=1., detail=None, stop=False):
        try:
            gx, gy = float(got[0]), float(got[1])
            ex, ey = float(expected[0]), float(expected[1])
            s = max(abs(scale), abs(ex), abs(ey))
            ok = abs(gx - ex) <= tol*s and abs(gy - ey) <= tol*s
        except (TypeError, ValueError, IndexError):
            ok = False
        return self.check(ok, monitor, lambda: 'got %s, expected %s%s' % (short(got), short(expected), _d(detail)), stop)

    def raises(self, exceptions, function, monitor, detail=None):
        """An event where a rejection is expected"""
        try:
            value = function()
        except exceptions:
            return self.check(True, monitor)
        return self.check(False, monitor, lambda: 'no exception, got %s%s' % (short(value), _d(detail)))

    def fail(self, key, detail, trace=None):
        self.number_of_violations += 1
        self._failed = True
        record = self.violations.get(key)
        if record is None:
            self.violations[key] = dict(
                key=key, count=1, stream=self._current[0] if self._current else None,
                index=self._current[1] if self._current else None,
                inputs=dict(self._note), detail=short(detail, 4000), trace=trace)
        else:
            record['count'] += 1


class HarnessError(Exception):
    pass


def _d(detail):
    if callable(detail):
        detail = detail()
    return '' if detail is None else ' (%s)' % (short(detail),)


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


####################################################################################################

def load_known(pid):
    """Known findings of a property: {key: description}"""
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf8'):
            line = line.strip()
            if line.startswith('known: '):
                parts = line.split(' ', 3)
                p = parts[1].partition('property=')[2]
                k = parts[2].partition('key=')[2]
                if p == pid:
                    known[k] = parts[3] if len(parts) > 3 else ''
    return known


def import_repo():
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != REPO]
    sys.path.insert(0, REPO)
    os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import warnings
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import Patro
    if not os.path.abspath(Patro.__file__).startswith(REPO + os.sep):
        raise HarnessError('Patro is not imported from %s but %s' % (REPO, Patro.__file__))


def main(argv=None):
    import argparse
    import importlib
    parser = argparse.ArgumentParser()
    parser.add_argument('pid')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=None)
    parser.add_argument('--only', default=None, help='stream[:index]')
    parser.add_argument('--replay', default=None, help='replay file of a violation')
    parser.add_argument('--scale', type=float, default=float(os.environ.get('VERIF_SCALE', '1')))
    args = parser.parse_args(argv)
    seed = args.seed if args.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    only = None
    if args.replay:
        r = json.load(open(args.replay))
        seed, tier = r['seed'], r['tier']
        first = r['violations'][0]
        if first['stream']:
            only = (first['stream'], first['index'])
    if args.only:
        stream, _, index = args.only.partition(':')
        only = (stream, int(index) if index else None)

    signal.signal(signal.SIGPROF, _alarm)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.setrecursionlimit(3000)
    pid = args.pid
    ctx = Ctx(pid, tier, seed, only, args.scale)
    ctx.deadline = ctx.t0 + (700 if tier == 'thorough' else 240)
    module = importlib.import_module(pid.lower())
    assert module.PID == pid
    ctx.quick_factor = getattr(module, 'QUICK_FACTOR', 1)
    if getattr(module, 'ISOLATED', False):
        child = os.fork()
        if child:
            status = os.waitpid(child, 0)[1]
            if os.WIFSIGNALED(status):
                directory = os.path.join(VERIF, 'evidence', 'replay')
                os.makedirs(directory, exist_ok=True)
                path = os.path.join(directory, '%s-%s-%d.json' % (pid, tier, seed))
                with open(path, 'w') as fh:
                    json.dump(dict(property=pid, tier=tier, seed=seed, violations=[dict(
                        key='crash', stream=None, index=None, detail='killed by signal %d' % os.WTERMSIG(status))]), fh, indent=1)
                print('  crash: killed by signal %d' % os.WTERMSIG(status))
                print('VIOLATION property=%s replay=%s' % (pid, path))
                return 1
            return os.WEXITSTATUS(status)
        try:
            rc = judge(ctx, module, args)
        except BaseException:
            traceback.print_exc()
            rc = 2
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    return judge(ctx, module, args)


def judge(ctx, module, args):
    pid, tier, seed, only = ctx.pid, ctx.tier, ctx.seed, ctx.only
    load_failure = None
    try:
        import_repo()
        if hasattr(module, 'setup'):
            module.setup(ctx)
    except HarnessError as e:
        print('HARNESS ERROR', e)
        return 2
    except Exception as e:
        # the code under test cannot even be imported: nothing was observed, yet the property has
        # no witness of holding.  The modules of the unchanged tree import.
        load_failure = traceback.format_exc()
        ctx.fail('import:%s' % type(e).__name__, 'the modules under test do not load: %r' % e, trace=load_failure[-3000:])
    if load_failure is None:
        try:
            module.run(ctx)
        except Exception as e:
            traceback.print_exc()
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            if os.path.abspath(last).startswith(os.path.join(REPO, 'Patro') + os.sep):
                # raised by the code under test (a module which does not load, for instance)
                ctx.fail('load:%s' % type(e).__name__, 'the code under test fails: %r' % e,
                         trace=traceback.format_exc()[-3000:])
            if not ctx.violations:
                print('INCONCLUSIVE property=%s: the harness failed' % pid)
                return 2

    known = load_known(pid)
    unknown = {k: v for k, v in ctx.violations.items() if k not in known}
    found = [k for k in known if k in ctx.violations]

    missing = []
    if only is None and load_failure is None and not ctx.violations:
        missing = [m for m in getattr(module, 'MONITORS', []) if not ctx.monitors.get(m)]

    evidence = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=ctx.evaluations,
            distinct_nontrivial=len(ctx.distinct),
            rule=module.RULE,
            samples=ctx.samples[:20],
            events_observed=sum(ctx.monitors.values()),
            events_by_monitor=dict(sorted(ctx.monitors.items())),
            streams={k: dict(cases=v['cases'], events=v['events']) for k, v in ctx.streams.items()},
            truncated=ctx.truncated,
            known_findings_seen=found,
        ),
        assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - ctx.t0, 3),
        violations=len(unknown),
    )
    if hasattr(module, 'extra_evidence'):
        evidence['coverage'].update(module.extra_evidence(ctx))
    directory = os.path.join(VERIF, 'evidence')
    os.makedirs(directory, exist_ok=True)
    if only is None:
        with open(os.path.join(directory, pid + '.json'), 'w') as fh:
            json.dump(evidence, fh, indent=1)

    print('%s tier=%s seed=%d: %d executions, %d distinct non-trivial, %d events, %d monitors, %.1f s' % (
        pid, tier, seed, ctx.evaluations, len(ctx.distinct), sum(ctx.monitors.values()), len(ctx.monitors),
        time.time() - ctx.t0))
    for k in found:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]))
    if unknown:
        records = sorted(unknown.values(), key=lambda r: -r['count'])
        os.makedirs(os.path.join(directory, 'replay'), exist_ok=True)
        path = os.path.join(directory, 'replay', '%s-%s-%d.json' % (pid, tier, seed))
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, tier=tier, seed=seed, violations=records[:50]), fh, indent=1)
        for r in records[:12]:
            print('  %s x%d [%s:%s] %s' % (r['key'], r['count'], r['stream'], r['index'], short(r['detail'], 500)))
            if os.environ.get('VERIF_DEBUG') and r['trace']:
                print(r['trace'])
            if os.environ.get('VERIF_DEBUG'):
                print('    ', r['inputs'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if missing and not ctx.truncated:
        print('INCONCLUSIVE property=%s: no event observed by %s' % (pid, ', '.join(missing)))
        return 2
    if ctx.evaluations == 0 or not ctx.monitors:
        print('INCONCLUSIVE property=%s: nothing observed' % pid)
        return 2
    print('HELD property=%s on what was observed' % pid)
    return 0
