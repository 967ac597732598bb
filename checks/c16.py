"""C16 -- atomic counters, global identifiers and singletons under concurrency"""
import os
import threading
import time
import core
import schedule

PID = 'C16'
QUICK_FACTOR = 3
RULE = ('2 to 6 threads over a shared counter (increments of various steps, sets, reads), objects with a global id (several classes, '
        'explicit ids) and singletons (slow, failing or nested constructors), with preemptions injected between the bytecodes of the '
        'code under test and inside the arithmetic; non-trivial: at least one thread switch inside the code under test')
ASSUMPTIONS = ['CPython threads with the GIL: preemption between bytecodes', 'increments are positive']
MONITORS = ['counter-linearizable', 'counter-unique', 'counter-real-time', 'counter-final', 'counter-read', 'counter-set', 'counter-set-rejected',
            'id-unique', 'id-explicit', 'singleton-one', 'singleton-init', 'singleton-subclass', 'singleton-failure', 'singleton-sequential',
            'monostate', 'counter-sequential', 'progress']

STATS = dict(opcodes=0, preemptions=0, switches=0)
SIGNATURES = set()


def extra_evidence(ctx):
    return dict(opcodes_traced=STATS['opcodes'], preemptions_injected=STATS['preemptions'], thread_switches_inside=STATS['switches'],
                distinct_interleavings=len(SIGNATURES))


class Slow(int):
    """an integer whose arithmetic can be preempted"""

    def _yield(self):
        time.sleep(0)

    def __add__(self, other):
        self._yield()
        r = Slow(int.__add__(self, other))
        self._yield()
        return r

    __radd__ = __add__

    def __le__(self, other):
        r = int.__le__(self, other)
        self._yield()
        return r

    def __ge__(self, other):
        r = int.__ge__(self, other)
        self._yield()
        return r

    def __lt__(self, other):
        r = int.__lt__(self, other)
        self._yield()
        return r

    def __gt__(self, other):
        r = int.__gt__(self, other)
        self._yield()
        return r


def run(ctx):
    from Patro.Common.AtomicCounter import AtomicCounter
    from Patro.Common.Object import ObjectGlobalIdMixin
    from Patro.Common.Singleton import SingletonMetaClass, singleton, singleton_func, monostate
    directory = os.path.join(core.REPO, 'Patro')

    def threads(rng, functions, files=()):
        s = schedule.Scheduler(rng, directory, rng.choice([.05, .2, .5]), files)
        try:
            results = s.run(functions, 40)
        except schedule.Hang:
            ctx.check(False, 'progress', 'deadlock or livelock')
            raise core.CaseStop()
        ctx.seen('progress')
        STATS['opcodes'] += s.events
        STATS['preemptions'] += s.preemptions
        STATS['switches'] += s.switches
        SIGNATURES.add(s.signature())
        ctx.note(interleaving=s.signature(), trivial=s.switches == 0)
        for kind, value in results:
            if kind == 'error':
                raise value
        return [v for _, v in results]

    def counter(rng):
        initial = rng.choice([0, 0, -1, 5])
        slow = rng.random() < .5
        wrap = Slow if slow else int
        n = rng.randint(2, 6)
        c = AtomicCounter(wrap(initial)) if initial or rng.random() < .5 else AtomicCounter()
        scripts = []
        for i in range(n):
            script = []
            for _ in range(rng.randint(2, 6)):
                k = rng.random()
                if k < .55:
                    script.append(('inc', None))
                elif k < .75:
                    script.append(('inc', rng.randint(1, 5)))
                elif k < .87:
                    script.append(('set', rng.randint(initial-2, initial+40)))
                else:
                    script.append(('read', None))
            scripts.append(script)
        ctx.note(initial=initial, slow=slow, scripts=scripts)
        logs = [[] for _ in range(n)]

        def body(i):
            def f():
                for op, v in scripts[i]:
                    t0 = time.perf_counter_ns()
                    if op == 'inc':
                        r = c.increment() if v is None and not slow else c.increment(wrap(v or 1))
                        r = ('inc', v or 1, int(r))
                    elif op == 'set':
                        try:
                            c.set(wrap(v))
                            r = ('set', v, v)
                        except ValueError:
                            r = ('rejected', v, None)
                    else:
                        r = ('read', None, int(c))
                    logs[i].append((t0, time.perf_counter_ns(), r))
            return f
        threads(rng, [body(i) for i in range(n)])
        history = [e for log in logs for e in log]
        effects = sorted([e for e in history if e[2][0] in ('inc', 'set')], key=lambda e: e[2][2])
        values = [e[2][2] for e in effects]
        ctx.check(len(set(values)) == len(values), 'counter-unique', lambda: values)
        current = initial
        ok = True
        for t0, t1, (op, v, r) in effects:
            if op == 'inc':
                ok = ok and r == current + v
            else:
                ok = ok and r > current
            current = r
        ctx.check(ok, 'counter-linearizable', lambda: (initial, [e[2] for e in effects]))
        if any(e[2][0] == 'set' for e in effects):
            ctx.seen('counter-set')
        ctx.equal(int(c), current, 'counter-final')
        # real time order
        bad = [(a[2], b[2]) for a in effects for b in effects if a[1] < b[0] and a[2][2] > b[2][2]]
        ctx.check(not bad, 'counter-real-time', lambda: bad)
        for t0, t1, (op, v, r) in history:
            if op == 'read':
                known = {initial} | {e[2][2] for e in effects if e[0] < t1}
                floor = max([initial] + [e[2][2] for e in effects if e[1] < t0])
                ctx.check(r in known and r >= floor, 'counter-read', lambda: (r, floor, known))
            elif op == 'rejected':
                top = max([initial] + [e[2][2] for e in effects if e[0] < t1])
                ctx.check(top >= v, 'counter-set-rejected', lambda: (v, top))

    def sequential(rng):
        initial = rng.randint(-5, 5)
        c = AtomicCounter(initial)
        v = initial
        ops = []
        for _ in range(rng.randint(3, 15)):
            k = rng.choice(['inc', 'inc', 'step', 'set', 'read'])
            if k == 'inc':
                v += 1
                ctx.equal(c.increment(), v, 'counter-sequential')
            elif k == 'step':
                s = rng.randint(1, 9)
                v += s
                ctx.equal(c.increment(s), v, 'counter-sequential')
            elif k == 'set':
                s = v + rng.randint(-3, 6)
                if s > v:
                    c.set(s)
                    v = s
                else:
                    ctx.raises(ValueError, lambda: c.set(s), 'counter-sequential', (s, v))
            ops.append((k, v))
            ctx.equal(int(c), v, 'counter-sequential')
        ctx.note(ops=ops)

    class A(ObjectGlobalIdMixin):
        pass

    class B(ObjectGlobalIdMixin):
        pass

    class C(A):
        def __init__(self, id=None):
            super().__init__(id)

    def identifiers(rng):
        n = rng.randint(2, 6)
        base = A().id
        scripts = [[(rng.choice([A, B, C]), rng.choice([None, None, None, base + rng.randint(-5, 60)])) for _ in range(rng.randint(3, 8))]
                   for _ in range(n)]
        ctx.note(base=base, scripts=scripts)
        logs = [[] for _ in range(n)]

        def body(i):
            def f():
                for cls, id in scripts[i]:
                    t0 = time.perf_counter_ns()
                    try:
                        o = cls(id) if id is not None else cls()
                        logs[i].append((t0, time.perf_counter_ns(), id, o.id, int(o)))
                    except ValueError:
                        logs[i].append((t0, time.perf_counter_ns(), id, None, None))
            return f
        threads(rng, [body(i) for i in range(n)])
        history = [e for log in logs for e in log]
        got = [e[3] for e in history if e[3] is not None]
        ctx.check(len(set(got)) == len(got) and all(g > base for g in got), 'id-unique', lambda: sorted(got))
        for t0, t1, id, i, j in history:
            if id is None:
                ctx.check(i is not None, 'id-unique', 'no id')
            elif i is None:
                ctx.check(max([base] + [e[3] for e in history if e[3] is not None and e[0] < t1]) >= id, 'id-explicit', id)
            else:
                ctx.check(i == id, 'id-explicit', (id, i))
            if i is not None:
                ctx.equal(j, i, 'id-explicit')
        ctx.check(B().id > max(got + [base]), 'id-unique')

    def singletons(rng):
        n = rng.randint(2, 6)
        mode = rng.choice(['plain', 'slow', 'subclass', 'failure', 'nested'])
        log = []
        lock = threading.Lock()
        failures = [rng.randint(1, 2) if mode == 'failure' else 0]

        class Base(metaclass=SingletonMetaClass):
            def __init__(self, x=None):
                with lock:
                    log.append(type(self).__name__)
                    fail = failures[0] > 0
                    failures[0] -= 1
                if mode in ('slow', 'failure', 'nested'):
                    time.sleep(1e-4)
                if fail:
                    raise KeyError('constructor')
                self.x = x
                self.ready = True
                if mode == 'nested':
                    self.other = Other()

        class Other(metaclass=SingletonMetaClass):
            def __init__(self):
                with lock:
                    log.append('Other')
                time.sleep(1e-5)

        class Derived(Base):
            pass

        classes = [Base, Derived] if mode == 'subclass' else ([Base, Base, Other] if mode == 'nested' else [Base])
        picks = [[rng.choice(classes) for _ in range(3)] for _ in range(n)]
        ctx.note(mode=mode, picks=picks)
        out = [[] for _ in range(n)]

        def body(i):
            def f():
                for j, cls in enumerate(picks[i]):
                    try:
                        o = cls((i, j)) if cls is not Other else cls()
                        out[i].append((cls, o, getattr(o, 'ready', None) or cls is Other))
                    except KeyError:
                        out[i].append((cls, None, True))
            return f
        threads(rng, [body(i) for i in range(n)])
        for cls in set(classes):
            got = [o for r in out for c, o, ready in r if c is cls and o is not None]
            if got:
                ctx.check(all(o is got[0] for o in got), 'singleton-one', lambda: (mode, cls.__name__))
                ctx.check(type(got[0]) is cls, 'singleton-subclass' if mode == 'subclass' else 'singleton-one', lambda: (cls, got[0]))
                if cls is not Other:
                    ctx.check(got[0].x in [(i, j) for i in range(n) for j in range(3)], 'singleton-init')
        ctx.check(all(ready for r in out for c, o, ready in r), 'singleton-init', 'an instance was given before its construction')
        used = {c for r in picks for c in r}
        if mode == 'nested' and Base in used:
            used.add(Other)
        if mode == 'failure':
            failed = sum(1 for r in out for c, o, _ in r if o is None)
            ctx.equal(len(log), failed + (1 if any(o is not None for r in out for c, o, _ in r) else 0), 'singleton-failure')
            if failed < 3*n:
                ctx.check(any(o is not None for r in out for c, o, _ in r), 'singleton-failure')
            ctx.check(Base() is Base(), 'singleton-failure')
        else:
            for cls in used:
                ctx.equal(log.count(cls.__name__), 1, 'singleton-init', (mode, log))

    def decorators(rng):
        calls = []

        class X:
            def __init__(self, *args, **kwargs):
                calls.append((args, kwargs))
                self.args = args
        f = rng.choice([singleton, singleton_func])
        ctx.note(f=f.__name__, r=rng.random())
        g = f(X)
        h = f(type('Y', (X,), {}))
        a = g(1, 2)
        ctx.check(all(g(i) is a for i in range(3)) and a.args == (1, 2) and isinstance(a, X), 'singleton-sequential')
        ctx.check(h() is not a and h() is h(), 'singleton-sequential')
        ctx.equal(len(calls), 2, 'singleton-sequential')

        class M(monostate):
            _shared_state = {}
            def __init__(self, value=None):
                if value is not None:
                    self.value = value
        v = rng.random()
        m1, m2 = M(v), M()
        ctx.check(m1 is not m2 and m2.value == v, 'monostate')
        m2.other = v
        ctx.check(m1.other == v and M(value=3).value == 3 and m1.value == 3, 'monostate')

    ctx.cases('counter', counter, 250, 8000)
    ctx.cases('sequential', sequential, 100, 1000)
    ctx.cases('identifiers', identifiers, 150, 5000)
    ctx.cases('singletons', singletons, 250, 8000)
    ctx.cases('decorators', decorators, 60, 300)
