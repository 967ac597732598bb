"""Run threads with preemptions injected between the bytecodes of the code under test"""
import hashlib
import os
import sys
import threading
import time


class Hang(Exception):
    pass


class Scheduler:
    """Each thread traces its own frames whose code lives in *directory* (or in a file of *files*); at a
    random opcode the thread sleeps, hence releases the GIL."""

    def __init__(self, rng, directory, probability=.2, files=()):
        self.rng = rng
        self.directory = directory + os.sep
        self.files = set(files)
        self.probability = probability
        self.events = 0 # opcodes seen
        self.preemptions = 0
        self.log = [] # thread of each observed opcode

    def run(self, functions, timeout=60):
        """Run the functions in threads, return their results or exceptions"""
        n = len(functions)
        results = [None]*n
        barrier = threading.Barrier(n)
        seeds = [self.rng.getrandbits(32) for _ in range(n)]

        def body(i):
            import random
            rng = random.Random(seeds[i])

            def local(frame, event, arg):
                if event == 'opcode':
                    self.events += 1
                    if len(self.log) < 20000:
                        self.log.append(i)
                    if rng.random() < self.probability:
                        self.preemptions += 1
                        time.sleep(rng.choice((0, 0, 1e-6, 2e-5)))
                return local

            def trace(frame, event, arg):
                name = frame.f_code.co_filename
                if name.startswith(self.directory) or name in self.files:
                    frame.f_trace_opcodes = True
                    return local
                return None

            barrier.wait()
            sys.settrace(trace)
            try:
                results[i] = ('value', functions[i]())
            except Exception as e:
                results[i] = ('error', e)
            finally:
                sys.settrace(None)

        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
            for t in threads:
                t.start()
            end = time.time() + timeout
            for t in threads:
                t.join(max(0, end - time.time()))
                if t.is_alive():
                    raise Hang()
        finally:
            sys.setswitchinterval(interval)
        return results

    def signature(self):
        return hashlib.sha1(bytes(x & 255 for x in self.log)).hexdigest()[:12]

    @property
    def switches(self):
        return sum(a != b for a, b in zip(self.log, self.log[1:]))
