"""Runs several functions as threads, one at a time, and switches between them
at the lines of the code under test that a generated schedule names."""
import sys
import threading

import env

# A thread that waits for so long while no line is executed ends the schedule: all run
# freely from then on (the code under test holds a lock across the switch).
STUCK_S = 1
seen_stuck = [0]


class Scheduler(object):
    def __init__(self, schedule, opcodes=False):
        """schedule: [[which of the other threads, after how many lines]], repeated.
        opcodes: count instructions instead of lines."""
        self.opcodes = opcodes
        self.schedule = schedule or [[0, 1000]]
        self.i = 0
        self.switches = 0
        self.left = self.schedule[0][1]
        self.gates = []
        self.alive = set()
        self.errors = []
        self.free = False
        self.done = threading.Event()

    def other(self, me):
        others = sorted(self.alive - {me})
        k, n = self.schedule[self.i % len(self.schedule)]
        self.i += 1
        self.left = max(1, n)
        return others[k % len(others)] if others else None

    def wait(self, me):
        seen = None
        while not self.gates[me].acquire(timeout=STUCK_S if seen_stuck[0] < 3 else 0.05):
            # the running thread may wait for a lock that a waiting one holds
            if self.free:
                return
            if seen == self.progress:
                seen_stuck[0] += 1
                self.release_all()
                return
            seen = self.progress

    progress = 0

    def release_all(self):
        self.free = True
        for g in self.gates:
            g.release()

    def point(self, me):
        self.progress += 1
        if self.free:
            return
        self.left -= 1
        if self.left > 0:
            return
        t = self.other(me)
        if t is not None:
            self.switches += 1
            self.gates[t].release()
            self.wait(me)

    def run(self, fns):
        self.gates = [threading.Semaphore(0) for _ in fns]
        self.alive = set(range(len(fns)))
        prefix = env.SRC + '/'

        def thread(me, fn):
            self.wait(me)

            def local(frame, event, arg):
                if event == ('opcode' if self.opcodes else 'line'):
                    self.point(me)
                return local

            def tracer(frame, event, arg):
                if event == 'call' and frame.f_code.co_filename.startswith(prefix):
                    frame.f_trace_opcodes = self.opcodes
                    return local
                return None
            sys.settrace(tracer)
            try:
                fn()
            except BaseException as e:
                self.errors.append((me, e))
            finally:
                sys.settrace(None)
                self.alive.discard(me)
                t = self.other(me)
                if t is not None:
                    self.gates[t].release()
                else:
                    self.done.set()
        ts = [threading.Thread(target=thread, args=(i, f), daemon=True)
              for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.gates[0].release()
        self.done.wait()
        for t in ts:
            t.join()
        if self.errors:
            raise self.errors[0][1]
