"""Deterministic scheduling of real threads.

Only one thread runs at any time.  A thread is preempted after a given number
of executed lines (or bytecodes) of dustmaker; a drawn schedule then decides
who goes on.  One schedule is one exactly repeatable interleaving.
"""
import sys
import threading
import _thread

from .kernel import PKG, StepLimit, attempt


def _warm_up():
    """CPython 3.12 delivers bytecode events only for traces started after some
    frame has asked for them; ask once, so that the first run is like all others."""
    old = sys.gettrace()

    def trace(frame, event, arg):
        frame.f_trace_opcodes = True
        return trace

    def nothing():
        return None

    sys.settrace(trace)
    try:
        nothing()
    finally:
        sys.settrace(old)


_warm_up()


class Aborted(BaseException):
    """The run is over; the thread has to go away."""


class Task:
    def __init__(self, sched, n, fn):
        self.sched = sched
        self.n = n
        self.fn = fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.out = None
        self.err = None
        self.done = False
        self.left = 0
        self.steps = 0
        self.blocked = False
        self.parked = True

    # ---- runs in the task's own thread
    def main(self):
        try:
            self.park()
            sys.settrace(self._global)
            try:
                self.out = attempt(self.fn)
            finally:
                sys.settrace(None)
        except Aborted:
            pass
        except BaseException as e:  # pylint: disable=broad-except
            self.err = e
        if not self.sched.aborted:
            self.wait_turn()
            self.done = True
            self.sched.main.release()
        self.done = True

    def wait_turn(self):
        # only relevant if the thread came out of a real lock while another one runs
        if self.sched.current is not self and not self.sched.aborted:
            try:
                self.park()
            except Aborted:
                pass

    def park(self):
        self.parked = True
        self.gate.acquire()
        self.parked = False
        if self.sched.aborted:
            raise Aborted()

    def tick(self):
        s = self.sched
        if s.current is not self:
            # was blocked in a real lock and has got it: wait to be scheduled
            self.park()
        self.steps += 1
        if self.steps > s.limit:
            raise StepLimit(f"more than {s.limit} executed steps")
        self.left -= 1
        if self.left <= 0:
            self.parked = True  # before the scheduler may look
            s.main.release()
            self.park()

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            if self.sched.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.tick()
        return self._local


class Sched:
    def __init__(self, world, schedule, opcodes=False, limit=5_000_000):
        self.world = world
        self.schedule = schedule
        self.opcodes = opcodes
        self.limit = limit
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.current = None
        self.aborted = False
        self.tasks = []
        self.switches = 0

    def add(self, fn):
        self.tasks.append(Task(self, len(self.tasks), fn))

    def run(self):
        threads = []
        for t in self.tasks:
            th = threading.Thread(target=t.main, daemon=True)
            threads.append(th)
            th.start()
        try:
            last = None
            i = 0
            while True:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    break
                ready = [t for t in live if not t.blocked]
                if not ready:
                    for t in live:
                        t.blocked = False
                    self.stuck = getattr(self, "stuck", 0) + 1
                    if self.stuck > 10:
                        raise StepLimit("all threads wait for each other")
                    continue
                if i < len(self.schedule):
                    c, n = self.schedule[i]
                    i += 1
                    t = ready[c % len(ready)]
                    t.left = max(1, n)
                else:
                    t = ready[0]
                    t.left = 1 << 60
                if t is not last:
                    self.switches += 1
                    for o in live:
                        o.blocked = False
                last = t
                self.current = t
                if t.parked:
                    t.gate.release()
                if not self.main.acquire(True, 10.0):
                    # waits for something another thread holds
                    t.blocked = True
                    self.world.probe("thread-blocked")
                else:
                    self.stuck = 0
                self.world.log("slice", t.n, t.steps)
        finally:
            self.aborted = True
            for t in self.tasks:
                if not t.done:
                    try:
                        t.gate.release()
                    except RuntimeError:
                        pass
            for th in threads:
                th.join(2.0)
        for t in self.tasks:
            if t.err is not None:
                raise t.err
        return [t.out for t in self.tasks]
