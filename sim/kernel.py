"""Core of the simulator: world, event log, outcomes, exceptions, PRNG helpers.

One plan (a JSON value) + the code under test decide everything that happens in
a run.  Nothing here reads a clock, the environment or an unseeded PRNG.
"""
import collections
import hashlib
import json
import os
import random
import sys

REPO = os.environ.get("DUSTSIM_REPO", "/repo")
PKG = os.path.join(REPO, "dustmaker") + os.sep


class Violation(Exception):
    """The property under check is broken.  `cls` is a stable class used to keep
    minimisation on the same failure."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.key = (cls,)
        self.msg = str(msg)


class InvalidPlan(Exception):
    """A (shrunk) plan makes no sense; never a violation."""


class StepLimit(BaseException):
    """The simulated world refuses to go on: the code under test exceeded its
    step budget."""


class SimKill(BaseException):
    """The simulated process died."""


class SimInterrupt(KeyboardInterrupt):
    """Injected asynchronous interrupt."""


class SimMemoryError(MemoryError):
    """Injected allocation failure."""


SHRINKING = False  # set while minimising: a plan whose objects cannot be built is meaningless

INTERRUPTS = {"interrupt": SimInterrupt, "memory": SimMemoryError}


class World:
    """Everything one run touches: event log, fault and probe counters, budget."""

    def __init__(self, budget=6_000_000):
        self.h = hashlib.blake2b(digest_size=10)
        self.tail = collections.deque(maxlen=60)
        self.ops = 0
        self.budget = budget
        self.faults = collections.Counter()
        self.probes = collections.Counter()

    def log(self, *ev):
        self.ops += 1
        rep = repr(ev)
        self.h.update(rep.encode("utf-8", "backslashreplace"))
        self.tail.append(rep if len(rep) < 200 else rep[:200])
        if self.ops > self.budget:
            raise StepLimit(f"more than {self.budget} simulated operations")

    def fault(self, kind):
        self.faults[kind] += 1

    def probe(self, name, n=1):
        self.probes[name] += n

    def digest(self):
        return self.h.hexdigest()


class Outcome:
    """Result of calling the code under test."""

    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc

    def describe(self):
        return "returned" if self.ok else f"raised {type(self.exc).__name__}: {str(self.exc)[:120]}"


def attempt(fn, *args, **kwargs):
    """Call code under test.  Exceptions (also injected interrupts and kills)
    become data; StepLimit always propagates."""
    try:
        return Outcome(True, fn(*args, **kwargs))
    except StepLimit:
        raise
    except Violation:
        raise
    except InvalidPlan:
        raise
    except BaseException as e:  # pylint: disable=broad-except
        ctx = e
        while ctx is not None:
            # also when an error of cleaning up replaced it
            if isinstance(ctx, StepLimit) or type(ctx).__name__ == "CpuLimit":
                ctx.__traceback__ = None
                raise ctx
            ctx.__traceback__ = None
            ctx = ctx.__context__
        return Outcome(False, None, e)


def must(fn, what, *args, **kwargs):
    """Call code under test where no fault is active: failing is a violation."""
    out = attempt(fn, *args, **kwargs)
    if not out.ok:
        raise Violation("unexpected-error", f"{what} {out.describe()}")
    return out.value


def rng_for(*parts):
    return random.Random("/".join(str(p) for p in parts))


def jdump(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def sha(x):
    if not isinstance(x, (bytes, bytearray)):
        x = x.encode()
    return hashlib.blake2b(x, digest_size=8).hexdigest()


class LineTracer:
    """Counts executed lines in dustmaker frames (of the current thread) and can
    raise an exception at the n-th one.  Deterministic for a given plan + code."""

    def __init__(self, raise_at=None, exc=None, limit=None, on_line=None):
        self.n = 0
        self.raise_at = raise_at
        self.exc = exc
        self.limit = limit
        self.fired = None
        self.on_line = on_line

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            n = self.n
            if self.raise_at is not None and n == self.raise_at:
                self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                raise self.exc
            if self.limit is not None and n > self.limit:
                raise StepLimit(f"more than {self.limit} executed lines")
            if self.on_line is not None:
                self.on_line()
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
