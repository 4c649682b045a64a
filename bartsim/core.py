"""Seeds, violations, digests, run context."""
import hashlib
import json
import random


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, message):
        super().__init__("%s: %s" % (kind, message))
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    """The harness could not decide."""


class Injected:
    """Marker mixed into every exception the simulator raises on purpose."""


class InjectedError(RuntimeError, Injected):
    pass


class InjectedMemoryError(MemoryError, Injected):
    pass


class InjectedKeyboardInterrupt(KeyboardInterrupt, Injected):
    pass


class InjectedOSError(OSError, Injected):
    pass


class InjectedValueError(ValueError, Injected):
    pass


class InjectedSystemExit(SystemExit, Injected):
    pass


class InjectedBaseException(BaseException, Injected):
    pass


class InjectedStopIteration(StopIteration, Injected):
    pass


EXCEPTIONS = {
    "RuntimeError": InjectedError,
    "MemoryError": InjectedMemoryError,
    "KeyboardInterrupt": InjectedKeyboardInterrupt,
    "OSError": InjectedOSError,
    "ValueError": InjectedValueError,
    "SystemExit": InjectedSystemExit,
    "BaseException": InjectedBaseException,
}


class OutOfBudget(BaseException):
    """The code under test used more simulated steps, draws or processor time than any legal run needs."""


def derive(*labels):
    """A 63 bit integer determined by the labels."""
    h = hashlib.sha256(json.dumps(labels, sort_keys=True).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def rnd(*labels):
    return random.Random(derive(*labels))


class Digest:
    def __init__(self):
        self._h = hashlib.sha256()
        self.n = 0

    def add(self, *parts):
        self.n += 1
        for p in parts:
            if hasattr(p, "tobytes"):
                self._h.update(p.tobytes())
            else:
                self._h.update(repr(p).encode())
        self._h.update(b"|")

    def hex(self):
        return self._h.hexdigest()


class Ctx:
    """What one run accumulates: counters, coverage states, the event digest."""

    def __init__(self, plan):
        self.plan = plan
        self.counts = {}
        self.faults = {}
        self.states = set()
        self.digest = Digest()
        self.notes = []
        self.sim_seconds = 0.0
        self.sample = None
        self.made = None          # the scheduling decisions of the run, for minimising

    def count(self, name, by=1):
        self.counts[name] = self.counts.get(name, 0) + by

    def fault(self, kind, by=1):
        self.faults[kind] = self.faults.get(kind, 0) + by

    def state(self, *key):
        """Record an abstract state reached (the distinctness measure)."""
        self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def event(self, *parts):
        self.digest.add(*parts)

    def fail(self, kind, message):
        raise Violation(kind, message)

    def check(self, ok, kind, message, *args):
        self.count("oracle_checks")
        if not ok:
            raise Violation(kind, message % args if args else message)
