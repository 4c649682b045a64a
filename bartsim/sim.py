"""
The simulator: one scheduler decides which task runs, a simulated clock, per-task random streams,
fault injection at every seam, and joblib backends whose workers are simulated tasks.

Real threads carry the tasks, but exactly one holds the baton at any time; a parked thread only continues
when the scheduler hands it the baton, so one plan is one execution.
"""
import copy
import io
import math
import sys
import threading
import time as _time

import numpy as np

from . import env
from .core import EXCEPTIONS, HarnessError, InjectedError, Injected, OutOfBudget, rnd

OwnState = np.random.RandomState     # the simulator's own, not watched
real_time = _time.time
real_sleep = _time.sleep
real_perf = _time.perf_counter
real_monotonic = _time.monotonic

CURRENT = None      # the active Sim of this process, or None: all seams pass through


class TaskKilled(BaseException):
    """Unwinds a simulated worker that was killed."""


class WorkerDied(BaseException, Injected):
    """The simulated worker process dies here."""


# ------------------------------------------------------------------------------------------------- seams

_DRAWS = ["beta", "binomial", "bytes", "chisquare", "choice", "dirichlet", "exponential", "f", "gamma", "geometric",
          "gumbel", "hypergeometric", "laplace", "logistic", "lognormal", "logseries", "multinomial",
          "multivariate_normal", "negative_binomial", "noncentral_chisquare", "noncentral_f", "normal", "pareto",
          "permutation", "poisson", "power", "rand", "randint", "randn", "random", "random_integers",
          "random_sample", "ranf", "rayleigh", "sample", "shuffle", "standard_cauchy", "standard_exponential",
          "standard_gamma", "standard_normal", "standard_t", "triangular", "uniform", "vonmises", "wald", "weibull",
          "zipf"]


def _wrap_draw(name, inner):
    def draw(*args, **kwargs):
        sim = CURRENT
        if sim is not None:
            sim.on_draw(name)
            if sim.bend is not None:
                return sim.bend(name, inner(*args, **kwargs))
        return inner(*args, **kwargs)
    draw.__name__ = name
    draw.__doc__ = getattr(inner, "__doc__", None)
    draw._bartsim_inner = inner
    return draw


class NoLock:
    def acquire(self, *args, **kwargs):
        return True

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


def note_seed(seed):
    """A generator of its own, or the global one, is started from an explicit seed: remember by which task."""
    if CURRENT is not None and seed is not None and not isinstance(seed, (np.random.BitGenerator, np.random.Generator)):
        CURRENT.seeded.append((CURRENT.current.name, repr(seed)))


def watch_generators():
    inner, inner_seed = np.random.RandomState, np.random.seed

    class Watch(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, inner)

        def __call__(cls, seed=None):
            note_seed(seed)
            return inner(seed)

    class RandomState(metaclass=Watch):
        __doc__ = inner.__doc__

    def seed(value=None):
        note_seed(value)
        return inner_seed(value)
    np.random.RandomState, np.random.seed = RandomState, seed


def install_seams():
    """Once, in the zygote, before bartpy is imported."""
    for name in _DRAWS:
        inner = getattr(np.random, name, None)
        if inner is not None and not hasattr(inner, "_bartsim_inner"):
            setattr(np.random, name, _wrap_draw(name, inner))

    def sim_time():
        sim = CURRENT
        return real_time() if sim is None else sim.now()

    def sim_sleep(dt):
        sim = CURRENT
        return real_sleep(dt) if sim is None else sim.sleep(dt)

    def sim_perf():
        sim = CURRENT
        return real_perf() if sim is None else sim.monotonic()

    _time.time, _time.sleep, _time.perf_counter, _time.monotonic = sim_time, sim_sleep, sim_perf, sim_perf
    import tqdm.std
    tqdm.std.time = sim_time
    # Only one task runs at a time, so tqdm needs no lock of its own; a real one would be shared between simulated
    # processes and stay locked for ever by a worker that was killed.
    tqdm.std.TqdmDefaultWriteLock = NoLock
    tqdm.tqdm.set_lock(NoLock())

    inner_rng = np.random.default_rng

    def default_rng(seed=None):
        if seed is None and CURRENT is not None:
            seed = np.random.mtrand._rand.randint(0, 2 ** 31 - 1)
        else:
            note_seed(seed)
        return inner_rng(seed)
    np.random.default_rng = default_rng
    watch_generators()
    import joblib.parallel
    assert joblib.parallel.time is _time
    joblib.parallel.BACKENDS["loky"] = IsolatedBackend
    joblib.parallel.BACKENDS["multiprocessing"] = IsolatedBackend
    joblib.parallel.BACKENDS["threading"] = SharedBackend


class Sink(io.TextIOBase):
    """Standard output and error of a run: swallows text, fails on demand."""

    def __init__(self, name):
        self._name = name
        self.chars = 0

    def writable(self):
        return True

    def write(self, text):
        sim = CURRENT
        if sim is not None:
            sim.on_point("write", self._name)
        self.chars += len(text)
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False

    @property
    def encoding(self):
        return "utf-8"


def get_state():
    return np.random.get_state(legacy=False)


def set_state(state):
    np.random.set_state(state)


def fresh_state(seed):
    return OwnState(seed % (2 ** 32)).get_state(legacy=False)


# ------------------------------------------------------------------------------------------------- schedule

class Schedule:
    """
    Decides at which yield points the running task is preempted and who runs next.

    {"seed": s, "rate": p}       random preemption, every decision drawn from the seed
    {"switches": [[step, id]]}   exactly these decisions (as recorded), nothing else
    """

    def __init__(self, spec):
        self.explicit = None
        if spec is not None and "switches" in spec:
            self.explicit = {int(s): int(t) for s, t in spec["switches"]}
            self._keys = sorted(self.explicit)
        else:
            spec = spec or {"seed": 0, "rate": 0.0}
            self.rate = spec.get("rate", 0.0)
            self.rng = rnd("schedule", spec.get("seed", 0))
            self.slow = spec.get("slow", {})
        self.made = []

    def next_switch(self, step):
        if self.explicit is not None:
            import bisect
            i = bisect.bisect_right(self._keys, step)
            return self._keys[i] if i < len(self._keys) else 1 << 60
        if self.rate <= 0:
            return 1 << 60
        if self.rate >= 1:
            return step + 1
        rate = self.rate / (1 + len(self.made) // 1500) ** 2        # long runs thin out
        u = self.rng.random()
        return step + 1 + (int(math.log(1 - u) / math.log(1 - rate)) if u > 0 else 0)

    def choose(self, step, ready, current):
        """ready: tasks sorted by id."""
        if self.explicit is not None:
            want = self.explicit.get(step)
            for t in ready:
                if t.id == want:
                    return t
            if current is not None and current in ready:
                return current
            return ready[0]
        if len(ready) == 1:
            return ready[0]
        weights = [0.05 if t.slow else 1.0 for t in ready]
        t = self.rng.choices(ready, weights)[0]
        return t

    def record(self, step, task):
        self.made.append([step, task.id])


class Task:
    def __init__(self, tid, name, fn, rng_state, traced):
        self.id, self.name, self.fn = tid, name, fn
        self.rng_state = rng_state
        self.traced = traced
        self.sem = threading.Semaphore(0)
        self.state = "ready"        # ready | sleeping | done
        self.wake = 0.0
        self.slow = False
        self.killed = False
        self.counters = {}
        self.result = None
        self.exc = None
        self.on_done = None
        self.zombie = False


class Sim:
    def __init__(self, ctx, schedule=None, faults=(), streams=None, cpu=4, batch=1, max_steps=20000000,
                 max_draws=4000000, clock=None, main_seed=0, readonly_transport=False):
        self.ctx = ctx
        self.schedule = Schedule(schedule)
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f.setdefault("fired", False)
        self.line_faults = any(f["on"] == "line" for f in self.faults)
        self.streams = streams or (lambda i: 1000 + i)   # submission index -> seed of that task's stream
        self.cpu = cpu
        self.batch = batch
        self.step = 0
        self.max_steps, self.max_draws = max_steps, max_draws
        self.draws = 0
        self.bend = None                                 # what becomes of a drawn number
        self.seeded = []                                 # explicitly seeded generators: (task, seed)
        self._now = 1.0e9
        self._mono = 0.0
        self.tick = 5e-5
        self.clock_jumps = list(clock or [])             # [[at step, seconds]]
        self.tasks = []
        self.main = Task(0, "main", None, None, False)
        self.tasks.append(self.main)
        self.current = self.main
        self.next_switch = self.schedule.next_switch(0)
        self.submitted = 0
        self.submissions = []
        self.readonly_transport = readonly_transport
        self.op = 0
        self.over_budget, self.fatal = None, None
        set_state(fresh_state(main_seed))

    # ---- life cycle
    def __enter__(self):
        global CURRENT
        CURRENT = self
        return self

    def __exit__(self, *exc):
        global CURRENT
        CURRENT = None
        if self.schedule.made or self.ctx.made is None:
            self.ctx.made = self.schedule.made
        self.ctx.sim_seconds += self._mono
        self.ctx.count("yield_points", self.step)
        self.ctx.count("draw_calls", self.draws)
        self.ctx.count("context_switches", len(self.schedule.made))
        return False

    def begin_op(self, index):
        """Counters that faults refer to restart with every operation."""
        self.op = index
        self.submitted = 0
        self.submissions = []
        self.main.counters = {}

    # ---- time
    def now(self):
        return self._now

    def monotonic(self):
        return self._mono

    def _advance(self, dt):
        self._now += dt
        self._mono += dt

    def sleep(self, dt):
        t = self.current
        self.on_point("sleep", t.name)
        t.state = "sleeping"
        t.wake = self._mono + max(dt, 1e-6)
        self._block()
        self._raise_pending()

    def _raise_pending(self):
        if self.current is self.main:
            if self.over_budget is not None:
                raise self.over_budget
            if self.fatal is not None:
                raise HarnessError("completion callback failed: %r" % (self.fatal,))

    # ---- scheduling
    def _ready(self):
        out = []
        for t in self.tasks:
            if t.state == "sleeping" and t.wake <= self._mono:
                t.state = "ready"
            if t.state == "ready":
                out.append(t)
        return out

    def _spend(self):
        self.step += 1
        self._advance(self.tick)
        if self.clock_jumps and self.step >= self.clock_jumps[0][0]:
            _, jump = self.clock_jumps.pop(0)
            self._now += jump
            self.ctx.fault("clock_jump")
        if self.step > self.max_steps:
            raise OutOfBudget("more than %d simulated steps" % self.max_steps)

    def yield_point(self):
        self._spend()
        if self.step < self.next_switch:
            return
        ready = self._ready()
        cur = self.current
        choice = self.schedule.choose(self.step, ready, cur)
        at = self.step
        self.next_switch = self.schedule.next_switch(self.step)
        if choice is not cur:
            self.schedule.record(at, choice)
            self._hand_over(choice)

    def _block(self):
        """The running task cannot go on: somebody else must."""
        self._spend()
        cur = self.current
        ready = self._ready()
        if not ready:
            sleeping = [t for t in self.tasks if t.state == "sleeping"]
            if not sleeping:
                raise HarnessError("deadlock in the simulator")
            t = min(sleeping, key=lambda x: (x.wake, x.id))
            self._advance(max(0.0, t.wake - self._mono))
            ready = self._ready() or [t]
            t.state = "ready"
        choice = self.schedule.choose(self.step, ready, None)
        if choice is not ready[0]:
            self.schedule.record(self.step, choice)
        if choice is not cur:
            self._hand_over(choice)
        else:
            cur.state = "ready"

    def _hand_over(self, other, leave=False):
        cur = self.current
        cur.rng_state = get_state()
        other.state = "ready"
        self.current = other
        set_state(other.rng_state)
        self.ctx.event("switch", self.step, other.id)
        other.sem.release()
        if leave:
            return
        cur.sem.acquire()
        if cur.killed:
            raise TaskKilled()

    # ---- tasks
    def spawn(self, name, fn, seed, traced, on_done=None, slow=False):
        t = Task(len(self.tasks), name, fn, fresh_state(seed), traced)
        t.on_done = on_done
        t.slow = slow
        self.tasks.append(t)
        th = threading.Thread(target=self._thread, args=(t,), daemon=True)
        t.thread = th
        th.start()
        return t

    def _thread(self, t):
        t.sem.acquire()
        if not t.killed:
            try:
                if t.traced:
                    sys.settrace(self._trace)
                try:
                    t.result = t.fn()
                finally:
                    if t.traced:
                        sys.settrace(None)
            except BaseException as e:      # noqa: a simulated worker reports every kind of failure
                t.exc = e
            if not t.killed and t.on_done is not None:
                try:
                    t.on_done(t)
                except BaseException as e:  # noqa
                    self.fatal = e
        t.state = "done"
        self.ctx.event("done", t.id)
        if self.current is t:
            self._leave(t)

    def _leave(self, t):
        try:
            self._spend()
        except OutOfBudget as e:
            self.over_budget = e
        ready = self._ready()
        if not ready:
            sleeping = [x for x in self.tasks if x.state == "sleeping"]
            nxt = min(sleeping, key=lambda x: (x.wake, x.id)) if sleeping else self.main
            self._advance(max(0.0, nxt.wake - self._mono))
            nxt.state = "ready"
            ready = [nxt]
        choice = self.schedule.choose(self.step, ready, None)
        if choice is not ready[0]:
            self.schedule.record(self.step, choice)
        self._hand_over(choice, leave=True)

    _traced_codes = {}

    def _trace(self, frame, event, arg):
        code = frame.f_code
        known = self._traced_codes.get(code)
        if known is None:
            known = self._traced_codes[code] = env.is_bartpy_file(code.co_filename)
        return self._trace_line if known else None

    def _trace_line(self, frame, event, arg):
        if event == "line" and CURRENT is self:
            if self.line_faults:
                self.on_point("line", self.current.name)
            self.yield_point()
        return self._trace_line

    def join(self, tasks):
        """Main waits until all these tasks are done."""
        while any(t.state != "done" for t in tasks):
            self.main.state = "sleeping"
            self.main.wake = self._mono + 0.01
            self._block()
            self._raise_pending()

    def drain(self, limit=2000):
        """Let abandoned workers run for a while."""
        for _ in range(limit):
            alive = [t for t in self.tasks[1:] if t.state != "done" and not t.killed]
            if not alive:
                return
            self.main.state = "sleeping"
            self.main.wake = self._mono + 0.01
            self._block()

    # ---- fault points
    def on_draw(self, name):
        self.draws += 1
        if self.draws > self.max_draws:
            raise OutOfBudget("more than %d random draws" % self.max_draws)
        self.on_point("draw", self.current.name)
        if len(self.tasks) > 1:
            self.yield_point()
        else:
            self._spend()

    def on_point(self, what, who):
        t = self.current
        k = t.counters.get(what, 0)
        t.counters[what] = k + 1
        if not self.faults:
            return
        for f in self.faults:
            if f["fired"] or f["on"] != what or f["k"] != k:
                continue
            if f.get("op") is not None and f["op"] != self.op:
                continue
            if f.get("task") is not None and f["task"] != t.name:
                continue
            self.fire(f, what, t)

    def fire(self, f, what, t):
        f["fired"] = True
        kind = f["exc"]
        self.ctx.fault("%s@%s" % (kind, what))
        self.ctx.event("fault", kind, what, t.name, f["k"])
        if kind == "stall":
            t.state = "sleeping"
            t.wake = self._mono + f.get("seconds", 5.0)
            self._block()
            return
        if kind == "die":
            raise WorkerDied("injected death of %s" % t.name)
        cls = EXCEPTIONS[kind]
        if kind == "OSError":
            raise cls(f.get("errno", 28), "injected")
        raise cls("injected %s at %s %d of %s" % (kind, what, f["k"], t.name))

    def fired(self):
        return [f for f in self.faults if f["fired"]]


# ------------------------------------------------------------------------------------------------- joblib

from joblib.parallel import ParallelBackendBase, FallbackToBackend, SequentialBackend   # noqa: E402
import cloudpickle                                                                    # noqa: E402
from joblib.externals.loky.process_executor import TerminatedWorkerError                # noqa: E402


def seeded(f, seed):
    def call(*args, **kwargs):
        set_state(fresh_state(seed))
        return f(*args, **kwargs)
    return call


class Future:
    def __init__(self, index, payload, callback):
        self.index, self.payload, self.callback = index, payload, callback
        self.task = None
        self.outcome = None      # ("ok", value) | ("error", exc)
        self.finished = False
        self.failed = None

    def get(self, timeout=None):
        kind, value = self.outcome
        if kind == "error":
            raise value
        return value


class SimBackend(ParallelBackendBase):
    supports_retrieve_callback = True
    supports_inner_max_num_threads = True
    default_n_jobs = 1
    shared = False

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            cpu = CURRENT.cpu if CURRENT is not None else 1
            return max(cpu + 1 + n_jobs, 1)
        return n_jobs

    def configure(self, n_jobs=1, parallel=None, **kwargs):
        if CURRENT is None:
            n_jobs = 1
        n_jobs = self.effective_n_jobs(n_jobs)
        if n_jobs == 1:
            raise FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level))
        self.parallel = parallel
        self.n_jobs = n_jobs
        self.queue, self.running = [], []
        self.broken = None
        return n_jobs

    def compute_batch_size(self):
        return CURRENT.batch

    def batch_completed(self, batch_size, duration):
        pass

    def get_nested_backend(self):
        return SequentialBackend(nesting_level=(self.nesting_level or 0) + 1), None

    def start_call(self):
        pass

    def stop_call(self):
        pass

    def terminate(self):
        pass

    def submit(self, func, callback=None):
        sim = CURRENT
        index = sim.submitted                   # of the first piece of work in this task
        sim.submitted += len(func.items)
        sim.submissions.extend(func.items)
        sim.ctx.count("tasks_submitted")
        future = Future(index, None, callback)
        try:
            sim.on_point("submit", "main")
            if self.broken is not None:
                raise self.broken
            future.payload = self.pack(func)
        except BaseException as e:
            if not isinstance(e, (Injected, TerminatedWorkerError)):
                raise
            future.failed = e       # reported through the future, as loky's feeder thread does
        self.queue.append(future)
        self._start_queued()
        return future

    def _start_queued(self):
        sim = CURRENT
        while self.queue and len(self.running) < self.n_jobs:
            future = self.queue.pop(0)
            slow = bool(future.index in getattr(sim.schedule, "slow", {}))
            if slow:
                sim.ctx.fault("slow_worker")
            future.task = sim.spawn("chain%d" % future.index, lambda f=future: self.run(f),
                                    sim.streams(future.index), self.shared, self._done_cb(future), slow)
            self.running.append(future)

    def run(self, future):
        if future.failed is not None:
            raise future.failed
        func = copy.copy(self.unpack(future.payload))
        # every piece of work has a stream of its own, also if several are sent to a worker as one batch
        func.items = [(seeded(f, CURRENT.streams(future.index + j)), args, kwargs)
                      for j, (f, args, kwargs) in enumerate(func.items)]
        result = func()
        CURRENT.on_point("result", "worker")
        return self.unpack(self.pack(result), transport=False)

    def _done_cb(self, future):
        def on_done(task):
            if future in self.running:
                self.running.remove(future)
            if future.finished:
                return
            if task.exc is None:
                self._finish(future, ("ok", task.result))
            elif isinstance(task.exc, TaskKilled):
                return
            elif isinstance(task.exc, WorkerDied):
                self._worker_died(future)
            else:
                self._finish(future, ("error", task.exc))
            self._start_queued()
        return on_done

    def _worker_died(self, future):
        """As with loky: the whole pool is broken and every pending future fails."""
        self.broken = TerminatedWorkerError("injected: a worker process died")
        pending = [future] + list(self.running) + list(self.queue)
        self._kill_running()
        self.queue = []
        for f in pending:
            if not f.finished:
                self._finish(f, ("error", self.broken))

    def _kill_running(self):
        for f in self.running:
            if f.task is not None and f.task.state != "done" and f.task is not CURRENT.current:
                f.task.killed = True
                f.task.state = "done"
        self.running = []

    def _finish(self, future, outcome):
        future.finished = True
        future.outcome = outcome
        CURRENT.ctx.event("finish", future.index, outcome[0])
        if future.callback is not None:
            future.callback(future)

    def retrieve_result_callback(self, out):
        return out.get()

    def abort_everything(self, ensure_ready=True):
        self.queue = []
        if self.shared:
            # threads cannot be killed: they run on behind the caller's back
            for f in self.running:
                f.finished = True
                if f.task is not None:
                    f.task.zombie = True
                    CURRENT.ctx.count("abandoned_chains")
            self.running = []
        else:
            self._kill_running()
        if ensure_ready:
            self.configure(n_jobs=self.parallel.n_jobs, parallel=self.parallel)


class IsolatedBackend(SimBackend):
    """Workers that share nothing: work and results are pickled, as with loky or multiprocessing."""
    shared = False

    def pack(self, obj):
        return cloudpickle.dumps(obj)

    def unpack(self, payload, transport=True):
        out = cloudpickle.loads(payload)
        if transport and CURRENT is not None and CURRENT.readonly_transport:
            for _, args, _ in getattr(out, "items", []):
                for a in args:
                    if isinstance(a, np.ndarray):
                        a.flags.writeable = False    # as joblib does by memory-mapping large arrays
        return out


class SharedBackend(SimBackend):
    """Workers that share memory with each other and the caller, preempted at any source line."""
    shared = True
    supports_sharedmem = True
    uses_threads = True

    def pack(self, obj):
        return obj

    def unpack(self, payload, transport=True):
        return payload
