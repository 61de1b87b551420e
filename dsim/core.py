"""Deterministic simulator for threads, locks, timers, clocks, garbage collection and entropy.

One process, many real OS threads, but exactly one of them runs at any time: every other one is parked on a private
lock.  The simulator decides who runs.  It gets control

  * at every operation on a lock (and therefore on every threading.Event/Condition/Semaphore, queue.Queue,
    concurrent.futures and asyncio self-pipe operation, which are the real library code running on simulated locks),
  * before every bytecode instruction of the code under test that can touch shared state (sys.monitoring), and
  * wherever a scenario calls sim.point().

Everything that happens is a function of (plan, decisions): `plan` is the scenario's generated workload and fault plan
(JSON), `decisions` maps a step number to a scheduling decision that deviates from the default policy.
"""
import _thread
from . import report
import gc
import heapq
import random as _random
import sys

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread

QUANTUM = 1e-6  # smallest amount by which a timed wait moves the clock

_sim = None  # the simulation in progress (there is at most one per process)


class SimAbort(BaseException):
    """Unwinds a simulated thread when its run is over."""


class Violation(Exception):
    def __init__(self, kind, message):
        super().__init__(kind, message)
        self.kind = kind
        self.message = message


class SimCrash(BaseException):
    """A simulated process crash: nothing above the simulator may catch it."""


# ------------------------------------------------------------------------------------------------ OS thread pool
class _OSWorker:
    """A reusable OS thread."""
    __slots__ = ("go", "job")

    def __init__(self):
        self.go = _real_allocate()
        self.go.acquire()
        self.job = None
        _real_start(self._loop, ())

    def _loop(self):
        while True:
            self.go.acquire()
            job = self.job
            self.job = None
            job(self)


_idle_workers = []


class SimThread:
    __slots__ = ("tid", "name", "fn", "worker", "state", "deadline", "wait_seq", "timed_out", "what", "done_waiters",
                 "exit_locks", "started")

    def __init__(self, tid, name, fn):
        self.tid = tid
        self.name = name
        self.fn = fn
        self.worker = None
        self.state = "R"  # R runnable, B blocked, D done
        self.deadline = None
        self.wait_seq = 0
        self.timed_out = False
        self.what = None
        self.done_waiters = []
        self.exit_locks = []
        self.started = False

    def __repr__(self):
        return f"<{self.tid}:{self.name}>"


# ------------------------------------------------------------------------------------------------ deciders
TIME, GC = "T", "G"


class RandomDecider:
    """Draws scheduling decisions from a PRNG and records every deviation from the default policy."""

    def __init__(self, seed, expected_steps=400, gc_faults=False, stall_faults=True):
        rng = self.rng = _random.Random(seed)
        self.decisions = {}
        self.expected = max(50, expected_steps)
        style = rng.random()
        self.pre = None
        if style < 0.45:
            self.style = "walk"
            self.p = rng.choice((0.5, 0.3, 0.15, 0.08, 0.04, 0.015))
        elif style < 0.85:
            self.style = "pct"
            k = rng.choice((1, 1, 2, 2, 3, 4, 6))
            self.pre = sorted(rng.randrange(1, int(self.expected * 1.2) + 2) for _ in range(k))
        elif style < 0.95:
            self.style = "burst"
            at = rng.randrange(1, self.expected + 2)
            self.pre = sorted({at + rng.randrange(0, 40) for _ in range(12)})
        else:
            self.style = "forced-only"
            self.pre = []
        self.p_time = rng.choice((0.0, 0.1, 0.3)) if stall_faults else 0.0
        self.p_gc = rng.choice((0.0, 0.2, 0.5)) if gc_faults else 0.0

    def next_after(self, step):
        if self.pre is not None:
            while self.pre and self.pre[0] <= step:
                self.pre.pop(0)
            return self.pre[0] if self.pre else 1 << 60
        # geometric gap
        n = 1
        r = self.rng.random
        p = self.p
        while r() >= p:
            n += 1
        return step + n

    def preempt(self, step, others, have_timers):
        r = self.rng.random()
        if r < self.p_gc:
            d = GC
        elif have_timers and self.rng.random() < self.p_time:
            d = TIME
        elif others:
            d = others[self.rng.randrange(len(others))]
        else:
            return None
        self.decisions[step] = d
        return d

    def forced(self, step, runnable, default, have_timers):
        if have_timers and self.p_time and self.rng.random() < self.p_time * 0.3:
            self.decisions[step] = TIME
            return TIME
        if len(runnable) == 1:
            return default
        d = runnable[self.rng.randrange(len(runnable))]
        if d != default:
            self.decisions[step] = d
        return d


class ReplayDecider:
    def __init__(self, decisions):
        self.decisions = {int(k): v for k, v in dict(decisions).items()}
        self.steps = sorted(self.decisions)
        self.i = 0
        self.used = set()
        self.style = "replay"

    def next_after(self, step):
        while self.i < len(self.steps) and self.steps[self.i] <= step:
            self.i += 1
        return self.steps[self.i] if self.i < len(self.steps) else 1 << 60

    def preempt(self, step, others, have_timers):
        d = self.decisions.get(step)
        if d is None:
            return None
        if d == GC:
            self.used.add(step)
            return d
        if d == TIME:
            if have_timers:
                self.used.add(step)
                return d
            return None
        if d in others:
            self.used.add(step)
            return d
        return None

    def forced(self, step, runnable, default, have_timers):
        d = self.decisions.get(step)
        if d == TIME and have_timers:
            self.used.add(step)
            return TIME
        if d in runnable:
            self.used.add(step)
            return d
        return default


# ------------------------------------------------------------------------------------------------ simulation
class Sim:
    def __init__(self, decider, max_steps=60000, mono0=1000.0, wall0=1.6e9, entropy_seed=0):
        self.decider = decider
        self.max_steps = max_steps
        self.fair_after = int(max_steps * 0.6)
        self.step = 0
        self.next_at = 0
        self.threads = []
        self.current = None
        self.now = mono0
        self.start = mono0
        self.wall_offset = wall0 - mono0
        self.timers = []
        self.seq = 0
        self.aborting = False
        self.result = None  # (status, kind, message)
        self.history = []
        self.sig = 0
        self.switches = 0
        self.stats = {}
        self.trace = None  # list when tracing a replay
        self.entropy = _random.Random(entropy_seed)
        self.finished = _real_allocate()
        self.finished.acquire()
        self.fault_active = True
        self.crash_hooks = []
        self.keep = []  # objects kept alive to the end of the run

    # ---- bookkeeping
    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def log(self, *event):
        """Append to the recorded history; returns the event's global sequence number."""
        self.history.append((self.current.tid if self.current else -1,) + event)
        if self.trace is not None:
            self.trace.append(f"    step {self.step} t+{self.now - self.start:.6f} {self.current!r} {event}")
        return len(self.history)

    def seqno(self):
        self.seq += 1
        return self.seq

    def fail(self, kind, message):
        """Record a violation and end the run; nothing in between can swallow it."""
        self.set_result("violation", kind, message)
        self._begin_abort()
        raise SimAbort()

    def check(self, cond, kind, message=""):
        if not cond:
            self.fail(kind, message() if callable(message) else message)

    def harness_error(self, message):
        self.set_result("harness-error", "harness-error", message)
        self._begin_abort()
        raise SimAbort()

    def set_result(self, status, kind, message):
        if self.result is None:
            self.result = (status, kind, message)

    # ---- clock
    def wall(self):
        return self.now + self.wall_offset

    def step_wall_clock(self, delta):
        self.wall_offset += delta
        self.count("fault.clock_step")

    # ---- threads
    def spawn(self, fn, name=None):
        t = SimThread(len(self.threads), name or f"thread{len(self.threads)}", fn)
        self.threads.append(t)
        worker = _idle_workers.pop() if _idle_workers else _OSWorker()
        t.worker = worker
        worker.job = lambda w, t=t: self._run_thread(w, t)
        return t

    def _run_thread(self, worker, t):
        t.started = True
        try:
            if not self.aborting:
                t.fn()
        except SimAbort:
            pass
        except Violation as v:
            self.set_result("violation", v.kind, v.message)
            self._begin_abort()
        except BaseException as e:  # noqa
            self._classify(t, e)
            self._begin_abort()
        t.state = "D"
        t.fn = None
        for lock in t.exit_locks:
            lock._sim_force_release()
        t.exit_locks = []
        for w in t.done_waiters:
            self._wake(w)
        t.done_waiters = []
        if t.tid == 0:
            self._begin_abort()
        t.worker = None
        self._thread_exit(t, worker)

    def _classify(self, t, e):
        status, kind, msg = report.classify_exception(e, t)
        self.set_result(status, kind, msg)

    def _thread_exit(self, t, worker):
        # choose the successor, then park this OS thread in the idle pool
        nxt = self._next_forced(t)
        if nxt is None:
            _idle_workers.append(worker)
            self.finished.release()
            return
        _idle_workers.append(worker)
        self.current = nxt
        nxt.worker.go.release()

    def _begin_abort(self):
        if not self.aborting:
            self.aborting = True
            self.next_at = 0
            # what follows is only unwinding
            self.final = (self.step, self.sig, len(self.history), self.now)

    # ---- scheduling
    def _runnable(self):
        return [t.tid for t in self.threads if t.state == "R"]

    def _wake(self, t, timed_out=False):
        if t.state == "B":
            t.state = "R"
            t.deadline = None
            t.wait_seq += 1
            t.timed_out = timed_out

    def _have_timers(self):
        timers = self.timers
        while timers:
            deadline, _, t, wseq = timers[0]
            if t.state == "B" and t.wait_seq == wseq:
                return True
            heapq.heappop(timers)
        return False

    def _advance(self):
        """Jump the clock to the next timer and wake everything due."""
        if not self._have_timers():
            return False
        deadline = self.timers[0][0]
        if deadline > self.now:
            self.now = deadline
        while self._have_timers() and self.timers[0][0] <= self.now:
            _, _, t, _ = heapq.heappop(self.timers)
            self._wake(t, True)
        return True

    def _next_forced(self, me):
        """The current thread cannot continue: choose a successor (None: the run is over)."""
        if self.aborting:
            for t in self.threads:
                if t.state != "D":
                    t.state = "R"
                    return t
            return None
        self.step += 1
        if self.step >= self.max_steps:
            self._overrun()
            return self._next_forced(me)
        runnable = self._runnable()
        if not runnable:
            while not runnable:
                if not self._advance():
                    self._deadlock()
                    return self._next_forced(me)
                runnable = self._runnable()
        n = me.tid if me is not None else -1
        default = next((r for r in runnable if r > n), runnable[0])
        if self.step > self.fair_after:
            return self.threads[default]
        d = self.decider.forced(self.step, runnable, default, bool(self.timers) and self._have_timers())
        if d == TIME:
            self.count("fault.stall")
            self._advance()
            runnable = self._runnable()
            d = default
        return self.threads[d]

    def _transfer(self, me, nxt):
        if nxt is me:
            return
        self.switches += 1
        self.sig = hash((self.sig, nxt.tid, self.step))
        if self.trace is not None:
            self.trace.append(f"  step {self.step}: {me!r} -> {nxt!r}" + (f" (was at {self.where()})"))
        self.current = nxt
        worker = me.worker
        nxt.worker.go.release()
        worker.go.acquire()

    def where(self):
        f = sys._getframe(1)
        while f is not None:
            fn = f.f_code.co_filename
            if "/nion/" in fn or "/scenarios/" in fn:
                return f"{fn.rsplit('/', 1)[-1]}:{f.f_lineno} {f.f_code.co_name}"
            f = f.f_back
        return "?"

    def point(self):
        """A place where the scheduler may switch to another thread."""
        s = self.step = self.step + 1
        if s >= self.next_at:
            self._slow_point()

    def _slow_point(self):
        if self.aborting:
            raise SimAbort()
        s = self.step
        me = self.current
        if s >= self.max_steps:
            self._overrun()
            raise SimAbort()
        if s >= self.fair_after:
            # faults are over: strict round robin, so that lack of progress is the code's fault
            self.fault_active = False
            self.next_at = s + 25
            runnable = self._runnable()
            nxt = next((r for r in runnable if r > me.tid), runnable[0])
            if nxt == me.tid and self._have_timers() and s % 500 < 25:
                self._advance()
                return
            if nxt != me.tid:
                self._transfer(me, self.threads[nxt])
                if self.aborting:
                    raise SimAbort()
            return
        decider = self.decider
        if self.next_at:  # not the very first step
            others = [t.tid for t in self.threads if t.state == "R" and t is not me]
            have_timers = bool(self.timers) and self._have_timers()
            d = decider.preempt(s, others, have_timers)
            self.next_at = min(decider.next_after(s), self.fair_after, self.max_steps)
            if d is not None:
                if d == GC:
                    self.count("fault.gc")
                    if self.trace is not None:
                        self.trace.append(f"  step {s}: garbage collection at {self.where()}")
                    gc.collect()
                elif d == TIME:
                    # everything runnable stalls until the next timer is due
                    self.count("fault.stall")
                    self._advance()
                    nxts = [t for t in self.threads if t.state == "R" and t is not me and t.timed_out]
                    if nxts:
                        nxts[0].timed_out = True
                        self._transfer(me, nxts[0])
                else:
                    self.count("preemptions")
                    self._transfer(me, self.threads[d])
                if self.aborting:
                    raise SimAbort()
        else:
            self.next_at = min(decider.next_after(s), self.fair_after, self.max_steps)

    def block(self, what, deadline=None):
        """Block the current thread until woken (True) or until the deadline (False)."""
        if self.aborting:
            raise SimAbort()
        me = self.current
        me.state = "B"
        me.what = what
        me.timed_out = False
        me.deadline = deadline
        if deadline is not None:
            self.seq += 1
            heapq.heappush(self.timers, (deadline, self.seq, me, me.wait_seq))
        nxt = self._next_forced(me)
        self._transfer(me, nxt)
        if self.aborting:
            raise SimAbort()
        timed_out = me.timed_out
        me.timed_out = False
        return not timed_out

    def sleep(self, dt):
        if dt <= 0:
            me = self.current
            others = [t.tid for t in self.threads if t.state == "R" and t is not me]
            if others:
                nxt = self._next_forced(me)
                self._transfer(me, nxt)
            elif self._have_timers():
                self._advance()
            if self.aborting:
                raise SimAbort()
            return
        deadline = self.now + max(dt, QUANTUM)
        while self.now < deadline:
            self.block("sleep", deadline)

    def join(self, *threads):
        for t in threads:
            while t.state != "D":
                t.done_waiters.append(self.current)
                self.block(f"join {t!r}")

    def _deadlock(self):
        blocked = ", ".join(f"{t!r} on {t.what}" for t in self.threads if t.state == "B")
        self.set_result("violation", "deadlock", f"no thread can make progress: {blocked}")
        self._begin_abort()

    def _overrun(self):
        self.set_result("violation", "no-progress", f"not finished after {self.max_steps} steps, the last "
                        f"{self.max_steps - self.fair_after} of them fault free and fairly scheduled")
        self._begin_abort()

    # ---- driving
    def run(self, main):
        """Run `main` as simulated thread 0 and return when the simulation is over."""
        global _sim
        assert _sim is None
        _sim = self
        try:
            import threading
            import itertools
            threading._active.clear()
            threading._counter = itertools.count(1).__next__
            t = self.spawn(main, "main")
            self.current = t
            t.worker.go.release()
            self.finished.acquire()
        finally:
            _sim = None
            self.threads = [t for t in self.threads if t.state != "D"]
        if self.result is None:
            self.result = ("ok", None, None)


def active():
    return _sim


# ------------------------------------------------------------------------------------------------ locks
class SimLock:
    __slots__ = ("_locked", "_waiters", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = None

    def acquire(self, blocking=True, timeout=-1):
        sim = _sim
        if sim is None:
            if self._locked:
                if not blocking:
                    return False
                raise RuntimeError("lock already held outside the simulation")
            self._locked = True
            return True
        sim.point()
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        if timeout is None or timeout < 0:
            deadline = None
        else:
            deadline = sim.now + max(timeout, QUANTUM)
        me = sim.current
        while True:
            if self._waiters is None:
                self._waiters = []
            self._waiters.append(me)
            woken = sim.block(self, deadline)
            if self._waiters and me in self._waiters:
                self._waiters.remove(me)
            if not self._locked:
                self._locked = True
                return True
            if not woken:
                return False

    __enter__ = acquire

    def release(self):
        if not self._locked:
            if _sim is not None and _sim.aborting:
                return
            raise RuntimeError("release unlocked lock")
        self._locked = False
        sim = _sim
        if sim is not None:
            if self._waiters:
                for w in self._waiters:
                    sim._wake(w)
                self._waiters = None
            if not sim.aborting:
                sim.point()

    def _sim_force_release(self):
        self._locked = False
        sim = _sim
        if self._waiters and sim is not None:
            for w in self._waiters:
                sim._wake(w)
        self._waiters = None

    def __exit__(self, *args):
        self.release()

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = None

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __repr__(self):
        return "<lock>"


class SimRLock:
    __slots__ = ("_owner", "_count", "_waiters", "__weakref__")

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = None

    def acquire(self, blocking=True, timeout=-1):
        sim = _sim
        if sim is None:
            self._owner = None
            self._count += 1
            return True
        me = sim.current
        if self._count and self._owner is me:
            self._count += 1
            return True
        sim.point()
        if not self._count:
            self._owner = me
            self._count = 1
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else sim.now + max(timeout, QUANTUM)
        while True:
            if self._waiters is None:
                self._waiters = []
            self._waiters.append(me)
            woken = sim.block(self, deadline)
            if self._waiters and me in self._waiters:
                self._waiters.remove(me)
            if not self._count:
                self._owner = me
                self._count = 1
                return True
            if not woken:
                return False

    __enter__ = acquire

    def release(self):
        sim = _sim
        if sim is None:
            if self._count:
                self._count -= 1
            return
        if not self._count or self._owner is not sim.current:
            if sim.aborting:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            if self._waiters:
                for w in self._waiters:
                    sim._wake(w)
                self._waiters = None
            if not sim.aborting:
                sim.point()

    def __exit__(self, *args):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return bool(self._count) and (_sim is None or self._owner is _sim.current)

    def _release_save(self):
        count = self._count
        self._count = 1
        self.release()
        return count

    def _acquire_restore(self, count):
        self.acquire()
        self._count = count

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0
        self._waiters = None

    def __repr__(self):
        return "<rlock>"
