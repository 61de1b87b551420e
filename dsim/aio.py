"""An asyncio event loop on simulated time and simulated threads.

The loop is the standard BaseEventLoop; only the selector (what it waits on), the clock and the order in which sets of
tasks iterate are ours.  The default executor is the real ThreadPoolExecutor on simulated threads."""
import asyncio
import asyncio.base_events


class _Selector:
    def __init__(self, sim):
        self.sim = sim
        self.woken = False
        self.waiter = None

    def select(self, timeout):
        sim = self.sim
        sim.point()
        if not self.woken and (timeout is None or timeout > 0):
            self.waiter = sim.current
            sim.block("select", None if timeout is None else sim.now + timeout)
            self.waiter = None
        self.woken = False
        return []

    def wake(self):
        self.woken = True
        if self.waiter is not None:
            self.sim._wake(self.waiter)
        if not self.sim.aborting:
            self.sim.point()

    def close(self):
        pass


class _Task(asyncio.Task):
    """Tasks hash by creation order, not by address."""
    __slots__ = ("_n",)

    def __init__(self, n, coro, **kw):
        self._n = n
        super().__init__(coro, **kw)

    def __hash__(self):
        return self._n


class SimLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, sim):
        super().__init__()
        self._sim = sim
        self._selector = _Selector(sim)
        self._clock_resolution = 1e-7
        self._n = 0
        self.set_task_factory(self._make_task)
        self.set_exception_handler(self._unhandled)

    def _make_task(self, loop, coro, **kw):
        self._n += 1
        return _Task(self._n, coro, loop=loop, **kw)

    def _unhandled(self, loop, context):
        self._sim.count("loop_exceptions")

    def time(self):
        return self._sim.now

    def _write_to_self(self):
        self._selector.wake()

    def _process_events(self, events):
        pass
