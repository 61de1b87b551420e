"""Installs the simulator under the code under test: locks, threads, clocks, entropy, logging, import."""
import _thread
import gc
import importlib.abc
import importlib.util
import os
import sys
import types

from . import core

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL = 4
_installed = False
_codes = {}  # path -> code object
_points = {}  # id of code object -> offsets of interest
_keep = []  # the code objects, kept alive so that their ids stay unique
_NAMES = {"LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR", "BINARY_SLICE",
          "STORE_SLICE", "CALL", "CALL_FUNCTION_EX", "LOAD_DEREF", "STORE_DEREF", "FOR_ITER", "CONTAINS_OP",
          "STORE_GLOBAL", "LOAD_METHOD", "LOAD_SUPER_ATTR", "COMPARE_OP", "BEFORE_WITH", "YIELD_VALUE"}


_events = sys.monitoring.events.INSTRUCTION


def loops_only():
    """One client: nothing to interleave; only loops are counted, to notice an execution that does not end."""
    global _events
    _events = sys.monitoring.events.JUMP


def _instrument(code):
    import dis
    if id(code) in _points:
        return
    _keep.append(code)
    offs = frozenset(i.offset for i in dis.get_instructions(code) if i.opname in _NAMES)
    _points[id(code)] = offs
    if offs:
        sys.monitoring.set_local_events(TOOL, code, _events)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _instrument(c)


def _on_instruction(code, offset, _DISABLE=sys.monitoring.DISABLE, _points=_points):
    if offset not in _points[id(code)]:
        return _DISABLE
    sim = core._sim
    if sim is not None:
        s = sim.step = sim.step + 1
        if s >= sim.next_at:
            sim._slow_point()


def _on_jump(code, offset, destination):
    if destination < offset:
        sim = core._sim
        if sim is not None:
            s = sim.step = sim.step + 1
            if s >= sim.next_at:
                sim._slow_point()


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name = name
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(load_code(self.path), module.__dict__)


def load_code(path):
    if path not in _codes:
        import warnings
        warnings.simplefilter("ignore")
        with open(path, "rb") as f:
            code = compile(f.read(), path, "exec", dont_inherit=True)
        # the module body itself runs once, at import: only the functions in it are instrumented
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                _instrument(c)
        _codes[path] = code
    return _codes[path]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "nion" and not fullname.startswith("nion."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if os.path.exists(init):
                return importlib.util.spec_from_file_location(fullname, init, loader=_Loader(fullname, init), submodule_search_locations=[base])
            return None
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=_Loader(fullname, base + ".py"))
        return None


def fresh_module(name):
    """A private copy of a module under test (for modules with module-level state)."""
    path = os.path.join(REPO, *name.split(".")) + ".py"
    module = types.ModuleType(name)
    module.__package__ = name.rsplit(".", 1)[0]
    module.__file__ = path
    exec(load_code(path), module.__dict__)
    return module


class _NoLock:
    """Logging is not under test and only one thread runs at a time."""

    def acquire(self, *args):
        return True

    def release(self):
        pass

    __enter__ = acquire

    def __exit__(self, *args):
        pass

    def _at_fork_reinit(self):
        pass


class Sink:
    """Swallows what the code under test prints, counting it."""
    encoding = "utf-8"

    def __init__(self):
        self.writes = 0
        self.text = []  # as much as needed to tell what the first report was about

    def write(self, s):
        self.writes += 1
        if self.writes < 200:
            self.text.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


real_stdout = sys.stdout
real_stderr = sys.stderr


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    # import everything of the standard library that is going to run on simulated primitives
    import threading
    import queue
    import time
    import datetime
    import logging
    import traceback
    import linecache
    import asyncio
    import concurrent.futures
    import concurrent.futures.thread
    import uuid
    import random
    import copy, weakref, functools, collections, collections.abc, numbers, operator, re, locale, pathlib  # noqa

    # the import system keeps its own locks: an import inside a function must not be an event of the simulation
    import importlib._bootstrap as bootstrap
    bootstrap._thread = types.SimpleNamespace(**{k: getattr(_thread, k) for k in dir(_thread) if not k.startswith("__")})

    # --- locks and threads
    _thread.allocate_lock = _thread.allocate = core.SimLock
    _thread.RLock = core.SimRLock
    threading._allocate_lock = threading.Lock = core.SimLock
    threading._CRLock = core.SimRLock
    threading.RLock = core.SimRLock
    threading._PyRLock = core.SimRLock

    real_start = _thread.start_new_thread

    def start_new_thread(function, args=(), kwargs=None):
        sim = core._sim
        if sim is None:
            return real_start(function, args, kwargs or {})
        t = sim.spawn(lambda: function(*args, **(kwargs or {})), getattr(getattr(function, "__self__", None), "_name", None))
        sim.count("threads")
        sim.point()
        return t.tid + 1000

    def set_sentinel():
        lock = core.SimLock()
        sim = core._sim
        if sim is not None:
            sim.current.exit_locks.append(lock)
        return lock

    real_ident = _thread.get_ident

    def get_ident():
        sim = core._sim
        return real_ident() if sim is None or sim.current is None else sim.current.tid + 1000

    _thread.get_ident = threading.get_ident = get_ident
    threading.get_native_id = get_ident
    _thread.start_new_thread = _thread.start_new = start_new_thread
    threading._start_new_thread = start_new_thread
    threading._set_sentinel = set_sentinel
    threading.excepthook = _thread_excepthook
    threading._shutdown_locks_lock = core.SimLock()
    threading._active_limbo_lock = core.SimRLock()
    queue.SimpleQueue = queue._PySimpleQueue
    concurrent.futures.thread.queue.SimpleQueue = queue._PySimpleQueue
    concurrent.futures.thread._global_shutdown_lock = core.SimLock()
    logging._lock = _NoLock()
    logging.basicConfig(handlers=[logging.NullHandler()])
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    for level in (logging.debug, logging.info, logging.warning, logging.error, logging.critical):
        level("")

    # --- clocks
    real_time, real_mono, real_sleep = time.time, time.monotonic, time.sleep
    real_perf = time.perf_counter

    def sim_time():
        return core._sim.wall() if core._sim is not None else real_time()

    def sim_mono():
        return core._sim.now if core._sim is not None else real_mono()

    def sim_perf():
        return core._sim.now if core._sim is not None else real_perf()

    def sim_sleep(dt):
        if core._sim is None:
            real_sleep(dt)
        else:
            core._sim.sleep(dt)

    time.time = sim_time
    time.monotonic = sim_mono
    time.perf_counter = sim_perf
    time.time_ns = lambda: int(sim_time() * 1e9)
    time.monotonic_ns = lambda: int(sim_mono() * 1e9)
    time.perf_counter_ns = lambda: int(sim_perf() * 1e9)
    time.sleep = sim_sleep
    threading._time = sim_mono
    queue.time = sim_mono
    import concurrent.futures._base as cf_base
    cf_base.time = time

    real_datetime = datetime.datetime

    class SimDatetime(real_datetime):
        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(sim_time(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(sim_time(), tz)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(sim_time())

    SimDatetime.__name__ = SimDatetime.__qualname__ = "datetime"
    datetime.datetime = SimDatetime

    # --- entropy and machine-dependent values
    real_urandom = os.urandom

    def sim_urandom(n):
        if core._sim is None:
            return real_urandom(n)
        return core._sim.entropy.randbytes(n)

    os.urandom = sim_urandom
    os.cpu_count = lambda: 4
    random.seed(0)

    # --- output of the code under test; source lines are never needed
    linecache.getline = lambda *a, **k: ""
    linecache.getlines = lambda *a, **k: []
    linecache.checkcache = lambda *a, **k: None
    linecache.lazycache = lambda *a, **k: False
    sys.unraisablehook = lambda *a: None
    sys.excepthook = sys.__excepthook__

    # --- the code under test
    sys.monitoring.use_tool_id(TOOL, "dsim")
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.INSTRUCTION, _on_instruction)
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.JUMP, _on_jump)
    sys.meta_path.insert(0, _Finder())
    gc.disable()


def _thread_excepthook(args):
    # an exception that ends a thread of the code under test: recorded, scenarios decide whether it matters
    sim = core._sim
    if sim is not None and args.exc_type is not core.SimAbort:
        sim.count("thread_died." + args.exc_type.__name__)


def import_repo():
    import importlib
    names = sorted(f[:-3] for f in os.listdir(os.path.join(REPO, "nion", "utils")) if f.endswith(".py") and f != "__init__.py")
    mods = {}
    for n in names:
        mods[n] = importlib.import_module("nion.utils." + n)
        assert mods[n].__file__.startswith(REPO + "/"), mods[n].__file__
    return mods
