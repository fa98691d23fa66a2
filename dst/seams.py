"""Installs the simulator under the code under test, before that code is imported.

Everything nondeterministic the package can reach goes through here: clocks, sleeping, entropy,
process and thread pools, locks, the HTTP transport, and the duration and outcome of the LP solver.
"""
import functools
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import random
import sys
import threading
import time

REPO = os.environ.get("HADAR_REPO", "/repo")

ACTIVE = None  # Sim of the current run
PLAN = None  # PoolPlan of the current run
NET = None  # simulated network of the current run
MEM = None  # MemoryManager
SOLVER_FAULT = None
SOLVER_TIME = None  # function(solver) -> simulated seconds
API_FAULT = None  # [group of solver functions, calls until one runs out of memory]
MODEL_TIME = None  # function() -> simulated seconds to declare the variables of one problem
HAS_SOLVER = True
REAL = {}
_entropy = None


def sim():
    from .sim import HarnessError

    if ACTIVE is None:
        raise HarnessError("no simulation is running")
    return ACTIVE


# ------------------------------------------------------------------------------- entropy
class Entropy:
    """Operating-system entropy of a run: a stream decided by one recorded choice."""

    def __init__(self, seed):
        self.seed = seed
        self.n = 0
        self.draws = 0

    def bytes(self, k):
        self.draws += 1
        out = b""
        while len(out) < k:
            out += hashlib.sha256(b"%d/%d" % (self.seed, self.n)).digest()
            self.n += 1
        return out[:k]


def urandom(n):
    if _entropy is not None:
        return _entropy.bytes(n)
    return REAL["urandom"](n)


# ------------------------------------------------------------------------------- code under test
class _SourceLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the current source: never a cached .pyc."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "hadar" and not fullname.startswith("hadar."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_SourceLoader(fullname, f), submodule_search_locations=[base]
            )
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=_SourceLoader(fullname, f))
        return None


_installed = False


def install():
    global _installed, MEM
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    import warnings

    warnings.filterwarnings("ignore")

    # libraries that must see the real thing are imported first
    import concurrent.futures
    import concurrent.futures.process
    import concurrent.futures.thread
    import http.client
    import json
    import logging
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.dummy
    import multiprocessing.pool
    import queue
    import secrets
    import socket
    import ssl

    import msgpack
    import numpy as np
    import pandas as pd
    import plotly.graph_objects
    import requests
    import requests.adapters
    import urllib3.connection
    from ortools.linear_solver import pywraplp

    # warm up lazily imported parts so that no import happens inside a run
    pd.pivot_table(pd.DataFrame({"a": [1], "b": [2.0]}), index=["a"])
    np.random.default_rng(0)

    from . import net, pool, sim as simmod

    # clocks
    for name in ("time", "monotonic", "perf_counter", "process_time", "sleep", "time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns", "thread_time"):
        REAL[name] = getattr(time, name)

    def patch_clock(name, fn):
        def f(*a):
            if ACTIVE is None or _outside():
                return REAL[name](*a)
            return fn(*a)

        f.__name__ = name
        setattr(time, name, f)

    patch_clock("time", lambda: ACTIVE.wall())
    patch_clock("time_ns", lambda: int(ACTIVE.wall() * 1e9))
    for n in ("monotonic", "perf_counter", "process_time", "thread_time"):
        patch_clock(n, lambda: ACTIVE.mono())
    for n in ("monotonic_ns", "perf_counter_ns", "process_time_ns"):
        patch_clock(n, lambda: int(ACTIVE.mono() * 1e9))
    patch_clock("sleep", lambda s: ACTIVE.sleep(s))

    import progress.bar
    import progress.spinner

    import datetime as _dt

    class SimDatetime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(time.time())

    REAL["SimDatetime"] = SimDatetime

    # entropy
    REAL["urandom"] = os.urandom
    os.urandom = urandom
    random._urandom = urandom
    secrets.token_bytes.__globals__["DEFAULT_ENTROPY"] = 32

    def _exit(code=0):
        if ACTIVE is not None and ACTIVE.in_worker is not None:
            raise pool.WorkerExit()
        REAL["_exit"](code)

    REAL["_exit"] = os._exit
    os._exit = _exit
    REAL["getpid"] = os.getpid

    def getpid():
        if ACTIVE is not None:
            w = ACTIVE.in_worker
            return 4242 if w is None else 5000 + 100 * w.core.id + w.i
        return REAL["getpid"]()

    os.getpid = getpid
    REAL["cpu_count"] = os.cpu_count

    def cpu_count():
        return PLAN.cpus if (ACTIVE is not None and PLAN is not None) else REAL["cpu_count"]()

    os.cpu_count = cpu_count
    multiprocessing.cpu_count = cpu_count
    if hasattr(os, "sched_getaffinity"):
        REAL["sched_getaffinity"] = os.sched_getaffinity
        os.sched_getaffinity = lambda pid=0: set(range(cpu_count()))
    REAL["os.kill"] = os.kill

    def kill(pid, sig):
        if ACTIVE is not None:
            if ACTIVE.in_worker is not None:
                raise pool.WorkerExit()
            raise ProcessLookupError(3, "No such process")
        return REAL["os.kill"](pid, sig)

    os.kill = kill

    # processes and threads
    def make_pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return pool.SimPool(processes, initializer, initargs, maxtasksperchild)

    multiprocessing.Pool = make_pool
    multiprocessing.Process = pool.SimProcess
    multiprocessing.pool.Pool = pool.SimPool
    multiprocessing.pool.ThreadPool = pool.SimThreadPool
    multiprocessing.dummy.Pool = lambda processes=None, initializer=None, initargs=(): pool.SimThreadPool(processes)

    class SimContext:
        Pool = staticmethod(make_pool)
        Process = pool.SimProcess
        pass

        def get_start_method(self, allow_none=False):
            return "fork"

        def __getattr__(self, name):
            return getattr(multiprocessing.context._default_context, name)

    SimContext.cpu_count = staticmethod(cpu_count)
    multiprocessing.get_context = lambda method=None: SimContext()
    cf = concurrent.futures
    cf.ProcessPoolExecutor = cf.process.ProcessPoolExecutor = pool.SimProcessPoolExecutor
    cf.ThreadPoolExecutor = cf.thread.ThreadPoolExecutor = pool.SimThreadPoolExecutor
    cf.wait = cf._base.wait = pool.sim_wait
    cf.as_completed = cf._base.as_completed = pool.sim_as_completed

    REAL["thread_start"] = threading.Thread.start

    def start(self):
        if ACTIVE is None or _outside():
            return REAL["thread_start"](self)
        s = ACTIVE
        self._sim_task = s.spawn(self.name, self.run, s.current.owner)
        self._started.set()

    def join(self, timeout=None):
        t = getattr(self, "_sim_task", None)
        if t is None:
            return REAL["thread_join"](self, timeout)
        ACTIVE.wait(lambda: t.done, timeout)

    def is_alive(self):
        t = getattr(self, "_sim_task", None)
        if t is None:
            return REAL["thread_alive"](self)
        return not t.done

    REAL["thread_join"] = threading.Thread.join
    REAL["thread_alive"] = threading.Thread.is_alive
    threading.Thread.start = start
    threading.Thread.join = join
    threading.Thread.is_alive = is_alive
    REAL["Lock"], REAL["RLock"] = threading.Lock, threading.RLock

    def lock():
        return simmod.SimLock() if ACTIVE is not None or _loading else REAL["Lock"]()

    def rlock():
        return simmod.SimRLock() if ACTIVE is not None or _loading else REAL["RLock"]()

    threading.Lock, threading.RLock = lock, rlock
    REAL["allocate"] = threading._allocate_lock
    threading._allocate_lock = lambda: simmod.SimLock() if ACTIVE is not None else REAL["allocate"]()

    # solver
    REAL["Solve"] = pywraplp.Solver.Solve

    def solve(self, *a):
        s = ACTIVE
        if s is None or REF_DEPTH:
            return REAL["Solve"](self, *a)
        fault = SOLVER_FAULT
        if fault == "oom":
            s.fault("solver out of memory")
            raise MemoryError("injected")
        if fault == "notsolved":
            s.fault("solver not solved")
            s.advance(0.5)
            return pywraplp.Solver.NOT_SOLVED
        status = REAL["Solve"](self, *a)
        s.advance(SOLVER_TIME(self) if SOLVER_TIME else 0.01)
        self._dst_model = 0  # a solver may be reused
        s.note("solved", status)
        if fault == "abnormal":
            s.fault("solver abnormal")
            return pywraplp.Solver.ABNORMAL
        if fault == "infeasible":
            s.fault("solver claims infeasible")
            return pywraplp.Solver.INFEASIBLE
        if fault == "early":
            s.fault("solver stopped early")
            return pywraplp.Solver.FEASIBLE
        s.proven += 1
        return status

    pywraplp.Solver.Solve = solve

    def slow(name):
        real = getattr(pywraplp.Solver, name)

        def declare(self, *a, **k):
            if ACTIVE is not None and not REF_DEPTH and MODEL_TIME and not getattr(self, "_dst_model", 0):
                self._dst_model = MODEL_TIME()
                ACTIVE.advance(self._dst_model)
            return real(self, *a, **k)

        declare.__name__ = name
        setattr(pywraplp.Solver, name, declare)

    slow("NumVar")
    slow("Var")

    def failing(cls, name, group):
        real = getattr(cls, name, None)
        if real is None:
            return

        def api(self, *a, **k):
            f = API_FAULT
            if f is not None and f[0] == group and ACTIVE is not None and not REF_DEPTH:
                f[1] -= 1
                if f[1] == 0:
                    ACTIVE.fault("solver library out of memory (%s)" % group)
                    raise MemoryError("injected")
            return real(self, *a, **k)

        api.__name__ = name
        setattr(cls, name, api)

    for cls, name, group in (
        (pywraplp.Variable, "solution_value", "values"), (pywraplp.Variable, "SolutionValue", "values"), (pywraplp.Solver, "NumVar", "variables"),
        (pywraplp.Solver, "Var", "variables"), (pywraplp.Solver, "Constraint", "constraints"), (pywraplp.Solver, "Add", "constraints"),
        (pywraplp.Solver, "Objective", "objective"), (pywraplp.Objective, "SetCoefficient", "coefficients"), (pywraplp.Constraint, "SetCoefficient", "coefficients"),
    ):
        failing(cls, name, group)

    # network
    REAL["create_connection"] = socket.create_connection
    socket.create_connection = net.connect
    REAL["new_conn"] = urllib3.connection.HTTPConnection._new_conn
    urllib3.connection.HTTPConnection._new_conn = net.new_conn
    for v in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY", "NETRC"):
        os.environ.pop(v, None)

    sys.meta_path.insert(0, _Finder())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


_loading = False
REF_DEPTH = 0


def _outside():
    """True for harness threads that are not part of the run."""
    return False


class reference:
    """Inside: the real solver, undisturbed, for oracles."""

    def __enter__(self):
        global REF_DEPTH
        REF_DEPTH += 1

    def __exit__(self, *a):
        global REF_DEPTH
        REF_DEPTH -= 1


def _lru_cache(maxsize=128, typed=False):
    """functools.lru_cache whose content is visible, so that it belongs to a process' memory."""

    def wrap(fn, size):
        store = {}

        @functools.wraps(fn)
        def cached(*args, **kwargs):
            key = functools._make_key(args, kwargs, typed)
            if key in store:
                store[key] = store.pop(key)
                return store[key]
            value = fn(*args, **kwargs)
            store[key] = value
            if size is not None and len(store) > size:
                store.pop(next(iter(store)), None)
            return value

        cached.cache_clear = lambda: store.clear()
        cached.cache_info = lambda: functools._CacheInfo(0, 0, size, len(store))
        return cached

    if callable(maxsize):
        return wrap(maxsize, 128)
    return lambda fn: wrap(fn, maxsize)


def load():
    """Import the code under test on top of the seams."""
    global MEM, _loading
    install()
    _loading = True
    old = functools.lru_cache, functools.cache
    functools.lru_cache, functools.cache = _lru_cache, _lru_cache(None)
    try:
        import hadar
        import hadar.analyzer.result
        import hadar.optimizer.lp.mapper
        import hadar.optimizer.lp.optimizer
        import hadar.optimizer.remote.optimizer
        import hadar.viewer.abc
        import hadar.viewer.html
        import hadar.workflow.pipeline
        import hadar.workflow.shuffler
    finally:
        _loading = False
        functools.lru_cache, functools.cache = old
    if not hadar.__file__.startswith(REPO):
        raise RuntimeError("hadar was loaded from %s" % hadar.__file__)
    from . import mem

    MEM = mem.MemoryManager("hadar")
    return hadar


def trace_root():
    return os.path.join(REPO, "hadar") + os.sep


class Env:
    """Activate a Sim for the time of a run."""

    def __init__(self, s, entropy_seed):
        self.s = s
        self.entropy = Entropy(entropy_seed)

    def __enter__(self):
        global ACTIVE, PLAN, NET, _entropy, SOLVER_FAULT, SOLVER_TIME, MODEL_TIME, HAS_SOLVER
        ACTIVE, PLAN, NET, SOLVER_FAULT, SOLVER_TIME, MODEL_TIME, HAS_SOLVER = self.s, None, None, None, None, None, True
        _entropy = self.entropy
        return self

    def __exit__(self, *a):
        global ACTIVE, PLAN, NET, _entropy
        ACTIVE, PLAN, NET, _entropy = None, None, None, None
        sys.settrace(None)
