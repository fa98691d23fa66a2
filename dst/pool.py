"""Simulated process and thread pools.

The code under test talks to the same API as the standard library's; the jobs it submits are
pickled with the real pickle, run in the memory of a simulated worker process, and their results
pickled back. Worker count, assignment, speed, completion order, and process deaths are decided by
the run's chooser.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import concurrent.futures.thread as cft
import itertools
import multiprocessing
import multiprocessing.pool as mpp
import pickle
import sys
import weakref

from . import seams
from .sim import HarnessError, Hang, SimAbort, StepLimit, Violation, When


class WorkerExit(BaseException):
    """os._exit / kill inside a simulated worker."""


class PoolPlan:
    """How the simulated machine behaves for one run; set by the property."""

    def __init__(self, ch, faults=(), max_workers=8):
        self.ch = ch
        self.cpus = ch.pick([1, 2, 3, 4, 8, max_workers], "cpus")
        self.speeds = ch.pick(["even", "mixed", "one slow"], "speeds")
        self.late_pickle = ch.chance(30, "late pickling")
        self.faults = set(faults)  # among kill, oom, spawnfail, stall
        self.fault_budget = 0
        self.fault_percent = 0
        self.fault_owners = None  # names of the tasks whose workers may fail; None: all

    def speed(self, i):
        if self.speeds == "even":
            return 1.0
        if self.speeds == "mixed":
            return self.ch.pick([1.0, 0.5, 3.0, 10.0], "speed")
        return 50.0 if i == 0 else 1.0

    def draw_fault(self, core):
        if self.fault_budget <= 0 or not self.faults:
            return None
        if self.fault_owners is not None and core.owner not in self.fault_owners:
            return None
        if not self.ch.chance(self.fault_percent, "job fault?"):
            return None
        kinds = sorted(self.faults - {"spawnfail"})
        if not kinds:
            return None
        self.fault_budget -= 1
        return self.ch.pick(kinds, "job fault")


class Worker:
    def __init__(self, core, i, mem):
        self.core = core
        self.i = i
        self.mem = mem
        self.busy = False
        self.alive = True
        self.jobs = 0
        self.speed = seams.PLAN.speed(i) if seams.PLAN else 1.0
        self.lines = 0
        self.line_cap = None
        self.inject = None
        self.initialised = False


class Job:
    def __init__(self, call, sink, key):
        self.call = call  # (fn, args, kwargs)
        self.data = None
        self.sink = sink  # sink(kind, value)
        self.key = key
        self.started = False
        self.cancelled = False


class Core:
    """Worker processes of one pool."""

    def __init__(self, kind, nworkers, initializer=None, initargs=(), maxtasks=None, fork=True):
        self.sim = seams.sim()
        self.kind = kind  # "pool" or "executor"
        self.id = len(self.sim.pools)
        self.owner = self.sim.current.owner
        self.sim.pools.append(self)
        self.queue = []
        self.running = 0
        self.broken = None
        self.closed = False
        self.released = False
        self.dropped = False
        self.init = (initializer, initargs)
        self.maxtasks = maxtasks
        plan = seams.PLAN
        may = plan and (plan.fault_owners is None or self.owner in plan.fault_owners)
        if may and "spawnfail" in plan.faults and plan.fault_budget > 0 and plan.ch.chance(plan.fault_percent / 6, "fork fails"):
            plan.fault_budget -= 1
            self.sim.fault("process creation fails")
            self.released = True
            raise OSError(11, "Resource temporarily unavailable")
        self.workers = [Worker(self, i, self._fork()) for i in range(nworkers)]
        self.sim.note("pool", self.id, kind, nworkers)

    def _fork(self):
        return seams.MEM.fork()

    def live(self):
        return 0 if self.released else sum(w.alive for w in self.workers)

    def submit(self, job):
        plan = seams.PLAN
        if not (plan and plan.late_pickle and self.kind == "executor"):
            self._pickle(job)
        self.queue.append(job)
        self._kick()

    def _pickle(self, job):
        if job.data is None:
            try:
                job.data = pickle.dumps(job.call)
            except Exception as e:
                job.data = e

    def _kick(self):
        """Let idle workers pick queued jobs."""
        self.sim.after(1e-4, self._dispatch)

    def _dispatch(self):
        if self.released or self.broken:
            return
        while self.queue:
            idle = [w for w in self.workers if w.alive and not w.busy]
            if not idle:
                return
            job = self.queue.pop(0)
            if job.cancelled:
                continue
            job.started = True
            self._pickle(job)
            if isinstance(job.data, Exception):
                sink, job.sink = job.sink, None
                sink("exc", job.data)
                continue
            w = idle[self.sim.ch.below(len(idle), "which worker")] if len(idle) > 1 else idle[0]
            self._run(w, job)

    def _run(self, w, job):
        sim = self.sim
        w.busy = True
        self.running += 1
        w.jobs += 1
        start = sim.t
        plan = seams.PLAN
        fault = plan.draw_fault(self) if plan else None
        sim.note("pool", self.id, "worker", w.i, "starts job", job.key)
        kill = None
        if fault == "kill":
            kill = plan.ch.pick(["before", "during", "after"], "kill when")
        if fault == "stall":
            sim.fault("worker stalls", None, self.owner)
        payload, elapsed = self._execute(w, job, fault)
        if fault == "stall":
            elapsed += 5000.0
        if payload is None:  # the job ended its own process
            kill = kill or "during"
        if kill:
            when = start + (0 if kill == "before" else elapsed * (0.5 if kill == "during" else 1.0)) + 1e-5
            sim.fault("worker killed %s its job" % kill, when, self.owner)
            sim.at(when, lambda: self._died(w, job), "pool %d worker %d dies" % (self.id, w.i))
            return
        latency = plan.ch.pick([1e-4, 1e-3, 0.1, 2.0], "result latency") if plan else 1e-4

        def deliver():
            self._finished(w, job, payload)

        sim.at(start + elapsed + latency, deliver, "pool %d job %s done by worker %d" % (self.id, job.key, w.i))

    def _execute(self, w, job, fault):
        """Run the job now, in the worker's memory and on its own clock."""
        sim = self.sim
        if sim.in_worker is not None:
            raise HarnessError("nested worker")
        sim.local = [sim.t]
        sim.in_worker = w
        w.lines = 0
        w.inject = None
        seams.SOLVER_FAULT = seams.API_FAULT = None
        if fault == "oom":
            where = seams.PLAN.ch.below(4, "oom where")
            if where == 0:
                seams.SOLVER_FAULT = "oom"
                w.inject = When(1 + seams.PLAN.ch.below(12, "oom line"), MemoryError("injected")) if not seams.HAS_SOLVER else None
            elif where == 3 and seams.HAS_SOLVER:
                group = seams.PLAN.ch.pick(["values", "variables", "constraints", "coefficients", "objective"], "solver function")
                seams.API_FAULT = [group, 1 + seams.PLAN.ch.below(seams.PLAN.ch.pick([3, 20], "scale"), "call")]
            else:
                w.inject = When.draw(seams.PLAN.ch, MemoryError("injected"), (30, 400), (30, 160, 240))
        elif fault in ("abnormal", "infeasible", "early", "notsolved"):
            seams.SOLVER_FAULT = fault
        old_trace = sys.gettrace()
        if w.inject:
            sys.settrace(sim._trace)
        else:
            sys.settrace(None)
        t0 = sim.local[0]

        def go():
            if not w.initialised:
                w.initialised = True
                if self.init[0]:
                    fn, args = pickle.loads(pickle.dumps((self.init[0], self.init[1])))
                    fn(*args)
            fn, args, kwargs = pickle.loads(job.data)
            return fn(*args, **kwargs)

        try:
            try:
                value = seams.MEM.run_in(w.mem, go)
                try:
                    payload = ("ok", pickle.dumps(value))
                except Exception as e:
                    payload = ("exc", self._dump_exc(mpp.MaybeEncodingError(e, value) if self.kind == "pool" else e))
            except WorkerExit:
                payload = None
            except (SimAbort, Hang, StepLimit, HarnessError, Violation):
                raise
            except SystemExit:
                payload = None
            except BaseException as e:
                payload = ("exc", self._dump_exc(e))
        finally:
            sys.settrace(None)
            w.inject = None
            elapsed = sim.local[0] - t0
            sim.local = None
            sim.in_worker = None
            seams.SOLVER_FAULT = seams.API_FAULT = None
            sys.settrace(old_trace)
        return payload, elapsed + 1e-6

    def _dump_exc(self, e):
        try:
            if self.kind == "pool":
                return pickle.dumps(mpp.ExceptionWithTraceback(e, e.__traceback__))
            return pickle.dumps(cfp._ExceptionWithTraceback(e, e.__traceback__))
        except Exception as e2:
            return pickle.dumps(RuntimeError("unpicklable exception %r: %s" % (type(e).__name__, e2)))

    def _finished(self, w, job, payload):
        if self.released or not w.alive or self.broken:
            return
        w.busy = False
        self.running -= 1
        kind, data = payload
        try:
            value = pickle.loads(data)
        except Exception as e:
            if self.kind == "executor":
                self._break("A result can't be unpickled: %s" % e)
            else:
                # the thread that reads results dies: nobody ever hears of this nor of later jobs
                self.released_results = True
                self.queue = []
                self.workers = []
            return
        if self.maxtasks and w.jobs >= self.maxtasks:
            self._replace(w)
        sink, job.sink, job.call = job.sink, None, None
        sink(kind, value)
        del sink, value
        self._dispatch()
        self._maybe_release()

    def _replace(self, w):
        w.alive = False
        self.workers = [x for x in self.workers if x is not w]
        self.workers.append(Worker(self, w.i, self._fork()))

    def _died(self, w, job):
        if self.released or not w.alive:
            return
        w.alive = False
        self.running -= 1
        if self.kind == "executor":
            self._break("A process in the process pool was terminated abruptly while the future was running or pending.")
        else:
            # multiprocessing.Pool starts another worker and forgets the job
            self._replace(w)
            self._dispatch()

    def _break(self, msg):
        self.broken = msg
        for w in self.workers:
            w.alive = False
        self.running = 0
        self.released = True
        jobs, self.queue = self.queue, []
        for j in list(self.pending):
            if not j.cancelled and j.sink is not None:
                sink, j.sink = j.sink, None
                sink("broken", cfp.BrokenProcessPool(msg))
        del jobs

    @property
    def pending(self):
        return [j for j in self.jobs if not j.finished]

    def release(self):
        if not self.released:
            self.sim.note("pool", self.id, "released")
        self.released = True
        self.queue = []

    def _maybe_release(self):
        if (self.closed or self.dropped) and not self.queue and not self.running:
            self.release()


# ------------------------------------------------------------------------------- futures
class SimFuture(cf.Future):
    def __init__(self):
        cf.Future.__init__(self)
        self._job = None

    def result(self, timeout=None):
        self._block(timeout)
        return cf.Future.result(self, 0)

    def exception(self, timeout=None):
        self._block(timeout)
        return cf.Future.exception(self, 0)

    def _block(self, timeout):
        if not self.done():
            if not seams.sim().wait(self.done, timeout):
                raise cf.TimeoutError()

    def cancel(self):
        if self._job is not None and self._job.started and not self.done():
            return False
        ok = cf.Future.cancel(self)
        if ok and self._job is not None:
            self._job.cancelled = True
        return ok


def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)

    def ok():
        if return_when == cf.FIRST_COMPLETED:
            return any(f.done() for f in fs)
        if return_when == cf.FIRST_EXCEPTION:
            return all(f.done() for f in fs) or any(f.done() and not f.cancelled() and f.exception() for f in fs)
        return all(f.done() for f in fs)

    if fs:
        seams.sim().wait(ok, timeout)
    done = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(done, fs - done)


def sim_as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    order = seams.sim().__dict__.setdefault("completion_order", [])
    del order
    left = list(fs)
    while left:
        if not seams.sim().wait(lambda: any(f.done() for f in left), timeout):
            raise cf.TimeoutError()
        done = sorted((f for f in left if f.done()), key=lambda f: getattr(f, "_done_seq", 0))
        for f in done:
            left.remove(f)
            yield f


_done_counter = itertools.count()


def _settle(fut, kind, value):
    if fut.done():
        return
    fut._done_seq = next(_done_counter)
    if not fut.running():
        if not fut.set_running_or_notify_cancel():
            return
    if kind == "ok":
        fut.set_result(value)
    else:
        fut.set_exception(value)


class SimProcessPoolExecutor(cf.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        n = max_workers or (seams.PLAN.cpus if seams.PLAN else 2)
        self._args = (n, initializer, initargs, max_tasks_per_child)
        self._core = None
        self._shut = False

    def _ensure(self):
        if self._core is None:
            n, init, initargs, maxtasks = self._args
            core = Core("executor", n, init, initargs, maxtasks)
            core.jobs = []
            self._core = core
            weakref.finalize(self, _executor_dropped, core)
        return self._core

    def submit(self, fn, /, *args, **kwargs):
        if self._shut:
            raise RuntimeError("cannot schedule new futures after shutdown")
        core = self._ensure()
        if core.broken:
            raise cfp.BrokenProcessPool(core.broken)
        fut = SimFuture()

        def sink(kind, value):
            job.finished = True
            _settle(fut, kind, value)

        job = Job((fn, args, kwargs), sink, len(core.jobs))
        job.finished = False
        fut._job = job
        core.jobs.append(job)
        core.submit(job)
        return fut

    map = cfp.ProcessPoolExecutor.map

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shut = True
        core = self._core
        if core is None:
            return
        core.closed = True
        if cancel_futures:
            for j in core.queue:
                j.cancelled = True
        if wait and not core.released:
            def idle():
                core.queue = [j for j in core.queue if not j.cancelled]
                return core.released or (not core.queue and not core.running)
            seams.sim().wait(idle)
            core.release()
        else:
            core.queue = [j for j in core.queue if not j.cancelled]
            core._maybe_release()


def _pp_map(self, fn, *iterables, timeout=None, chunksize=1):
    if chunksize < 1:
        raise ValueError("chunksize must be >= 1.")
    from functools import partial

    results = cf.Executor.map(self, partial(cfp._process_chunk, fn), _get_chunks(*iterables, chunksize=chunksize), timeout=timeout)
    return cfp._chain_from_iterable_of_lists(results)


def _get_chunks(*iterables, chunksize):
    it = zip(*iterables)
    while True:
        chunk = tuple(itertools.islice(it, chunksize))
        if not chunk:
            return
        yield chunk


SimProcessPoolExecutor.map = _pp_map


def _executor_dropped(core):
    core.dropped = True
    core.queue = [j for j in core.queue if not j.cancelled]
    core._maybe_release()


class SimThreadPoolExecutor(cf.Executor):
    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._n = max_workers or (seams.PLAN.cpus if seams.PLAN else 2)
        self._queue = []
        self._active = 0
        self._shut = False
        self._init = (initializer, initargs)

    def submit(self, fn, /, *args, **kwargs):
        if self._shut:
            raise RuntimeError("cannot schedule new futures after shutdown")
        fut = SimFuture()
        self._queue.append((fut, fn, args, kwargs, seams.sim().current.owner))
        self._pump()
        return fut

    def _pump(self):
        while self._queue and self._active < self._n:
            fut, fn, args, kwargs, owner = self._queue.pop(0)
            if not fut.set_running_or_notify_cancel():
                continue
            self._active += 1
            sim = seams.sim()

            def body(fut=fut, fn=fn, args=args, kwargs=kwargs):
                try:
                    value = fn(*args, **kwargs)
                except (SimAbort, Hang, StepLimit, Violation, HarnessError):
                    raise
                except BaseException as e:
                    self._active -= 1
                    self._pump()
                    _settle(fut, "exc", e)
                else:
                    self._active -= 1
                    self._pump()
                    _settle(fut, "ok", value)

            sim.spawn("thread%d" % len(sim.tasks), body, owner)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shut = True
        if cancel_futures:
            for fut, *_ in self._queue:
                fut.cancel()
            self._queue = []
        if wait:
            seams.sim().wait(lambda: not self._queue and not self._active)


# ------------------------------------------------------------------------------- multiprocessing.Pool
class SimAsyncResult:
    def __init__(self, n, callback=None, error_callback=None, single=False, pool=None):
        self._pool = pool if n else None  # as the real one: a pending result keeps its pool alive
        self._n = n
        self._values = [None] * n
        self._left = n
        self._error = None
        self._done = n == 0
        self._cb, self._ecb = callback, error_callback
        self._single = single

    def _set(self, i, kind, value):
        if self._done and self._error is not None:
            self._left -= 1
            return
        self._left -= 1
        if kind == "ok":
            self._values[i] = value
        elif self._error is None:
            self._error = value
        # like MapResult: completes when every chunk has reported
        if self._left == 0:
            self._pool = None
            self._done = True
            if self._error is None:
                if self._cb:
                    self._cb(self._result())
            elif self._ecb:
                self._ecb(self._error)

    def _result(self):
        return self._values[0] if self._single else list(itertools.chain.from_iterable(self._values))

    def ready(self):
        return self._done

    def successful(self):
        if not self._done:
            raise ValueError("not ready")
        return self._error is None

    def wait(self, timeout=None):
        seams.sim().wait(lambda: self._done, timeout)

    def get(self, timeout=None):
        if not seams.sim().wait(lambda: self._done, timeout):
            raise multiprocessing.TimeoutError()
        if self._error is not None:
            raise self._error
        return self._result()


class SimIterator:
    def __init__(self, n, ordered, pool):
        self._pool = pool if n else None
        self._n = n
        self._ordered = ordered
        self._out = {}
        self._arrived = []
        self._next = 0

    def _set(self, i, kind, value):
        self._out[i] = (kind, value)
        self._arrived.append(i)
        if len(self._arrived) == self._n:
            self._pool = None

    def __iter__(self):
        return self

    def next(self, timeout=None):
        if self._next >= self._n:
            raise StopIteration
        if self._ordered:
            ok = lambda: self._next in self._out  # noqa
        else:
            ok = lambda: len(self._arrived) > self._next  # noqa
        if not seams.sim().wait(ok, timeout):
            raise multiprocessing.TimeoutError()
        i = self._next if self._ordered else self._arrived[self._next]
        self._next += 1
        kind, value = self._out[i]
        if kind == "ok":
            return value
        raise value

    __next__ = next


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        n = processes or (seams.PLAN.cpus if seams.PLAN else 2)
        core = Core("pool", n, initializer, initargs, maxtasksperchild)
        core.jobs = []
        self._core = core
        self._processes = n
        weakref.finalize(self, Core.release, core)

    def _check(self):
        if self._core.closed or self._core.released:
            raise ValueError("Pool not running")

    def _submit(self, call, sink):
        core = self._core
        job = Job(call, None, len(core.jobs))
        job.finished = False

        def done(kind, value):
            job.finished = True
            sink(kind, value)

        job.sink = done
        core.jobs.append(job)
        core.submit(job)

    def _map(self, func, iterable, star, chunksize, callback=None, error_callback=None):
        self._check()
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._processes * 4)
            if extra:
                chunksize += 1
        chunksize = max(chunksize, 1)
        chunks = [items[i : i + chunksize] for i in range(0, len(items), chunksize)]
        res = SimAsyncResult(len(chunks), callback, error_callback, pool=self)
        for i, c in enumerate(chunks):
            self._submit((mpp.starmapstar if star else mpp.mapstar, ((func, tuple(c)),), {}), lambda k, v, i=i: res._set(i, k, v))
        return res

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, False, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, False, chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, True, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, True, chunksize, callback, error_callback)

    def _imap(self, func, iterable, chunksize, ordered):
        self._check()
        items = list(iterable)
        chunks = [items[i : i + chunksize] for i in range(0, len(items), chunksize)]
        it = SimIterator(len(chunks), ordered, self)
        for i, c in enumerate(chunks):
            self._submit((mpp.mapstar, ((func, tuple(c)),), {}), lambda k, v, i=i: it._set(i, k, v))

        def flat():
            for part in it:
                for x in part:
                    yield x

        return flat()

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        res = SimAsyncResult(1, callback, error_callback, single=True, pool=self)
        self._submit((func, tuple(args), dict(kwds)), lambda k, v: res._set(0, k, v))
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        self._core.closed = True
        self._core._maybe_release()

    def terminate(self):
        self._core.closed = True
        self._core.release()

    def join(self):
        if not self._core.closed:
            raise ValueError("Pool is still running")
        core = self._core
        seams.sim().wait(lambda: core.released or (not core.queue and not core.running))
        core.release()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class SimThreadPool:
    def __init__(self, processes=None, initializer=None, initargs=()):
        self._ex = SimThreadPoolExecutor(processes)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        items = list(iterable)
        res = SimAsyncResult(len(items), callback, error_callback)
        for i, x in enumerate(items):
            self._go(res, i, lambda x=x: [func(x)])
        return res

    def _go(self, res, i, fn):
        fut = self._ex.submit(fn)

        def done(f):
            e = f.exception()
            res._set(i, "exc" if e else "ok", e or f.result())

        fut.add_done_callback(done)

    def starmap(self, func, iterable, chunksize=None):
        return self.map(lambda a: func(*a), iterable)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        res = SimAsyncResult(1, callback, error_callback, single=True)
        self._go(res, 0, lambda: func(*args, **kwds))
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        futs = [self._ex.submit(func, x) for x in iterable]
        return (f.result() for f in futs)

    def imap_unordered(self, func, iterable, chunksize=1):
        futs = [self._ex.submit(func, x) for x in iterable]
        return (f.result() for f in sim_as_completed(futs))

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        self._ex.shutdown(True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimProcess:
    """multiprocessing.Process: runs its target in a forked memory."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._a, self._k = target, args, kwargs
        self.name = name or "Process"
        self.daemon = daemon
        self.exitcode = None
        self.pid = None

    def run(self):
        if self._target:
            self._target(*self._a, **self._k)

    def start(self):
        core = Core("process", 1)
        core.jobs = []
        self._core = core
        self.pid = 10000 + core.id
        mem = core.workers[0].mem
        sim = core.sim

        def go():
            sim.local = [sim.t]
            sim.in_worker = core.workers[0]
            try:
                seams.MEM.run_in(mem, self.run)
                code = 0
            except (SimAbort, Hang, StepLimit, HarnessError, Violation):
                raise
            except BaseException:
                code = 1
            finally:
                end = sim.local[0]
                sim.local = None
                sim.in_worker = None

            def finish():
                self.exitcode = code
                core.release()

            sim.at(end, finish)

        sim.after(1e-3, go)

    def join(self, timeout=None):
        seams.sim().wait(lambda: self.exitcode is not None, timeout)

    def is_alive(self):
        return self.exitcode is None and self.pid is not None

    def terminate(self):
        self.exitcode = -15
        self._core.release()

    kill = terminate
