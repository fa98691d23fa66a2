"""Discrete-event simulator: virtual clock, event heap, and caller tasks.

Caller tasks are real Python threads of which exactly one holds the baton; the simulator decides
who runs next, at every blocking call and at the preemption points drawn for the run (line or
opcode granularity inside the code under test). Whoever holds the baton runs due events.
"""
import dis
import hashlib
import heapq
import sys
import threading
import _thread

_real_lock = _thread.allocate_lock
_real_start = threading.Thread.start


class Violation(Exception):
    def __init__(self, kind, message):
        Exception.__init__(self, "%s: %s" % (kind, message))
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    pass


class SimAbort(BaseException):
    """Ends a task of an abandoned run (deadlock, step cap)."""


class Hang(BaseException):
    """The current task would block for ever."""


class StepLimit(BaseException):
    """The run exceeded its step budget."""


_MUTATORS = frozenset("append extend insert remove pop clear update add discard setdefault seed set_state setdefault sort reverse".split())
_writes = {}


def writes(code):
    """Lines of a code object that write to something other than a local variable."""
    w = _writes.get(code)
    if w is None:
        w, line = set(), None
        for i in dis.get_instructions(code):
            if i.starts_line is not None:
                line = i.starts_line
            if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL", "STORE_DEREF", "STORE_SUBSCR", "DELETE_SUBSCR") or (
                i.opname in ("STORE_ATTR", "DELETE_ATTR") and code.co_name != "__init__"
            ) or (i.opname in ("LOAD_METHOD", "LOAD_ATTR") and i.argval in _MUTATORS):
                w.add(line)
        _writes[code] = w
    return w


_sealed = {}


def sealed(frame):
    """Where the interpreter never lets an asynchronous exception in, though it reports a line: the
    entry of exception handlers and the call of __exit__ when a with block ends."""
    code = frame.f_code
    s = _sealed.get(code)
    if s is None:
        ins = list(dis.get_instructions(code))
        s = set()
        for i, x in enumerate(ins):
            if x.opname == "PUSH_EXC_INFO":
                s.add(x.offset)
            names = [(y.opname, y.argval) for y in ins[i : i + 4]]
            if names[:3] == [("LOAD_CONST", None)] * 3 and len(names) == 4 and names[3] == ("CALL", 2):
                s.add(x.offset)
        _sealed[code] = s
    return frame.f_lasti in s


class When:
    """A point of an execution: its n-th line, or visit number `visit` of the n-th distinct line it reaches."""

    def __init__(self, n, exc=None, visit=0, times=1, writing=False):
        self.n = n
        self.writing = writing  # only lines that write to shared objects, and lines after them
        self.after = False
        self.exc = exc
        self.visit = visit  # 0: n counts lines
        self.left = times
        self.lines = 0
        self.seen = {}
        self.target = None

    @classmethod
    def draw(cls, ch, exc=None, scales=(20, 200, 2000), distinct=(30, 150, 400), times=1):
        if ch.chance(50, "at a distinct line"):
            return cls(1 + ch.below(ch.pick(distinct, "line scale"), "line"), exc, 1 + ch.pick([0, 0, 1, 4], "visit"), times)
        return cls(1 + ch.below(ch.pick(scales, "line scale"), "line"), exc)

    def hit(self, frame):
        if not self.visit:
            self.lines += 1
            return self.lines == self.n
        if not self.left:
            return False
        if self.writing:
            w = frame.f_lineno in writes(frame.f_code)
            near, self.after = w or self.after, w
            if not near:
                return False
        loc = (id(frame.f_code), frame.f_lineno)
        if self.target is None:
            if loc not in self.seen:
                self.seen[loc] = 1
                if len(self.seen) == self.n:
                    self.target = loc
        if loc != self.target:
            return False
        self.lines += 1
        if self.lines < self.visit:
            return False
        self.left -= 1
        return True


class Task:
    def __init__(self, sim, name, fn, owner=None):
        self.sim = sim
        self.name = name
        self.owner = owner or name  # the caller on whose behalf a helper thread works
        self.fn = fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.pred = None
        self.done = False
        self.outcome = None
        self.waiting = False
        self.interrupt_at_wait = None
        self.waits = 0
        self.lines = 0
        self.inject = None  # When

    def runnable(self):
        return not self.done and (self.pred is None or self.pred())


class Sim:
    MAX_EVENTS = 100000
    MAX_SECONDS = 1e7

    def __init__(self, chooser, trace_root=None):
        self.ch = chooser
        self.t = 0.0
        self.local = None  # clock of a simulated worker process being executed
        self.wall_offset = 0.0
        self.on_wall = None  # called before each reading of the wall clock
        self.heap = []
        self.seq = 0
        self.log = []
        self.faults = {}
        self.hits = []
        self.proven = 0  # solver calls that ended undisturbed
        self.probes = {}
        self.events_run = 0
        self.switches = 0
        self.stall = 0  # seconds a preempted task may be kept from running
        self.tasks = []
        self.main = Task(self, "main", None)
        self.current = self.main
        self.aborting = None
        self.trace_root = trace_root
        self.preempt_at = []
        self.preempt_when = []
        self.trace_lines = 0
        self.line_budget = None
        self.atomic = 0
        self.in_worker = None
        self.pools = []
        self.preempted = []

    # ---------------------------------------------------------------- logging, counters
    def note(self, *what):
        self.log.append("%.6f %s %s" % (self.now(), self.current.name, " ".join(map(str, what))))

    def fault(self, kind, when=None, owner=None):
        """An injected fault strikes (owner: the task whose operation it hits)."""
        self.faults[kind] = self.faults.get(kind, 0) + 1
        if owner is None:
            owner = self.in_worker.core.owner if self.in_worker is not None else self.current.owner
        self.hits.append((self.now() if when is None else when, kind, owner))
        self.note("FAULT", kind)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def digest(self):
        return hashlib.sha256("\n".join(self.log).encode()).hexdigest()[:16]

    # ---------------------------------------------------------------- time
    def now(self):
        return self.local[0] if self.local is not None else self.t

    def advance(self, dt):
        """CPU time spent by whoever runs now."""
        if self.local is not None:
            self.local[0] += dt * self.in_worker.speed
        else:
            self.t += dt

    def wall(self):
        self.advance(1e-6)
        if self.on_wall is not None:
            self.on_wall()
        return 1600000000.0 + self.now() + self.wall_offset

    def mono(self):
        self.advance(1e-6)
        return 1000.0 + self.now()

    def at(self, when, fn, label=""):
        self.seq += 1
        heapq.heappush(self.heap, (max(when, self.t), self.seq, fn, label))

    def after(self, delay, fn, label=""):
        self.at(self.now() + delay, fn, label)

    # ---------------------------------------------------------------- scheduling
    def spawn(self, name, fn, owner=None):
        task = Task(self, name, fn, owner)
        self.tasks.append(task)

        def body():
            task.gate.acquire()
            self._enter(task)
            try:
                if self.aborting:
                    raise SimAbort()
                self._arm_trace(task)
                task.outcome = ("ok", fn())
            except SimAbort:
                task.outcome = ("aborted", None)
            except (Hang, StepLimit) as e:
                task.outcome = ("hang", e)
                if not self.aborting:
                    self.aborting = e
            except Violation as e:
                task.outcome = ("violation", e)
                if not self.aborting:
                    self.aborting = e
            except BaseException as e:  # noqa
                task.outcome = ("exc", e)
            finally:
                sys.settrace(None)
                task.done = True
                self._leave(task)

        # the interpreter's own handshake with the new thread is not part of the simulation
        from . import seams

        active, seams.ACTIVE = seams.ACTIVE, None
        try:
            th = threading.Thread(target=body, daemon=True)
            task.thread = th
            _real_start(th)
        finally:
            seams.ACTIVE = active
        return task

    def _enter(self, task):
        self.current = task

    def _leave(self, task):
        # hand the baton over for good
        nxt = self._choose_next(exclude=task, allow_none=True)
        if nxt is None:
            nxt = self.main
        self.current = nxt
        nxt.gate.release()

    def _switch(self, nxt):
        me = self.current
        if nxt is me:
            return
        self.switches += 1
        self.current = nxt
        nxt.gate.release()
        me.gate.acquire()
        self.current = me
        if self.aborting and me is not self.main:
            raise SimAbort()

    def _alive(self):
        return [t for t in [self.main] + self.tasks if not t.done]

    def _choose_next(self, exclude=None, allow_none=False):
        """A runnable task, running due events when there is none."""
        while True:
            if self.aborting:
                live = [t for t in self._alive() if t is not exclude and t is not self.main]
                return live[0] if live else self.main
            cand = [t for t in self._alive() if t is not exclude and t.runnable()]
            if cand:
                return cand[self.ch.below(len(cand), "who runs")] if len(cand) > 1 else cand[0]
            try:
                ran = self._run_next_event()
            except BaseException as e:  # noqa
                if not self.aborting:
                    self.aborting = e
                continue
            if not ran:
                if allow_none and not [t for t in self._alive() if t is not exclude]:
                    return None
                self.aborting = Hang("every task waits and nothing is scheduled")
                self.note("DEADLOCK")

    def _run_next_event(self):
        if not self.heap:
            return False
        when, _, fn, label = heapq.heappop(self.heap)
        self.t = max(self.t, when)
        self.events_run += 1
        if self.events_run > self.MAX_EVENTS or self.t > self.MAX_SECONDS:
            raise StepLimit("more than %d events or %g simulated seconds" % (self.MAX_EVENTS, self.MAX_SECONDS))
        if label:
            self.note("event", label)
        self.atomic += 1
        try:
            fn()
        finally:
            self.atomic -= 1
        return True

    def wait(self, pred, timeout=None):
        """Block the current task until pred() holds; False on timeout."""
        if self.in_worker:
            raise HarnessError("a simulated worker process cannot block")
        me = self.current
        me.waits += 1
        if me.interrupt_at_wait is not None and me.waits >= me.interrupt_at_wait[0] and not pred():
            exc = me.interrupt_at_wait[1]
            me.interrupt_at_wait = None
            self.fault("interrupt while waiting")
            raise exc
        deadline = None
        expired = [False]
        if timeout is not None:
            deadline = self.t + timeout

            def expire():
                expired[0] = True

            self.at(deadline, expire)
        cond = lambda: pred() or expired[0]  # noqa
        while not cond():
            me.pred = cond
            nxt = self._choose_next()
            if nxt is me:
                break
            if self.aborting and me is self.main:
                break
            self._switch(nxt)
        me.pred = None
        if self.aborting:
            if me is self.main:
                err = self.aborting
                if isinstance(err, BaseException):
                    raise err
            raise SimAbort()
        return bool(pred())

    def sleep(self, dt):
        if self.in_worker:
            self.advance(max(dt, 0))
            return
        fired = [False]

        def wake():
            fired[0] = True

        self.at(self.t + max(dt, 0), wake)
        self.wait(lambda: fired[0])

    def pause(self):
        """Voluntary preemption point."""
        if self.atomic or self.in_worker:
            return
        cand = [t for t in self._alive() if t.runnable() and t is not self.current]
        if cand:
            me = self.current
            me.pred = None
            nxt = cand[self.ch.below(len(cand), "preempt to")] if len(cand) > 1 else cand[0]
            self._switch(nxt)

    def hold(self, dt):
        """The machine does not run the current task for dt simulated seconds."""
        me = self.current
        fired = [False]

        def wake():
            fired[0] = True

        self.at(self.t + dt, wake)
        me.pred = lambda: fired[0]
        while not fired[0]:
            nxt = self._choose_next()
            if nxt is me or (self.aborting and me is self.main):
                break
            self._switch(nxt)
        me.pred = None
        if self.aborting:
            raise self.aborting if me is self.main else SimAbort()

    def run_tasks(self, pending):
        """Called by main: run these tasks to their end."""
        self.wait_all(pending)
        return [t.outcome for t in pending]

    def wait_all(self, pending):
        me = self.main
        cond = lambda: all(t.done for t in pending)  # noqa
        while not cond():
            me.pred = cond
            nxt = self._choose_next()
            if nxt is me:
                if cond():
                    break
                if self.aborting:
                    break
                continue
            self._switch(nxt)
        me.pred = None
        if self.aborting:
            # let every other task unwind before leaving
            for t in self.tasks:
                while not t.done:
                    self._switch(t)
            err = self.aborting
            raise err

    def drain(self):
        """Run all remaining events (nobody waits for them)."""
        while self._run_next_event():
            pass

    # ---------------------------------------------------------------- tracing
    def _arm_trace(self, task):
        if self.trace_root and (self.preempt_at or self.preempt_when or task.inject or self.line_budget):
            sys.settrace(self._trace)

    def arm_main(self):
        self._arm_trace(self.main)

    def disarm(self):
        sys.settrace(None)

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.trace_root):
            return None
        if self.in_worker:
            frame.f_trace_lines = True
            return self._worker_line
        return self._line

    def _worker_line(self, frame, event, arg):
        if event == "line":
            w = self.in_worker
            w.lines += 1
            if w.line_cap and w.lines > w.line_cap:
                raise StepLimit("a worker ran more than %d lines" % w.line_cap)
            if w.inject and not sealed(frame) and w.inject.hit(frame):
                exc = w.inject.exc
                w.inject = None
                self.fault("%s in worker code" % type(exc).__name__)
                raise exc
        return self._worker_line

    def _line(self, frame, event, arg):
        if event != "line":
            return self._line
        if self.in_worker:
            return self._worker_line(frame, event, arg)
        self.trace_lines += 1
        me = self.current
        me.lines += 1
        if self.line_budget and self.trace_lines > self.line_budget:
            raise StepLimit("more than %d lines" % self.line_budget)
        if me.inject and not sealed(frame) and me.inject.hit(frame):
            exc = me.inject.exc
            me.inject = None
            self.fault("%s in caller code" % type(exc).__name__)
            raise exc
        now = False
        if self.preempt_at and self.trace_lines >= self.preempt_at[0]:
            self.preempt_at.pop(0)
            now = True
        for w in self.preempt_when:
            now = w.hit(frame) or now
        if now:
            if not self.atomic and not self.aborting:
                others = [t for t in self._alive() if t is not me and t.runnable()]
                if self.stall and self.ch.chance(40, "kept from running"):
                    self.probe("stalled")
                    self.log.append("stall %s at line %d" % (me.name, self.trace_lines))
                    self.hold(self.stall)
                elif others:
                    self.probe("preempted")
                    self.log.append("preempt %s at line %d" % (me.name, self.trace_lines))
                    self.pause()
        return self._line


class SimLock:
    """threading.Lock driven by the simulator."""

    def __init__(self):
        self._owner = None
        self._locked = False

    def _sim(self):
        from . import seams

        return seams.ACTIVE

    def acquire(self, blocking=True, timeout=-1):
        if self._locked:
            if not blocking:
                return False
            sim = self._sim()
            if sim is None:
                raise HarnessError("blocked outside a simulation")
            ok = sim.wait(lambda: not self._locked, None if timeout is None or timeout < 0 else timeout)
            if not ok:
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False

    def locked(self):
        return self._locked

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def _who(self):
        from . import seams

        sim = seams.ACTIVE
        return sim.current if sim is not None else threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._who()
        if self._count and self._owner is not me and self._owner != me:
            if not blocking:
                return False
            from . import seams

            sim = seams.ACTIVE
            if sim is None:  # owner belongs to a finished simulation
                self._count = 0
            elif not sim.wait(lambda: self._count == 0, None if timeout is None or timeout < 0 else timeout):
                return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return bool(self._count) and self._owner is self._who()

    def _release_save(self):
        s = (self._count, self._owner)
        self._count, self._owner = 0, None
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self._count, self._owner = s

    def _at_fork_reinit(self):
        self._count, self._owner = 0, None
