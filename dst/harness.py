"""One simulated run of a property, replaying and shrinking."""
import gc
import importlib
import json
import logging
import os
import random
import sys
import time
import traceback

from . import seams
from .chooser import Chooser
from .sim import HarnessError, Hang, Sim, SimAbort, StepLimit, Violation, When

HADAR = None
BASELINE = None
_real_time = time.time


def boot():
    global HADAR, BASELINE
    if HADAR is None:
        HADAR = seams.load()
        import numpy as np

        np.random.seed(12345)
        random.seed(12345)
        BASELINE = seams.MEM.snapshot()
        gc.collect()
        gc.freeze()
        gc.disable()
    return HADAR


def twin_for(pid):
    """Properties that compare with another interpreter get one, before seams are installed."""
    if pid in ("C12",):
        from . import twin

        twin.start()


class Discard(Exception):
    """This run says nothing (the reference cannot decide, or the draw is degenerate)."""


class Ctx:
    def __init__(self, ch, sim):
        self.ch = ch
        self.sim = sim
        self.h = HADAR
        self.nontrivial = False
        self._lp = None
        self.clients = {}
        self.tier = os.environ.get("VERIF_TIER", "quick")

    def lp(self):
        """A local optimizer: a new one, or the one used before."""
        if self._lp is None or not self.ch.chance(40, "same optimizer"):
            self._lp = self.h.LPOptimizer()
        return self._lp

    def plan(self, faults=(), budget=0, percent=0, owners=None, cpus=None):
        """A simulated machine for the next operations."""
        from .pool import PoolPlan

        p = PoolPlan(self.ch, faults)
        p.fault_budget, p.fault_percent, p.fault_owners = budget, percent, owners
        if cpus:
            p.cpus = cpus
        seams.PLAN = p
        if p.cpus > 1:
            self.nontrivial = True
        return p

    def call(self, fn, what="the call"):
        """('ok', value) or ('exc', exception); blocking for ever is a violation."""
        try:
            return "ok", fn()
        except Hang as e:
            raise Violation("hang", "%s never ends: %s" % (what, e))
        except StepLimit as e:
            raise Violation("runaway", "%s does not end: %s" % (what, e))
        except (SimAbort, Violation, HarnessError, Discard):
            raise
        except BaseException as e:  # noqa
            return "exc", e

    def check(self, cond, kind, message):
        if not cond:
            raise Violation(kind, message)

    def must(self, fn, what, kind="unexpected-error"):
        """The call has to succeed."""
        st, v = self.call(fn, what)
        if st == "exc":
            raise Violation(kind, "%s raised %s: %s [%s]" % (what, type(v).__name__, str(v)[:300], where(v)))
        return v

    def interrupted(self, fn, what, exc=None):
        """Call fn with an asynchronous interruption drawn for this call, in the main task."""
        ch, sim = self.ch, self.sim
        exc = exc or ch.pick([KeyboardInterrupt("injected"), MemoryError("injected")], "interruption")
        me = sim.current
        how = ch.pick(["line", "wait"], "interrupt at")
        if how == "line":
            me.lines = 0
            me.inject = When.draw(ch, exc)
            sim.arm_main()
        else:
            me.waits = 0
            me.interrupt_at_wait = (1 + ch.below(4, "wait"), exc if isinstance(exc, KeyboardInterrupt) else KeyboardInterrupt("injected"))
        try:
            return self.call(fn, what)
        finally:
            sim.disarm()
            me.inject = None
            me.interrupt_at_wait = None

    def preemptions(self, most=8, stalls=False):
        ch = self.ch
        self.sim.stall = ch.pick([0, 0, 0.002, 0.05, 1.0], "stalls") if stalls else 0
        n = ch.between(0, most, "preemptions")
        scale = ch.pick([100, 30, 1000, 4000, 20000], "preemption spread")
        at, cur = [], 0
        for _ in range(n):
            cur += 1 + ch.below(scale, "preempt after")
            at.append(cur)
        self.sim.preempt_at = at
        self.sim.preempt_when = []
        for _ in range(ch.weighted([(0, 3), (1, 3), (3, 3), (6, 2)], "preemptions at distinct lines")):
            writing = ch.chance(60, "at a writing line")
            scale = ch.pick([10, 20, 40] if writing else [60, 30, 120, 400], "line scale")
            self.sim.preempt_when.append(When(1 + ch.below(scale, "line"), None, 1 + ch.pick([0, 0, 1, 3], "visit"), 1 + ch.below(3, "times"), writing))
        if n or self.sim.preempt_when:
            self.nontrivial = True

    def threads(self, bodies, inject=None):
        """Run the bodies as concurrent caller threads; [(status, value)...]"""
        mine = []
        for name, fn in bodies:
            t = self.sim.spawn(name, fn)
            mine.append(t)
            if inject and name in inject:
                t.inject = inject[name]
        try:
            outs = self.sim.run_tasks(mine)
        except Hang as e:
            raise Violation("hang", "concurrent operations never end: %s" % e)
        except StepLimit as e:
            raise Violation("runaway", str(e))
        self.sim.tasks = [t for t in self.sim.tasks if not t.done]  # helper threads nobody joined live on
        self.sim.preempt_at, self.sim.preempt_when, self.sim.stall = [], [], 0
        return outs

    def loglevel(self):
        lvl = self.ch.pick([logging.WARNING, logging.DEBUG, logging.INFO], "log level")
        logging.getLogger("hadar").setLevel(lvl)
        logging.getLogger("hadar").propagate = False


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))


class Outcome:
    def __init__(self):
        self.kind = None
        self.message = ""
        self.taken = []
        self.digest = ""
        self.faults = {}
        self.probes = {}
        self.simtime = 0.0
        self.nontrivial = False
        self.discarded = False
        self.log = []
        self.error = None
        self.switches = 0
        self.events = 0


def execute(mod, seed=None, replay=None, want_log=False):
    """One run: a pure function of the seed or of the recorded choices."""
    import numpy as np

    out = Outcome()
    seams.MEM.restore(BASELINE)
    logging.getLogger("hadar").setLevel(logging.NOTSET)
    ch = Chooser(seed, replay)
    sim = Sim(ch, seams.trace_root())
    ctx = Ctx(ch, sim)
    np.random.seed(ch.seed32("ambient random state"))
    random.seed(ch.seed32("ambient random state"))
    entropy = ch.seed32("system entropy")
    old_out = sys.stdout
    try:
        sys.stdout = _Sink()
        try:
            with seams.Env(sim, entropy):
                try:
                    mod.run(ctx)
                except Hang as e:
                    raise Violation("hang", str(e))
                except StepLimit as e:
                    raise Violation("runaway", str(e))
        finally:
            sys.stdout = old_out
    except Violation as e:
        out.kind, out.message = e.kind, e.message
    except Discard as e:
        out.discarded = True
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt) and not str(e):
            raise
        out.error = traceback.format_exc()
    finally:
        sim.disarm()
        # tasks still alive (after a violation) must not survive the run
        if any(not t.done for t in sim.tasks):
            sim.aborting = sim.aborting or Hang("run over")
            for t in sim.tasks:
                for _ in range(1000):
                    if t.done:
                        break
                    try:
                        with seams.Env(sim, entropy):
                            sim.current = sim.main
                            sim._switch(t)
                    except BaseException:  # noqa
                        pass
    out.taken = ch.taken
    out.digest = sim.digest()
    out.faults, out.probes = sim.faults, sim.probes
    out.simtime = sim.t
    out.nontrivial = ctx.nontrivial
    out.switches, out.events = sim.switches, sim.events_run
    if want_log:
        out.log = list(sim.log)
    sim.heap = []
    sim.pools = []
    return out


class _Sink:
    """stdout of the simulated program"""

    encoding = "utf-8"

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no file")


def load_prop(pid):
    return importlib.import_module("dst.props.%s" % pid.lower())


def seed_of(pid, base, i):
    return "%s/%s/%d" % (pid, base, i)


# ------------------------------------------------------------------------------- shrinking
def shrink(mod, taken, kind, budget=45.0, message=None):
    """A shorter, simpler list of choices with the same kind of violation."""
    end = _real_clock() + budget
    best = list(taken)
    tried = set()
    runs = [0]

    def fails(c):
        key = tuple(c)
        if key in tried or _real_clock() > end:
            return None
        tried.add(key)
        runs[0] += 1
        o = execute(mod, replay=c)
        if o.kind == kind:
            t = list(o.taken)
            while t and t[-1] == 0:
                t.pop()
            return t
        return None

    def better(a, b):
        return (len(a), sum(1 for x in a if x), sum(a)) < (len(b), sum(1 for x in b if x), sum(b))

    r = fails(best)
    if r is None:
        return best, runs[0], False
    best = r
    progress = True
    while progress and _real_clock() < end:
        progress = False
        # truncate
        n = len(best)
        cut = n // 2
        while cut >= 1 and _real_clock() < end:
            r = fails(best[: len(best) - cut]) if cut < len(best) else None
            if r is not None and better(r, best):
                best = r
                progress = True
            else:
                cut //= 2
        # delete blocks
        size = max(1, len(best) // 2)
        while size >= 1 and _real_clock() < end:
            i = 0
            while i < len(best) and _real_clock() < end:
                r = fails(best[:i] + best[i + size :])
                if r is not None and better(r, best):
                    best = r
                    progress = True
                else:
                    i += size
            size //= 2
        # zero blocks
        size = max(1, len(best) // 4)
        while size >= 1 and _real_clock() < end:
            i = 0
            while i < len(best) and _real_clock() < end:
                if any(best[i : i + size]):
                    r = fails(best[:i] + [0] * min(size, len(best) - i) + best[i + size :])
                    if r is not None and better(r, best):
                        best = r
                        progress = True
                i += size
            size //= 2
        # reduce values
        for i in range(len(best)):
            if i >= len(best) or _real_clock() > end:
                break
            lo = 0
            while i < len(best) and best[i] > lo:
                mid = (best[i] + lo) // 2
                r = fails(best[:i] + [mid] + best[i + 1 :])
                if r is not None and better(r, best):
                    best = r
                    progress = True
                else:
                    lo = mid + 1
                if _real_clock() > end:
                    break
    return best, runs[0], True


def _real_clock():
    return seams.REAL["monotonic"]() if "monotonic" in seams.REAL else time.monotonic()
