"""C04: a local solve that cannot complete raises, promptly, and never yields a result."""
from .. import gen, oracle
from ..sim import Violation
from .common import build, optima, verify

RUNS = dict(quick=4800, thorough=120000)
RULE = (
    "A run draws a study and a fault: no feasible dispatch, a solver failure status, memory exhaustion at a drawn line of a worker, a worker killed before, during or "
    "after a job, process creation failing. The solve must raise within bounded simulated time after the failure, and the next solves, without faults, must work. "
    "Non-trivial: a fault or infeasibility struck."
)
FAULTS = ("kill", "oom", "spawnfail", "early", "abnormal", "notsolved", "infeasible")


def run(c):
    ch = c.ch
    sim = c.sim
    sp = gen.draw_spec(ch, max_scn=6, max_h=3, huge=True, infeasible=25 if ch.chance(30, "infeasible study") else 0)
    opts = optima(sp)
    bad = [s for s, o in enumerate(opts) if o is None]
    st = build(c, sp)
    for attempt in range(ch.between(1, 3, "attempts")):
        c.plan(FAULTS, ch.between(1, 3, "fault budget"), ch.pick([30, 60, 10, 95], "fault rate"))
        n, proven = len(sim.hits), sim.proven
        start = sim.t
        status, v = c.call(lambda: c.lp().solve(st), "a solve")
        hits = sim.hits[n:]
        if hits or bad:
            c.nontrivial = True
        strict = [k for _, k, _ in hits if k.startswith("solver") and "memory" not in k]
        if status == "ok":
            if bad:
                raise Violation("infeasible-result", "scenarios %s have no feasible dispatch but a result was returned" % bad)
            if strict and sim.proven - proven < sp.S:  # it may have been tried again
                raise Violation("unproven-result", "a result although: %s" % strict)
            try:
                verify(sp, v, opts)
            except Violation as e:
                if hits:
                    raise Violation("partial-result", "after %s: %s" % ([k for _, k, _ in hits], e.message))
                raise
        else:
            if not isinstance(v, Exception):
                raise Violation("not-an-error", "the solve ended with %r" % (v,))
            if not hits and not bad:
                raise Violation("solve-failed", "a feasible study, without any fault: %s: %s" % (type(v).__name__, v))
            t_fail = max([t for t, _, _ in hits] + [start])
            slack = sim.t - t_fail
            if slack > 60 + sp.S * 10:
                raise Violation("late", "the solve raised %.0f simulated seconds after the failure" % slack)
            sim.probe("raised")
    for _ in range(ch.between(1, 2, "later solves")):
        c.plan()
        if bad or ch.chance(30, "other study later"):
            sp = gen.draw_spec(ch, max_scn=3, max_h=3)
            opts = optima(sp)
            bad = [s for s, o in enumerate(opts) if o is None]
            st = build(c, sp)
        if not bad:
            v = c.must(lambda: c.lp().solve(st), "a solve after failed ones", "later-solve-failed")
            verify(sp, v, opts)
