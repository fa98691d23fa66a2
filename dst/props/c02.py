"""C02: every returned dispatch balances energy and respects every declared limit."""
from .. import gen, oracle
from ..sim import Violation
from .common import build, optima

RUNS = dict(quick=8400, thorough=150000)
RULE = (
    "A run draws a study (every element kind and input form, several networks, sometimes without feasible dispatch), solves it on a drawn simulated machine, "
    "sometimes with worker deaths, memory exhaustion or solver failures, and checks every constraint of every result that was returned. "
    "Non-trivial: several workers or a fault."
)


def run(c):
    ch = c.ch
    sp = gen.draw_spec(ch, max_scn=5, max_h=6, infeasible=3, huge=True)
    st = build(c, sp)
    faulty = ch.chance(20, "faults")
    for _ in range(ch.between(1, 2, "solves")):
        c.plan(*((("kill", "oom", "early", "abnormal", "notsolved", "spawnfail"), 1, 40) if faulty else ()))
        n = len(c.sim.hits)
        status, v = c.call(lambda: c.lp().solve(st), "a solve")
        if status == "ok":
            c.sim.probe("result checked")
            oracle.check_feasible(sp, oracle.Dispatch(sp, v))
        elif len(c.sim.hits) == n and not any(o is None for o in optima(sp)):
            raise Violation("solve-failed", "a feasible study, without any fault: %s: %s" % (type(v).__name__, v))
        else:
            c.nontrivial = True
