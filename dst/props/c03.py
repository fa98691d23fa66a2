"""C03: every returned dispatch is a least-cost one."""
from .. import gen, oracle, seams
from ..sim import Violation
from .common import build, optima

RUNS = dict(quick=8400, thorough=150000)
RULE = (
    "A run draws a study, solves it on a drawn simulated machine, sometimes while the solver stops early, reports an abnormal, infeasible or not-solved status, "
    "or workers die; the cost of each scenario of a returned result must equal the optimum of an independently written linear program, and no result may "
    "come from a solve in which some scenario was not proven optimal. Non-trivial: several workers or a fault."
)


def run(c):
    ch = c.ch
    sp = gen.draw_spec(ch, max_scn=5, max_h=6, infeasible=3, huge=True)
    opts = optima(sp)
    st = build(c, sp)
    faulty = ch.chance(35, "faults")
    for _ in range(ch.between(1, 2, "solves")):
        c.plan(*((("early", "abnormal", "notsolved", "infeasible", "kill", "oom"), 1, 50) if faulty else ()))
        n, proven = len(c.sim.hits), c.sim.proven
        status, v = c.call(lambda: c.lp().solve(st), "a solve")
        hits = [k for _, k, _ in c.sim.hits[n:]]
        if hits:
            c.nontrivial = True
        if status == "ok":
            c.sim.probe("result checked")
            unproven = [k for k in hits if k.startswith("solver") and "memory" not in k]
            if unproven and c.sim.proven - proven < sp.S:  # it may have been tried again
                raise Violation("unproven-result", "a result although: %s" % unproven)
            d = oracle.Dispatch(sp, v)
            for s in range(sp.S):
                if opts[s] is None:
                    raise Violation("infeasible-result", "scenario %d has no feasible dispatch but a result was returned" % s)
                oracle.check_optimal(sp, d, s, opts[s])
        elif not hits and not any(o is None for o in opts):
            raise Violation("solve-failed", "a feasible study, without any fault: %s: %s" % (type(v).__name__, v))
