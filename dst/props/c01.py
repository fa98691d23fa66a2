"""C01: a local solve does not depend on how scenarios are spread over workers."""
import copy

from .. import gen, oracle, seams
from ..harness import Discard
from ..sim import Violation
from .common import build, optima, solve_ok

RUNS = dict(quick=3000, thorough=60000)
RULE = (
    "A run draws a study, solves it under two simulated machines (worker count, assignment, speeds, completion order), after up to two other "
    "solves in the same process, and compares the dispatches with each other and, scenario by scenario, with the cost of solving that scenario alone "
    "(reference LP and the code itself). Non-trivial: more than one worker."
)


def extend(c, sp, st):
    """Add elements to a study, through its building interface; returns the new specification."""
    ch = c.ch
    more = copy.deepcopy(sp)
    for _ in range(ch.between(1, 3, "additions")):
        n, k = ch.pick(more.nodes(), "where")
        nd = more.networks[n][k]
        name = "new%d" % (len(nd.cons) + len(nd.prod))
        cost = gen.draw_val(ch, sp.S, sp.H, lambda: float(ch.between(0, 40, "cost")))
        qty = gen.draw_val(ch, sp.S, sp.H, lambda: float(ch.between(0, 20, "q")))
        if ch.chance(50, "production"):
            nd.prod[name] = dict(cost=cost, quantity=qty)
            go = lambda: st.network(n).node(k).production(name=name, cost=gen.fresh(cost), quantity=gen.fresh(qty))  # noqa
        else:
            nd.cons[name] = dict(cost=cost, quantity=qty)
            go = lambda: st.network(n).node(k).consumption(name=name, cost=gen.fresh(cost), quantity=gen.fresh(qty))  # noqa
        if c.call(go, "adding an element")[0] != "ok":
            raise Discard()
    return more


def run(c):
    ch = c.ch
    c.loglevel()
    sp = gen.draw_spec(ch, big=True)
    opts = optima(sp)
    if any(o is None for o in opts):
        raise Discard()
    st = build(c, sp)
    slow = ch.weighted([(0.01, 8), (2.0, 2), (600.0, 1), (9000.0, 1)], "seconds per scenario")
    seams.SOLVER_TIME = lambda solver: slow
    c.sim.MAX_SECONDS = 1e9
    for _ in range(ch.below(3, "solves before")):
        other = sp if ch.chance(30, "same study before") else gen.draw_spec(ch, max_scn=4, max_h=3)
        c.plan()
        c.call(lambda: c.lp().solve(gen.build(c.h, other)), "an earlier solve")
    c.plan()
    d1 = oracle.Dispatch(sp, solve_ok(c, st, "a solve of a feasible study"))
    for s in range(sp.S):
        oracle.check_optimal(sp, d1, s, opts[s], "wrong-scenario")
    oracle.check_feasible(sp, d1)
    c.plan()
    d2 = oracle.Dispatch(sp, solve_ok(c, st, "a second solve"))
    diff = d1.same(d2)
    if diff:
        raise Violation("schedule-dependent", diff)
    if ch.chance(35, "study extended"):
        # the user goes on building the study that was solved
        more = extend(c, sp, st)
        opts2 = optima(more)
        if any(o is None for o in opts2):
            raise Discard()
        c.plan()
        d4 = oracle.Dispatch(more, solve_ok(c, st, "a solve of an extended study"))
        for s in range(sp.S):
            oracle.check_optimal(more, d4, s, opts2[s], "stale")
        oracle.check_feasible(more, d4)
        c.sim.probe("extended study solved")
    s = ch.below(sp.S, "alone")
    one = gen.one_scenario(sp, s)
    c.plan()
    d3 = oracle.Dispatch(one, solve_ok(c, build(c, one), "a solve of one scenario alone"))
    oracle.check_optimal(one, d3, 0, opts[s], "alone-differs")
