"""C06: solve timings are reported per scenario and clocks never influence the dispatch."""
from .. import gen, oracle, seams
from ..harness import Discard
from ..sim import Violation
from .common import build, feasible_spec

RUNS = dict(quick=6000, thorough=100000)
RULE = (
    "A run draws a study whose scenarios take different simulated solver times, solves it on a drawn machine, half of the time while the wall clock jumps (back or forth, in the "
    "caller and inside workers). Without jumps the reported times must be those of each scenario's own work; with jumps the dispatch must still be optimal and the solve must succeed. "
    "Non-trivial: a clock jump, or several workers with several scenarios."
)


JUMPS = [-3600.0, 3600.0, -0.5, 86400.0 * 365, -1.6e9, 1e-3, 20.0]


def run(c):
    ch, sim = c.ch, c.sim
    sp, opts = feasible_spec(c, max_scn=6, max_h=3, min_scn=1)
    st = build(c, sp)
    jumps = ch.chance(50, "clock jumps")
    solves = []
    budget = [0]
    rate = ch.pick([10, 40, 3, 90], "jumpiness")

    def jump(where):
        sim.wall_offset += ch.pick(JUMPS, "jump")
        sim.fault("clock jump " + where)

    def reading():
        if budget[0] and ch.chance(rate, "jump before a reading"):
            budget[0] -= 1
            jump("before a reading")

    def duration(solver):
        # jump while a worker solves
        if jumps and ch.chance(40, "jump in worker"):
            jump("in a worker")
        dt = 1.0 + 0.37 * (len(solves) % 7)
        speed = sim.in_worker.speed if sim.in_worker else 1.0
        solves.append((solver.Objective().Value(), dt * speed, getattr(solver, "_dst_model", 0.0) * speed))
        return dt

    models = [0]

    def modelling():
        models[0] += 1
        return 0.2 + 0.53 * (models[0] % 5)

    seams.SOLVER_TIME = duration
    seams.MODEL_TIME = modelling
    if jumps:
        c.nontrivial = True
        sim.on_wall = reading
    for attempt in range(ch.weighted([(1, 5), (2, 3), (3, 1)], "solves")):
        if attempt and ch.chance(50, "another study"):
            sp, opts = feasible_spec(c, max_scn=4, max_h=2, min_scn=1)
            st = build(c, sp)
        one(c, sp, opts, st, jumps, solves, budget, jump)


def one(c, sp, opts, st, jumps, solves, budget, jump):
    ch, sim = c.ch, c.sim
    del solves[:]
    c.plan()
    if jumps:
        budget[0] = ch.between(0, 4, "jumps at readings")
        for _ in range(ch.between(0, 3, "jumps in caller")):
            sim.after(ch.pick([0.0, 0.5, 1.5, 4.0, 20.0], "jump at"), lambda: jump("in the caller"))
    t0 = sim.t
    res = c.must(lambda: c.lp().solve(st), "a solve while the clock %s" % ("jumps" if jumps else "runs"), "solve-failed")
    took = sim.t - t0
    d = oracle.Dispatch(sp, res)
    oracle.check_feasible(sp, d)
    for s in range(sp.S):
        oracle.check_optimal(sp, d, s, opts[s], "clock-changed-dispatch" if jumps else "not-optimal")
    with oracle.judging("benchmark"):
        b = res.benchmark
        mod, sol = [float(x) for x in b.modeler], [float(x) for x in b.solver]
        total = float(b.total)
    if len(mod) != sp.S or len(sol) != sp.S:
        raise Violation("timing-count", "%d modelling and %d solving times for %d scenarios" % (len(mod), len(sol), sp.S))
    if jumps or len(solves) != sp.S:
        return
    # which recorded solver call was scenario s: by rank of cost (costs differ by a constant at most)
    rank = sorted(range(sp.S), key=lambda s: opts[s])
    rec = sorted(range(sp.S), key=lambda i: solves[i][0])
    gap = 1e-4 * max(1.0, max(abs(o) for o in opts))
    for pos, s in enumerate(rank):
        near = [p for p in range(sp.S) if abs(opts[rank[p]] - opts[s]) <= gap]
        allowed = [solves[rec[p]][1:] for p in near]
        if not any(m - 0.01 <= mod[s] <= m + 0.3 for a, m in allowed):
            raise Violation("modelling-time", "scenario %d reports %r s of modelling; building it took %s s" % (s, mod[s], [m for _, m in allowed]))
        if not any(a - 0.01 <= sol[s] <= a + m + 0.3 for a, m in allowed):
            raise Violation("solving-time", "scenario %d reports %r s of solving; its solver ran for %s s" % (s, sol[s], [a for a, _ in allowed]))
    if not took * 0.98 - 0.05 <= total <= took + 0.05:
        raise Violation("total-time", "the solve took %.3f s but reports a total of %r s" % (took, total))
