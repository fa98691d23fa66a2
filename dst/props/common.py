from .. import gen, oracle
from ..harness import Discard


def optima(sp):
    """Optimal cost of each scenario; None where there is no feasible dispatch."""
    try:
        return [oracle.optimum(sp, s) for s in range(sp.S)]
    except RuntimeError:
        raise Discard()


def build(c, sp):
    status, st = c.call(lambda: gen.build(c.h, sp), "building a study")
    if status != "ok":
        import os
        if os.environ.get('DST_DEBUG'): raise RuntimeError(repr(st))
        raise Discard()  # building is the business of another property
    return st


def solve_ok(c, st, what):
    return c.must(lambda: c.lp().solve(st), what, "solve-failed")


def verify(sp, res, opts=None):
    """A result must be a complete, feasible, optimal dispatch."""
    d = oracle.Dispatch(sp, res)
    oracle.check_feasible(sp, d)
    opts = opts or optima(sp)
    for s in range(sp.S):
        oracle.check_optimal(sp, d, s, opts[s])
    return d


def feasible_spec(c, **kw):
    """A study every scenario of which can be solved, and its optimal costs."""
    for _ in range(3):
        sp = gen.draw_spec(c.ch, **kw)
        opts = optima(sp)
        if not any(o is None for o in opts):
            return sp, opts
    raise Discard()
