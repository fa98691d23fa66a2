"""C18: worker processes never outlive the operation that started them."""
import gc

import numpy as np

from .. import gen, seams, wf
from ..sim import Violation, When
from .common import build

RUNS = dict(quick=3600, thorough=150000)
RULE = (
    "A run draws a sequence of local solves and shuffles that return, fail by themselves, meet worker deaths, memory exhaustion, solver failures, failing process creation or stalled workers, or are "
    "interrupted at a drawn line or wait; some run in concurrent threads. After each, its outcome is dropped, pending simulated work is let finish, and no simulated worker process may be alive. "
    "Non-trivial: a fault or an interruption."
)
FAULTS = ("kill", "oom", "spawnfail", "abnormal", "notsolved", "infeasible", "stall")


def live(sim):
    return sum(core.live() for core in sim.pools)


def operation(c):
    """A solve or a shuffle, ready to be called."""
    ch = c.ch
    if ch.chance(55, "solve"):
        sp = gen.draw_spec(ch, max_scn=5, max_h=2, infeasible=30 if ch.chance(20, "infeasible study") else 0)
        st = build(c, sp)
        opt = c.lp()
        return "solve", lambda: opt.solve(st)
    sh = c.h.Shuffler() if ch.chance(50, "default sampler") else c.h.Shuffler(sampler=wf.in_order)
    for i in range(ch.between(0, 4, "timelines")):
        if ch.chance(40, "matrix"):
            c.call(lambda: sh.add_data("t%d" % i, np.arange(12.0).reshape(3, 4)))
        else:
            f = wf.draw_frame(ch, cols=["quantity"])
            stages = [wf.Affine(2.0, 0.0), c.h.ToShuffler("quantity")]
            if ch.chance(25, "failing"):
                stages.insert(0, wf.Boom(ch.pick(wf.BOOMS, "failing how")))
            c.call(lambda: sh.add_pipeline("t%d" % i, f.frame, wf.chain(stages, 1)))
    nb = ch.pick([3, 1, 20], "scenarios asked")
    return "shuffle", lambda: sh.shuffle(nb)


def quiet(c, what):
    gc.collect()
    c.sim.drain()
    gc.collect()
    c.sim.drain()
    n = live(c.sim)
    if n:
        raise Violation("processes-left", "%d worker processes are still alive after %s" % (n, what))


def run(c):
    ch, sim = c.ch, c.sim
    keep = ch.chance(50, "the caller keeps studies, optimizers and shufflers")
    kept = []
    for step in range(ch.between(1, 5, "operations")):
        how = ch.pick(["plain", "faulty", "interrupted", "faulty and interrupted", "threads"], "how")
        faulty = "faulty" in how or (how == "threads" and ch.chance(50, "faults"))
        c.plan(FAULTS if faulty else (), ch.between(1, 3, "fault budget") if faulty else 0, ch.pick([50, 90, 20], "fault rate"))
        if how == "threads":
            ops = [operation(c) for _ in range(ch.between(2, 3, "threads"))]
            c.preemptions(4, stalls=True)
            inject = {}
            if ch.chance(40, "interrupted thread"):
                inject["t0"] = When.draw(ch, MemoryError("injected"), (20, 200))
            outs = c.threads([("t%d" % i, o[1]) for i, o in enumerate(ops)], inject)
            what = " and ".join("a %s (%s)" % (o[0], r[0]) for o, r in zip(ops, outs)) + " in threads"
            del outs, inject
            kept += ops
        else:
            if kept and ch.chance(40, "the same again"):
                name, fn = ch.pick(kept, "which")
            else:
                name, fn = operation(c)
                kept.append((name, fn))
            if "interrupted" in how:
                c.nontrivial = True
                out = c.interrupted(fn, "a %s" % name)
            else:
                out = c.call(fn, "a %s" % name)
            what = "a %s (%s, %s)" % (name, how, "returned" if out[0] == "ok" else "raised %s" % type(out[1]).__name__)
            del out, fn
        if sim.hits:
            c.nontrivial = True
        if sim.pools:
            sim.probe("operations with workers")
        ops = None
        if not keep:
            kept = []
        quiet(c, what)
