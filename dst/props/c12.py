"""C12: seeded outage generation is exactly reproducible."""
import copy
import pickle
import random

import numpy as np
import pandas as pd

from .. import oracle, seams, twin, wf
from ..sim import Violation

RUNS = dict(quick=3000, thorough=150000)
RULE = (
    "A run draws seeded outage stages and timelines, takes the output of a fresh stage alone as reference, then draws a sequence of situations: later calls, fresh equal stages, copies, other "
    "timelines in between, random draws and reseeding by the program, pipelines, shuffles in worker processes (with kills and memory exhaustion), concurrent threads preempted at drawn lines, "
    "interrupted calls, passing time, another interpreter with another hash seed. Every output must equal the reference bit for bit. Non-trivial: a preemption, an interruption, a fault or a worker process."
)
SEEDS = [0, 1, 42, 2 ** 32 - 1, 123456, np.int64(7), np.int32(0), np.uint32(99), 2 ** 31]


def quantity(frame):
    """The quantity of every scenario, whatever it is called by now."""
    with oracle.judging("output of an outage stage"):
        names = set(n for _, n in frame.columns)
        name = "quantity" if "quantity" in names else "q2"
        return [tuple(frame.iloc[:, j].tolist()) for j, (_, n) in enumerate(frame.columns.tolist()) if n == name]


def run(c):
    ch, sim = c.ch, c.sim
    seams.HAS_SOLVER = False
    makers = []
    for _ in range(ch.between(1, 3, "stages")):
        lo = ch.pick([1, 2, 3], "min")
        kw = dict(loss=ch.pick([10, 0.1, 7.25, 1e-3], "loss"), occur_freq=ch.pick([0.5, 0.1, 0.9, 1, 0.3], "freq"), downtime_min=lo, downtime_max=lo + ch.pick([1, 2, 6], "spread"), seed=ch.pick(SEEDS, "seed"))
        makers.append(kw)
    frames = [wf.draw_frame(ch, H=ch.pick([8, 1, 3, 24, 50], "steps"), cols=ch.pick([["quantity"], ["quantity", "cost"], ["a", "quantity"], ["quantity", 0], ["", "quantity"]], "columns")).frame for _ in range(ch.between(1, 2, "timelines"))]

    def make(i):
        return c.h.Fault(**makers[i])

    ref = {}
    stages = {}

    def expect(i, j):
        if (i, j) not in ref:
            out = c.must(lambda: make(i)(frames[j].copy(deep=True)), "an outage stage", "stage-failed")
            with oracle.judging("output of an outage stage"):
                ref[i, j] = (oracle.frame_view(out), quantity(out))
        return ref[i, j]

    def stage(i):
        if i not in stages:
            stages[i] = c.must(lambda: make(i), "creating an outage stage", "stage-failed")
        return stages[i]

    def same(out, i, j, what):
        with oracle.judging("output of an outage stage"):
            if isinstance(out, Exception):
                raise Violation("stage-failed", "%s: %s: %s" % (what, type(out).__name__, str(out)[:200]))
            v = oracle.frame_view(out)
        if v != expect(i, j)[0]:
            raise Violation("not-reproduced", "%s gives another output (seed %r)" % (what, makers[i]["seed"]))

    for _ in range(ch.between(2, 6, "situations")):
        i, j = ch.below(len(makers), "stage"), ch.below(len(frames), "timeline")
        want = expect(i, j)
        op = ch.pick(["again", "fresh", "noise", "pipeline", "shuffle", "threads", "interrupted", "copies", "other timeline", "sleep", "failed call", "other interpreter"], "situation")
        sim.note("situation", op, i, j)
        if op == "noise":
            k = ch.pick(["seed", "draws", "random", "state", "errstate"], "noise")
            if k == "seed":
                np.random.seed(ch.pick([0, 1, 42], "reseed"))
            elif k == "draws":
                np.random.rand(ch.between(1, 2000, "draws"))
            elif k == "random":
                random.seed(3)
                random.random()
            elif k == "state":
                np.random.set_state(np.random.RandomState(5).get_state())
            else:
                np.random.standard_normal(3)
            op = ch.pick(["again", "fresh"], "then")
        if op == "sleep":
            sim.sleep(ch.pick([0.5, 3600.0, 86400.0 * 40], "sleep"))
            sim.wall_offset += ch.pick([0, -7200.0], "clock jump")
            op = "again"
        if op in ("again", "fresh"):
            s = stage(i) if op == "again" else make(i)
            out = c.must(lambda: s(frames[j]), "an outage stage", "stage-failed")
            same(out, i, j, "a later call" if op == "again" else "a stage with the same parameters")
        elif op == "copies":
            s = stage(i)
            how = ch.pick(["pickle", "deepcopy", "copy"], "copied how")
            s2 = c.must(lambda: pickle.loads(pickle.dumps(s)) if how == "pickle" else copy.deepcopy(s) if how == "deepcopy" else copy.copy(s), "copying a stage", "stage-failed")
            same(c.must(lambda: s2(frames[j]), "a copied stage", "stage-failed"), i, j, "a copied stage (%s)" % how)
        elif op == "other timeline":
            other = wf.draw_frame(ch, cols=["quantity"]).frame
            c.call(lambda: stage(i)(other))
            same(c.must(lambda: stage(i)(frames[j]), "an outage stage", "stage-failed"), i, j, "the same stage after another timeline")
        elif op == "other interpreter":
            req = dict(kw=makers[i], frame=frames[j], how=ch.pick(["stage", "pipeline"], "there"), entropy=ch.seed32("its entropy"))
            status, v = twin.ask(req)
            if status == "exc":
                raise Violation("stage-failed", "in another interpreter: %s" % v)
            mine = want[0] if req["how"] == "stage" else None
            if mine is None:
                mine = oracle.frame_view(c.must(lambda: wf.chain([c.h.Clip(), make(i)], 1)(frames[j]), "a pipeline", "stage-failed"))
            if v != mine:
                raise Violation("not-reproduced", "another interpreter gives another output (seed %r)" % (makers[i]["seed"],))
        elif op == "failed call":
            c.call(lambda: stage(i)(pd.DataFrame({"nothing": [1.0]})))
            same(c.must(lambda: stage(i)(frames[j]), "an outage stage", "stage-failed"), i, j, "the same stage after a failed call")
        elif op == "interrupted":
            s = stage(i)
            status, v = c.interrupted(lambda: s(frames[j]), "an outage stage")
            c.nontrivial = True
            if status == "ok":
                same(v, i, j, "a call")
            same(c.must(lambda: s(frames[j]), "an outage stage", "stage-failed"), i, j, "the same stage after an interrupted call")
        elif op == "pipeline":
            parts = []
            for _ in range(ch.below(3, "before")):
                parts.append(ch.pick([lambda: c.h.Clip(), lambda: wf.Affine(1.0, 0.0), lambda: c.h.Clip(lower=-1e12)], "neutral stage")())
            k = len(parts)
            parts.append(stage(i) if ch.chance(50, "same stage") else make(i))
            for _ in range(ch.below(2, "after")):
                parts.append(ch.pick([lambda: c.h.Clip(), lambda: c.h.Rename(quantity="q2")], "neutral stage")())
            if len(parts) == 1:
                parts.append(c.h.Clip())
            st, p = c.call(lambda: wf.chain(parts, ch.below(2, "built how")))
            if st == "exc":
                raise Violation("stage-failed", "building a pipeline around an outage stage: %s" % v_(p))
            for rep in range(ch.between(1, 2, "runs")):
                out = c.must(lambda: p(frames[j]), "a pipeline", "stage-failed")
                if quantity(out) != want[1]:
                    raise Violation("not-reproduced", "inside a pipeline the stage gives another output (seed %r)" % (makers[i]["seed"],))
        elif op == "shuffle":
            c.nontrivial = True
            sh = c.h.Shuffler(sampler=wf.in_order)
            lines = {}
            for k in range(ch.between(1, 4, "timelines in shuffle")):
                a, b = (i, j) if k == 0 else (ch.below(len(makers), "stage"), ch.below(len(frames), "timeline"))
                p = wf.chain([stage(a) if ch.chance(50, "same stage") else make(a), c.h.ToShuffler("quantity")])
                c.must(lambda: sh.add_pipeline("t%d" % k, frames[b], p), "add_pipeline", "stage-failed")
                lines["t%d" % k] = expect(a, b)[1]
            faults = ch.chance(30, "faults")
            c.plan(("kill", "oom") if faults else (), 1, 40)
            nb = max(len(q) for q in lines.values())
            h0 = len(sim.hits)
            status, v = c.call(lambda: sh.shuffle(nb), "a shuffle")
            if status == "exc":
                if len(sim.hits) == h0:
                    raise Violation("stage-failed", "a shuffle of seeded outages: %s" % v_(v))
            else:
                with oracle.judging("answer of a shuffle"):
                    for name, q in lines.items():
                        got = [tuple(float(x) for x in row) for row in np.asarray(v[name])]
                        if got != [tuple(float(x) for x in q[r % len(q)]) for r in range(nb)]:
                            raise Violation("not-reproduced", "in a worker process the stage gives another output")
        elif op == "threads":
            bodies, wants = [], []
            shared = ch.chance(50, "shared stage")
            for k in range(ch.between(2, 3, "threads")):
                a, b = (i, j) if k == 0 else (ch.below(len(makers), "stage"), ch.below(len(frames), "timeline"))
                if k and ch.chance(30, "noise thread"):
                    def noise():
                        for _ in range(5):
                            np.random.seed(3)
                            c.h.Fault(loss=1, occur_freq=1, downtime_min=1, downtime_max=2)(pd.DataFrame({"quantity": np.ones(3)}))
                            np.random.rand(7)
                    bodies.append(("t%d" % k, noise))
                    wants.append(None)
                    continue
                s = stage(a) if shared else make(a)
                expect(a, b)
                bodies.append(("t%d" % k, (lambda s=s, b=b: s(frames[b]))))
                wants.append((a, b))
            c.preemptions(8, stalls=True)
            for (status, v), w in zip(c.threads(bodies), wants):
                if w is not None:
                    if status == "exc":
                        raise Violation("stage-failed", "in a thread: %s" % v_(v))
                    same(v, w[0], w[1], "a call in concurrent threads")


def v_(e):
    return "%s: %s" % (type(e).__name__, str(e)[:200])
