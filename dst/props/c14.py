"""C14: workflows leave the caller's data, stages and pipelines untouched."""
import copy

import numpy as np
import pandas as pd

from .. import oracle, seams, wf
from ..sim import Violation

RUNS = dict(quick=3600, thorough=120000)
RULE = (
    "A run draws timelines, a list of stages, and a program that builds pipelines from any prefix of them in any way, extends them (also wrongly), runs stages and pipelines, registers and "
    "shuffles them, with failing stages, unsuitable data, interruptions at drawn lines, worker faults, and concurrent threads preempted at drawn lines. After every step each timeline and "
    "matrix must read as before, each stage and pipeline must declare the same columns as when it was built, and produce what a model says. Non-trivial: a failure, interruption, preemption or worker."
)


def plug_view(x):
    return (tuple(x.plug.inputs), tuple(x.plug.outputs), type(x.plug).__name__)


def data_view(d):
    if isinstance(d, pd.DataFrame):
        return ("frame", type(d.columns).__name__, type(d.index).__name__) + oracle.frame_view(d)
    return ("array", d.shape, str(d.dtype), d.flags.writeable, tuple(d.ravel().tolist()))


def run(c):
    ch, sim = c.ch, c.sim
    seams.HAS_SOLVER = False
    f = wf.draw_flow(ch, shuffled=False, stages=5)
    if not f.specs:
        wf.extend(ch, f, allow=("affine",))
    if ch.chance(60, "to shuffler"):
        wf.to_shuffler(ch, f)
    cols = list(f.input[0][1])
    flows = [f] + [wf.draw_frame(ch, cols=cols, tag=2 + i) for i in range(ch.below(3, "more timelines"))]
    n = len(f.specs)
    stages = c.must(f.stages, "creating stages", "stage-failed")
    data = [fl.frame for fl in flows]
    views = [data_view(d) for d in data]
    declared = []

    def declare(x, label):
        declared.append((x, plug_view(x), copy.deepcopy(x.plug), label))

    with oracle.judging("stages"):
        for i, s in enumerate(stages):
            declare(s, "stage %d (%s)" % (i, type(s).__name__))
    pipes = []  # (pipeline, k)

    def intact(what):
        with oracle.judging("after %s" % what):
            for d, v in zip(data, views):
                if data_view(d) != v:
                    raise Violation("data-changed", "%s changed a timeline of the caller: %s" % (what, change(v, data_view(d))))
            for x, v, plug, label in declared:
                if plug_view(x) != v or not x.plug == plug:
                    raise Violation("declaration-changed", "%s changed %s: %s became %s" % (what, label, (v, plug), (plug_view(x), x.plug)))

    def add(p, k, what):
        pipes.append((p, k))
        with oracle.judging(what):
            declare(p, "pipeline of %d stages" % k)
            # same as one built from fresh stages
            q = c.must(lambda: wf.chain([f.stage(i) for i in range(k)], 1), "building a fresh pipeline", "pipeline-failed")
            a, b = plug_view(p), plug_view(q)
            if (sorted(a[0]), sorted(a[1])) != (sorted(b[0]), sorted(b[1])):
                raise Violation("reuse-differs", "%s declares %s, one of fresh stages %s" % (what, a, b))

    def right(out, k, fl, what, kind="wrong-output"):
        with oracle.judging(what):
            d = wf.diff_model(f.after(k, fl), out)
        if d:
            raise Violation(kind, "%s: %s" % (what, d))

    for step in range(ch.between(3, 8, "steps")):
        op = ch.pick(["build", "run", "extend", "bad extend", "run stage", "failing", "bad data", "interrupted", "threads", "shuffle"], "step")
        fl = ch.pick(flows, "timeline")
        p, k = ch.pick(pipes, "pipeline") if pipes else (None, 0)
        if p is None and op in ("run", "extend", "bad extend", "threads"):
            op = "build"
        sim.note("step", op, k)
        what = "step %d (%s)" % (step, op)
        if op == "build":
            k = ch.between(1, n, "prefix")
            given = stages[:k]
            p = c.must(lambda: wf.chain(given, ch.below(2, "built how")), "building a pipeline", "pipeline-failed")
            if len(given) != k or any(a is not b for a, b in zip(given, stages)):
                raise Violation("list-changed", "building a pipeline changed the list it was given")
            add(p, k, what)
        elif op == "run":
            right(c.must(lambda: p(fl.frame), "running a pipeline", "pipeline-failed"), k, fl, what)
        elif op == "extend":
            if k < n:
                q = c.must(lambda: p + stages[k], "extending a pipeline", "pipeline-failed")
                add(q, k + 1, what)
                intact(what)
                if ch.chance(50, "run both"):
                    right(c.must(lambda: p(fl.frame), "running a pipeline", "pipeline-failed"), k, fl, what + ", the pipeline that was extended", "extended-in-place")
                    right(c.must(lambda: q(fl.frame), "running a pipeline", "pipeline-failed"), k + 1, fl, what)
        elif op == "bad extend":
            c.nontrivial = True
            x = ch.pick([c.h.Rename(nowhere="x"), "text", None, c.h.Drop("nowhere"), p], "unfit")
            c.call(lambda: p + x)
        elif op == "run stage":
            s = stages[0]
            right(c.must(lambda: s(fl.frame), "running a stage", "stage-failed"), 1, fl, what)
        elif op == "failing":
            c.nontrivial = True
            j = ch.below(n + 1, "failing at")
            st, q = c.call(lambda: wf.chain(stages[:j] + [wf.Boom(ch.pick(["value", "memory", "key"], "how"))] + stages[j:], 1))
            if st == "ok":
                st, v = c.call(lambda: q(fl.frame), "a failing pipeline")
                if st == "ok":
                    raise Violation("failure-lost", "a pipeline with a failing stage returned")
        elif op == "bad data":
            c.nontrivial = True
            bad = ch.pick([pd.DataFrame({"zzz": [1.0, 2.0]}), pd.DataFrame({"quantity": ["x", "y"]}), pd.DataFrame()], "unsuitable data")
            v = data_view(bad)
            x = p if p is not None and ch.chance(50, "pipeline") else stages[0]
            c.call(lambda: x(bad), "unsuitable data")
            if data_view(bad) != v:
                raise Violation("data-changed", "%s changed the data it was given" % what)
        elif op == "interrupted":
            c.nontrivial = True
            kind = ch.below(3, "interrupted what")
            if kind == 0 or p is None:
                st, v = c.interrupted(lambda: stages[0](fl.frame), "a stage")
                kk = 1
            elif kind == 1:
                st, v = c.interrupted(lambda: p(fl.frame), "a pipeline")
                kk = k
            else:
                st, v = c.interrupted(lambda: p + stages[k % n], "extending a pipeline")
                st, kk = "dropped", 0
            if st == "ok":
                right(v, kk, fl, what)
        elif op == "threads":
            c.nontrivial = True
            jobs = []
            for i in range(ch.between(2, 3, "threads")):
                pi, ki = ch.pick(pipes, "pipeline")
                fi = ch.pick(flows, "timeline")
                kind = ch.pick(["run", "extend", "stage", "build"], "thread does")
                if kind == "run":
                    jobs.append(((lambda pi=pi, fi=fi: pi(fi.frame)), ki, fi))
                elif kind == "stage":
                    jobs.append(((lambda fi=fi: stages[0](fi.frame)), 1, fi))
                elif kind == "build":
                    kk = ch.between(1, n, "prefix")
                    jobs.append(((lambda fi=fi, kk=kk: wf.chain(stages[:kk], kk % 2)(fi.frame)), kk, fi))
                else:
                    if ki < n:
                        jobs.append(((lambda pi=pi, ki=ki, fi=fi: (pi + stages[ki])(fi.frame)), ki + 1, fi))
            c.preemptions(8, stalls=True)
            outs = c.threads([("t%d" % i, j[0]) for i, j in enumerate(jobs)])
            for (fn, kk, fi), (st, v) in zip(jobs, outs):
                if st == "exc":
                    raise Violation("pipeline-failed", "in concurrent threads: %s: %s" % (type(v).__name__, str(v)[:200]))
                right(v, kk, fi, what)
        elif op == "shuffle":
            c.nontrivial = True
            sh = c.h.Shuffler(sampler=wf.in_order)
            lines = {}
            if f.outs is not None and wf.TOP in f.outs:
                q, kq = next(((x, kx) for x, kx in reversed(pipes) if kx == n), (None, 0))
                if q is None:
                    q = c.must(lambda: wf.chain(stages, 1), "building a pipeline", "pipeline-failed")
                    add(q, n, what)
                c.must(lambda: sh.add_pipeline("p", fl.frame, q), "add_pipeline", "registering-failed")
                intact("registering")
                lines["p"] = np.array([d[wf.TOP] for _, d in f.after(n, fl)])
            else:
                q = p or wf.chain(stages[:1], 1)
                c.call(lambda: sh.add_pipeline("bad", fl.frame, q))
                intact("a refused registration")
                if "bad" in getattr(sh, "timelines", {}):
                    sh = c.h.Shuffler(sampler=wf.in_order)
            if ch.chance(50, "matrix too"):
                m = np.arange(12.0).reshape(3, 4)
                if ch.chance(30, "read-only"):
                    m.flags.writeable = False
                data.append(m)
                views.append(data_view(m))
                c.must(lambda: sh.add_data("m", m), "add_data", "registering-failed")
                lines["m"] = m.copy()
            faulty = ch.chance(40, "faults")
            for rep in range(ch.between(1, 2, "shuffles")):
                c.plan(("kill", "oom") if faulty else (), 1, 50)
                h0 = len(sim.hits)
                st, v = c.call(lambda: sh.shuffle(4), "a shuffle")
                intact("a shuffle")
                if st == "exc" and len(sim.hits) == h0:
                    raise Violation("shuffle-failed", "%s: %s" % (type(v).__name__, str(v)[:300]))
                if st == "ok":
                    with oracle.judging("answer of a shuffle"):
                        for name, rows in lines.items():
                            got = np.asarray(v[name], dtype=float)
                            if got.shape[0] != 4 or not np.allclose(got, rows[np.arange(4) % len(rows)], rtol=1e-12, atol=1e-9):
                                raise Violation("wrong-output", "%s: timeline %s" % (what, name))
        intact(what)
    # everything still behaves as if it had just been created
    for p, k in pipes[-3:]:
        fl = ch.pick(flows, "timeline")
        right(c.must(lambda: p(fl.frame), "running a pipeline again", "pipeline-failed"), k, fl, "running a pipeline of %d stages at the end" % k, "reuse-differs")
    right(c.must(lambda: stages[0](f.frame), "running a stage again", "stage-failed"), 1, f, "running the first stage at the end", "reuse-differs")
    intact("the end")


def change(a, b):
    for x, y in zip(a, b):
        if x != y:
            return "%s became %s" % (str(x)[:120], str(y)[:120])
    return ""
