"""C17: operations running concurrently in several threads do not influence each other."""
import numpy as np

from .. import gen, net, oracle, remote, seams, wf
from ..harness import Discard
from ..sim import HarnessError, Violation, When
from . import c16
from .common import build, feasible_spec, optima, verify

RUNS = dict(quick=1800, thorough=80000)
RULE = (
    "A run draws two to four threads, each with one to three operations: local solves (own study, or one shared by threads; built in the thread or before), remote solves, shuffles, seeded "
    "pipelines and analyses, some of which fail by themselves. What each gives alone is known first. The threads then run with preemptions at drawn lines of hadar code and at every wait, while "
    "some threads (never all) meet worker deaths, memory exhaustion, network failures, stalled workers or servers, or an exception at a drawn line. Every other thread must get what it gets alone, in bounded "
    "time. Non-trivial: at least one preemption or fault."
)


class Local:
    name = "local solve"

    def __init__(self, c, shared):
        ch = c.ch
        self.c = c
        key = "study"
        if shared.get(key) and ch.chance(50, "shared study"):
            self.sp, self.opts, self.st, self.ref = shared[key]
            self.own = False
            return
        self.sp = gen.draw_spec(ch, max_scn=4, max_h=3, infeasible=20 if ch.chance(20, "infeasible study") else 0)
        self.opts = optima(self.sp)
        self.st = build(c, self.sp)
        self.ref = None
        if not self.bad():
            c.plan(cpus=1)
            res = alone(c, lambda: c.h.LPOptimizer().solve(self.st))
            self.ref = oracle.Dispatch(self.sp, res)
        shared.setdefault(key, (self.sp, self.opts, self.st, self.ref))
        self.own = ch.chance(40, "built in the thread")

    def bad(self):
        return any(o is None for o in self.opts)

    def __call__(self):
        st = gen.build(self.c.h, self.sp) if self.own else self.st
        return self.c.h.LPOptimizer().solve(st)

    def judge(self, status, v, excused):
        if status == "ok":
            if self.bad():
                return "a study without feasible dispatch gave a result"
            d = self.ref.same(oracle.Dispatch(self.sp, v))
            if d:
                return "another dispatch than alone: %s" % d
            verify(self.sp, v, self.opts)
        elif not excused and not self.bad():
            return failed(v)
        elif not isinstance(v, Exception):
            return failed(v)


class Remote:
    name = "remote solve"
    count = 0

    def __init__(self, c, shared, stuck=False):
        ch = c.ch
        sp = gen.draw_spec(ch, max_scn=2, max_h=2, storages=ch.chance(20, "storages"), converters=ch.chance(20, "converters"))
        self.st = build(c, sp)
        self.sends = remote.fabricate(c, sp)
        self.fails = ch.chance(20, "job fails")
        self.message = "failure %d" % len(seams.NET.servers)
        life = net.draw_life(ch, "ERROR" if self.fails else "TERMINATED", self.message)
        if stuck:
            life = net.Life([(900.0, "QUEUED", 1)], "TERMINATED")
            self.fails = False
        sends = self.sends[0]
        self.srv = remote.server(c, host="h%d.sim" % len(seams.NET.servers), compute=lambda job: sends, lives=[life])
        self.cl = remote.client(c, self.srv)

    def __call__(self):
        return self.cl.solve(self.st)

    def judge(self, status, v, excused):
        if status == "ok":
            if self.fails:
                return "a failed job gave a result"
            d = oracle.diff_view(self.sends[1], oracle.result_view(v))
            if d:
                return "another result than its server's: %s" % d
        elif excused:
            return None
        elif not self.fails or self.message not in str(v):
            return failed(v)
        if len(self.srv.submissions) != 1:
            return "%d submissions" % len(self.srv.submissions)


class Shuffle:
    name = "shuffle"

    def __init__(self, c, shared):
        ch = c.ch
        self.sampler = ch.pick([None, wf.in_order, wf.backwards], "sampler")
        self.sh = c.h.Shuffler() if self.sampler is None else c.h.Shuffler(sampler=self.sampler)
        self.lines, self.fails = {}, False
        tag = 1 + 10 * shared.setdefault("tags", 0)
        shared["tags"] += 1
        for i in range(ch.between(1, 3, "timelines")):
            name = "t%d" % i
            if ch.chance(40, "matrix"):
                m = (tag + i) * 1000.0 + np.arange(12.0).reshape(3, 4)
                self.lines[name] = m.copy()
                alone(c, lambda: self.sh.add_data(name, m))
                continue
            f = wf.draw_frame(ch, cols=["quantity"], tag=tag + i)
            stages = [wf.Affine(1.0, 0.0), c.h.ToShuffler("quantity")]
            if ch.chance(50, "seeded outages"):
                kw = dict(loss=3, occur_freq=0.5, downtime_min=1, downtime_max=3, seed=ch.pick([0, 7, 42], "seed"))
                stages.insert(1, c.h.Fault(**kw))
                out = alone(c, lambda: c.h.Fault(**kw)(f.frame.copy(deep=True)))
                with oracle.judging("output of an outage stage"):
                    self.lines[name] = np.array([out.iloc[:, j].to_numpy(dtype=float) for j in range(out.shape[1])])
            else:
                self.lines[name] = np.array([f.frame.iloc[:, j].to_numpy(dtype=float) for j in range(f.frame.shape[1])])
            if ch.chance(8, "failing"):
                self.fails = True
                stages.insert(0, wf.Boom("value"))
            p = alone(c, lambda: wf.chain(stages, 1))
            alone(c, lambda: self.sh.add_pipeline(name, f.frame, p))
        self.nb = ch.pick([3, 1, 10], "scenarios asked")

    def __call__(self):
        return self.sh.shuffle(self.nb)

    def judge(self, status, v, excused):
        if status != "ok":
            return None if (excused or self.fails) else failed(v)
        if self.fails:
            return "a failing timeline gave an answer"
        if set(v) != set(self.lines):
            return "timelines %s" % sorted(v)
        for name, rows in self.lines.items():
            got = np.asarray(v[name], dtype=float)
            if got.shape != (self.nb, rows.shape[1]):
                return "timeline %s has shape %s" % (name, got.shape)
            if self.sampler is not None:
                want = rows[np.asarray(self.sampler(0, rows.shape[0], self.nb), dtype=int)]
                if not np.allclose(got, want, rtol=1e-12, atol=1e-9):
                    return "timeline %s: not the rows it has alone" % name
            elif not all(np.any(np.all(np.isclose(rows, r, rtol=1e-12, atol=1e-9), axis=1)) for r in got):
                return "timeline %s: a row that is none of its scenarios" % name


class Pipeline:
    name = "seeded pipeline"

    def __init__(self, c, shared):
        ch = c.ch
        f = wf.draw_frame(ch, cols=["quantity", "cost"])
        kw = dict(loss=ch.pick([3, 0.5], "loss"), occur_freq=ch.pick([0.5, 0.2, 1], "freq"), downtime_min=1, downtime_max=ch.pick([2, 5], "max"), seed=ch.pick([0, 7, 42], "seed"))

        def stages():
            return [wf.Affine(2.0, 1.0), c.h.Fault(**kw), c.h.Rename(quantity="q")]

        ref = alone(c, lambda: wf.chain(stages(), 1)(f.frame.copy(deep=True)))
        with oracle.judging("output of a pipeline"):
            self.ref = oracle.frame_view(ref)
        if shared.get("stages") and ch.chance(30, "shared stages"):
            # several threads may use one stage: its parameters are those of the first
            kw = shared["stages"][1]
            ref = alone(c, lambda: wf.chain(stages(), 1)(f.frame.copy(deep=True)))
            self.ref = oracle.frame_view(ref)
            mine = shared["stages"][0]
        else:
            mine = stages()
            shared.setdefault("stages", (mine, kw))
        self.go = lambda: wf.chain(mine, 1)(f.frame)

    def __call__(self):
        return self.go()

    def judge(self, status, v, excused):
        if status != "ok":
            return None if excused else failed(v)
        if oracle.frame_view(v) != self.ref:
            return "another output than alone"


class Analysis:
    name = "analysis"

    def __init__(self, c, shared):
        ch = c.ch
        if "analysed" not in shared or ch.chance(40, "own result"):
            sp = gen.draw_spec(ch, max_scn=2, max_h=3)
            st = build(c, sp)
            res = remote.fabricate(c, sp, plain=True)[2]
            m = c16.Model(sp, res)
            an = alone(c, lambda: c.h.ResultAnalyzer(study=st, result=res))
            mine = (sp, st, res, m, an)
            shared.setdefault("analysed", mine)
        else:
            mine = shared["analysed"]
        sp, st, res, self.m, an = mine
        fresh = ch.chance(30, "fresh analyzer")
        get = (lambda: c.h.ResultAnalyzer(study=st, result=res)) if fresh else (lambda: an)
        self.table = ch.chance(60, "table")
        if self.table:
            self.kind, self.levels = c16.draw_query(ch, sp)

            def go():
                x = c16.start(get(), self.levels)
                for lv, f in self.levels[1:]:
                    x = c16.follow(x, self.kind, lv, f, False)
                return x

            self.go = go
        else:
            self.ask = c16.draw_ask(ch, sp)
            self.go = lambda: self.ask[1](get())

    def __call__(self):
        return self.go()

    def judge(self, status, v, excused):
        if status != "ok":
            return None if excused else failed(v)
        if self.table:
            c16.judge_table(self.m, self.kind, self.levels, v, "in concurrent threads")
        else:
            c16.judge_ask(self.m, self.ask, v, "in concurrent threads")


def alone(c, fn):
    """What does not work alone is the business of other properties."""
    status, v = c.call(fn, "an operation alone")
    if status == "exc":
        raise Discard()
    return v


def failed(v):
    return "%s: %s" % (type(v).__name__, str(v)[:300])


def run(c):
    ch, sim = c.ch, c.sim
    N = remote.setup(c)
    c.loglevel()
    n = ch.weighted([(2, 4), (3, 3), (4, 1)], "threads")
    names = ["th%d" % i for i in range(n)]
    victims = set(ch.shuffled(names, "victims")[: ch.weighted([(0, 3), (1, 5), (2, 2)], "how many") if n > 2 else ch.weighted([(0, 2), (1, 3)], "how many")])
    stuck = bool(victims) and ch.chance(20, "a stuck victim")
    shared = {}
    todo = {}
    kinds = ch.pick([[Local, Remote, Shuffle, Pipeline, Analysis, Local], [Analysis], [Pipeline], [Local], [Shuffle], [Remote], [Analysis, Local]], "kinds of operations")
    for name in names:
        ops = []
        for _ in range(ch.between(2, 4, "operations") if kinds == [Analysis] else ch.weighted([(1, 5), (2, 3), (3, 2)], "operations")):
            again = [op for op in ops + shared.get("others", []) if not isinstance(op, (Remote, Shuffle))]
            if again and ch.chance(50 if kinds == [Analysis] else 25, "the same again"):
                ops.append(ch.pick(again, "which"))
                continue
            kind = ch.pick(kinds, "operation")
            if kind is Remote and name in victims and stuck:
                ops.append(Remote(c, shared, stuck=True))
            else:
                ops.append(kind(c, shared))
        todo[name] = ops
        shared.setdefault("others", []).extend(op for op in ops if isinstance(op, Analysis))
    before = oracle.study_view(shared["study"][2]) if "study" in shared else None

    def program(name):
        def body():
            outs = []
            for op in todo[name]:
                t0 = sim.now()
                try:
                    out = ("ok", op())
                except Exception as e:
                    out = ("exc", e)
                outs.append(out + (sim.now() - t0,))
            return outs

        return body

    faults = ("kill", "oom", "abnormal", "notsolved", "spawnfail") + (("stall",) if stuck else ())
    c.plan(faults if victims else (), ch.between(1, 3, "fault budget") if victims else 0, ch.pick([50, 90, 20], "fault rate"), owners=victims)
    net_at = ch.below(8, "failing request")
    net_kind = ch.pick([None, "reset after", "refused", 500, "truncated", "html", "timeout", 403], "net fault")
    seen = {}

    def fault_for(req):
        k = seen.get(req["task"], 0)
        seen[req["task"]] = k + 1
        return net_kind if req["task"] in victims and k == net_at else None

    N.fault_for = fault_for
    inject = {}
    for name in sorted(victims):
        if ch.chance(40, "exception in the thread"):
            inject[name] = When.draw(ch, ch.pick([MemoryError("injected"), KeyboardInterrupt("injected")], "interruption"), (30, 300, 3000))
    c.preemptions(10, stalls=True)
    if victims:
        c.nontrivial = True
    outs = c.threads([(name, program(name)) for name in names], inject)
    for name, (status, v) in zip(names, outs):
        if status == "exc":
            if name not in victims:
                raise Violation("influenced", "thread %s died: %s" % (name, failed(v)))
            continue  # the injected interruption ended it
        for i, (op, (st, x, took)) in enumerate(zip(todo[name], v)):
            with oracle.judging("outcome of a %s in a thread" % op.name):
                try:
                    d = op.judge(st, x, name in victims)
                except Violation as e:
                    raise Violation("influenced", "%s of thread %s: %s" % (op.name, name, e.message))
            if d:
                raise Violation("influenced", "%s of thread %s (%s): %s" % (op.name, name, "with others" if name not in victims else "itself faulted", d))
            if name not in victims and took > (1500 if isinstance(op, Remote) else 400):
                raise Violation("delayed", "%s of thread %s took %.0f s while another was stuck" % (op.name, name, took))
    owners = {o for _, _, o in sim.hits}
    if owners - victims:
        raise HarnessError("faults struck %s, victims are %s" % (owners, victims))
    if before is not None:
        d = oracle.diff_view(before, oracle.study_view(shared["study"][2]))
        if d:
            raise Violation("study-changed", d)
    # afterwards everything still works alone
    sim.drain()
    seams.NET.fault_for = lambda req: None
    c.plan()
    for _ in range(ch.between(0, 2, "afterwards")):
        op = ch.pick([Local, Shuffle, Pipeline], "operation")(c, shared)
        c.plan()
        status, v = c.call(op, "a %s afterwards" % op.name)
        with oracle.judging("outcome of a %s" % op.name):
            d = op.judge(status, v, False)
        if d:
            raise Violation("influenced", "%s after the threads: %s" % (op.name, d))
