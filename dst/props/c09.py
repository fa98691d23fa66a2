"""C09: remote failures surface as errors, never as results or resubmissions."""
from .. import gen, net, oracle, remote, seams
from ..sim import Violation
from .common import build

RUNS = dict(quick=3000, thorough=200000)
RULE = (
    "A run draws a sequence of remote solves (some in concurrent threads) and, for each, a fault at a drawn request of the exchange: connection refused, reset before or after the server "
    "processed the request, read timeout, truncated reply, HTTP 403/404/500/502/503, non-JSON, empty or incomplete reply, unknown status, or a job ending in error. The faulted solve must "
    "raise (the right kind of error), must not submit again, and the others must return their own result. Non-trivial: a fault struck."
)
KINDS = ["reset after", "refused", "truncated", 500, "html", "missing", "timeout", 403, "reset before", 404, "empty", "weird status", 502, 503, 500.5, "outage", "wrong token", "wrong url", "null", "list", "no result", "null result", "empty result", "partial result"]
MESSAGES = ["boom", "", "échec: 100% of %s {x}", "x" * 3000, "line\nline", "None"]


def run(c):
    ch, sim = c.ch, c.sim
    N = remote.setup(c)
    c.loglevel()
    n = ch.between(1, 4, "solves")
    concurrent = n > 1 and ch.chance(40, "concurrent")
    srv = remote.server(c, lives=[net.Life([], "TERMINATED")])
    current = {}

    class Solve:
        def __init__(self, i):
            self.task = "client%d" % i if concurrent else "main"
            sp = gen.draw_spec(ch, max_scn=2, max_h=2, storages=ch.chance(20, "storages"), converters=ch.chance(20, "converters"))
            self.st = build(c, sp)
            self.sends = remote.fabricate(c, sp)
            self.reqs = []
            self.kind = ch.pick(["job error", "net", "none", "net"], "failure")
            self.at = ch.pick([0, 1, 2, 3, 5, 9], "failing request")
            self.fault = ch.pick(KINDS, "fault") if self.kind == "net" else None
            self.message = ch.pick(MESSAGES, "message") if self.kind == "job error" else ""
            self.life = net.draw_life(ch, "ERROR" if self.kind == "job error" else "TERMINATED", self.message)
            self.struck = None
            self.url, self.token = srv.url, srv.token
            if self.fault == "wrong token":
                self.token = ch.pick([t for t in remote.TOKENS if t != srv.token], "wrong token")
            if self.fault == "wrong url":
                self.url = ch.pick(["http://nowhere.sim", srv.url + "/no/such/path"], "wrong url")

        def __call__(self):
            current[self.task] = self
            try:
                return c.h.RemoteOptimizer(url=self.url, token=self.token).solve(self.st)
            finally:
                current.pop(self.task, None)
                self.ended = sim.now()

    todo = [Solve(i) for i in range(n)]

    def fault_for(req):
        s = current.get(req["task"])
        if s is None:
            return None
        k = len(s.reqs)
        s.reqs.append(req)
        if s.fault in ("wrong token", "wrong url"):
            s.struck = s.struck or sim.now()
            return None
        if s.fault == "outage":  # from now on nothing gets through
            if k >= s.at:
                s.struck = s.struck or sim.now()
                return "refused"
            return None
        if s.fault is not None and k == s.at:
            if s.fault == 500.5 and req["method"] != "POST":
                s.fault = 500
            s.struck = sim.now()
            return s.fault
        return None

    N.fault_for = fault_for
    real = srv.handle

    def handle(req, fault):
        s = current.get(req["task"])
        if s is not None and req["method"] == "POST":
            srv.lives = [s.life]
        return real(req, fault)

    def on_submit(job, req):
        job.owner = current.get(req["task"])

    srv.handle, srv.on_submit = handle, on_submit
    srv.compute = lambda job: job.owner.sends[0]
    if concurrent:
        c.preemptions(4)
        outs = c.threads([(s.task, s) for s in todo])
    else:
        outs = [c.call(s, "a remote solve") for s in todo]
    sim.drain()
    for s, (status, v) in zip(todo, outs):
        if isinstance(v, Violation):
            raise v
        judge(c, s, status, v)
    # afterwards everything is fine again
    s = Solve(0)
    s.fault, s.kind, s.task = None, "none", "main"
    s.url, s.token = srv.url, srv.token
    s.life = net.draw_life(ch)
    status, v = c.call(s, "a later remote solve")
    judge(c, s, status, v)


def judge(c, s, status, v):
    sim = c.sim
    posts = sum(r["method"] == "POST" for r in s.reqs)
    if posts > 1:
        raise Violation("resubmission", "after %r the study was submitted %d times" % (s.fault or s.kind, posts))
    job_failed = s.kind == "job error"
    if s.struck is None and not job_failed:
        if status != "ok":
            raise Violation("remote-failed", "no failure, but the solve raised %s: %s" % (type(v).__name__, str(v)[:300]))
        with oracle.judging("result of a remote solve"):
            d = oracle.diff_view(s.sends[1], oracle.result_view(v))
        if d:
            raise Violation("result-differs", "another result than the server's: %s" % d)
        return
    c.nontrivial = True
    if s.struck is None:
        sim.fault("job ends in error")
    name = s.fault if s.struck is not None else "a failed job"
    if s.fault == "wrong url" and "nowhere" in s.url:
        name = "refused"
    if status == "ok":
        raise Violation("result-after-failure", "%r, but the solve returned %s" % (name, type(v).__name__))
    if not isinstance(v, Exception):
        raise Violation("not-an-error", "%r raised %r" % (name, v))
    if name in (403, 404, "wrong token", "wrong url") and not isinstance(v, ValueError):
        raise Violation("wrong-error", "%r raised %s: %s instead of a value error" % (name, type(v).__name__, v))
    if name in (500, 500.5) and not isinstance(v, OSError):
        raise Violation("wrong-error", "an internal server failure raised %s: %s instead of an I/O error" % (type(v).__name__, v))
    if name == "a failed job" and s.message not in str(v):
        raise Violation("message-lost", "the job failed with %r, the error says %r" % (s.message[:100], str(v)[:200]))
    t0 = s.struck if s.struck is not None else max(r.get("t_done", r["t"]) for r in s.reqs if r.get("final"))
    if s.ended - t0 > 200:
        raise Violation("late", "the solve ended %.0f s after %r" % (s.ended - t0, name))
