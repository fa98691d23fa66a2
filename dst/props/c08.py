"""C08: a remote solve submits once, polls its own job politely and stops when it ends."""
from .. import gen, net, oracle, remote, seams
from ..sim import Violation
from .common import build

RUNS = dict(quick=2400, thorough=150000)
RULE = (
    "A run draws one to three remote solves (sequential, or concurrent threads with preemptions), on one or two servers with different tokens, and for each job a life: queued and computing "
    "phases of up to minutes and a final state, with drawn latencies. Every request is checked as it leaves: one submission per solve, then only the own job on the own server with the own token, "
    "polls at least 0.1 s apart, at most 10 s after an answer, none after the final one, and the solve ends within 5 s after it. Non-trivial: a job polled at least twice."
)
MIN_GAP, MAX_GAP, END = 0.1, 10.0, 5.0


def run(c):
    ch, sim = c.ch, c.sim
    N = remote.setup(c)
    c.loglevel()
    broken = []
    n = ch.weighted([(1, 5), (2, 3), (3, 2)], "solves")
    servers = []
    tokens = ch.shuffled(remote.TOKENS, "tokens")
    for i in range(ch.between(1, 2, "servers")):
        lives = [net.draw_life(ch, "ERROR" if ch.chance(20, "job fails") else "TERMINATED", "boom") for _ in range(n)]
        servers.append(
            remote.server(c, host="srv%d.sim%s" % (i, ch.pick([":5000", "", ":8080"], "port")), token=tokens[i], lives=lives, prefix=ch.pick(["", "/sub/path"], "prefix"))
        )
    solves = {}

    class Solve:
        def __init__(self, i, task):
            sp = gen.draw_spec(ch, max_scn=2, max_h=2, storages=False, converters=False)
            self.i, self.task, self.srv = i, task, ch.pick(servers, "server")
            self.st = build(c, sp)
            self.sends = remote.fabricate(c, sp)
            self.reqs = []
            self.job = None
            self.client = remote.client(c, self.srv)

        def __call__(self):
            return self.client.solve(self.st)

    concurrent = n > 1 and ch.chance(60, "concurrent")
    todo = [Solve(i, "client%d" % i if concurrent else "main") for i in range(n)]
    current = {}

    def fail(kind, message):
        v = Violation(kind, message)
        broken.append(v)
        raise v

    def monitor(req):
        s = current.get(req["task"])
        what = "%s %s" % (req["method"], req["path"])
        if s is None:
            fail("stray-request", "%s by %s although no solve runs there" % (what, req["task"]))
        s.reqs.append(req)
        k = len(s.reqs)
        srv = s.srv
        if req["host"] != srv.host or req["scheme"] != "http":
            fail("wrong-server", "%s to %s, the caller's server is %s" % (what, req["host"], srv.host))
        if req["query"].get("token") != srv.token:
            fail("wrong-token", "%s with token %r, the caller gave %r" % (what, req["query"].get("token"), srv.token))
        if k == 1:
            if req["method"] != "POST" or req["path"] != srv.prefix + "/api/v1/study":
                fail("no-submission", "the first request is %s" % what)
            return None
        if req["method"] == "POST":
            fail("resubmission", "a second submission: %s" % what)
        prev = s.reqs[-2]
        if prev.get("final"):
            fail("after-final", "%s after the final answer" % what)
        if s.job is None:
            s.job = next((j for j in srv.submissions if getattr(j, "n", None) == s.reqs[0]["n"]), None)
        if s.job is None:
            fail("not-submitted", "%s but the study was not accepted" % what)
        if req["path"] != "%s/api/v1/result/%s" % (srv.prefix, s.job.id):
            fail("wrong-job", "%s, but the job number given is %r" % (what, s.job.id))
        if prev["method"] == "GET" and req["t"] - prev["t"] < MIN_GAP - 1e-6:
            fail("busy-polling", "two polls %.4f s apart" % (req["t"] - prev["t"]))
        if req["t"] - prev.get("t_done", req["t"]) > MAX_GAP:
            fail("slow-polling", "a poll %.1f s after the previous answer" % (req["t"] - prev["t_done"]))
        if k == 4:
            c.nontrivial = True
        return None

    N.fault_for = monitor
    for srv in servers:

        def on_submit(job, req):
            job.n = req["n"]
            job.owner = current[req["task"]]

        srv.on_submit = on_submit
        srv.compute = lambda job: job.owner.sends[0]

    def go(s):
        current[s.task] = s
        try:
            return s()
        finally:
            current.pop(s.task, None)
            s.ended = sim.now()

    if concurrent:
        c.preemptions(5)
        outs = c.threads([(s.task, (lambda s=s: go(s))) for s in todo])
    else:
        outs = [c.call(lambda s=s: go(s), "a remote solve") for s in todo]
    sim.drain()
    if broken:
        raise broken[0]
    for s, (status, v) in zip(todo, outs):
        if isinstance(v, Violation):
            raise v
        posts = [r for r in s.reqs if r["method"] == "POST"]
        if len(posts) != 1:
            raise Violation("no-submission", "the study was submitted %d times" % len(posts))
        last = s.reqs[-1]
        if not last.get("final"):
            raise Violation("left-early", "the solve ended (%s) after %d requests although its job was still %s" % (status if status == "ok" else repr(v)[:200], len(s.reqs), last.get("status", "new")))
        if s.ended - last.get("t_done", s.ended) > END:
            raise Violation("late", "the solve ended %.1f s after the final answer" % (s.ended - last["t_done"]))
        want = "exc" if last["status"] == "ERROR" else "ok"
        if status != want:
            raise Violation("wrong-outcome", "the job ended %s but the solve %s" % (last["status"], "returned" if status == "ok" else "raised %r" % (v,)))
    if any(srv.unknown for srv in servers):
        raise Violation("stray-request", "requests the server does not know: %s" % [srv.unknown for srv in servers])
