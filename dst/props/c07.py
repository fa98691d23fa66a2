"""C07: a remote solve computes the caller's study and returns the server's result."""
import json

import numpy as np

from .. import gen, net, oracle, remote, seams
from ..harness import Discard
from ..sim import Violation
from .common import build, feasible_spec, verify

RUNS = dict(quick=2400, thorough=120000)
RULE = (
    "A run draws one to three studies, with every numeric form and awkward floating point values, and solves them remotely, one after the other or in concurrent threads, on one or two "
    "simulated servers with drawn latencies, job lives and job numbers. Each server answers with fabricated results whose values occur nowhere else, or really solves what it received. "
    "What the server received must read as the caller's study, and the caller must get exactly the result of its own job. Non-trivial: several jobs, or a job polled several times."
)


def norm(view):
    """Order of networks, nodes and kinds does not matter; that of the elements of a node does
    (results and studies are matched by position)."""
    return sorted(view, key=lambda e: str(e[:3]))


def decorate(ch, sp):
    """Values a lossy path would change, and numpy scalars."""

    def one(v):
        if not isinstance(v, gen.Val):
            return v
        if ch.chance(25, "awkward") and v.form in ("matrix", "row", "col") and isinstance(v.given, np.ndarray) and v.given.dtype == float and v.given.flags.writeable:
            g = v.given.copy()
            g[tuple(ch.below(n, "where") for n in g.shape)] = abs(remote.awkward(ch)) + 1e-3
            full = np.array(np.broadcast_to(g, (sp.S, sp.H)))
            return gen.Val(full, g, v.form)
        if v.form == "scalar" and ch.chance(20, "awkward scalar"):
            x = abs(remote.awkward(ch)) + 1e-3
            return gen.Val(np.full((sp.S, sp.H), x), x, "scalar")
        return v

    for netw in sp.networks.values():
        for nd in netw.values():
            for group in (nd.cons, nd.prod, nd.stor, nd.links):
                for e in group.values():
                    for f in list(e):
                        if f == "init_capacity":
                            if ch.chance(30, "numpy init") and float(e[f]) == int(e[f]):
                                e[f] = ch.pick([np.float64, np.int64, np.float32], "init type")(e[f])
                        elif f != "eff":
                            e[f] = one(e[f])
    for cv in sp.converters.values():
        for f in ("cost", "max"):
            cv[f] = one(cv[f])
        cv["src"] = {k: one(v) for k, v in cv["src"].items()}


def separator(c):
    """A converter source on a network whose name contains the separator of keys on the wire."""
    ch = c.ch
    sp = gen.draw_spec(ch, max_scn=2, max_h=2, storages=False, converters=False)
    first = next(iter(sp.networks))
    k = next(iter(sp.networks[first]))
    sp.networks = {("gas::2" if n == first else n): v for n, v in sp.networks.items()}
    one = lambda: 1.0  # noqa
    val = lambda: gen.draw_val(ch, sp.S, sp.H, one)  # noqa
    sp.converters["k"] = dict(src={("gas::2", k): val()}, dest=ch.pick(sp.nodes(), "dest"), cost=val(), max=val())
    st = build(c, sp)
    srv = remote.server(c)
    sends = remote.fabricate(c, sp)
    want = norm(oracle.spec_view(sp, st.version))

    def compute(job):
        with oracle.judging("the study as the server reads it"):
            d = oracle.diff_view(want, norm(oracle.study_view(c.h.Study.from_json(json.loads(json.dumps(job.study))))))
        if d:
            raise Violation("network-name-separator", "network 'gas::2' with a converter: the server reads another study: %s" % d)
        return sends[0]

    srv.compute = compute
    v = c.must(lambda: remote.client(c, srv).solve(st), "a remote solve", "remote-failed")
    with oracle.judging("result of a remote solve"):
        d = oracle.diff_view(norm(sends[1]), norm(oracle.result_view(v)))
    if d:
        raise Violation("network-name-separator", "network 'gas::2' with a converter: the caller got another result: %s" % d)


def run(c):
    ch = c.ch
    remote.setup(c)
    if ch.chance(1, "separator in a network name"):
        return separator(c)
    c.plan()
    real = ch.chance(25, "server really solves")
    jobs = []
    n = ch.weighted([(1, 4), (2, 4), (3, 2)], "solves")
    servers = []
    for i in range(ch.between(1, 2, "servers")):
        lives = [net.draw_life(ch) for _ in range(n)]
        servers.append(remote.server(c, host="srv%d.sim%s" % (i, ch.pick([":5000", "", ":80"], "port")), lives=lives, prefix=ch.pick(["", "/hadar"], "prefix")))
    for i in range(n):
        if real:
            sp, opts = feasible_spec(c, max_scn=4, max_h=3)
        else:
            sp, opts = gen.draw_spec(ch, max_scn=4, max_h=4, huge=True), None
            decorate(ch, sp)
        st = build(c, sp)
        jobs.append(dict(i=i, task="client%d" % i, sp=sp, opts=opts, st=st, srv=ch.pick(servers, "server"), sends=None if real else remote.fabricate(c, sp), want=norm(oracle.spec_view(sp, st.version))))
    if n > 1 and ch.chance(20, "same study twice"):
        for k in ("sp", "opts", "st", "want"):
            jobs[1][k] = jobs[0][k]
        if not real:
            jobs[1]["sends"] = remote.fabricate(c, jobs[1]["sp"])
    taken = set()

    def compute(job):
        """What the server does with a submission: identify whose it is by what it describes."""
        with oracle.judging("the study as the server reads it"):
            got = c.h.Study.from_json(json.loads(json.dumps(job.study)))
            view = norm(oracle.study_view(got))
        mine = [j for j in jobs if j["i"] not in taken and j["srv"] is job.srv and j["want"] == view]
        if not mine:
            left = [j for j in jobs if j["i"] not in taken and j["srv"] is job.srv] or jobs
            raise Violation("study-differs", "the server received another study: %s" % oracle.diff_view(left[0]["want"], view))
        # equal studies: either may be meant, the order of submissions tells
        j = mine[0]
        if len(mine) > 1:
            same = [x for x in mine]
            j = next((x for x in same if x.get("task") == job.task), same[0])
        taken.add(j["i"])
        if real:
            res = c.must(lambda: c.lp().solve(got), "solving on the server", "solve-failed")
            with oracle.judging("serializing a result"):
                j["sent"] = oracle.result_view(res)
                return res.to_json()
        j["sent"] = j["sends"][1]
        return j["sends"][0]

    for s in servers:
        s.compute = compute

        def on_submit(job, req, s=s):
            job.srv = s
            job.task = req["task"]
            try:
                job.result = json.loads(json.dumps(compute(job)))
            except TypeError as e:
                raise Violation("malformed-output", "the result cannot be sent: %s" % e)

        s.on_submit = on_submit

    def solve(j):
        return remote.client(c, j["srv"]).solve(j["st"])

    if n > 1 and ch.chance(60, "concurrent"):
        c.preemptions(6)
        c.nontrivial = True
        outs = c.threads([("client%d" % j["i"], (lambda j=j: solve(j))) for j in jobs])
        outs = [("exc", v) if st == "exc" else ("ok", v) for st, v in outs]
    else:
        outs = [c.call(lambda j=j: solve(j), "a remote solve") for j in jobs]
    if any(len([r for r in seams.NET.requests if r["method"] == "GET"]) > 2 * n for _ in (0,)):
        c.nontrivial = True
    for j, (status, v) in zip(jobs, outs):
        if status == "exc":
            if isinstance(v, Violation):
                raise v
            raise Violation("remote-failed", "a remote solve without any fault raised %s: %s" % (type(v).__name__, str(v)[:300]))
        if "sent" not in j:
            raise Violation("no-submission", "a remote solve returned without the server having had the study")
        with oracle.judging("result of a remote solve"):
            got = oracle.result_view(v)
        d = oracle.diff_view(norm(j["sent"]), norm(got))
        if d:
            raise Violation("result-differs", "the caller got another result than the server computed: %s" % d)
        with oracle.judging("study after a remote solve"):
            d = oracle.diff_view(j["want"], norm(oracle.study_view(j["st"])))
            if d:
                raise Violation("study-differs", "the caller's study afterwards: %s" % d)
        if real:
            verify(j["sp"], v, j["opts"])
            if ch.chance(50, "compare with local"):
                loc = c.must(lambda: c.lp().solve(j["st"]), "the local solve", "solve-failed")
                verify(j["sp"], loc, j["opts"])
