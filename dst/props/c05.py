"""C05: solving never alters the study nor results handed out earlier."""
import numpy as np

from .. import gen, net, oracle, remote
from ..harness import Discard
from ..sim import Violation
from .common import build, feasible_spec, verify

RUNS = dict(quick=4800, thorough=80000)
RULE = (
    "A run draws one or two studies and a sequence of local and remote solves that return, fail (worker death, memory exhaustion, solver or network failure) or are "
    "interrupted at a drawn line or wait, of changes the caller makes to results it got, and of further elements added to a study; after each step every study and every other result must read exactly as before, "
    "and every local solve of a study gives the same dispatch. Non-trivial: a fault, an interruption or a scribbled result."
)


def scribble(ch, res):
    """What a caller may do to a result it owns."""
    how = ch.pick(["values", "structure"], "scribble")
    for netw in res.networks.values():
        for nd in netw.nodes.values():
            for e in nd.consumptions + nd.productions + nd.links:
                e.quantity[...] = -999
            for e in nd.storages:
                e.capacity[...] = -999
                e.flow_in[...] = -999
                e.flow_out[...] = -999
    for cv in res.converters.values():
        cv.flow_dest[...] = -999
        for a in cv.flow_src.values():
            a[...] = -999
    res.benchmark.modeler.append(-1)
    res.benchmark.solver.append(-1)
    if how == "structure":
        for netw in res.networks.values():
            for nd in netw.nodes.values():
                del nd.consumptions[:], nd.productions[:], nd.storages[:], nd.links[:]
            netw.nodes.clear()
        res.networks.clear()
        res.converters.clear()


def run(c):
    ch = c.ch
    N = remote.setup(c)
    specs = [feasible_spec(c, max_scn=4, max_h=3)[0] for _ in range(ch.between(1, 2, "studies"))]
    studies = [build(c, sp) for sp in specs]
    before = [oracle.study_view(st) for st in studies]
    first = [None] * len(specs)
    results = []  # (object, view)

    def unchanged(what):
        with oracle.judging("study after %s" % what):
            for st, b in zip(studies, before):
                d = oracle.diff_view(b, oracle.study_view(st))
                if d:
                    raise Violation("study-changed", "%s: %s" % (what, d))
        with oracle.judging("earlier result after %s" % what):
            for r, v in results:
                d = oracle.diff_view(v, oracle.result_view(r))
                if d:
                    raise Violation("result-changed", "%s: %s" % (what, d))

    def extend(i, name):
        """A study that was solved, or not, can be built further."""
        sp, st = specs[i], studies[i]
        n, k = ch.pick(sp.nodes(), "node")
        e = dict(cost=gen.draw_val(ch, sp.S, sp.H, lambda: 3.0), quantity=gen.draw_val(ch, sp.S, sp.H, lambda: float(ch.between(0, 9, "q"))))
        c.must(lambda: st.network(n).node(k).production(name=name, cost=gen.fresh(e["cost"]), quantity=gen.fresh(e["quantity"])), "extending a study that was solved", "study-changed")
        sp.networks[n][k].prod[name] = e
        first[i] = None
        before[i] = oracle.spec_view(sp, st.version)
        unchanged("extending a study")

    for step in range(ch.between(2, 5, "steps")):
        i = ch.below(len(specs), "which study")
        sp, st = specs[i], studies[i]
        op = ch.pick(["solve", "interrupted", "faulty", "remote", "remote bad", "scribble", "remote interrupted", "extend"], "step")
        if op == "scribble":
            if results:
                r, _ = results.pop(ch.below(len(results), "which result"))
                with oracle.judging("result"):
                    scribble(ch, r)
                c.nontrivial = True
                unchanged("changing a result")
            continue
        if op == "extend":
            extend(i, "added %d" % step)
            continue
        if op.startswith("remote"):
            sends = remote.fabricate(c, sp)
            srv = remote.server(c, host="h%d.sim" % step, compute=lambda job: sends[0], lives=[net.draw_life(ch, "ERROR" if op == "remote bad" and ch.chance(30, "job fails") else "TERMINATED", "boom")])
            bad = ch.below(5, "bad request") if op == "remote bad" else None
            kinds = ["reset after", "refused", "truncated", 500, "html", "missing", "timeout", 403]
            kind = ch.pick(kinds, "net fault")
            N.fault_for = lambda req, b=bad, n0=len(N.requests): kind if b is not None and req["n"] - n0 == b else None
            cl = remote.client(c, srv)
            if op == "remote interrupted":
                status, v = c.interrupted(lambda: cl.solve(st), "a remote solve")
            else:
                status, v = c.call(lambda: cl.solve(st), "a remote solve")
            if op != "remote":
                c.nontrivial = True
        else:
            if op == "faulty":
                c.plan(("kill", "oom", "abnormal", "notsolved", "spawnfail"), 2, 40)
            else:
                c.plan()
            opt = c.lp()
            if op == "interrupted":
                status, v = c.interrupted(lambda: opt.solve(st), "a solve")
                c.nontrivial = True
            else:
                status, v = c.call(lambda: opt.solve(st), "a solve")
            if op == "solve" and status == "exc":
                raise Violation("solve-failed", "%s: %s" % (type(v).__name__, v))
            if status == "ok":
                d = oracle.Dispatch(sp, v)
                if first[i] is None:
                    first[i] = d
                    # keep copies: the result itself may be scribbled on
                    for name in ("cons", "prod", "link"):
                        setattr(d, name, {k: a.copy() for k, a in getattr(d, name).items()})
                    d.stor = {k: tuple(a.copy() for a in v_) for k, v_ in d.stor.items()}
                    d.conv = {k: ({s: a.copy() for s, a in x.items()}, y.copy()) for k, (x, y) in d.conv.items()}
                else:
                    diff = first[i].same(d)
                    if diff:
                        raise Violation("solve-differs", "solving the same study again: %s" % diff)
        c.sim.drain()
        unchanged("%s of study %d (%s)" % (op, i, status))
        if status == "ok":
            with oracle.judging("result"):
                results.append((v, oracle.result_view(v)))
    if ch.chance(50, "extend at the end"):
        i = ch.below(len(specs), "which study")
        extend(i, "added at the end")
        c.plan()
        sp = specs[i]
        v = c.must(lambda: c.lp().solve(studies[i]), "solving an extended study", "solve-failed")
        unchanged("solving an extended study")
        verify(sp, v)
