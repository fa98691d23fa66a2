"""C16: analysis answers are correct, repeatable and read-only."""
import copy

import numpy as np
import pandas as pd

from .. import gen, oracle, remote, seams
from ..sim import Violation
from .common import build

RUNS = dict(quick=1600, thorough=90000)
RULE = (
    "A run draws a study, one to three results whose values are all distinct (for the same study, an equal one or another one, made, kept and dropped on the way), analyzers of each, and a program of queries: tables of the six kinds with every level in any order and filtered by nothing, "
    "one value, lists or slices, from fresh, kept, forked and shared selectors; costs, balances, remaining capacities and counts; plots; with queries that fail, queries interrupted at a drawn "
    "line, answers scribbled on by the caller, and concurrent threads preempted at drawn lines. Every answer is compared with a direct computation, and after every step the study, the result and "
    "all earlier answers must read as before. Non-trivial: a failed or interrupted query, a shared selector, a scribbled answer or a preempted thread."
)

KINDS = ["consumption", "production", "storage", "link", "to_converter", "from_converter"]
LEVEL = dict(consumption="name", production="name", storage="name", link="dest", to_converter="name", from_converter="name")


class Model:
    """Everything a user can ask, computed from the specification and the arrays of the result."""

    def __init__(self, sp, res):
        self.sp = sp
        d = self.d = oracle.Dispatch(sp, res)
        rows = self.rows = {k: [] for k in KINDS}  # (network, node, element, {column: matrix})
        for n, net in sp.networks.items():
            for k, nd in net.items():
                for e, x in nd.cons.items():
                    rows["consumption"].append((n, k, e, dict(asked=x["quantity"].full, given=d.cons[n, k, e], cost=x["cost"].full)))
                for e, x in nd.prod.items():
                    rows["production"].append((n, k, e, dict(avail=x["quantity"].full, used=d.prod[n, k, e], cost=x["cost"].full)))
                for e, x in nd.stor.items():
                    cap, fin, fout = d.stor[n, k, e]
                    rows["storage"].append((n, k, e, dict(
                        max_capacity=x["capacity"].full, capacity=cap, max_flow_in=x["flow_in"].full, flow_in=fin, max_flow_out=x["flow_out"].full, flow_out=fout,
                        cost=x["cost"].full, init_capacity=np.full((sp.S, sp.H), float(x["init_capacity"])), eff=x["eff"].full)))
                for e, x in nd.links.items():
                    rows["link"].append((n, k, e, dict(avail=x["quantity"].full, used=d.link[n, k, e], cost=x["cost"].full)))
        for e, x in sp.converters.items():
            src, dst = d.conv[e]
            rows["from_converter"].append(x["dest"] + (e, dict(flow=dst, cost=x["cost"].full, max=x["max"].full)))
            for nk, r in x["src"].items():
                rows["to_converter"].append(nk + (e, dict(flow=src[nk], ratio=r.full, max=x["max"].full / r.full)))
        self.rows = {k: [(n, a, e, {c: np.array(m) for c, m in cols.items()}) for n, a, e, cols in v] for k, v in rows.items()}
        self.size = 0.0
        for v in self.rows.values():
            for _, _, _, cols in v:
                w = float(np.abs(cols.get("cost", np.ones(1))).max())
                self.size += max(1.0, w) * max(float(np.abs(m).max()) for c, m in cols.items() if c != "cost")

    def table(self, kind, levels):
        """{(value of each level): {column: number}} for levels = [(level name, filter)]"""
        out = {}
        for n, k, e, cols in self.rows[kind]:
            for s in range(self.sp.S):
                for t in range(self.sp.H):
                    at = {"network": n, "node": k, LEVEL[kind]: e, "t": t, "scn": s}
                    if all(selects(f, at[lv]) for lv, f in levels):
                        out[tuple(at[lv] for lv, _ in levels)] = {c: float(m[s, t]) for c, m in cols.items()}
        return out

    def part(self, kind, node, network):
        return [c for n, k, e, c in self.rows[kind] if (network is None or n == network) and (node is None or k == node)]

    def cost(self, node, network):
        out = np.zeros((self.sp.S, self.sp.H))
        for c in self.part("consumption", node, network):
            out += (c["asked"] - c["given"]) * c["cost"]
        for kind, col in (("production", "used"), ("storage", "capacity"), ("link", "used"), ("from_converter", "flow")):
            for c in self.part(kind, node, network):
                out += c[col] * c["cost"]
        return out

    def balance(self, node, network):
        out = np.zeros((self.sp.S, self.sp.H))
        for n, k, e, c in self.rows["link"]:
            if n == network and k == node:
                out += c["used"]
            if n == network and e == node:
                out -= c["used"]
        return out

    def rac(self, network):
        out = np.zeros((self.sp.S, self.sp.H))
        for c in self.part("production", None, network):
            out += c["avail"] - c["used"]
        for c in self.part("consumption", None, network):
            out -= c["asked"] - c["given"]
        return out

    def counts(self, node, network):
        return [len(self.part(k, node, network)) for k in KINDS]


def selects(f, v):
    how, x = f
    if how == "all":
        return True
    if how == "one":
        return v == x
    if how == "many":
        return v in x
    lo, hi, step = x.start or 0, x.stop, x.step or 1
    return v >= lo and (hi is None or v < hi) and (v - lo) % step == 0


def argument(f):
    return None if f[0] == "all" else f[1]


def alone(f):
    """Exactly one value is selected (True), several may be (False), or a slice of one value (None: not said)"""
    if f[0] == "one":
        return True
    if f[0] == "many":
        return len(f[1]) == 1
    if f[0] == "slice":
        return None
    return False


def draw_filter(ch, values, numeric):
    how = ch.weighted([("all", 5), ("one", 5), ("many", 3), ("slice", 3 if numeric else 0), ("unknown", 1)], "filter")
    if not values and how in ("one", "many"):
        how = "unknown"
    if how == "all":
        return ("all", None)
    if how == "one":
        return ("one", ch.pick(values, "value"))
    if how == "many":
        sub = ch.shuffled(values, "values")[: ch.between(1, len(values), "how many")]
        if ch.chance(15, "one unknown"):
            sub.append(99 if numeric else "nobody")
        return ("many", tuple(sub) if ch.chance(40, "tuple") else sub)
    if how == "slice":
        n = len(values)
        lo = ch.pick([None] + list(range(n)), "start")
        step = ch.pick([None, 1, 2], "step")
        hi = ch.pick([None] + list(range((lo or 0) + 1, n + 2)), "stop")
        return ("slice", slice(lo, hi, step))
    return ("one", 99 if numeric else "nobody")


def draw_query(ch, sp):
    kind = ch.pick(KINDS, "kind")
    nets = list(sp.networks)
    nodes = sorted({k for _, k in sp.nodes()})
    vals = dict(t=list(range(sp.H)), scn=list(range(sp.S)), node=nodes)
    if kind == "link":
        vals["dest"] = nodes
    elif kind.endswith("converter"):
        vals["name"] = list(sp.converters)
    else:
        vals["name"] = sorted({e for net in sp.networks.values() for nd in net.values() for e in list(nd.cons) + list(nd.prod) + list(nd.stor)})
    order = ch.shuffled(["node", LEVEL[kind], "t", "scn"], "level order")
    if ch.chance(15, "default network"):
        net = ("default", "default")
    else:
        net = draw_filter(ch, nets, False)
    return kind, [("network", net)] + [(lv, draw_filter(ch, vals[lv], lv in ("t", "scn"))) for lv in order]


def start(an, levels):
    f = levels[0][1]
    if f[0] == "default":
        return an.network()
    return an.network(argument(f))


def follow(sel, kind, lv, f, brief):
    call = getattr(sel, {"node": "node", "t": "time", "scn": "scn"}.get(lv, kind))
    if f[0] == "all" and brief:
        return call()
    return call(argument(f))


def known(levels):
    return [(lv, ("one", "default") if f[0] == "default" else f) for lv, f in levels]


def say(kind, levels):
    return ".".join("%s(%s)" % (kind if lv in ("name", "dest") else lv, "" if f[0] == "all" else repr(f[1])) for lv, f in levels)


def judge_table(m, kind, levels, df, what):
    levels = known(levels)
    want = m.table(kind, levels)
    with oracle.judging("%s (%s)" % (say(kind, levels), what)):
        if not isinstance(df, pd.DataFrame):
            raise Violation("wrong-answer", "%s, %s: a %s instead of a table" % (say(kind, levels), what, type(df).__name__))
        if not want:
            if len(df):
                raise Violation("wrong-answer", "%s, %s: %d rows where nothing is selected" % (say(kind, levels), what, len(df)))
            return
        names = list(df.index.names)
        full = [lv for lv, _ in levels]
        cut = len(full) - len(names)
        if cut < 0 or cut > 4 or names != full[cut:]:
            raise Violation("wrong-levels", "%s, %s: levels %s" % (say(kind, levels), what, names))
        for i, (lv, f) in enumerate(levels[:-1]):
            if i < cut and alone(f) is False:
                raise Violation("wrong-levels", "%s, %s: level %s missing" % (say(kind, levels), what, lv))
            if i >= cut:
                if alone(f) is True:
                    raise Violation("wrong-levels", "%s, %s: level %s, of a single value, not removed" % (say(kind, levels), what, lv))
                break
        dropped = {tuple(k[:cut]) for k in want}
        if len(dropped) != 1:
            raise Violation("wrong-levels", "%s, %s: levels %s distinguish rows" % (say(kind, levels), what, full[:cut]))
        cols = sorted(next(iter(want.values())))
        if sorted(df.columns) != cols:
            raise Violation("wrong-answer", "%s, %s: columns %s instead of %s" % (say(kind, levels), what, sorted(df.columns), cols))
        got = {}
        keys = [k if isinstance(k, tuple) else (k,) for k in df.index]
        for k, row in zip(keys, df[cols].to_numpy(dtype=float)):
            if k in got:
                raise Violation("wrong-answer", "%s, %s: row %s twice" % (say(kind, levels), what, k))
            got[k] = row
        exp = {k[cut:]: v for k, v in want.items()}
        if set(got) != set(exp):
            missing, extra = set(exp) - set(got), set(got) - set(exp)
            raise Violation("wrong-answer", "%s, %s: rows missing %s, unexpected %s" % (say(kind, levels), what, sorted(missing)[:3], sorted(extra)[:3]))
        if keys != sorted(keys):
            raise Violation("wrong-order", "%s, %s: rows not in order of their levels" % (say(kind, levels), what))
        for k, row in got.items():
            for cname, x in zip(cols, row):
                if not np.isclose(x, exp[k][cname], rtol=1e-12, atol=1e-12):
                    raise Violation("wrong-answer", "%s, %s: %s of %s is %r instead of %r" % (say(kind, levels), what, cname, k, float(x), exp[k][cname]))


def judge_array(want, got, what, size=0.0):
    with oracle.judging(what):
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation("wrong-answer", "%s: shape %s instead of %s" % (what, g.shape, w.shape))
        tol = 1e-4 + 1e-12 * size  # sums of terms of this size, rounded
        if not np.all(np.abs(g - w) <= tol):
            i = tuple(map(int, np.argwhere(~(np.abs(g - w) <= tol))[0]))
            raise Violation("wrong-answer", "%s: %r at %s instead of %r" % (what, float(g[i]), i, float(w[i])))


def draw_ask(ch, sp):
    """(what, function of an analyzer, expectation)"""
    kind = ch.pick(["cost", "balance", "rac", "counts", "cost", "nodes"], "question")
    n, k = ch.pick(sp.nodes(), "node")
    deflt = n == "default" and ch.chance(50, "default network")
    if kind in ("cost", "counts"):
        part = ch.pick(["node", "network", "study"], "part")
        meth = "get_cost" if kind == "cost" else "get_elements_inside"
        if part == "study":
            return kind + " of the study", lambda a: getattr(a, meth)(), lambda m: getattr(m, kind)(None, None)
        if part == "network":
            return "%s of network %s" % (kind, n), lambda a: getattr(a, meth)(network=n), lambda m: getattr(m, kind)(None, n)
        if deflt:
            return "%s of node %s" % (kind, k), lambda a: getattr(a, meth)(k), lambda m: getattr(m, kind)(k, "default")
        return "%s of %s/%s" % (kind, n, k), lambda a: getattr(a, meth)(node=k, network=n), lambda m: getattr(m, kind)(k, n)
    if kind == "balance":
        if deflt:
            return "balance of node %s" % k, lambda a: a.get_balance(k), lambda m: m.balance(k, "default")
        return "balance of %s/%s" % (n, k), lambda a: a.get_balance(node=k, network=n), lambda m: m.balance(k, n)
    if kind == "rac":
        if deflt:
            return "remaining capacity", lambda a: a.get_rac(), lambda m: m.rac("default")
        return "remaining capacity of %s" % n, lambda a: a.get_rac(network=n), lambda m: m.rac(n)
    return "nodes of %s" % n, lambda a: a.nodes(n), lambda m: sorted(m.sp.networks[n])


def judge_ask(m, ask, got, how):
    what, _, want = ask
    if what.startswith("nodes"):
        with oracle.judging(what):
            if sorted(got) != want(m):
                raise Violation("wrong-answer", "%s, %s: %s" % (what, how, got))
        return
    judge_array(want(m), got, "%s, %s" % (what, how), m.size)


def answer_view(a):
    if isinstance(a, pd.DataFrame):
        return oracle.frame_view(a)
    if isinstance(a, np.ndarray):
        return ("array", a.shape, tuple(a.ravel().tolist()))
    return tuple(a)


def plots(c, an, sp, ch):
    """What a user may plot; errors of plotting are not the business of this property."""
    n, k = ch.pick(sp.nodes(), "plotted node")
    s, t = ch.below(sp.S, "scenario"), ch.below(sp.H, "time")
    nd = sp.networks[n][k]
    coord = {x: [1.0 + i, 2.0 * i] for i, x in enumerate(sp.networks[n])}
    p = c.h.HTMLPlotting(agg=an, unit_symbol="MW", node_coord=coord)
    w = p.network(n)
    todo = [lambda: w.rac_matrix(), lambda: w.node(k).stack(scn=s), lambda: w.map(t=t, scn=s, zoom=1)]
    for kind, d in (("consumption", nd.cons), ("production", nd.prod), ("storage", nd.stor), ("link", nd.links)):
        for e in d:
            x = getattr(w.node(k), kind)(e)
            todo += [lambda x=x: x.monotone(t=t), lambda x=x: x.monotone(scn=s)]
            if kind == "storage":
                todo.append(lambda x=x: x.candles(scn=s))
            else:
                todo += [lambda x=x: x.timeline(), lambda x=x: x.gaussian(t=t)]
    return ch.pick(todo, "plot")


def reorder(ch, res):
    """The same result with networks and nodes listed in another order, as a server may send it."""
    from hadar.optimizer.domain import output as o

    nets = {}
    for n in ch.shuffled(list(res.networks), "network order"):
        nodes = res.networks[n].nodes
        nets[n] = o.OutputNetwork(nodes={k: nodes[k] for k in ch.shuffled(list(nodes), "node order")})
    convs = {}
    for k in ch.shuffled(list(res.converters), "converter order"):
        v = res.converters[k]
        convs[k] = o.OutputConverter(name=v.name, flow_src={s: v.flow_src[s] for s in ch.shuffled(list(v.flow_src), "source order")}, flow_dest=v.flow_dest)
    return o.Result(networks=nets, converters=convs, benchmark=res.benchmark)


class Situation:
    pass


def extend(ch, c, st, sp):
    """Add one element to the study, as a user does later: the new specification"""
    sp = copy.deepcopy(sp)
    n = ch.pick(list(sp.networks), "network")
    k = ch.pick(list(sp.networks[n]) + ["new"], "node")
    nd = sp.networks[n].setdefault(k, gen.Node())
    e = dict(cost=gen.draw_val(ch, sp.S, sp.H, lambda: float(ch.below(9, "cost"))), quantity=gen.draw_val(ch, sp.S, sp.H, lambda: float(ch.below(9, "q"))))
    kind = ch.pick(["consumption", "production"], "kind")
    name = "added%d" % (len(nd.cons) + len(nd.prod))
    (nd.cons if kind == "consumption" else nd.prod)[name] = e
    c.must(lambda: getattr(st.network(n).node(k), kind)(name=name, cost=gen.fresh(e["cost"]), quantity=gen.fresh(e["quantity"])), "extending a study", "query-failed")
    return sp


def run(c):
    ch, sim = c.ch, c.sim
    seams.HAS_SOLVER = False
    situations = []  # studies and results under analysis
    kept = []  # (situation, selector, kind or None, levels so far)
    answers = []  # (object, view, what)

    def situation(st=None, sp=None):
        x = Situation()
        if sp is not None:
            x.sp, x.st = sp, st
        else:
            first = situations[0] if situations else None
            how = "another study" if first is None else ch.weighted([("same study", 5), ("another study", 3), ("an equal study", 2)], "of which study")
            x.sp = gen.draw_spec(ch, max_scn=4, max_h=4, huge=True) if how == "another study" else first.sp
            x.st = first.st if how == "same study" else build(c, x.sp)
        sp = x.sp
        _, _, x.res = remote.fabricate(c, sp, plain=True)
        if ch.chance(15, "other order"):
            x.res = reorder(ch, x.res)
        x.m = Model(sp, x.res)
        x.study0, x.res0 = oracle.study_view(x.st), oracle.result_view(x.res)
        x.analyzers = []
        for i in range(ch.weighted([(1, 3), (2, 1)], "analyzers")):
            if ch.chance(15, "interrupted analyzer"):
                c.nontrivial = True
                c.interrupted(lambda: c.h.ResultAnalyzer(study=x.st, result=x.res), "creating an analyzer")
            x.analyzers.append(c.must(lambda: c.h.ResultAnalyzer(study=x.st, result=x.res), "creating an analyzer", "query-failed"))
        return x

    situations.append(situation())
    if ch.chance(30, "a second result"):
        situations.append(situation())

    def intact(what):
        with oracle.judging("after %s" % what):
            for x in situations:
                d = oracle.diff_view(x.study0, oracle.study_view(x.st))
                if d:
                    raise Violation("study-changed", "%s: %s" % (what, d))
                d = oracle.diff_view(x.res0, oracle.result_view(x.res))
                if d:
                    raise Violation("result-changed", "%s: %s" % (what, d))
            for a, v, w in answers:
                if answer_view(a) != v:
                    raise Violation("answer-changed", "%s changed the answer of %s" % (what, w))

    def keep(a, what):
        answers.append((a, answer_view(a), what))
        if len(answers) > 6:
            answers.pop(0)

    for step in range(ch.between(3, 8, "steps")):
        x = ch.pick(situations, "situation")
        m, sp = x.m, x.sp
        an = ch.pick(x.analyzers, "analyzer")
        op = ch.pick(["query", "ask", "fork", "interrupted", "bad", "scribble", "threads", "plot", "another"], "step")
        what = "step %d (%s)" % (step, op)
        sim.note("step", op)
        if op == "query":
            kind, levels = draw_query(ch, sp)
            brief = ch.chance(50, "no argument")

            def go():
                sel = start(an, levels)
                for lv, f in levels[1:]:
                    sel = follow(sel, kind, lv, f, brief)
                return sel

            df = c.must(go, say(kind, levels), "query-failed")
            judge_table(m, kind, levels, df, what)
            keep(df, say(kind, levels))
        elif op == "ask":
            a = draw_ask(ch, sp)
            got = c.must(lambda: a[1](an), a[0], "query-failed")
            judge_ask(m, a, got, what)
            keep(got, a[0])
        elif op == "fork":
            c.nontrivial = True
            # selectors are kept part-way and continued more than once, in any order
            if kept and ch.chance(60, "continue one"):
                x, sel, kind, sofar = ch.pick(kept, "selector")
                m, sp = x.m, x.sp
            else:
                kind, levels = draw_query(ch, sp)
                n = ch.between(1, 4, "prefix")
                sofar = levels[:n]

                def go():
                    x = start(an, levels)
                    for lv, f in sofar[1:]:
                        x = follow(x, kind, lv, f, False)
                    return x

                sel = c.must(go, "selecting", "query-failed")
                if not any(lv in ("name", "dest") for lv, _ in sofar):
                    kind = None
                kept.append((x, sel, kind, sofar))
            for _ in range(ch.between(1, 3, "branches")):
                k2, lv2 = draw_query(ch, sp)
                k2 = kind or k2
                have = {lv for lv, _ in sofar}
                rest = [(LEVEL[k2] if lv in ("name", "dest") else lv, f) for lv, f in lv2[1:]]
                rest = [(lv, f) for lv, f in rest if lv not in have]
                stop = ch.chance(20, "stop part-way") and len(rest) > 1

                def go():
                    x = sel
                    for lv, f in rest[:1] if stop else rest:
                        x = follow(x, k2, lv, f, False)
                    return x

                got = c.must(go, say(k2, sofar + rest), "query-failed")
                if stop:
                    kept.append((x, got, k2 if kind or rest[0][0] in ("name", "dest") else None, sofar + rest[:1]))
                else:
                    judge_table(m, k2, sofar + rest, got, what)
                    keep(got, say(k2, sofar + rest))
        elif op == "interrupted":
            c.nontrivial = True
            if ch.chance(50, "table"):
                if kept and ch.chance(50, "kept selector"):
                    x, sel, kind, sofar = ch.pick(kept, "selector")
                    m, sp = x.m, x.sp
                else:
                    sel, kind, sofar = None, None, None
                k2, lv2 = draw_query(ch, sp)
                k2 = kind or k2
                if sel is None:
                    levels = lv2
                else:
                    have = {lv for lv, _ in sofar}
                    rest = [(LEVEL[k2] if lv in ("name", "dest") else lv, f) for lv, f in lv2[1:]]
                    levels = sofar + [(lv, f) for lv, f in rest if lv not in have]

                def go():
                    x = sel if sel is not None else start(an, levels)
                    for lv, f in levels[len(sofar) if sel is not None else 1:]:
                        x = follow(x, k2, lv, f, False)
                    return x

                status, v = c.interrupted(go, "a query")
                if status == "ok":
                    judge_table(m, k2, levels, v, what)
            else:
                a = draw_ask(ch, sp)
                status, v = c.interrupted(lambda: a[1](an), "a query")
                if status == "ok":
                    judge_ask(m, a, v, what)
        elif op == "bad":
            c.nontrivial = True
            k2, lv2 = draw_query(ch, sp)
            bad = ch.pick([
                lambda: an.get_cost(node="nobody"), lambda: an.get_cost(network="nobody"), lambda: an.get_elements_inside(node="nobody", network="gas"),
                lambda: an.network([1, {}]), lambda: an.network("default").time("x").scn({}).node(3).production(),
                lambda: an.network().consumption().production(), lambda: an.network().node().node(), lambda: an.network().time(1.5).scn(-1).node([]).link([[]]),
                lambda: an.filter([]), lambda: an.network().node(pd.DataFrame()).scn().time().link(),
                lambda: ch.pick(kept, "selector")[1].network("x") if kept else None,
                lambda: follow(ch.pick(kept, "selector")[1], k2, lv2[1][0], ("one", [["x"]]), False) if kept else None,
            ], "bad query")
            c.call(bad, "a bad query")
        elif op == "scribble":
            if answers:
                c.nontrivial = True
                a, _, w = answers.pop(ch.below(len(answers), "which answer"))
                with oracle.judging("changing an answer"):
                    if isinstance(a, pd.DataFrame) and a.size:
                        a.iloc[:, :] = -999.0
                        a["extra"] = 1.0
                    elif isinstance(a, np.ndarray):
                        a[...] = -999.0
                    elif isinstance(a, list):
                        a.append("extra")
        elif op == "threads":
            c.nontrivial = True
            jobs = []
            shared = ch.pick(kept, "shared selector") if kept and ch.chance(60, "share a selector") else None
            if shared is None and ch.chance(60, "share a fresh selector"):
                _, levels = draw_query(ch, sp)
                levels = [lf for lf in levels if lf[0] not in ("name", "dest")][: ch.pick([4, 4, 3, 2], "prefix")]

                def go(levels=levels, an=an):
                    sel = start(an, levels)
                    for lv, f in levels[1:]:
                        sel = follow(sel, None, lv, f, False)
                    return sel

                shared = (x, c.must(go, "selecting", "query-failed"), None, levels)
                kept.append(shared)
            if shared:
                x = shared[0]
                m, an = x.m, ch.pick(x.analyzers, "analyzer")
            others = situations if not shared and ch.chance(50, "threads analyse different results") else [x]
            reps = ch.between(1, 3, "each query so many times")
            for i in range(ch.between(2, 3, "threads")):
                y = ch.pick(others, "situation")
                sp = y.sp
                an = ch.pick(y.analyzers, "analyzer")
                if ch.chance(30, "thread asks"):
                    a = draw_ask(ch, sp)
                    jobs.append(((lambda a=a, an=an: a[1](an)), ("ask", a, y.m)))
                    continue
                k2, lv2 = draw_query(ch, sp)
                if shared:
                    _, sel, kind, sofar = shared
                    k2 = kind or k2
                    have = {lv for lv, _ in sofar}
                    rest = [(LEVEL[k2] if lv in ("name", "dest") else lv, f) for lv, f in lv2[1:]]
                    levels, first = sofar + [(lv, f) for lv, f in rest if lv not in have], len(sofar)
                else:
                    sel, levels, first = None, lv2, 1

                def go(sel=sel, levels=levels, first=first, k2=k2, an=an):
                    got = []
                    for _ in range(reps):
                        x = start(an, levels) if sel is None else sel
                        for lv, f in levels[first:]:
                            x = follow(x, k2, lv, f, False)
                        got.append(x)
                    return got

                jobs.append((go, ("table", k2, levels, y.m)))
            c.preemptions(6, stalls=True)
            outs = c.threads([("t%d" % i, j[0]) for i, j in enumerate(jobs)])
            for (fn, exp), (status, v) in zip(jobs, outs):
                if status == "exc":
                    raise Violation("query-failed", "in concurrent threads: %s: %s" % (type(v).__name__, str(v)[:200]))
                if exp[0] == "ask":
                    judge_ask(exp[2], exp[1], v, what)
                else:
                    for df in v:
                        judge_table(exp[3], exp[1], exp[2], df, what)
        elif op == "another":
            what_new = ch.pick(["beside", "instead", "extended", "instead"], "the next result comes")
            if what_new == "instead" and len(situations) > 1:
                # dropped for good: nothing of it stays reachable
                last = situations.pop()
                kept[:] = [k for k in kept if k[0] is not last]
                last = x = y = m = sp = an = sel = got = df = shared = others = jobs = outs = fn = exp = go = a = v = None
            if what_new == "extended":
                # the study grows: what was computed for it before is dropped
                st = situations[0].st
                sp = extend(ch, c, st, situations[0].sp)
                situations[:] = [z for z in situations if z.st is not st]
                kept[:] = [k for k in kept if k[0] in situations]
                situations.insert(0, situation(st, sp))
            elif len(situations) < 3:
                situations.append(situation())
        elif op == "plot":
            fn = plots(c, an, sp, ch)
            if ch.chance(20, "interrupted plot"):
                c.interrupted(fn, "a plot")
            else:
                c.call(fn, "a plot")
        intact(what)
    # the same questions again, at the end
    for x in ch.shuffled(situations, "situations"):
        m, sp = x.m, x.sp
        for a in [draw_ask(ch, sp) for _ in range(2)]:
            judge_ask(m, a, c.must(lambda: a[1](ch.pick(x.analyzers, "analyzer")), a[0], "query-failed"), "at the end")
        for kind in ch.shuffled(KINDS, "kinds")[:2]:
            levels = [("network", ("all", None)), ("node", ("all", None)), (LEVEL[kind], ("all", None)), ("scn", ("all", None)), ("t", ("all", None))]
            an = ch.pick(x.analyzers, "analyzer")
            go = lambda: getattr(start(an, levels).node(), kind)().scn().time()  # noqa
            judge_table(m, kind, levels, c.must(go, kind, "query-failed"), "at the end")
    intact("the end")
