"""C15: a rejected building call leaves the study unchanged; handles stay what they are."""
import numpy as np
import pandas as pd

from .. import gen, oracle
from ..harness import Discard
from ..sim import Violation

RUNS = dict(quick=36000, thorough=1500000)
RULE = (
    "A run draws one to three programs of building calls, each on its own study, run one after the other, interleaved, or in threads preempted at drawn lines. A program keeps every handle it gets and "
    "uses them in drawn order; about a third of its calls are invalid (duplicate, sign, shape, type, unknown target) or fail while their values are converted. After every call the study must read "
    "as a model that ignores the rejected ones, corrected retries must work, and the final study must equal one built by the accepted calls alone. Non-trivial: a rejected call."
)


class Failing(np.ndarray):
    """Looks like a proper array until it is used."""

    def __array_finalize__(self, obj):
        self.how = getattr(obj, "how", None)

    def __lt__(self, other):
        raise RuntimeError("conversion failed")

    __gt__ = __le__ = __ge__ = __lt__


class FailingShape(np.ndarray):
    @property
    def shape(self):
        raise MemoryError("conversion failed")


class FailingDict(dict):
    def __contains__(self, k):
        raise RuntimeError("conversion failed")


def failing(ch, S, H, compared):
    kind = ch.pick(["shape", "compare", "dict"], "failing value") if compared else ch.pick(["shape", "dict"], "failing value")
    if kind == "shape":
        return np.ones((S, H)).view(FailingShape)
    if kind == "dict":
        return FailingDict(value=3)
    return np.ones((S, H)).view(Failing)


def invalid_value(ch, S, H, signed, compared=True):
    """signed: a negative one is fine"""
    kinds = ["text", "none", "shape", "failing", "object", "shape3", "tuple", "rows"] + ([] if signed else ["negative", "negative", "negative array"])
    k = ch.pick(kinds, "invalid value")
    if k == "negative":
        return ch.pick([-1, -0.5, -1e9], "negative")
    if k == "negative array":
        return ch.pick([np.full((S, H), -2.0), [-1] * H, np.full((S, 1), -1)], "negative array")
    if k == "text":
        return "12"
    if k == "none":
        return None
    if k == "object":
        return object()
    if k == "tuple":
        return (1.0,) * H
    if k == "shape":
        return np.ones(H + S + 3)
    if k == "rows":
        return [[1.0] * H] * (S + 2) if H > 1 or S != 1 else np.ones((4, 5))
    if k == "shape3":
        return np.ones((S + 1, H + 1))
    return failing(ch, S, H, compared)


class Model:
    def __init__(self):
        self.nets = {}  # net -> node -> dict(cons, prod, stor, links)
        self.conv = {}  # name -> dict(src, dest, cost, max)

    def view(self):
        out = []
        for n, net in self.nets.items():
            out.append((n,))
            for k, nd in net.items():
                out.append((n, k))
                for kind in ("cons", "prod", "stor", "link"):
                    for name, vals in nd[kind].items():
                        out.append((n, k, kind, name) + vals)
        for name, c in self.conv.items():
            out.append((name, "conv", c["dest"], c["vals"], tuple(c["src"].items())))
        return out


def real_view(st):
    out = []
    S, H = st.nb_scn, st.horizon
    val = lambda v: tuple(float(v[s, t]) for s in range(S) for t in range(H))  # noqa
    for n, net in st.networks.items():
        out.append((n,))
        for k, nd in net.nodes.items():
            out.append((n, k))
            for e in nd.consumptions:
                out.append((n, k, "cons", e.name, val(e.quantity), val(e.cost)))
            for e in nd.productions:
                out.append((n, k, "prod", e.name, val(e.quantity), val(e.cost)))
            for e in nd.storages:
                out.append((n, k, "stor", e.name, val(e.capacity), val(e.flow_in), val(e.flow_out), val(e.cost), float(e.init_capacity), val(e.eff)))
            for e in nd.links:
                out.append((n, k, "link", e.dest, val(e.quantity), val(e.cost)))
    for name, e in st.converters.items():
        if e.name != name:
            raise ValueError("converter %r is named %r" % (name, e.name))
        dest = (e.dest_network, e.dest_node) if e.dest_network or e.dest_node else None
        out.append((name, "conv", dest, (val(e.cost), val(e.max)) if dest else None, tuple((tuple(k), val(v)) for k, v in e.src_ratios.items())))
    return out


FULL = lambda v: tuple(float(x) for x in v.full.ravel())  # noqa


class Program:
    def __init__(self, c, i, length):
        self.c, self.i, self.length = c, i, length
        ch = c.ch
        self.S, self.H = ch.between(1, 4, "scenarios"), ch.between(1, 4, "horizon")
        self.st = c.must(lambda: c.h.Study(horizon=self.H, nb_scn=self.S), "creating a study", "valid-rejected")
        self.m = Model()
        self.nets = []  # (handle, net)
        self.nodes = []  # (handle, net, node)
        self.log = []  # accepted calls, as functions of a study
        self.rejected = 0

    # values
    def val(self, signed=False):
        ch = self.c.ch
        return gen.draw_val(ch, self.S, self.H, lambda: float(ch.between(-5 if signed else 0, 30, "value")))

    def eff(self):
        ch = self.c.ch
        return gen.draw_val(ch, self.S, self.H, lambda: ch.pick([1.0, 0.5, 0.9], "eff"))

    def attempt(self, fn, valid, what, soft=False):
        """fn: function of nothing, making the call on the real study"""
        status, v = self.c.call(fn, what)
        if valid and status == "exc":
            after = "after %d rejected calls" % self.rejected
            raise Violation("valid-rejected", "%s, a valid call %s, raised %s: %s" % (what, after, type(v).__name__, str(v)[:200]))
        if not valid:
            self.c.nontrivial = True
            self.rejected += 1
            if status == "ok":
                if soft:
                    raise Discard()  # these values need not fail in every implementation
                raise Violation("invalid-accepted", "%s was accepted" % what)
        return v

    def check(self, what):
        with oracle.judging("the study after %s" % what):
            d = oracle.diff_view(self.m.view(), real_view(self.st))
            if d:
                raise Violation("study-differs", "study %d after %s: %s" % (self.i, what, d))
            if self.st.horizon != self.H or self.st.nb_scn != self.S:
                raise Violation("study-differs", "horizon or scenarios changed")

    def step(self):
        ch = self.c.ch
        ops = ["node", "consumption", "production", "storage", "link", "to_converter", "converter", "network", "bad name"]
        op = ch.pick(ops, "call")
        if not self.nets:
            op = "network"
        elif not self.nodes and op not in ("network", "bad name"):
            op = "node"
        self.c.sim.note("call", self.i, op)
        getattr(self, "do_" + op.replace(" ", "_"))()

    def do_network(self):
        ch = self.c.ch
        name = ch.pick(["default", "gas", "heat"], "network")
        via = ch.pick([self.st] + [h for h, _ in self.nets] + [h for h, _, _ in self.nodes], "called on")
        h = self.attempt(lambda: via.network() if name == "default" and ch.chance(50, "default name") else via.network(name), True, "network(%r)" % name)
        self.m.nets.setdefault(name, {})
        self.nets.append((h, name))
        self.log.append(lambda st: st.network(name))
        self.check("network(%r)" % name)

    def do_bad_name(self):
        ch = self.c.ch
        bad = ch.pick([["x"], {}], "unhashable")
        where = ch.pick(["network", "node", "converter"], "where")
        h, n = ch.pick(self.nets, "handle")
        if where == "network":
            self.attempt(lambda: self.st.network(bad), False, "network(%r)" % (bad,))
        elif where == "node":
            self.attempt(lambda: h.node(bad), False, "node(%r)" % (bad,))
        else:
            self.attempt(lambda: h.converter(name=bad, to_network=n, to_node="nowhere", max=1), False, "converter(%r)" % (bad,))
        self.check("a call with an invalid name")

    def do_node(self):
        ch = self.c.ch
        if self.nodes and ch.chance(40, "from a node"):
            h, n, _ = ch.pick(self.nodes, "handle")
        else:
            h, n = ch.pick(self.nets, "handle")
        name = ch.pick(gen.NODES, "node")
        new = self.attempt(lambda: h.node(name), True, "node(%r)" % name)
        self.m.nets[n].setdefault(name, dict(cons={}, prod={}, stor={}, link={}))
        self.nodes.append((new, n, name))
        self.log.append(lambda st: st.network(n).node(name))
        self.check("node(%r) of network %r" % (name, n))

    def element(self, kind, method, draw):
        ch = self.c.ch
        h, n, k = ch.pick(self.nodes, "handle")
        have = self.m.nets[n][k][kind]
        name = ch.pick(gen.ELEMS[:4], "name")
        what = "%s(%r) on %s/%s" % (method, name, n, k)
        args = draw()
        give = lambda: {f: gen.fresh(v) if isinstance(v, gen.Val) else v for f, v in args.items()}  # noqa
        if name in have:
            self.attempt(lambda: getattr(h, method)(name=name, **give()), False, what + ", a duplicate")
            self.check(what + ", a duplicate")
            return
        while ch.chance(35, "spoil"):
            bad = give()
            f = ch.pick(sorted(bad), "spoiled value")
            if f == "init_capacity":
                bad[f] = ch.pick([-1, -0.5], "negative")
            elif f == "eff":
                bad[f] = ch.pick([1.5, -0.1, np.full((self.S, self.H), 2.0), "x", None, np.ones(self.H + self.S + 3), failing(ch, self.S, self.H, True)], "invalid eff")
            else:
                bad[f] = invalid_value(ch, self.S, self.H, f == "cost", f != "cost")
            self.attempt(lambda: getattr(h, method)(name=name, **bad), False, "%s with %s=%s" % (what, f, short(bad[f])), is_soft(bad[f]))
            self.check("%s with an invalid %s" % (what, f))
        r = self.attempt(lambda: getattr(h, method)(name=name, **give()), True, what)
        if method == "storage":
            vals = tuple(FULL(args[f]) for f in ("capacity", "flow_in", "flow_out", "cost")) + (float(args["init_capacity"]), FULL(args["eff"]))
        else:
            vals = (FULL(args["quantity"]), FULL(args["cost"]))
        have[name] = vals
        self.nodes.append((r, n, k))
        self.log.append(lambda st: getattr(st.network(n).node(k), method)(name=name, **give()))
        self.check(what)

    def do_consumption(self):
        self.element("cons", "consumption", lambda: dict(cost=self.val(True), quantity=self.val()))

    def do_production(self):
        self.element("prod", "production", lambda: dict(cost=self.val(True), quantity=self.val()))

    def do_storage(self):
        self.element("stor", "storage", lambda: dict(capacity=self.val(), flow_in=self.val(), flow_out=self.val(), cost=self.val(True), init_capacity=self.c.ch.pick([0, 2.5, 7], "init"), eff=self.eff()))

    def do_link(self):
        ch = self.c.ch
        h, n = ch.pick(self.nets + [(a, b) for a, b, _ in self.nodes], "handle")
        net = self.m.nets[n]
        names = list(net) + ["nowhere"]
        src, dest = ch.pick(names, "src"), ch.pick(names, "dest")
        args = dict(cost=self.val(True), quantity=self.val())
        give = lambda: {f: gen.fresh(v) for f, v in args.items()}  # noqa
        what = "link(%r, %r) of %s" % (src, dest, n)
        direct = ch.chance(30, "Study.add_link")
        call = (lambda **kw: self.st.add_link(network=n, **kw)) if direct else h.link
        if src not in net or dest not in net or dest in net[src]["link"]:
            self.attempt(lambda: call(src=src, dest=dest, **give()), False, what + ", unknown node or duplicate")
            self.check(what + ", refused")
            return
        while ch.chance(35, "spoil"):
            bad = give()
            f = ch.pick(sorted(bad), "spoiled value")
            bad[f] = invalid_value(ch, self.S, self.H, f == "cost", f != "cost")
            self.attempt(lambda: call(src=src, dest=dest, **bad), False, "%s with %s=%s" % (what, f, short(bad[f])), is_soft(bad[f]))
            self.check("%s with an invalid %s" % (what, f))
        r = self.attempt(lambda: call(src=src, dest=dest, **give()), True, what)
        net[src]["link"][dest] = (FULL(args["quantity"]), FULL(args["cost"]))
        if not direct:
            self.nets.append((r, n))
        self.log.append(lambda st: st.network(n).link(src=src, dest=dest, **give()))
        self.check(what)

    def do_to_converter(self):
        ch = self.c.ch
        h, n, k = ch.pick(self.nodes, "handle")
        name = ch.pick(["conv", "load", "z"], "converter")
        v = self.val()
        what = "to_converter(%r) on %s/%s" % (name, n, k)
        if (n, k) in self.m.conv.get(name, dict(src={}))["src"]:
            self.attempt(lambda: h.to_converter(name=name, ratio=gen.fresh(v)), False, what + ", a duplicate")
            self.check(what + ", a duplicate")
            return
        while ch.chance(35, "spoil"):
            bad = invalid_value(ch, self.S, self.H, True, False)
            self.attempt(lambda: h.to_converter(name=name, ratio=bad), False, "%s with ratio=%s" % (what, short(bad)), is_soft(bad))
            self.check(what + " with an invalid ratio")
        r = self.attempt(lambda: h.to_converter(name=name, ratio=gen.fresh(v)), True, what)
        self.m.conv.setdefault(name, dict(src={}, dest=None, vals=None))["src"][n, k] = FULL(v)
        self.nodes.append((r, n, k))
        self.log.append(lambda st: st.network(n).node(k).to_converter(name=name, ratio=gen.fresh(v)))
        self.check(what)

    def do_converter(self):
        ch = self.c.ch
        h = ch.pick([x for x, _ in self.nets] + [x for x, _, _ in self.nodes], "handle")
        name = ch.pick(["conv", "load", "z"], "converter")
        allnodes = [(n, k) for n, net in self.m.nets.items() for k in net]
        dest = ch.pick(allnodes + [("nowhere", "a"), (list(self.m.nets)[0], "nowhere")], "destination")
        args = dict(cost=self.val(True), max=self.val())
        give = lambda: {f: gen.fresh(v) for f, v in args.items()}  # noqa
        what = "converter(%r) to %s" % (name, dest)
        call = lambda **kw: h.converter(name=name, to_network=dest[0], to_node=dest[1], **kw)  # noqa
        if self.m.conv.get(name, dict(dest=None))["dest"] or dest not in allnodes:
            self.attempt(lambda: call(**give()), False, what + ", already set or unknown")
            self.check(what + ", refused")
            return
        while ch.chance(35, "spoil"):
            bad = give()
            f = ch.pick(sorted(bad), "spoiled value")
            bad[f] = invalid_value(ch, self.S, self.H, True, False)
            self.attempt(lambda: call(**bad), False, "%s with %s=%s" % (what, f, short(bad[f])), is_soft(bad[f]))
            self.check("%s with an invalid %s" % (what, f))
        self.attempt(lambda: call(**give()), True, what)
        cv = self.m.conv.setdefault(name, dict(src={}, dest=None, vals=None))
        cv["dest"], cv["vals"] = dest, (FULL(args["cost"]), FULL(args["max"]))
        self.log.append(lambda st: st.network(dest[0]).converter(name=name, to_network=dest[0], to_node=dest[1], **give()))
        self.check(what)

    def __call__(self):
        for _ in range(self.length):
            self.step()

    def finish(self):
        """Equals a study built by the accepted calls alone."""
        c = self.c
        if self.nets:
            b = c.must(lambda: self.nets[-1][0].build(), "build", "valid-rejected")
            c.check(b is self.st or real_view(b) == self.m.view(), "study-differs", "build gives another study")
        clean = c.h.Study(horizon=self.H, nb_scn=self.S)
        for call in self.log:
            c.must(lambda: call(clean), "replaying accepted calls", "valid-rejected")
        self.check("the end")
        with oracle.judging("comparing studies"):
            d = oracle.diff_view(real_view(clean), real_view(self.st))
            if d:
                raise Violation("study-differs", "without the rejected calls: %s" % d)
            if clean.to_json() != self.st.to_json():
                raise Violation("study-differs", "serialized, it differs from a study built without the rejected calls")


def is_soft(x):
    return isinstance(x, (Failing, FailingShape, FailingDict, tuple))


def short(x):
    return (type(x).__name__ + " " + (repr(x) if isinstance(x, (int, float, str, type(None), list, tuple)) else str(np.shape(np.asarray(x, dtype=object)) if type(x) is np.ndarray else "")))[:80]


def run(c):
    ch = c.ch
    n = ch.weighted([(1, 5), (2, 3), (3, 1)], "studies")
    progs = [Program(c, i, ch.between(4, 25 if n == 1 else 12, "calls")) for i in range(n)]
    mode = ch.pick(["sequence", "interleaved", "threads"], "mode") if n > 1 else "sequence"
    if mode == "sequence":
        for p in progs:
            p()
    elif mode == "interleaved":
        for _ in range(sum(p.length for p in progs)):
            ch.pick(progs, "program").step()
    else:
        c.preemptions(8)
        for status, v in c.threads([("builder%d" % p.i, p) for p in progs]):
            if status == "exc":
                raise v if isinstance(v, (Violation, Discard)) else Violation("valid-rejected", "building in threads: %s: %s" % (type(v).__name__, str(v)[:300]))
    for p in progs:
        p.finish()
