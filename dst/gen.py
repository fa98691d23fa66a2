"""Random studies, as plain data independent of the code under test, and how a user builds them."""
import numpy as np
import pandas as pd

NETS = ["default", "gas", "heat", "elec 2", "œ €"]
NODES = ["a", "b", "aa", "node 1", "é", "0", "a::b", " b ", "Łódź", "北 \U0001f50b"]
ELEMS = ["load", "solar", "nuclear", "x", "car", "load 2", "x ", "čápi", "%d {0}"]


UNLIMITED = 1e9  # a limit that does not bind


class Val:
    """A quantity: the full (scenario, time) matrix it means, and the object a user gives."""

    def __init__(self, full, given, form):
        self.full = full
        self.given = given
        self.form = form

    def __repr__(self):
        return "%s:%s" % (self.form, np.array2string(self.full, separator=",").replace("\n", ""))


def fresh(v):
    """The same object a user would give again, sharing nothing."""
    g = v.given
    if isinstance(g, np.ndarray):
        c = np.array(g, order="K")
        c.flags.writeable = g.flags.writeable
        return c
    if isinstance(g, (pd.Series, pd.DataFrame)):
        return g.copy(deep=True)
    if isinstance(g, list):
        return [list(x) if isinstance(x, list) else x for x in g]
    return g


def draw_val(ch, S, H, scalar, forms=None):
    """scalar: function() -> number"""
    form = ch.weighted(forms or [("scalar", 8), ("matrix", 6), ("row", 4), ("col", 4)], "form")
    if form == "scalar":
        x = scalar()
        if isinstance(x, float) and x == int(x) and ch.chance(50, "int scalar"):
            x = int(x)
        return Val(np.full((S, H), float(x)), x, form)
    if form == "row":
        arr = np.array([scalar() for _ in range(H)], dtype=float)
        full = np.tile(arr, (S, 1))
    elif form == "col":
        arr = np.array([[scalar()] for _ in range(S)], dtype=float)
        full = np.repeat(arr, H, axis=1)
    else:
        arr = np.array([[scalar() for _ in range(H)] for _ in range(S)], dtype=float)
        full = arr.copy()
    return Val(full, wrap(ch, arr), form)


def wrap(ch, arr):
    kind = ch.weighted([("float64", 8), ("list", 4), ("int", 3), ("float32", 2), ("pandas", 3), ("fortran", 1), ("readonly", 2), ("strided", 1)], "container")
    whole = np.all(arr == np.round(arr)) and np.all(np.abs(arr) < 2 ** 31)
    if kind == "list":
        out = arr.tolist()
        if whole:
            out = [[int(y) for y in x] if isinstance(x, list) else int(x) for x in out]
        return out
    if kind == "int" and whole:
        dts = [np.int64, np.int32]
        if np.all(arr >= 0) and np.all(arr < 256):
            dts += [np.uint8, np.int16]
        return arr.astype(ch.pick(dts, "int type"))
    if kind == "float32" and np.all(arr.astype(np.float32).astype(float) == arr):
        return arr.astype(np.float32)
    if kind == "pandas":
        return pd.Series(arr.copy()) if arr.ndim == 1 else pd.DataFrame(arr.copy())
    if kind == "fortran":
        return np.asfortranarray(arr)
    if kind == "readonly":
        out = arr.copy()
        out.flags.writeable = False
        return out
    if kind == "strided":
        big = np.zeros(tuple(2 * n for n in arr.shape))
        view = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        view[...] = arr
        return view
    return arr.copy()


class Node:
    def __init__(self):
        self.cons, self.prod, self.stor, self.links = {}, {}, {}, {}


class Spec:
    """networks: {net: {node: Node}}; converters: {name: dict(src={(net, node): Val}, dest, cost, max)}"""

    def __init__(self, S, H):
        self.S, self.H = S, H
        self.networks = {}
        self.converters = {}
        self.infeasible_hint = False

    def nodes(self):
        return [(n, k) for n, net in self.networks.items() for k in net]

    def n_elements(self):
        e = 0
        for net in self.networks.values():
            for nd in net.values():
                e += len(nd.cons) + len(nd.prod) + 3 * len(nd.stor) + len(nd.links)
        return e + sum(1 + len(c["src"]) for c in self.converters.values())

    def describe(self):
        return "%d scenarios x %d steps, %s, converters %s" % (
            self.S,
            self.H,
            {n: {k: "%dc%dp%ds%dl" % (len(v.cons), len(v.prod), len(v.stor), len(v.links)) for k, v in net.items()} for n, net in self.networks.items()},
            {k: (list(c["src"]), c["dest"]) for k, c in self.converters.items()},
        )


def draw_spec(ch, max_scn=6, max_h=5, storages=True, converters=True, infeasible=0, big=False, min_scn=1, costs_vary=True, huge=False):
    S = ch.between(min_scn, max_scn, "scenarios")
    H = ch.between(1, max_h, "horizon")
    if huge and ch.chance(3, "huge"):
        S, H = ch.pick([(1, 257), (1, 300), (2, 140), (130, 2), (300, 1), (257, 1)], "huge shape")
    elif big and ch.chance(2, "very many scenarios"):
        S, H = ch.pick([130, 257, 300], "very many"), 1
    elif big and ch.chance(15, "many scenarios"):
        S, H = ch.between(8, 40, "many"), ch.between(1, 2, "short horizon")
    elif max_h > 2 and ch.chance(4, "long horizon"):
        S, H = min(S, 2), ch.between(8, 26, "long")
    sp = Spec(S, H)
    scale = ch.weighted([(1.0, 8), (100.0, 3), (0.25, 2), (5000.0, 1), (1.0 / 3, 2), (1e6, 1)], "scale")
    qty = lambda: float(ch.between(0, 20, "q")) * scale  # noqa
    pos = lambda: float(ch.between(1, 20, "q")) * scale  # noqa
    lots = ch.chance(4, "unlimited")
    lim = lambda: UNLIMITED if lots and ch.chance(30, "no limit") else qty()  # noqa
    neg = 8.0 if not lots and ch.chance(10, "negative costs") else 0.0
    unit = ch.weighted([(1.0, 6), (0.01, 1), (1.0 / 7, 1), (1000.0, 1)], "cost unit")
    cost = lambda: (float(ch.between(0, 30, "cost")) - neg) * unit  # noqa
    voll = max(1.0, unit) * ch.weighted([(1.0, 6), (100.0, 1), (0.03, 1)], "loss unit")
    lol = lambda: float(ch.between(20, 1000, "lol cost")) * voll  # noqa
    budget = [max(4, 260 // (S * H))]

    def spend(n):
        budget[0] -= n
        return budget[0] >= 0

    n_net = ch.weighted([(1, 6), (2, 3), (3, 1)], "networks")
    for i in range(n_net):
        net = sp.networks[NETS[i]] = {}
        n_nodes = ch.weighted([(1, 2), (2, 4), (3, 3), (4, 1)], "nodes")
        names = NODES
        if ch.chance(2, "many nodes"):
            n_nodes, names = ch.between(8, 13, "many"), ["n%d" % j for j in range(14)]
        for k in ch.shuffled(names, "node names")[:n_nodes]:
            net[k] = Node()
    for n, net in sp.networks.items():
        for k, nd in net.items():
            for _ in range(ch.weighted([(1, 5), (0, 2), (2, 2)], "consumptions")):
                if spend(1):
                    nd.cons[ELEMS[len(nd.cons)]] = dict(cost=draw_val(ch, S, H, lol), quantity=draw_val(ch, S, H, qty))
            for _ in range(ch.weighted([(1, 4), (0, 2), (2, 4), (3, 1)], "productions")):
                if spend(1):
                    name = ch.pick([e for e in ELEMS if e not in nd.prod], "prod name")
                    nd.prod[name] = dict(cost=draw_val(ch, S, H, cost), quantity=draw_val(ch, S, H, lim))
            for _ in range(ch.weighted([(0, 6), (1, 4), (2, 2)], "storages") if storages else 0):
                if not spend(3):
                    continue
                name = ch.pick([e for e in ELEMS if e not in nd.stor], "stor name")
                steady = not ch.chance(20, "capacity varies")
                cap = draw_val(ch, S, H, pos, forms=[("scalar", 1)] if steady else None)
                top = float(cap.full.min())
                init = top * ch.pick([0.0, 0.5, 1.0, 0.25, 0.123456789], "init")
                if ch.chance(60, "whole init"):
                    init = float(np.floor(init))
                if infeasible and ch.chance(infeasible, "overfull storage"):
                    init = float(cap.full.max() + ch.between(1, 50, "overfull") * scale + 1000 * scale)
                    sp.infeasible_hint = True
                if init == int(init) and ch.chance(30, "int init"):
                    init = int(init)
                eff = lambda: ch.pick([1.0, 0.5, 0.75, 0.99, 0.9, 0.0, 0.1], "eff")  # noqa
                nd.stor[name] = dict(
                    capacity=cap, flow_in=draw_val(ch, S, H, qty), flow_out=draw_val(ch, S, H, qty),
                    cost=draw_val(ch, S, H, lambda: float(ch.between(-3, 6, "stor cost")) * unit), init_capacity=init,
                    eff=draw_val(ch, S, H, eff, forms=[("scalar", 3), ("matrix", 1), ("row", 1)]),
                )
        names = list(net)
        pairs = [(a, b) for a in names for b in names if a != b] + ([(a, a) for a in names] if ch.chance(6, "self links") else [])
        for a, b in ch.shuffled(pairs, "pairs")[: ch.between(0, 4, "links")]:
            if spend(1):
                net[a].links[b] = dict(cost=draw_val(ch, S, H, cost), quantity=draw_val(ch, S, H, lim))
    if converters:
        allnodes = sp.nodes()
        for i in range(ch.weighted([(0, 5), (1, 4), (2, 2)], "converters")):
            n_src = min(len(allnodes), ch.weighted([(1, 4), (2, 3), (3, 1)], "sources"))
            if not spend(1 + n_src):
                continue
            srcs = ch.shuffled(allnodes, "source nodes")[:n_src]
            ratio = lambda: ch.pick([1.0, 0.5, 2.0, 0.25, 4.0], "ratio")  # noqa
            sp.converters["conv%d" % i if i else "load"] = dict(
                src={s: draw_val(ch, S, H, ratio) for s in srcs},
                dest=ch.pick(allnodes, "converter dest"), cost=draw_val(ch, S, H, cost), max=draw_val(ch, S, H, lim),
            )
    if infeasible and ch.chance(infeasible, "partly negative"):
        # a computed timeline which goes below zero somewhere
        vals = [(e, f) for net in sp.networks.values() for nd in net.values() for grp in (nd.cons, nd.prod, nd.links) for e in grp.values() for f in ("quantity",) if e[f].full.size > 1]
        if vals:
            e, f = ch.pick(vals, "which")
            m = e[f].full.copy()
            m[0, 0] = abs(m[0, 0]) + 1
            m[S - 1, H - 1] = -float(ch.between(1, 9, "below zero")) * scale
            e[f] = Val(m, m.copy(), "matrix")
            sp.infeasible_hint = True
    return sp


def build(hadar, sp, order=None):
    """As a user does, with the fluent API; every value is a fresh object."""
    st = hadar.Study(horizon=sp.H, nb_scn=sp.S)
    for n, net in sp.networks.items():
        h = st.network(n)
        for k, nd in net.items():
            h = h.node(k)
            for name, c in nd.cons.items():
                h = h.consumption(name=name, cost=fresh(c["cost"]), quantity=fresh(c["quantity"]))
            for name, c in nd.prod.items():
                h = h.production(name=name, cost=fresh(c["cost"]), quantity=fresh(c["quantity"]))
            for name, c in nd.stor.items():
                h = h.storage(
                    name=name, capacity=fresh(c["capacity"]), flow_in=fresh(c["flow_in"]), flow_out=fresh(c["flow_out"]),
                    cost=fresh(c["cost"]), init_capacity=c["init_capacity"], eff=fresh(c["eff"]),
                )
        for k, nd in net.items():
            for dest, c in nd.links.items():
                h = h.link(src=k, dest=dest, cost=fresh(c["cost"]), quantity=fresh(c["quantity"]))
    for name, c in sp.converters.items():
        for (n, k), r in c["src"].items():
            st.network(n).node(k).to_converter(name=name, ratio=fresh(r))
        st.network(list(sp.networks)[0]).converter(name=name, to_network=c["dest"][0], to_node=c["dest"][1], max=fresh(c["max"]), cost=fresh(c["cost"]))
    return st.network(list(sp.networks)[0]).build()


def one_scenario(sp, s):
    """The study reduced to its scenario number s."""
    out = Spec(1, sp.H)
    cut = lambda v: Val(v.full[s : s + 1], v.full[s : s + 1].copy(), "matrix")  # noqa
    for n, net in sp.networks.items():
        out.networks[n] = {}
        for k, nd in net.items():
            m = out.networks[n][k] = Node()
            for src, dst in ((nd.cons, m.cons), (nd.prod, m.prod), (nd.stor, m.stor), (nd.links, m.links)):
                for name, c in src.items():
                    dst[name] = {f: (cut(v) if isinstance(v, Val) else v) for f, v in c.items()}
    for name, c in sp.converters.items():
        out.converters[name] = dict(src={k: cut(v) for k, v in c["src"].items()}, dest=c["dest"], cost=cut(c["cost"]), max=cut(c["max"]))
    return out
