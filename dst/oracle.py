"""Reference model of a dispatch: constraints, cost, optimum, and public views of studies and results.

Nothing here uses the code under test except through the public attributes of the objects it returned.
"""
import contextlib
import hashlib

import numpy as np
import pandas as pd

from . import seams
from .sim import Violation


@contextlib.contextmanager
def judging(what):
    """Reading an output of the code under test must not fail."""
    try:
        yield
    except Violation:
        raise
    except Exception as e:
        raise Violation("malformed-output", "%s: %s: %s" % (what, type(e).__name__, e))


def _arr(x, sp):
    a = np.asarray(x, dtype=float)
    if a.shape != (sp.S, sp.H):
        raise ValueError("shape %s instead of %s" % (a.shape, (sp.S, sp.H)))
    return a


class Dispatch:
    """Arrays of a result, by name."""

    def __init__(self, sp, res):
        with judging("result"):
            self.cons, self.prod, self.stor, self.link, self.conv = {}, {}, {}, {}, {}
            if set(res.networks) != set(sp.networks):
                raise ValueError("networks %s instead of %s" % (sorted(res.networks), sorted(sp.networks)))
            for n, net in sp.networks.items():
                rn = res.networks[n].nodes
                if set(rn) != set(net):
                    raise ValueError("nodes of %s: %s instead of %s" % (n, sorted(rn), sorted(net)))
                for k, nd in net.items():
                    r = rn[k]
                    for want, got, what in ((nd.cons, r.consumptions, "consumptions"), (nd.prod, r.productions, "productions"), (nd.stor, r.storages, "storages")):
                        names = [e.name for e in got]
                        if sorted(names) != sorted(want):
                            raise ValueError("%s of %s/%s: %s instead of %s" % (what, n, k, names, list(want)))
                    if sorted(e.dest for e in r.links) != sorted(nd.links):
                        raise ValueError("links of %s/%s: %s instead of %s" % (n, k, [e.dest for e in r.links], list(nd.links)))
                    for e in r.consumptions:
                        self.cons[n, k, e.name] = _arr(e.quantity, sp)
                    for e in r.productions:
                        self.prod[n, k, e.name] = _arr(e.quantity, sp)
                    for e in r.storages:
                        self.stor[n, k, e.name] = (_arr(e.capacity, sp), _arr(e.flow_in, sp), _arr(e.flow_out, sp))
                    for e in r.links:
                        self.link[n, k, e.dest] = _arr(e.quantity, sp)
            if set(res.converters) != set(sp.converters):
                raise ValueError("converters %s instead of %s" % (sorted(res.converters), sorted(sp.converters)))
            for name, c in sp.converters.items():
                r = res.converters[name]
                if set(map(tuple, r.flow_src)) != set(c["src"]):
                    raise ValueError("sources of converter %s: %s instead of %s" % (name, sorted(r.flow_src), sorted(c["src"])))
                self.conv[name] = ({tuple(k): _arr(v, sp) for k, v in r.flow_src.items()}, _arr(r.flow_dest, sp))

    def arrays(self):
        for what, d in (("cons", self.cons), ("prod", self.prod), ("link", self.link)):
            for k, v in d.items():
                yield (what,) + k, v
        for k, v in self.stor.items():
            for i, a in enumerate(v):
                yield ("stor",) + k + (("capacity", "flow_in", "flow_out")[i],), a
        for k, (src, dst) in self.conv.items():
            yield ("conv", k, "out"), dst
            for s, a in src.items():
                yield ("conv", k, "in") + s, a

    def same(self, other, tol=1e-6):
        b = dict(other.arrays())
        for k, a in self.arrays():
            if not np.allclose(a, b[k], rtol=tol, atol=tol, equal_nan=True):
                bad = np.argwhere(~np.isclose(a, b[k], rtol=tol, atol=tol))[0]
                return "%s differs at scenario %d time %d: %r and %r" % ((k,) + tuple(bad) + (a[tuple(bad)], b[k][tuple(bad)]))
        return None


def scale_of(sp, d=None):
    """Magnitude of the flows, for tolerances. Limits that never bind do not count, flows do."""
    m = 1.0

    def top(full, times=1):
        full = full[np.abs(full) < 1e8]
        return float(full.max(initial=0)) * times

    for net in sp.networks.values():
        for nd in net.values():
            for grp in (nd.cons, nd.prod, nd.links):
                for c in grp.values():
                    m = max(m, top(c["quantity"].full))
            for c in nd.stor.values():
                m = max(m, top(c["capacity"].full), top(c["flow_in"].full), top(c["flow_out"].full), float(c["init_capacity"]))
    for c in sp.converters.values():
        m = max(m, top(c["max"].full, 4))
    if d is not None:
        for _, a in d.arrays():
            a = a[np.isfinite(a)]
            m = max(m, float(np.abs(a).max(initial=0)))
    return m


def check_feasible(sp, d):
    """Energy balance, limits, storage dynamics, converter mix (property C02)."""
    tol = 1e-5 * scale_of(sp, d)

    def within(a, lo, hi, what):
        if not np.all(np.isfinite(a)):
            raise Violation("not-finite", what)
        if np.any(a < lo - tol) or np.any(a > hi + tol):
            i = tuple(np.argwhere((a < lo - tol) | (a > hi + tol))[0])
            raise Violation("limit", "%s is %r at (scenario, time) %s, limit %r" % (what, float(a[i]), tuple(map(int, i)), float(np.broadcast_to(hi, a.shape)[i])))

    for n, net in sp.networks.items():
        for k, nd in net.items():
            bal = np.zeros((sp.S, sp.H))
            for name, c in nd.cons.items():
                q = d.cons[n, k, name]
                within(q, 0, c["quantity"].full, "consumption %s of %s/%s" % (name, n, k))
                bal -= q
            for name, c in nd.prod.items():
                q = d.prod[n, k, name]
                within(q, 0, c["quantity"].full, "production %s of %s/%s" % (name, n, k))
                bal += q
            for name, c in nd.stor.items():
                cap, fin, fout = d.stor[n, k, name]
                what = "of storage %s of %s/%s" % (name, n, k)
                within(cap, 0, c["capacity"].full, "level " + what)
                within(fin, 0, c["flow_in"].full, "inflow " + what)
                within(fout, 0, c["flow_out"].full, "outflow " + what)
                prev = np.concatenate([np.full((sp.S, 1), float(c["init_capacity"])), cap[:, :-1]], axis=1)
                gap = np.abs(cap - (prev + c["eff"].full * fin - fout))
                if np.any(gap > 4 * tol):
                    i = tuple(map(int, np.argwhere(gap > 4 * tol)[0]))
                    raise Violation("storage", "level %s at %s is off by %r" % (what, i, float(gap[i])))
                bal += fout - fin
            for dest, c in nd.links.items():
                q = d.link[n, k, dest]
                within(q, 0, c["quantity"].full, "link %s->%s of %s" % (k, dest, n))
                bal -= q
            for src, other in net.items():
                if k in other.links:
                    bal += d.link[n, src, k]
            for name, c in sp.converters.items():
                fsrc, fdst = d.conv[name]
                if (n, k) in c["src"]:
                    bal -= fsrc[n, k]
                if (n, k) == c["dest"]:
                    bal += fdst
            if np.any(np.abs(bal) > 10 * tol):
                i = tuple(map(int, np.argwhere(np.abs(bal) > 10 * tol)[0]))
                raise Violation("balance", "node %s/%s at (scenario, time) %s is off by %r" % (n, k, i, float(bal[i])))
    for name, c in sp.converters.items():
        fsrc, fdst = d.conv[name]
        within(fdst, 0, c["max"].full, "output of converter %s" % name)
        for s, r in c["src"].items():
            gap = np.abs(fsrc[s] * r.full - fdst)
            if np.any(gap > 10 * tol):
                i = tuple(map(int, np.argwhere(gap > 10 * tol)[0]))
                raise Violation("converter", "converter %s takes %r from %s for %r out, ratio %r" % (name, float(fsrc[s][i]), s, float(fdst[i]), float(r.full[i])))


def cost_by_step(sp, d):
    """(scenario, time) matrix of costs."""
    total = np.zeros((sp.S, sp.H))
    for n, net in sp.networks.items():
        for k, nd in net.items():
            for name, c in nd.cons.items():
                total += (c["quantity"].full - d.cons[n, k, name]) * c["cost"].full
            for name, c in nd.prod.items():
                total += d.prod[n, k, name] * c["cost"].full
            for name, c in nd.stor.items():
                total += d.stor[n, k, name][0] * c["cost"].full
            for dest, c in nd.links.items():
                total += d.link[n, k, dest] * c["cost"].full
    for name, c in sp.converters.items():
        total += d.conv[name][1] * c["cost"].full
    return total


class NoDispatch(Exception):
    pass


def optimum(sp, s):
    try:
        return _optimum(sp, s)
    except NoDispatch:
        return None


def _optimum(sp, s):
    """Minimal cost of scenario s, or None if it has no feasible dispatch (independent model)."""
    from ortools.linear_solver import pywraplp

    with seams.reference():
        m = pywraplp.Solver("reference", pywraplp.Solver.GLOP_LINEAR_PROGRAMMING)
        if m is None:
            raise RuntimeError("no reference solver")
        obj = m.Objective()
        obj.SetMinimization()
        const = 0.0
        bal = {}
        for n, k in sp.nodes():
            for t in range(sp.H):
                bal[n, k, t] = m.Constraint(0.0, 0.0)

        def var(hi, cost):
            if hi < 0:
                raise NoDispatch()
            v = m.NumVar(0.0, float(hi), "")
            obj.SetCoefficient(v, float(cost))
            return v

        for n, net in sp.networks.items():
            for k, nd in net.items():
                for c in nd.cons.values():
                    for t in range(sp.H):
                        # satisfied part q: costs (quantity - q) * cost
                        q, w = c["quantity"].full[s, t], c["cost"].full[s, t]
                        const += q * w
                        bal[n, k, t].SetCoefficient(var(q, -w), -1.0)
                for c in nd.prod.values():
                    for t in range(sp.H):
                        bal[n, k, t].SetCoefficient(var(c["quantity"].full[s, t], c["cost"].full[s, t]), 1.0)
                for c in nd.stor.values():
                    prev = None
                    for t in range(sp.H):
                        lev = var(c["capacity"].full[s, t], c["cost"].full[s, t])
                        fi = var(c["flow_in"].full[s, t], 0)
                        fo = var(c["flow_out"].full[s, t], 0)
                        rhs = float(c["init_capacity"]) if prev is None else 0.0
                        dyn = m.Constraint(rhs, rhs)
                        dyn.SetCoefficient(lev, 1.0)
                        dyn.SetCoefficient(fi, -float(c["eff"].full[s, t]))
                        dyn.SetCoefficient(fo, 1.0)
                        if prev is not None:
                            dyn.SetCoefficient(prev, -1.0)
                        bal[n, k, t].SetCoefficient(fi, -1.0)
                        bal[n, k, t].SetCoefficient(fo, 1.0)
                        prev = lev
                for dest, c in nd.links.items():
                    for t in range(sp.H):
                        v = var(c["quantity"].full[s, t], c["cost"].full[s, t])
                        if dest != k:
                            bal[n, k, t].SetCoefficient(v, -1.0)
                            bal[n, dest, t].SetCoefficient(v, 1.0)
        for c in sp.converters.values():
            for t in range(sp.H):
                out = var(c["max"].full[s, t], c["cost"].full[s, t])
                coef = {}
                coef[c["dest"]] = coef.get(c["dest"], 0.0) + 1.0
                for src, r in c["src"].items():
                    coef[src] = coef.get(src, 0.0) - 1.0 / float(r.full[s, t])
                for (n, k), x in coef.items():
                    bal[n, k, t].SetCoefficient(out, x)
        status = m.Solve()
        if status == pywraplp.Solver.OPTIMAL:
            return m.Objective().Value() + const
        if status == pywraplp.Solver.INFEASIBLE:
            return None
        raise RuntimeError("reference solver status %s" % status)


def stake(sp, s):
    """Cost of losing every load: rounding is relative to it."""
    return sum(float(np.abs(c["quantity"].full[s] * c["cost"].full[s]).sum()) for net in sp.networks.values() for nd in net.values() for c in nd.cons.values())


def check_optimal(sp, d, s, opt=None, kind="not-optimal"):
    opt = optimum(sp, s) if opt is None else opt
    got = float(cost_by_step(sp, d)[s].sum())
    tol = 1e-4 * max(1.0, abs(opt), scale_of(sp, d)) + 1e-8 * stake(sp, s)
    if opt is None or not abs(got - opt) <= tol:
        raise Violation(kind, "scenario %d costs %r, the optimum is %r" % (s, got, opt))


# ------------------------------------------------------------------------------- views
def study_view(st):
    """Everything a user can read from a study: {path: value} in order."""
    out = [("horizon", st.horizon), ("nb_scn", st.nb_scn), ("version", st.version)]
    S, H = st.nb_scn, st.horizon

    def val(v):
        try:
            return tuple(float(v[s, t]) for s in range(S) for t in range(H))
        except Exception:
            return repr(v)

    for n, net in st.networks.items():
        out.append((n,))
        for k, nd in net.nodes.items():
            out.append((n, k))
            for c in nd.consumptions:
                out.append((n, k, "cons", c.name, val(c.quantity), val(c.cost)))
            for c in nd.productions:
                out.append((n, k, "prod", c.name, val(c.quantity), val(c.cost)))
            for c in nd.storages:
                out.append((n, k, "stor", c.name, val(c.capacity), val(c.flow_in), val(c.flow_out), val(c.cost), float(c.init_capacity), val(c.eff)))
            for c in nd.links:
                out.append((n, k, "link", c.dest, val(c.quantity), val(c.cost)))
    for name, c in st.converters.items():
        out.append((name, "conv", c.name, c.dest_network, c.dest_node, val(c.cost), val(c.max), tuple((tuple(k), val(v)) for k, v in c.src_ratios.items())))
    return out


def spec_view(sp, version):
    out = [("horizon", sp.H), ("nb_scn", sp.S), ("version", version)]
    val = lambda v: tuple(float(x) for x in v.full.ravel())  # noqa
    for n, net in sp.networks.items():
        out.append((n,))
        for k, nd in net.items():
            out.append((n, k))
            for name, c in nd.cons.items():
                out.append((n, k, "cons", name, val(c["quantity"]), val(c["cost"])))
            for name, c in nd.prod.items():
                out.append((n, k, "prod", name, val(c["quantity"]), val(c["cost"])))
            for name, c in nd.stor.items():
                out.append((n, k, "stor", name, val(c["capacity"]), val(c["flow_in"]), val(c["flow_out"]), val(c["cost"]), float(c["init_capacity"]), val(c["eff"])))
            for dest, c in nd.links.items():
                out.append((n, k, "link", dest, val(c["quantity"]), val(c["cost"])))
    for name, c in sp.converters.items():
        out.append((name, "conv", name, c["dest"][0], c["dest"][1], val(c["cost"]), val(c["max"]), tuple((k, val(v)) for k, v in c["src"].items())))
    return out


def diff_view(a, b):
    for x, y in zip(a, b):
        if x != y:
            return "%s became %s" % (str(x)[:300], str(y)[:300])
    if len(a) != len(b):
        return "entries %s" % str((a[len(b):] or b[len(a):])[0])[:300]
    return None


def result_view(res, benchmark=True):
    """Everything a user can read from a result."""
    out = []

    def arr(a):
        a = np.asarray(a)
        return (a.shape, tuple(a.astype(float).ravel().tolist()))

    for n, net in res.networks.items():
        out.append((n,))
        for k, nd in net.nodes.items():
            out.append((n, k))
            for c in nd.consumptions:
                out.append((n, k, "cons", c.name, arr(c.quantity)))
            for c in nd.productions:
                out.append((n, k, "prod", c.name, arr(c.quantity)))
            for c in nd.storages:
                out.append((n, k, "stor", c.name, arr(c.capacity), arr(c.flow_in), arr(c.flow_out)))
            for c in nd.links:
                out.append((n, k, "link", c.dest, arr(c.quantity)))
    for name, c in res.converters.items():
        out.append((name, "conv", c.name, tuple((tuple(k), arr(v)) for k, v in c.flow_src.items()), arr(c.flow_dest)))
    if benchmark:
        b = res.benchmark
        out.append(("benchmark", tuple(b.modeler), tuple(b.solver), b.mapper, b.total))
    return out


def frame_view(df):
    """Everything observable of a DataFrame or Series."""
    if isinstance(df, pd.Series):
        df = df.to_frame()
    return (
        tuple(map(str, df.columns.tolist())), tuple(map(str, df.index.tolist())), tuple(df.columns.names), tuple(df.index.names),
        tuple(str(t) for t in df.dtypes), tuple(tuple(repr(x) for x in row) for row in df.values.tolist()),
    )


def fingerprint(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]
