"""Simulated servers for remote solves."""
import numpy as np

from . import net, oracle, seams
from .harness import Discard

TOKENS = ["", "tok", "none", "a b&c=d/é?", "0", "%41+x"]


def setup(c):
    """A network for the run."""
    n = net.Net(c.sim, c.ch)
    seams.NET = n
    return n


def awkward(ch):
    """A float that a lossy path would change."""
    return ch.pick([0.0, 1.0, 0.1 + 0.2, 1e-17, 123456789.123456789, 1.0 / 3, 5e-324, 1e22, 7.0, -0.0, 2.5, 1e308], "float") + ch.below(1000, "float")


def fabricate(c, sp, plain=False):
    """A result as a server could compute it, with values nobody else has: (json, view)."""
    from hadar.optimizer.domain import output as o

    ch = c.ch
    rnd = np.random.RandomState(ch.seed32("result values"))

    def arr():
        a = rnd.randint(0, 1 << (16 if plain else 30), size=(sp.S, sp.H)) / float(1 + rnd.randint(0, 1000))
        if not plain and ch.chance(20, "awkward"):
            a[ch.below(sp.S, "s"), ch.below(sp.H, "t")] = awkward(ch)
        if ch.chance(15, "some whole"):
            a = np.where(rnd.rand(sp.S, sp.H) < 0.5, np.floor(a), a)
        if ch.chance(10, "integers"):
            a = np.floor(a).astype(int)
        return a

    networks = {}
    for n, netw in sp.networks.items():
        nodes = {}
        for k, nd in netw.items():
            nodes[k] = o.OutputNode(
                consumptions=[o.OutputConsumption(quantity=arr(), name=x) for x in nd.cons],
                productions=[o.OutputProduction(quantity=arr(), name=x) for x in nd.prod],
                storages=[o.OutputStorage(name=x, capacity=arr(), flow_in=arr(), flow_out=arr()) for x in nd.stor],
                links=[o.OutputLink(dest=x, quantity=arr()) for x in nd.links],
            )
        networks[n] = o.OutputNetwork(nodes=nodes)
    convs = {
        name: o.OutputConverter(name=name, flow_src={s: arr() for s in cv["src"]}, flow_dest=arr()) for name, cv in sp.converters.items()
    }
    bench = o.Benchmark(modeler=[float(x) for x in rnd.rand(sp.S)], solver=[float(x) for x in rnd.rand(sp.S)], mapper=0.125, total=3.5)
    res = o.Result(networks=networks, converters=convs, benchmark=bench)
    with oracle.judging("serializing a result"):
        return res.to_json(), oracle.result_view(res), res


def server(c, host="hadar.sim:5000", token=None, compute=None, lives=None, prefix=""):
    ch = c.ch
    token = ch.pick(TOKENS, "token") if token is None else token
    s = net.Server(c.sim, ch, token, compute, lives or [net.draw_life(ch)], int_ids=ch.chance(50, "integer ids"), prefix=prefix)
    seams.NET.servers[host] = s
    s.host = host
    s.url = "http://%s%s" % (host, prefix)
    return s


def client(c, srv, token=None):
    t = srv.token if token is None else token
    if (srv.url, t) in c.clients and c.ch.chance(40, "same client"):
        return c.clients[srv.url, t]
    c.clients[srv.url, t] = cl = _client(c, srv, t)
    return cl


def _client(c, srv, t):
    if t == "" and c.ch.chance(50, "default token"):
        return c.h.RemoteOptimizer(url=srv.url)
    return c.h.RemoteOptimizer(url=srv.url, token=t)
