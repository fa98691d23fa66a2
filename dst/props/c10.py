"""C10: a shuffle returns, for every timeline, rows of that timeline only, or fails."""
import numpy as np

from .. import oracle, seams, wf
from ..harness import Discard
from ..sim import Violation

RUNS = dict(quick=3600, thorough=150000)
RULE = (
    "A run draws a shuffler with up to six timelines (matrices and pipelines of built-in and user stages, default or user samplers), some of which fail (stage raising, exception that "
    "cannot be sent back, process exit), a machine, and worker kills, memory exhaustion at a drawn line, or failing process creation. A shuffle that returns must have exactly the "
    "requested rows of each timeline; with a failing timeline it must raise in bounded simulated time; a later shuffle works. Non-trivial: a fault, a failing timeline, or several workers."
)
FAULTS = ("kill", "oom", "spawnfail")


def matrix(ch, tag):
    S, H = ch.between(1, 6, "scenarios"), ch.between(1, 5, "horizon")
    if ch.chance(10, "many scenarios"):
        S = ch.between(50, 300, "many")
    m = tag * 1000000.0 + np.arange(S * H).reshape(S, H)
    kind = ch.pick(["float", "int", "readonly", "fortran", "view", "missing", "big int", "float32", "bool"], "matrix kind")
    if kind == "int":
        return m.astype(int)
    if kind == "big int":  # timestamps in ns, identifiers: not representable as floats
        return m.astype(np.int64) + 2 ** 60 + 1
    if kind == "float32":
        return (m % 4096 + 0.1).astype(np.float32)
    if kind == "bool":
        return m % 3 == 0
    if kind == "readonly":
        m.flags.writeable = False
    if kind == "fortran":
        return np.asfortranarray(m)
    if kind == "missing":
        for _ in range(ch.between(1, 4, "missing")):
            m[ch.below(S, "row"), ch.below(H, "step")] = ch.pick([np.nan, np.inf, -np.inf], "missing value")
    if kind == "view":
        big = np.zeros((2 * S, H))
        big[::2] = m
        return big[::2]
    return m


def exact(row):
    """Numbers of a row, which compare exactly whatever their types."""
    return tuple("nan" if x != x else x for x in row.tolist())


class Line:
    """A registered timeline and the rows it may give."""

    def __init__(self, c, sh, name, tag, bad, slow=0, like=()):
        ch = c.ch
        self.flow = None
        self.name, self.bad = name, bad
        self.pipe = ch.chance(60, "pipeline") or bool(bad)
        if not self.pipe:
            data = matrix(ch, tag)
            self.rows = np.array(data)
            c.must(lambda: sh.add_data(name, data), "add_data", "registering-failed")
            return
        like = [x.flow for x in like if x.flow is not None]
        if like and ch.chance(40, "nearly the same timeline"):
            f = wf.twin(ch, ch.pick(like, "which"))
        else:
            f = wf.draw_flow(ch, tag=tag, S=None)
        if not f.specs or f.specs[-1][0].__name__ != "ToShuffler":
            raise Discard()
        self.rows = None if bad else f.rows()
        st, stages = c.call(f.stages, "creating stages")
        if st == "exc":
            raise Discard()
        if bad:
            stages.insert(ch.below(len(stages), "failing at"), wf.Boom(bad))
        else:
            self.flow = f
        if slow:
            stages.insert(0, wf.Slow(slow))
        st, pipe = c.call(lambda: wf.chain(stages, ch.below(2, "built how")), "building a pipeline")
        if st == "exc":
            raise Discard()  # building is the business of other properties
        c.must(lambda: sh.add_pipeline(name, f.frame, pipe), "add_pipeline", "registering-failed")


def check(lines, sampler, nb, out):
    with oracle.judging("answer of a shuffle"):
        keys = list(out.keys())
        if set(keys) != set(lines) or len(keys) != len(lines):
            raise Violation("wrong-timelines", "the answer has %s, registered are %s" % (keys, list(lines)))
        for name, line in lines.items():
            got = np.asarray(out[name])
            rows = line.rows
            if got.shape != (nb, rows.shape[1]):
                raise Violation("wrong-shape", "timeline %r: %s rows and steps, asked %d scenarios of %d steps" % (name, got.shape, nb, rows.shape[1]))
            if not line.pipe:
                if sampler is not None:
                    want = rows[np.asarray(sampler(0, rows.shape[0], nb), dtype=int)] if nb else rows[:0]
                    if [exact(r) for r in got] != [exact(r) for r in want]:
                        raise Violation("wrong-rows", "timeline %r: not the rows its sampler chose" % (name,))
                else:
                    known = {exact(r) for r in rows}
                    for i in range(nb):
                        if exact(got[i]) not in known:
                            raise Violation("foreign-row", "timeline %r: row %d is %s, which is none of its scenarios" % (name, i, got[i].tolist()[:6]))
                continue
            got = got.astype(float)
            if sampler is not None:
                want = rows[np.asarray(sampler(0, rows.shape[0], nb), dtype=int)] if nb else rows[:0]
                if not np.allclose(got, want, rtol=1e-12, atol=1e-9, equal_nan=True):
                    raise Violation("wrong-rows", "timeline %r: not the rows its sampler chose" % (name,))
                continue
            for i in range(nb):
                if not np.any(np.all(np.isclose(rows, got[i], rtol=1e-12, atol=1e-9, equal_nan=True), axis=1)):
                    raise Violation("foreign-row", "timeline %r: row %d is %s, which is none of its scenarios" % (name, i, got[i].tolist()[:6]))


def run(c):
    ch, sim = c.ch, c.sim
    seams.HAS_SOLVER = False
    c.loglevel()
    sampler = ch.pick([None, None] + wf.SAMPLERS, "sampler")
    sh = c.must(lambda: c.h.Shuffler() if sampler is None else c.h.Shuffler(sampler=sampler), "creating a shuffler")
    lines = {}
    names = ch.shuffled(["load", "solar", "a", 3, "é x", "", "zz"], "names")
    n = ch.weighted([(2, 4), (1, 2), (3, 3), (4, 2), (6, 2), (0, 1)], "timelines")
    slow = ch.weighted([(0, 14), (5000, 1), (90, 1)], "slow stages")
    for i in range(n):
        bad = not slow and ch.pick(wf.BOOMS, "failing how") if ch.chance(12, "failing timeline") else None
        lines[names[i]] = Line(c, sh, names[i], i + 1, bad, slow, lines.values())
        if ch.chance(8, "registered again"):
            j = names[ch.below(i + 1, "which")]
            lines[j] = Line(c, sh, j, 50 + i, None)
    for k in range(ch.between(1, 3, "shuffles")):
        faulty = not slow and ch.chance(60, "faults")
        c.plan(FAULTS if faulty else (), ch.between(1, 3, "fault budget"), ch.pick([20, 50, 90], "fault rate") if faulty else 0)
        nb = ch.pick([3, 1, 10, 40, 0, np.int64(4)], "scenarios asked") if not ch.chance(3, "many asked") else ch.pick([300, 1500], "how many")
        bad = [line for line in lines.values() if line.bad]
        h0, t0 = len(sim.hits), sim.t
        status, v = c.call(lambda: sh.shuffle(nb), "a shuffle")
        hits = sim.hits[h0:]
        if hits or bad:
            c.nontrivial = True
        if status == "ok":
            if bad:
                raise Violation("partial-answer", "timeline %r fails (%s) but the shuffle returned" % (bad[0].name, bad[0].bad))
            try:
                check(lines, sampler, int(nb), v)
            except Violation as e:
                if hits:
                    raise Violation("partial-answer", "after %s: %s" % ([h[1] for h in hits], e.message))
                raise
        else:
            if not hits and not bad:
                raise Violation("shuffle-failed", "without any fault: %s: %s" % (type(v).__name__, str(v)[:300]))
            if not isinstance(v, Exception):
                raise Violation("not-an-error", "the shuffle ended with %r" % (v,))
            if sim.t - max([h[0] for h in hits] + [t0]) > 200:
                raise Violation("late", "the shuffle raised %.0f s after the failure" % (sim.t - max([h[0] for h in hits] + [t0])))
            sim.probe("raised")
    # repair what failed, and everything works
    for line in [x for x in lines.values() if x.bad]:
        lines[line.name] = Line(c, sh, line.name, 90, None)
    c.plan()
    nb = ch.between(1, 5, "scenarios asked")
    v = c.must(lambda: sh.shuffle(nb), "a shuffle after failed ones", "later-shuffle-failed")
    check(lines, sampler, nb, v)
