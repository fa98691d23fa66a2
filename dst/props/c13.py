"""C13: generated outages respect their parameters and touch nothing else."""
import numpy as np
import pandas as pd

from .. import oracle, seams, stats, wf
from ..sim import Violation

RUNS = dict(quick=2600, thorough=150000)
RULE = (
    "A run draws an outage stage (seeded or not), a timeline and where it runs: directly, in a pipeline, in worker processes of a shuffle, in concurrent threads preempted at drawn lines, "
    "after the program reseeded or an interrupted call. The difference between input and output must decompose into at most one outage per time step (search over all decompositions), each of an "
    "allowed length; none at frequency 0, exactly one per step at 1, a binomial number (at 1e-14) otherwise, in one long scenario and over 100 short ones, at each time step too; everything else must be unchanged and unseeded scenarios must differ. "
    "Non-trivial: workers, threads or interruption."
)


def decomposable(k, lo, hi, starts, exact):
    """Can the counts k be a sum of at most (exactly) `starts` runs of length in [lo, hi), cut at the end? None: too hard."""
    H = len(k)
    seen = set()
    steps = [0]

    def go(t, ages, left):
        # ages: of the outages active during step t-1, oldest first (age = steps lasted)
        if t == H:
            return left == 0 if exact else left >= 0
        key = (t, ages, left)
        if key in seen:
            return False
        seen.add(key)
        steps[0] += 1
        if steps[0] > 200000:
            raise OverflowError
        for ends in range(len(ages) + 1):
            if ends and ages[ends - 1] < lo:
                break
            rest = ages[ends:]
            if rest and rest[0] >= hi - 1:
                continue
            new = k[t] - len(rest)
            if new < 0 or new > left:
                continue
            if go(t + 1, tuple(a + 1 for a in rest) + (1,) * new, left - new):
                return True
        return False

    try:
        return go(0, (), starts)
    except OverflowError:
        return None


def labels_of(frame):
    return [(a, b) for a, b in frame.columns.tolist()]


def check_frame(frame, out, kw, what):
    """Losses per scenario: [(label, counts)]"""
    with oracle.judging("output of an outage stage"):
        if not isinstance(out, pd.DataFrame):
            raise ValueError("not a DataFrame")
        src = frame if isinstance(frame.columns, pd.MultiIndex) else frame.set_axis(pd.MultiIndex.from_tuples([(0, n) for n in frame.columns]), axis=1)
        if len(out.index) != len(src.index) or not all(a == b for a, b in zip(out.index.tolist(), src.index.tolist())):
            raise Violation("index-changed", "%s: time index %s became %s" % (what, src.index.tolist()[:6], out.index.tolist()[:6]))
        scn = list(dict.fromkeys(a for a, _ in labels_of(src)))
        got = list(dict.fromkeys(a for a, _ in labels_of(out)))
        if scn != got:
            raise Violation("labels-changed", "%s: scenarios %s became %s" % (what, scn, got))
        if sorted(map(str, labels_of(src))) != sorted(map(str, labels_of(out))):
            raise Violation("columns-changed", "%s: columns %s became %s" % (what, labels_of(src)[:8], labels_of(out)[:8]))
        pos_in = {x: i for i, x in enumerate(labels_of(src))}
        pos_out = {x: i for i, x in enumerate(labels_of(out))}
        losses = []
        for x, i in pos_in.items():
            a = np.asarray(src.iloc[:, i].values, dtype=float)
            b = np.asarray(out.iloc[:, pos_out[x]].values, dtype=float)
            if x[1] != "quantity":
                if not np.array_equal(a, b):
                    raise Violation("column-changed", "%s: column %s changed" % (what, x))
            else:
                losses.append((x[0], a - b))
        return losses


def check_losses(diff, kw, what):
    """-> counts"""
    k = diff / kw["loss"]
    n = np.round(k).astype(int)
    H = len(diff)
    if np.any(np.abs(k - n) > 1e-6) or np.any(n < 0):
        raise Violation("wrong-loss", "%s: losses %s are no multiples of the declared loss %r" % (what, diff.tolist()[:10], kw["loss"]))
    freq = kw["occur_freq"]
    if freq == 0 and np.any(n):
        raise Violation("outage-at-zero", "%s: outages although the frequency is 0" % what)
    if H <= 12:
        ok = decomposable(n.tolist(), kw["downtime_min"], kw["downtime_max"], H, freq == 1)
        if ok is False:
            raise Violation(
                "bad-outages", "%s: losses of %s outages per step are no sum of %s %d runs of %d to %d steps" % (what, n.tolist(), "exactly" if freq == 1 else "at most", H, kw["downtime_min"], kw["downtime_max"] - 1)
            )
    elif kw["downtime_min"] == 1 and kw["downtime_max"] == 2:
        if freq == 1 and n.sum() != H or n.sum() > H:
            raise Violation("wrong-frequency", "%s: %d outages in %d steps at frequency %r" % (what, n.sum(), H, freq))
        lp = stats.log_binom_tail(int(n.sum()), H, float(freq))
        if lp < -14:
            raise Violation("wrong-frequency", "%s: %d outages in %d steps at frequency %r" % (what, n.sum(), H, freq))
    return tuple(n.tolist())


def run(c):
    ch, sim = c.ch, c.sim
    seams.HAS_SOLVER = False
    mode = ch.weighted([("small", 5), ("count", 5), ("independent", 5), ("many", 1)], "mode")
    cols = ch.pick([["quantity"], ["quantity", "cost"], ["a", "quantity", "b"], ["quantity", 0], ["", "quantity"]], "columns")
    if mode == "small":
        H = ch.between(1, 9, "steps")
        lo = ch.between(1, 4, "min")
        kw = dict(loss=ch.pick([10, 0.25, 1, 4096.0], "loss"), occur_freq=ch.pick([0.5, 1, 0, 0.2, 0.9, 0.0, 1.0], "freq"), downtime_min=lo, downtime_max=lo + ch.pick([1, 2, 5], "spread"))
        kw["seed"] = ch.pick([None, 0, 5, 2 ** 32 - 1], "seed")
    elif mode == "count":
        H = ch.pick([500, 3000], "steps")
        kw = dict(loss=ch.pick([10, 1], "loss"), occur_freq=ch.pick([0.5, 0.05, 0.95, 1, 0, 0.01], "freq"), downtime_min=1, downtime_max=2, seed=ch.pick([None, None, 3], "seed"))
    elif mode == "many":
        H = ch.pick([4, 1, 2, 9], "steps")
        kw = dict(loss=ch.pick([10, 1], "loss"), occur_freq=ch.pick([0.5, 0.1, 0.9, 0.03, 1, 0], "freq"), downtime_min=1, downtime_max=2, seed=None)
        if ch.chance(50, "longer"):
            kw["downtime_min"] = ch.between(1, 5, "min")
            kw["downtime_max"] = kw["downtime_min"] + ch.between(1, 3, "spread")
    else:
        H = 200
        kw = dict(loss=1, occur_freq=ch.pick([0.5, 1, 0.3], "freq"), downtime_min=1, downtime_max=ch.pick([2, 4], "max"), seed=None)
    frames = [wf.draw_frame(ch, H=H, S=dict(independent=ch.between(2, 4, "scenarios"), many=100).get(mode), cols=cols).frame for _ in range(ch.between(1, 2, "timelines"))]
    stage = c.must(lambda: c.h.Fault(**kw), "creating an outage stage", "stage-failed")
    patterns = {}

    def judge(frame, out, what):
        every = []
        for label, diff in check_frame(frame, out, kw, what):
            n = check_losses(diff, kw, what)
            every.append(n)
            remember(n, "%s, scenario %s" % (what, label))
        spread(every, what)

    def spread(every, what):
        """Number of outages of many short scenarios: in all, and of those without any, or with one per step."""
        if mode != "many":
            return
        f = float(kw["occur_freq"])
        lengths = range(kw["downtime_min"], kw["downtime_max"])
        if f * len(every) > 0:
            # each step may start an outage; it is out if one started there or shortly before
            for t in range(H):
                q = sum(min(length, t + 1) / H for length in lengths) / len(lengths)
                got = sum(n[t] for n in every)
                if stats.log_binom_tail(got, H * len(every), f * q) < -14:
                    raise Violation("uneven", "%s: step %d of %d is out %d times in %d scenarios at frequency %r with outages of %s steps" % (what, t, H, got, len(every), f, list(lengths)))
        if lengths != range(1, 2):
            return
        every = [sum(n) for n in every]
        for got, of, p, name in (
            (sum(every), H * len(every), f, "outages in as many steps"),
            (sum(1 for x in every if x == 0), len(every), (1 - f) ** H, "scenarios without any outage"),
            (sum(1 for x in every if x == H), len(every), f ** H, "scenarios with one outage per step"),
        ):
            if stats.log_binom_tail(got, of, p) < -14:
                raise Violation("wrong-frequency", "%s: %d of %d %s at frequency %r over %d steps" % (what, got, of, name, f, H))

    def remember(n, what):
        if mode == "independent":
            if n in patterns:
                raise Violation("same-outages", "%s and %s have the same outages though unseeded" % (patterns[n], what))
            patterns[n] = what

    for step in range(ch.between(1, 4 if mode != "many" else 1, "situations")):
        frame = ch.pick(frames, "timeline")
        op = ch.pick(["direct", "pipeline", "shuffle", "threads", "interrupted", "reseeded"], "situation")
        sim.note("situation", mode, op)
        what = "call %d (%s)" % (step, op)
        if op in ("direct", "reseeded", "interrupted"):
            if op == "interrupted":
                c.nontrivial = True
                status, v = c.interrupted(lambda: stage(frame), "an outage stage")
                if status == "ok":
                    judge(frame, v, what + " completed")
            if op == "reseeded":
                np.random.seed(ch.pick([0, 1], "reseed"))
            judge(frame, c.must(lambda: stage(frame), "an outage stage", "stage-failed"), what)
        elif op == "pipeline":
            p = c.must(lambda: wf.chain([c.h.Clip(lower=-1e15), stage] + ([c.h.Clip()] if ch.chance(50, "after") else []), 1), "building a pipeline", "stage-failed")
            judge(frame, c.must(lambda: p(frame), "a pipeline", "stage-failed"), what)
        elif op == "shuffle":
            c.nontrivial = True
            c.plan()
            sh = c.h.Shuffler(sampler=wf.in_order)
            srcs = {}
            for k in range(ch.between(1, 3, "timelines in shuffle")):
                f = ch.pick(frames, "timeline")
                srcs["t%d" % k] = f
                c.must(lambda: sh.add_pipeline("t%d" % k, f, wf.chain([stage, c.h.ToShuffler("quantity")])), "add_pipeline", "stage-failed")
            nb = max(sum(1 for x in f.columns.tolist() if (x[1] if isinstance(x, tuple) else x) == "quantity") for f in srcs.values())
            v = c.must(lambda: sh.shuffle(nb), "a shuffle", "stage-failed")
            with oracle.judging("answer of a shuffle"):
                for name, f in srcs.items():
                    q = [np.asarray(f.iloc[:, i].values, dtype=float) for i, x in enumerate(f.columns.tolist()) if (x[1] if isinstance(x, tuple) else x) == "quantity"]
                    every = []
                    for r in range(len(q)):
                        n = check_losses(q[r] - np.asarray(v[name][r], dtype=float), kw, what)
                        every.append(n)
                        remember(n, "%s, timeline %s, scenario %d" % (what, name, r))
                    spread(every, what)
        else:
            c.preemptions(6)
            fs = [ch.pick(frames, "timeline") for _ in range(ch.between(2, 3, "threads"))]
            outs = c.threads([("t%d" % k, (lambda f=f: stage(f))) for k, f in enumerate(fs)])
            c.nontrivial = True
            for k, (f, (status, v)) in enumerate(zip(fs, outs)):
                if status == "exc":
                    raise Violation("stage-failed", "in a thread: %s: %s" % (type(v).__name__, str(v)[:200]))
                judge(f, v, what + " thread %d" % k)
