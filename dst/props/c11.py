"""C11: timelines are sampled independently and uniformly by default."""
import math

import numpy as np

from .. import oracle, seams, stats, wf
from ..sim import Violation

RUNS = dict(quick=1900, thorough=60000)
RULE = (
    "A run draws shufflers (two to five timelines of known scenarios, as matrices or pipelines with seeded or unseeded outages), a machine, and a sequence of shuffles, some concurrent, "
    "between which the program does other things (running stages, solving random draws, reseeding). The sampled positions of every timeline in every shuffle must pass: chi-square uniformity, "
    "chi-square independence of every pair of timelines and of successive shuffles, and no common subsequence long enough to be no coincidence (each at 1e-14). Non-trivial: several workers or threads."
)
LIMIT = -14.0
HUGE = 64 * 1100  # scenarios, more than 16 bits count


def run(c):
    ch, sim = c.ch, c.sim
    seams.HAS_SOLVER = False
    n_common = ch.pick([3, 2, 5, 7, 10, 16, 40, 100, 150, 300], "scenarios") if not ch.chance(2, "huge timelines") else HUGE
    nb = ch.pick([2000, 400, 50, 6000] if n_common <= 100 else [6000, 20000], "rows")
    repeats = {2000: 2, 400: 4, 50: 12, 6000: 2, 20000: 1}[nb]
    H = 16 if n_common <= 10 and ch.chance(40, "long") else ch.between(1, 3, "horizon")
    random = set()  # (shuffler, timeline) with unseeded outages
    patterns = []  # (label, {scenario: outages})

    def register(sh, name):
        n = n_common if ch.chance(80, "same size") else ch.pick([2, 3, 6, 11], "other size")
        if n == HUGE or ch.chance(50, "matrix"):
            sh.add_data(name, np.arange(n).reshape(n, 1) * 1e6 + np.zeros((1, H)))
        else:
            cols = [(i, "quantity") for i in range(n)]
            import pandas as pd

            df = pd.DataFrame(np.tile(np.arange(n) * 1e6, (H, 1)), columns=pd.MultiIndex.from_tuples(cols))
            stages, free = [], False
            for _ in range(ch.below(3 if n <= 10 and repeats <= 4 else 2 if n <= 16 else 1, "outages")):
                seed = ch.pick([None, 0, 42], "seed")
                free = free or seed is None
                stages.append(c.h.Fault(loss=1, occur_freq=0.5, downtime_min=1, downtime_max=3, seed=seed))
            if free:
                random.add((len(shufflers), name))
            stages.append(c.h.ToShuffler("quantity"))
            sh.add_pipeline(name, df, wf.chain(stages, 1))
        return n

    n_sh = ch.weighted([(1, 5), (2, 3)], "shufflers")
    shufflers = []
    for k in range(n_sh):
        sh = c.h.Shuffler()
        sizes = {}
        for i in range(ch.between(1 if n_sh > 1 else 2, 4, "timelines")):
            sizes["tl%d" % i] = c.must(lambda: register(sh, "tl%d" % i), "registering")
        shufflers.append((sh, sizes))
    draws = {}  # (shuffler, timeline) -> list of arrays

    def collect(k, out):
        sh, sizes = shufflers[k]
        with oracle.judging("answer of a shuffle"):
            for name, n in sizes.items():
                a = np.asarray(out[name], dtype=float)
                ids = np.round(a[:, 0] / 1e6).astype(int)
                if a.shape != (nb, H) or ids.min() < 0 or ids.max() >= n:
                    raise Violation("foreign-row", "timeline %s: rows that are none of its scenarios" % name)
                draws.setdefault((k, name), []).append(ids)
                if (k, name) in random and H == 16:
                    # which outages each scenario suffered this time
                    patterns.append(("timeline %s of shuffler %d, shuffle %d" % (name, k, len(draws[k, name])), {int(i): tuple(np.round(a[j] - i * 1e6).astype(int).tolist()) for j, i in enumerate(ids)}))

    concurrent = n_sh > 1 and ch.chance(60, "concurrent")
    for r in range(repeats):
        c.plan()
        if concurrent:
            if r == 0:
                c.preemptions(4, stalls=True)
            outs = c.threads([("t%d" % k, (lambda k=k: shufflers[k][0].shuffle(nb))) for k in range(n_sh)])
            for k, (status, v) in enumerate(outs):
                if status != "ok":
                    raise Violation("shuffle-failed", "%s: %s" % (type(v).__name__, str(v)[:300]))
                collect(k, v)
        else:
            for k in range(n_sh):
                collect(k, c.must(lambda: shufflers[k][0].shuffle(nb), "a shuffle", "shuffle-failed"))
        other = ch.pick(["nothing", "nothing", "seeded stage", "stage", "draws"], "in between")
        if other == "seeded stage":
            import pandas as pd

            c.call(lambda: c.h.Fault(loss=1, occur_freq=0.5, downtime_min=1, downtime_max=3, seed=7)(pd.DataFrame({"quantity": np.ones(4)})))
        elif other == "stage":
            import pandas as pd

            c.call(lambda: c.h.Clip(lower=0)(pd.DataFrame({"quantity": np.ones(4)})))
        elif other == "draws":
            np.random.rand(ch.between(1, 700, "draws"))
    judge(shufflers, draws)
    # two independent draws give a scenario the same outages with probability below 1e-3
    for i in range(len(patterns)):
        for j in range(i):
            (la, a), (lb, b) = patterns[i], patterns[j]
            both = [s for s in a if s in b]
            if len(both) >= 5 and all(a[s] == b[s] for s in both):
                raise Violation("same-outages", "%s and %s: unseeded outages are the same in %d scenarios" % (la, lb, len(both)))


def judge(shufflers, draws):
    seqs = []
    for (k, name), parts in draws.items():
        n = shufflers[k][1][name]
        allp = np.concatenate(parts)
        label = "timeline %s of shuffler %d" % (name, k)
        if len(allp) >= 20 * n:
            lp = stats.chi2_log10p(np.bincount(allp, minlength=n).tolist(), len(allp) / n)
            if lp < LIMIT:
                raise Violation("not-uniform", "%s: counts %s (p = 1e%.0f)" % (label, np.bincount(allp, minlength=n).tolist()[:20], lp))
        if n == HUGE:
            lp = stats.chi2_log10p(np.bincount(allp * 64 // n, minlength=64).tolist(), len(allp) / 64)
            if lp < LIMIT:
                raise Violation("not-uniform", "%s: counts of 64 ranges of its %d scenarios %s (p = 1e%.0f)" % (label, n, np.bincount(allp * 64 // n, minlength=64).tolist(), lp))
        # successive rows, and successive shuffles
        pairs = [("successive rows", np.concatenate([p[:-1] for p in parts]), np.concatenate([p[1:] for p in parts]))]
        if len(parts) > 1:
            pairs.append(("successive shuffles", np.concatenate(parts[:-1]), np.concatenate(parts[1:])))
        for what, a, b in pairs:
            joint(a, b, n, n, "%s, %s" % (label, what))
        for i, p in enumerate(parts):
            seqs.append(("%s, shuffle %d" % (label, i), n, p))
    keys = list(draws)
    for i in range(len(keys)):
        for j in range(i):
            ni, nj = shufflers[keys[i][0]][1][keys[i][1]], shufflers[keys[j][0]][1][keys[j][1]]
            joint(np.concatenate(draws[keys[i]]), np.concatenate(draws[keys[j]]), ni, nj, "timelines %s and %s" % (keys[i], keys[j]))
    # common runs, at any offset
    for n in sorted(set(s[1] for s in seqs)):
        group = [s for s in seqs if s[1] == n]
        total = sum(len(s[2]) for s in group)
        L = int(math.ceil((14 + 2 * math.log10(total + 1)) / math.log10(n)))
        seen = {}
        for label, _, p in group:
            p = p.astype(np.uint32)
            for o in range(len(p) - L + 1):
                g = p[o : o + L].tobytes()
                if g in seen:
                    if seen[g] == label:
                        continue
                    raise Violation("same-draws", "%s and %s contain the same %d successive draws" % (seen[g], label, L))
                seen[g] = label


def joint(a, b, na, nb, label):
    if len(a) < 20 * na * nb:
        return
    counts = np.bincount(a * nb + b, minlength=na * nb)
    lp = stats.chi2_log10p(counts.tolist(), len(a) / (na * nb))
    if lp < LIMIT:
        raise Violation("not-independent", "%s are not independent (p = 1e%.0f)" % (label, lp))
