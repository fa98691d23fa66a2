"""Random timelines, stages and pipelines with a model of what they compute; user-defined stages."""
import os
import time

import numpy as np
import pandas as pd

from hadar.workflow.pipeline import FreePlug, FocusStage, RestrictedPlug, Stage
import hadar as hd

TOP = "to_shuffler"


# ---------------------------------------------------------------------- stages and samplers a user may write
class Affine(Stage):
    def __init__(self, a, b):
        Stage.__init__(self, plug=FreePlug())
        self.a, self.b = a, b

    def _process_timeline(self, timeline):
        return timeline * self.a + self.b


class InPlace(Stage):
    """Works on the frame it is given, as Rename does."""

    def __init__(self, b):
        Stage.__init__(self, plug=FreePlug())
        self.b = b

    def _process_timeline(self, timeline):
        timeline += self.b
        return timeline


class PerScenario(FocusStage):
    """Adds b times its number to each scenario, in place."""

    def __init__(self, name, b):
        FocusStage.__init__(self, plug=RestrictedPlug(inputs=[name], outputs=[name]))
        self.name, self.b = name, b

    def _process_scenarios(self, n_scn, scenario):
        scenario[self.name] = scenario[self.name] + self.b
        return scenario


class Derive(FocusStage):
    """Makes a new column out of another."""

    def __init__(self, name, out):
        FocusStage.__init__(self, plug=RestrictedPlug(inputs=[name], outputs=[name, out]))
        self.name, self.out = name, out

    def _process_scenarios(self, n_scn, scenario):
        scenario[self.out] = scenario[self.name] * 2.0
        return scenario


class BadPickle(Exception):
    """Cannot be rebuilt from its arguments, as many exceptions in the wild."""

    def __init__(self, a, b):
        Exception.__init__(self, "bad")


class Boom(Stage):
    def __init__(self, how, after=0):
        Stage.__init__(self, plug=FreePlug())
        self.how, self.after = how, after

    def _process_timeline(self, timeline):
        timeline *= 0
        if self.how == "value":
            raise ValueError("stage failed")
        if self.how == "memory":
            raise MemoryError("stage failed")
        if self.how == "unpicklable":
            raise BadPickle(1, 2)
        if self.how == "local":
            class Local(Exception):
                pass
            raise Local("stage failed")
        if self.how == "crash":
            os._exit(3)
        if self.how == "key":
            raise KeyError("stage failed")
        raise RuntimeError("stage failed")


class Slow(Stage):
    """A stage that takes its time."""

    def __init__(self, seconds):
        Stage.__init__(self, plug=FreePlug())
        self.seconds = seconds

    def _process_timeline(self, timeline):
        time.sleep(self.seconds)
        return timeline


BOOMS = ["value", "memory", "unpicklable", "crash", "key", "local"]


def in_order(low, high, size):
    return np.arange(size) % high


def backwards(low, high, size):
    return (high - 1 - np.arange(size)) % high


def listed(low, high, size):
    return [int(i * 7 + 3) % high for i in range(size)]


def failing(low, high, size):
    raise ValueError("sampler failed")


SAMPLERS = [in_order, backwards, listed]


# ---------------------------------------------------------------------- timelines
class Flow:
    """A timeline (frame) and a pipeline, with the model of its outcome.

    model: list of (label, {column: values}) per scenario"""

    def __init__(self, frame, labels, cols, values):
        self.frame = frame
        self.model = [(lab, {n: values[i][n].copy() for n in cols}) for i, lab in enumerate(labels)]
        self.input = [(lab, dict(d)) for lab, d in self.model]
        self.specs = []  # (class, args, kwargs)
        self.ops = []  # what each does to a model
        self.plugs = []  # columns known after each
        self.outs = None  # columns known to be there, None: whatever
        self.multi = isinstance(frame.columns, pd.MultiIndex)

    @property
    def cols(self):
        return list(self.model[0][1])

    def does(self, op):
        self.ops.append(op)
        self.model = op(self.model)
        self.plugs.append(self.outs)

    def after(self, k, source=None):
        """Model after the first k stages, for this or another flow's timeline."""
        m = (source or self).input
        for op in self.ops[:k]:
            m = op(m)
        return m

    def stage(self, i):
        cls, args, kwargs = self.specs[i]
        args = [list(a) if isinstance(a, list) else a for a in args]
        return cls(*args, **dict(kwargs))

    def stages(self):
        return [self.stage(i) for i in range(len(self.specs))]

    def rows(self):
        """Scenario matrix sent to a shuffler."""
        return np.array([d[TOP] for _, d in self.model])


def chain(stages, how=0):
    """A pipeline out of stages, built the way a user may."""
    if how == 1 or len(stages) < 2:
        return hd.Pipeline(stages=list(stages)) if hasattr(hd, "Pipeline") else _pipeline(stages)
    p = stages[0] + stages[1]
    for s in stages[2:]:
        p = p + s
    return p


def _pipeline(stages):
    from hadar.workflow.pipeline import Pipeline

    return Pipeline(stages=list(stages))


def twin(ch, f):
    """A flow on a timeline that differs in a single value, which goes through the same stages."""
    g = Flow(f.frame.copy(), [lab for lab, _ in f.input], list(f.input[0][1]), [d for _, d in f.input])
    i = ch.below(len(g.input), "scenario")
    lab, d = g.input[i]
    n = ch.pick(list(d), "column")
    t = ch.pick([len(d[n]) - 1, ch.below(len(d[n]), "step")], "which step")
    where = g.frame.columns.tolist().index((lab, n) if g.multi else n)
    d[n][t] += 1
    g.frame.iloc[t, where] += 1
    for k, op in enumerate(f.ops):
        g.outs = f.plugs[k]
        g.does(op)
    g.ops, g.specs, g.outs = list(f.ops), list(f.specs), f.outs
    return g


def draw_frame(ch, H=None, S=None, cols=None, tag=None, ints=None):
    """Values are all different (tag: offset)."""
    H = H or ch.between(1, 6, "steps")
    flat = ch.chance(30, "no scenario level") and S is None
    S = 1 if flat else (S or ch.between(1, 4, "scenarios"))
    cols = cols or ch.pick([["quantity"], ["quantity", "cost"], ["x", "quantity", "y"], ["a", "b"], ["quantity", 0], ["", "quantity"]], "columns")
    rnd = np.random.RandomState(ch.seed32("values"))
    whole = ch.chance(25, "integers") if ints is None else ints
    base = (tag or 0) * 1000000.0
    labels = [0] if flat else ch.pick([list(range(S)), [10 * i + 3 for i in range(S)], ["s%d" % i for i in range(S)], list(range(S))[::-1]], "labels")
    values = []
    for i in range(S):
        d = {}
        for n in cols:
            v = base + rnd.permutation(100000)[:H] + 0.0
            d[n] = v if whole else v + rnd.randint(0, 100, H) / 128.0
        values.append(d)
    idx = ch.pick([None, "dates", "shift", "text"], "index")
    index = dict(dates=pd.date_range("2020-01-01", periods=H, freq="h"), shift=pd.RangeIndex(5, 5 + H), text=["t%02d" % (H - i) for i in range(H)]).get(idx)
    mat = np.array([[values[i][n][t] for i in range(S) for n in cols] for t in range(H)])
    if whole:
        mat = mat.astype(int)
    columns = list(cols) if flat else pd.MultiIndex.from_tuples([(lab, n) for lab in labels for n in cols], names=ch.pick([None, ["scn", "name"], ["s", "kind"], [None, "name"], ["quantity", "scenario"]], "level names"))
    frame = pd.DataFrame(mat, index=index, columns=columns)
    if S > 1 and len(cols) > 1 and ch.chance(20, "grouped by name"):
        frame = frame.iloc[:, [i * len(cols) + j for j in range(len(cols)) for i in range(S)]]
    return Flow(frame, labels, cols, values)


def extend(ch, f, allow=("clip", "rename", "drop", "affine", "inplace", "perscn", "repeat", "derive", "nofault"), limit=24):
    """Append one drawn stage to the flow; False if the drawn one does not fit."""
    kind = ch.pick(allow, "stage")
    known = [n for n in (f.cols if f.outs is None else f.outs) if n in f.cols and isinstance(n, str)]
    rest = lambda ins, outs: list(outs) + ([] if f.outs is None else [n for n in f.outs if n not in ins])  # noqa
    if kind == "clip":
        lo, hi = ch.pick([None, 0, 1000.0, 50000.0], "lower"), ch.pick([None, 60000.0, 90000, 5e6], "upper")
        f.specs.append((hd.Clip, (), dict(lower=lo, upper=hi)))
        apply(f, lambda v: np.clip(v, -np.inf if lo is None else lo, np.inf if hi is None else hi))
    elif kind == "affine":
        a, b = ch.pick([2.0, 1.0, 0.5, -1.0], "a"), ch.pick([0.0, 7.0, -3.5], "b")
        f.specs.append((Affine, (a, b), {}))
        apply(f, lambda v: v * a + b)
    elif kind == "inplace":
        b = ch.pick([1, 5, -2], "b")
        f.specs.append((InPlace, (b,), {}))
        apply(f, lambda v: v + b)
    elif kind == "rename":
        if not known:
            return False
        old = ch.pick(known, "old name")
        new = ch.pick([n for n in ("p", "q", "r", "quantity") if n not in f.cols], "new name")
        f.specs.append((hd.Rename, (), {old: new}))
        f.outs = rest([old], [new])
        f.does(lambda m: [(lab, {new if n == old else n: v for n, v in d.items()}) for lab, d in m])
    elif kind == "drop":
        if f.outs is None or len(known) < 2:
            return False
        name = ch.pick(known, "dropped")
        f.specs.append((hd.Drop, ([name] if ch.chance(50, "as list") else name,), {}))
        f.outs = rest([name], [])
        f.does(lambda m: [(lab, {n: v for n, v in d.items() if n != name}) for lab, d in m])
    elif kind == "perscn":
        if not known:
            return False
        name, b = ch.pick(known, "column"), ch.pick([1.0, -4.0], "b")
        f.specs.append((PerScenario, (name, b), {}))
        f.outs = rest([name], [name])
        f.does(lambda m: [(lab, {n: (v + b if n == name else v) for n, v in d.items()}) for lab, d in m])
    elif kind == "derive":
        if not known:
            return False
        name = ch.pick(known, "column")
        out = ch.pick([n for n in ("u", "v", "w") if n not in f.cols] or [None], "derived")
        if out is None:
            return False
        f.specs.append((Derive, (name, out), {}))
        f.outs = rest([name], [name, out])
        f.does(lambda m: [(lab, dict(list(d.items()) + [(out, d[name] * 2.0)])) for lab, d in m])
    elif kind == "nofault":
        if "quantity" not in known:
            return False
        f.specs.append((hd.Fault, (), dict(loss=5, occur_freq=0, downtime_min=1, downtime_max=3, seed=ch.pick([None, 0, 7], "seed"))))
        f.outs = rest(["quantity"], ["quantity"])
        apply(f, lambda v: v)
    elif kind == "repeat":
        n = ch.between(1, 3, "times")
        if n * len(f.model) > limit:
            return False
        f.specs.append((hd.RepeatScenario, (n,), {}))
        f.does(lambda m: [(i, {k: v.copy() for k, v in m[i % len(m)][1].items()}) for i in range(n * len(m))])
    return True


def apply(f, fn):
    f.does(lambda m: [(lab, {n: fn(v) for n, v in d.items()}) for lab, d in m])


def to_shuffler(ch, f):
    known = [n for n in (f.cols if f.outs is None else f.outs) if n in f.cols and isinstance(n, str)]
    if not known:
        return False
    name = ch.pick(known, "sampled column")
    f.specs.append((hd.ToShuffler, (name,), {}))
    f.outs = [TOP] + ([] if f.outs is None else [n for n in f.outs if n != name])
    f.does(lambda m: [(lab, {TOP if n == name else n: v for n, v in d.items()}) for lab, d in m])
    return True


def draw_flow(ch, tag=None, stages=4, shuffled=True, H=None, S=None, **kw):
    f = draw_frame(ch, H=H, S=S, tag=tag)
    for _ in range(ch.between(0, stages, "stages")):
        extend(ch, f, **kw)
    if shuffled:
        to_shuffler(ch, f)
    return f


def diff_model(model, out):
    """How a produced frame differs from the model, None if it does not (column order is free)."""
    if not isinstance(out, pd.DataFrame):
        return "not a DataFrame but %s" % type(out).__name__
    want = {(str(lab), n): v for lab, d in model for n, v in d.items()}
    got = {}
    for j, key in enumerate(out.columns.tolist()):
        if not isinstance(key, tuple) or len(key) != 2:
            return "column %r" % (key,)
        k = (str(key[0]), key[1])
        if k in got:
            return "column %r twice" % (k,)
        got[k] = out.iloc[:, j].values
    if set(want) != set(got):
        return "columns %s instead of %s" % (sorted(got, key=str), sorted(want, key=str))
    for k, v in want.items():
        g = np.asarray(got[k], dtype=float)
        if g.shape != v.shape or not np.allclose(g, v, rtol=1e-12, atol=1e-9):
            return "column %r is %s instead of %s" % (k, g.tolist()[:8], v.tolist()[:8])
    return None
