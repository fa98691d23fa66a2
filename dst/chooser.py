"""Every random decision of a simulated run goes through one Chooser.

A run is a pure function of the sequence of integers the chooser returns, so one seed is one
execution, a recorded sequence replays it exactly, and shrinking works on the sequence alone.
Value 0 always stands for the simplest alternative (no fault, no preemption, smallest size).
"""
import random


class Chooser:
    def __init__(self, seed=None, replay=None):
        self.replay = list(replay) if replay is not None else None
        self.rng = random.Random(seed) if replay is None else None
        self.pos = 0
        self.taken = []
        self.labels = []

    def below(self, n, label=""):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        if self.replay is None:
            v = self.rng.randrange(n)
        elif self.pos < len(self.replay):
            v = self.replay[self.pos]
            if v >= n:
                v = n - 1
        else:
            v = 0
        self.pos += 1
        self.taken.append(v)
        self.labels.append((label, n))
        return v

    def between(self, lo, hi, label=""):
        """integer in [lo, hi], lo being the simplest"""
        return lo + self.below(hi - lo + 1, label)

    def pick(self, seq, label=""):
        return seq[self.below(len(seq), label)]

    def weighted(self, pairs, label=""):
        """pairs [(item, weight)...]; the first item is the simplest"""
        total = sum(w for _, w in pairs)
        v = self.below(total, label)
        for item, w in pairs:
            if v < w:
                return item
            v -= w
        return pairs[-1][0]

    def chance(self, percent, label=""):
        """True with the given percentage; 0 replays as False"""
        if percent <= 0:
            return False
        return self.below(1000, label) >= 1000 - int(percent * 10)

    def unit(self, label=""):
        """float in [0, 1)"""
        return self.below(1 << 20, label) / float(1 << 20)

    def seed32(self, label=""):
        return self.below(1 << 31, label)

    def shuffled(self, seq, label=""):
        """permutation; all-zero choices keep the order"""
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.below(len(seq), label)))
        return out

    def subset(self, seq, percent, label=""):
        return [x for x in seq if self.chance(percent, label)]
