"""Statistics without libraries."""
import math


def log_q(a, x):
    """log of the upper regularized incomplete gamma function Q(a, x)."""
    if x <= 0:
        return 0.0
    pre = a * math.log(x) - x - math.lgamma(a)
    if x < a + 1:
        term = total = 1.0 / a
        n = a
        for _ in range(100000):
            n += 1
            term *= x / n
            total += term
            if term < total * 1e-16:
                break
        p = math.exp(pre) * total
        return math.log1p(-p) if p < 1 else -math.inf
    tiny = 1e-300
    b = x + 1 - a
    c = 1 / tiny
    d = 1 / b
    h = d
    for i in range(1, 100000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = d if abs(d) > tiny else tiny
        c = b + an / c
        c = c if abs(c) > tiny else tiny
        d = 1 / d
        h *= d * c
        if abs(d * c - 1) < 1e-15:
            break
    return pre + math.log(h)


def chi2_log10p(counts, expected):
    """log10 of the p-value of counts against equal expectations."""
    k = len(counts)
    if k < 2:
        return 0.0
    x = sum((c - expected) ** 2 for c in counts) / expected
    return log_q((k - 1) / 2.0, x / 2.0) / math.log(10)


def log_binom_tail(k, n, p):
    """log10 of the smaller tail P(X<=k) or P(X>=k), X ~ B(n, p) (Chernoff bound, so an upper bound)."""
    if n == 0:
        return 0.0
    f = k / n
    if p in (0, 1):
        return 0.0 if f == p else -math.inf
    kl = 0.0
    if f > 0:
        kl += f * math.log(f / p)
    if f < 1:
        kl += (1 - f) * math.log((1 - f) / (1 - p))
    return -n * kl / math.log(10)
