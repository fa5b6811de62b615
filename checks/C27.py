"""stat_utils.calculate_covariance executed on two symbolic series of maps; every element compared with the
unbiased sample covariance of the two series at that point."""
import numpy as np

BOUNDS = "2..4 times, maps up to 3x3 (thorough 5 times, 3x4); all values in [-2,2]; ordinary size: 12 times of 9x10 (thorough 60 of 12x16)"
OUTSIDE = "longer series, larger maps; rounding"


def configs(tier):
    g = [(2, 2, 1), (3, 2, 3), (4, 3, 3), (3, 1, 2), (12, 9, 10)] + ([(5, 3, 4), (6, 2, 5), (2, 4, 2), (60, 12, 16)] if tier == "thorough" else [])
    return [dict(name="cov_t%d_%dx%d" % t, shape=list(t)) for t in g] + [dict(name="integers_" + "".join(i), shape=[3, 2, 2], ints=i) for i in (("a",), ("b",), ("a", "b"))]


def run(h, c):
    n, J, I = c["shape"]
    a, b = h.arr("a", (n, J, I), -2, 2), h.arr("b", (n, J, I), -2, 2)
    ka, kb = np.array(a), np.array(b)
    h.pkg.stat_utils.calculate_covariance(h.generic("oa", (n, J, I), -2, 2), h.generic("ob", (n, J, I), -2, 2))   # other data first
    r = h.pkg.stat_utils.calculate_covariance(a, b)
    sp = np.zeros((J, I), dtype=object)
    for j in range(J):
        for i in range(I):
            ma = sum(a[t, j, i] for t in range(n)) / n
            mb = sum(b[t, j, i] for t in range(n)) / n
            sp[j, i] = sum((a[t, j, i] - ma) * (b[t, j, i] - mb) for t in range(n)) / (n - 1)
    h.eq("covariance", r, sp)
    h.eq("input unchanged a", a, ka)
    h.eq("input unchanged b", b, kb)
