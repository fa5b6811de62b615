"""second output of basis.eqvlat_fawa on a symbolic field: all assignments of values to contour bins are enumerated by
the solver; the finite-amplitude wave activity is compared with the difference of the two circulations."""
import math
import numpy as np
from checks import C03

BOUNDS = ("fields of up to 8 points (thorough 10) on 2..6 latitudes, 2..6 (7) contour values, ranges as in C03, several positions of the extremes, a repeated "
          "maximum, generic and sphere-like areas; profiles compared at grid latitudes between -87 and 88 degrees; ordinary size: 15x8 (thorough 33x16) cells and 12 (30) contours with one symbolic cell")
OUTSIDE = "more points or contours; uniform fields; requested latitudes other than the rows of the field"


def configs(tier):
    g = [(3, 2, 3, 0, 5, 1), (3, 2, 4, 5, 0, 1), (2, 2, 5, 1, 2, 1), (4, 1, 2, 3, 0, 1), (4, 2, 3, 2, 5, 0), (5, 1, 6, 0, 3, 1), (6, 1, 3, 5, 2, 0)]
    if tier == "thorough":
        g += [(4, 2, 4, 2, 5, 1), (3, 3, 4, 8, 0, 0), (5, 2, 3, 1, 9, 0), (3, 2, 7, 4, 1, 1), (6, 1, 6, 0, 5, 1)]
    big = [dict(name="%dx%d_n%d" % (J, I, n), J=J, I=I, n=n, lo=7, hi=J * I - 9, free=0, eager=True, dup=False, few=few)
           for J, I, n, few in [(15, 8, 12, 49)] + ([(21, 12, 21, 80), (33, 16, 30, 161)] if tier == "thorough" else [])]     # ordinary sizes
    return big + [dict(name="%dx%d_n%d_%d%d_%s" % (J, I, n, lo, hi, "free" if fr else "unit"), J=J, I=I, n=n, lo=lo, hi=hi, free=fr, eager=True,
                 dup=(J * I >= 6)) for J, I, n, lo, hi, fr in g] + [
            dict(name="integers", J=4, I=3, n=5, lo=2, hi=7, free=0, eager=True, dup=False, intfield=1)]


def fawa(y, q, area, m, M, n, a):
    """minus the difference, per unit length of the equator, of the circulation north of each row and that of the
    rearranged field: cumulated from the south over the contour bins / from the north over the rows (trapezoids)"""
    J, I = q.shape
    c = [m + (M - m) * (k / (n - 1)) for k in range(n)]
    c[0], c[-1] = m, M
    below, circ = [0.0] * n, [0.0] * n
    for j in range(J):
        for i in range(I):
            b = 0
            for k in range(1, n):
                if q[j, i] >= c[k]:
                    b = k
                else:
                    break
            for k in range(b + 1, n):
                below[k] += area[j, i]
                circ[k] = circ[k] + area[j, i] * q[j, i]
    lat = [math.degrees(math.asin(x / (2 * math.pi * a ** 2) - 1)) for x in below]
    cref = C03.interp(y, lat, circ)
    row = [q[j].mean() * area[j].sum() for j in range(J)]
    cbar = [0.0] * J
    for j in range(J - 2, 0, -1):
        cbar[j] = cbar[j + 1] + 0.5 * (row[j + 1] + row[j])
    return [-(cbar[j] + cref[j]) / (2 * math.pi * a) for j in range(1, J)]


def run(h, c):
    J, I, n = c["J"], c["I"], c["n"]
    q, m, D = C03.field(h, "q", J, I, c["lo"], c["hi"], c["free"], 3 if c["dup"] else None)
    a = 1.3
    area = C03.areas(h, J, I, "generic" if J * I % 2 == 0 else "sphere", a)
    y = np.linspace(-87, 88, J)
    h.pkg.basis.eqvlat_fawa(y, h.generic("oq", (J, I), -3, 3), C03.areas(h, J, I, "sphere" if J * I % 2 == 0 else "generic", 2.0), n, planet_radius=2.0)
    r, f = h.pkg.basis.eqvlat_fawa(y, q, area, n, planet_radius=a)
    h.true("one value per row north of the first", tuple(f.shape) == (J - 1,))
    h.eq("wave activity", f, fawa(y, q, area, m, m + D, n, a))
    r2, f2 = h.pkg.basis.eqvlat_fawa(y, q, area, n, a, True)
    h.eq("same with positional arguments", f2, f)
    h.eq("same profile", r2, r)
