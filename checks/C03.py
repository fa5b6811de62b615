"""basis.eqvlat_fawa and basis.eqvlat_vgrad executed on a symbolic field (minimum m, range D and every other
value symbolic); all assignments of values to contour bins are enumerated by the solver; on each the profile is
compared with the interpolation of contour value against the latitude enclosing the area below it."""
import math
import numpy as np

BOUNDS = ("fields of up to 8 points (thorough 10), 2..6 (9) contour values, 2..6 requested latitudes; minimum in [-2,2] and range in [0.5,3] (or one "
          "generic pair), all other values anywhere between (outside a 1e-9 neighbourhood of bin boundaries), several positions of the extremes, also "
          "a repeated maximum; areas generic constants and sphere-like areas; ordinary size: 15x8 (thorough 33x16) cells and 12 (30) contours with one symbolic cell")
OUTSIDE = "more points or contours; uniform fields (zero range); areas summing to more than the sphere"


def configs(tier):
    g = [(3, 2, 3, 0, 5, 1), (3, 2, 4, 5, 0, 0), (2, 2, 5, 1, 2, 1), (4, 1, 2, 3, 0, 1), (3, 2, 3, 1, 4, 0), (5, 1, 4, 2, 0, 0), (3, 2, 4, 4, 1, 1), (4, 2, 3, 2, 5, 0), (5, 1, 6, 0, 3, 1)]
    if tier == "thorough":
        g += [(4, 2, 4, 2, 5, 1), (3, 3, 4, 8, 0, 0), (5, 2, 3, 1, 9, 0), (3, 2, 7, 4, 1, 1), (4, 1, 9, 1, 2, 1), (4, 2, 2, 2, 5, 1), (6, 1, 6, 0, 5, 1)]
    r = []
    for J, I, n, lo, hi, free in g:
        for what in ("fawa", "vgrad", "novgrad"):
            r.append(dict(name="%s_%dx%d_n%d_%d%d_%s" % (what, J, I, n, lo, hi, "free" if free else "unit"), J=J, I=I, n=n, lo=lo, hi=hi,
                          free=free, what=what, eager=True, dup=(J * I >= 6)))
    for J, I, n, few in [(15, 8, 12, 49)] + ([(21, 12, 21, 80), (33, 16, 30, 161)] if tier == "thorough" else []):     # ordinary sizes
        for what in ("fawa", "vgrad"):
            r.append(dict(name="%s_%dx%d_n%d" % (what, J, I, n), J=J, I=I, n=n, lo=7, hi=J * I - 9, free=0, what=what, eager=True, dup=False, few=few))
    for what in ("fawa", "vgrad"):
        r.append(dict(name="%s_integers" % what, J=4, I=3, n=5, lo=2, hi=7, free=0, what=what, eager=True, dup=False, intfield=1))
    return r


def field(h, name, J, I, lo, hi, free=True, dup=None):
    """values m + D t with t = 0 at flat index lo and 1 at hi; m and D symbolic (free) or generic constants;
    cell dup repeats the maximum"""
    if h.cfg.get("intfield"):
        v = np.round(h.generic(name + ".int", (J, I), -9.4, 9.4)).astype(int)
        v.flat[lo], v.flat[hi] = -10, 11
        return h.lay(v), -10, 21
    if free:
        m, D = h.num(name + ".min", -2, 2), h.num(name + ".range", 0.5, 3)
    else:
        m, D = -0.7312, 1.8941
    v = np.empty((J, I), dtype=object)
    for k in range(J * I):
        ix = np.unravel_index(k, (J, I))
        if k == lo:
            v[ix] = m
        elif k == hi or k == dup:
            v[ix] = m + D
        else:
            v[ix] = m + D * h.cell("%s.t%d" % (name, k), 0, 1)
    return h.mk(v), m, D


def areas(h, J, I, kind, a=1.0):
    """cell areas adding up to the sphere of radius a"""
    if kind == "generic":
        w = h.generic("area", (J, I), 0.5, 1.5)
    else:
        lat = np.linspace(-90, 90, J)
        w = np.cos(np.deg2rad(lat))[:, None] * np.ones((J, I)) + 0.05
    return w / w.sum() * 4 * math.pi * a ** 2


def interp(y, lat, val):
    """val at the breakpoints lat (ascending, possibly repeated), clamped"""
    out = []
    for t in y:
        k = -1
        for i in range(len(lat)):
            if lat[i] <= t:
                k = i
        if k < 0:
            out.append(val[0])
        elif k == len(lat) - 1:
            out.append(val[-1])
        else:
            w = (t - lat[k]) / (lat[k + 1] - lat[k])
            out.append(val[k] + w * (val[k + 1] - val[k]))
    return out


def profile(ylat, q, area, m, M, n, a=1.0, vg=None):
    """the definition: contour values, area below each, latitude, interpolation"""
    J, I = q.shape
    c = [m + (M - m) * (k / (n - 1)) for k in range(n)]
    c[0], c[-1] = m, M
    below = [0.0] * n
    tot = [0.0] * n
    num = [0.0] * n
    for j in range(J):
        for i in range(I):
            b = 0                      # the bin [c_b, c_{b+1}) holding the value; the top value forms bin n-1
            for k in range(1, n):
                if q[j, i] >= c[k]:
                    b = k
                else:
                    break
            for k in range(b + 1, n):
                below[k] += area[j, i]
            tot[b] += area[j, i]
            if vg is not None:
                num[b] = num[b] + area[j, i] * vg[j, i]
    lat = [math.degrees(math.asin(x / (2 * math.pi * a ** 2) - 1)) for x in below]
    r = interp(ylat, lat, c)
    if vg is None:
        return r, None
    # bin b of the code's (one-based) numbering is [c_{b-1}, c_b)
    mean = [0.0] + [num[b] / tot[b] if tot[b] else 0.0 for b in range(n - 1)]
    br = [0.0] + [0.5 * (mean[k - 1] + mean[k + 1]) for k in range(1, n - 1)] + [0.0]
    return r, interp(ylat, lat, br)


def run(h, c):
    J, I, n = c["J"], c["I"], c["n"]
    q, m, D = field(h, "q", J, I, c["lo"], c["hi"], c["free"], 3 if c["dup"] else None)
    a = 1.3
    area = areas(h, J, I, "generic" if J * I % 2 else "sphere", a)
    y = np.linspace(-87, 88, J)
    B = h.pkg.basis
    keep, ka = np.array(q), area.copy()
    vg = h.arr("vg", (J, I), -2, 2) if c["what"] == "vgrad" else None
    R = 6.378e6
    h.eq("default radius", B.eqvlat_vgrad(y, q, area * (R / a) ** 2, n)[0], B.eqvlat_fawa(y, q, area * (R / a) ** 2, n, output_fawa=False)[0])
    h.eq("radius in the same unit as the areas", B.eqvlat_fawa(y, q, area * (R / a) ** 2, n)[0], B.eqvlat_fawa(y, q, area, n, planet_radius=a)[0])
    oq, oa = h.generic("oq", (J, I), -3, 3), areas(h, J, I, "sphere" if J * I % 2 else "generic", 2.0)   # other data first
    B.eqvlat_fawa(y, oq, oa, n, planet_radius=2.0)
    B.eqvlat_vgrad(y, oq, oa, n, planet_radius=2.0, vgrad=-oq)
    if c["what"] == "fawa":
        r = B.eqvlat_fawa(y, q, area, n, planet_radius=a, output_fawa=False)
        r2 = B.eqvlat_fawa(y, q, area, n, planet_radius=a)
        h.eq("profile with fawa output", r2[0], r[0])
        h.true("no fawa", r[1] is None)
    elif vg is not None:
        r = B.eqvlat_vgrad(y, q, area, n, planet_radius=a, vgrad=vg)
    else:
        r = B.eqvlat_vgrad(y, q, area, n, planet_radius=a)
        h.true("no bracket", r[1] is None)
    sp, br = profile(y, q, area, m, m + D, n, a, vg)
    h.eq("qref", r[0], sp)
    if vg is not None:
        h.eq("bracket", r[1], br)
    q0 = r[0]
    h.le("monotone", q0[:-1], q0[1:])
    h.le("above minimum", np.array([m] * len(y), dtype=object), q0)
    h.le("below maximum", q0, np.array([m + D] * len(y), dtype=object))
    h.eq("input unchanged", q, keep)
    h.eq("area unchanged", area, ka)
