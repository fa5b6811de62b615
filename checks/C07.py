"""utilities.static_stability and compute_qgpv_givenvort executed on symbolic fields; compared with the
area-weighted hemispheric means, their vertical differences and the stretching-term definition."""
import math
import numpy as np

BOUNDS = "kmax 3..5, nlat 4..7, nlon 1..3; every domain extent; temperatures in [-2,2], areas and stabilities in [0.2,2] symbolic; ordinary size: 9-12 levels, 20-21 latitudes, 7-9 longitudes, all values symbolic"
OUTSIDE = "larger grids; rounding; static stability near zero"


def configs(tier):
    r = []
    for k, j, i in [(3, 4, 2), (4, 5, 1), (3, 6, 2), (12, 20, 8)] + ([(5, 7, 3), (4, 6, 3)] if tier == "thorough" else []):
        for ext in ("default", "s", "n", "both"):
            for nd, ad in ((3, 2), (2, 1), (3, 1), (2, 2)):
                r.append(dict(name="stab_%d_%d_%d_%s_%d%d" % (k, j, i, ext, nd, ad), kind="stab", k=k, j=j, i=i, ext=ext, nd=nd, ad=ad))
    for k, j, i in [(3, 4, 2), (4, 5, 2), (5, 6, 1), (3, 7, 2), (11, 20, 9), (9, 21, 7)] + ([(6, 8, 3), (5, 9, 2)] if tier == "thorough" else []):
        for ns in (None, "half"):
            r.append(dict(name="qgpv_%d_%d_%d_%s" % (k, j, i, ns), kind="qgpv", k=k, j=j, i=i, ns=ns))
    for n in ("theta", "area"):
        r.append(dict(name="stab_integers_%s" % n, kind="stab", k=3, j=4, i=2, ext="default", nd=3, ad=2, ints=(n,)))
    for n in ("theta", "avort", "t0n"):
        r.append(dict(name="qgpv_integers_%s" % n, kind="qgpv", k=4, j=5, i=2, ns=None, ints=(n,)))
    return r


def run(h, c):
    K, J, I = c["k"], c["j"], c["i"]
    U = h.pkg.utilities
    z = np.array([0.0, 0.7, 1.9, 3.4, 4.2, 6.0, 7.1, 8.3, 9.0, 10.4, 12.1, 13.0][:K])
    if c["kind"] == "stab":
        shape = (K, J, I) if c["nd"] == 3 else (K, J)
        th = h.arr("theta", shape, -2, 2)
        area = h.arr("area", (J, I) if c["ad"] == 2 else (J,), 0.2, 2)
        kt = np.array(th)
        s = n = J // 2
        kw = {}
        if c["ext"] in ("s", "both"):
            s = kw["s_et"] = J // 2 - 1
        if c["ext"] in ("n", "both"):
            n = kw["n_et"] = J // 2 + 1
        U.static_stability(z + 0.5 * z ** 2, np.ones(np.shape(area)), h.generic("other", shape, -2, 2))    # other data first
        r = U.static_stability(z, area, th, **kw)
        zm = lambda k, j: sum(th[k, j, i] for i in range(I)) / I if c["nd"] == 3 else th[k, j]
        am = lambda j: sum(area[j, i] for i in range(I)) / I if c["ad"] == 2 else area[j]
        def mean(k, rows):
            return sum(zm(k, j) * am(j) for j in rows) / sum(am(j) for j in rows)
        south, north = range(s), range(J - n, J)
        t0n = [mean(k, north) for k in range(K)]
        t0s = [mean(k, south) for k in range(K)]
        def der(t):
            return [(t[min(k + 1, K - 1)] - t[max(k - 1, 0)]) / (z[min(k + 1, K - 1)] - z[max(k - 1, 0)]) for k in range(K)]
        for nm, x, y in zip(("t0_n", "t0_s", "stat_n", "stat_s"), r, (t0n, t0s, der(t0n), der(t0s))):
            h.eq(nm, x, y)
        h.eq("input unchanged", th, kt)
        return
    lat = np.linspace(-80, 85, J)
    if J % 2:
        lat = np.linspace(-85, 85, J)
    om = h.num("omega", 0.5, 2)
    H = 2.5
    av, th = h.arr("avort", (K, J, I), -2, 2), h.arr("theta", (K, J, I), -2, 2)
    tn, ts = h.arr("t0n", (K,), -2, 2), h.arr("t0s", (K,), -2, 2)
    sn, ss = h.arr("sn", (K,), 0.2, 2), h.arr("ss", (K,), 0.2, 2)
    keep = [np.array(x) for x in (av, th)]
    kw = {} if c["ns"] is None else {"nlat_s": J - J // 2}
    U.compute_qgpv_givenvort(0.3, J, I, K, 2 * z, lat, h.generic("oa", (K, J, I), -2, 2), h.generic("ob", (K, J, I), -2, 2), *[h.generic("oc", (K,), 0.2, 2)] * 4, scale_height=1.0)
    q, dz = U.compute_qgpv_givenvort(om, J, I, K, z, lat, av, th, tn, ts, sn, ss, scale_height=H, **kw)
    sq, sd = np.zeros((K, J, I), dtype=object), np.zeros((K, J, I), dtype=object)
    for j in range(J):
        t0, st = (ts, ss) if j < J // 2 else (tn, sn)
        for i in range(I):
            w = [math.exp(-z[k] / H) * (th[k, j, i] - t0[k]) / st[k] for k in range(K)]
            for k in range(K):
                lo, hi = max(k - 1, 0), min(k + 1, K - 1)
                d = math.exp(z[k] / H) * (w[hi] - w[lo]) / (z[hi] - z[lo])
                sd[k, j, i] = d
                sq[k, j, i] = av[k, j, i] + d * 2 * om * math.sin(math.radians(lat[j]))
    h.eq("qgpv", q, sq)
    h.eq("stretching", dz, sd)
    h.eq("avort unchanged", av, keep[0])
    h.eq("theta unchanged", th, keep[1])
