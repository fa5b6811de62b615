"""Reference PV of the 3-D classes: the area analysis of both kernels interpreted from gfortran's IR inside the real
class, with PV and absolute vorticity of single cells symbolic (every relative order of the free cells and every bin is a
path decided by the solver), against the area rearrangement by definition."""
import math
import numpy as np
from checks import qg

BOUNDS = "PV (one level) or absolute vorticity (one level) generic concrete except 1-3 symbolic cells (north, south, equator, pole rows) that are the maximum, the minimum or range through half the span in between, the extremes themselves symbolic over a small part of the span; analysis grids of 5-9 latitudes (11 thorough), 3-5 longitudes, 4 levels, 3-8 bins, both hemispheres, global and northern-only, boundary index 0-2; rows of PV shifted in longitude against each other; a single outlier that leaves the rest of the globe in the topmost bin"
OUTSIDE = "more simultaneously free cells; larger grids; levels on which PV is constant"


def configs(tier):
    r = []
    base = [("NH18", 5, 3, None), ("NH18", 5, 3, 4), ("NH18", 7, 4, 5), ("NH18", 7, 3, 8), ("NH18", 9, 3, 5), ("NHN22", 5, 3, None), ("NHN22", 7, 4, None), ("NHN22", 9, 3, None)]
    if tier == "thorough":
        base += [("NH18", 9, 4, 7), ("NH18", 11, 3, 6), ("NHN22", 11, 4, None), ("NH18", 7, 5, 3)]
    for c, J, I, n in base:
        nd = J // 2 + 1
        fr = [("eq:mid", "nh:mid", 0), ("pole:mid", "sh:mid", 1), ("nh:max", 0), ("sh:min", 0), ("sh:min", "pole:mid", 1)]
        if tier == "thorough":
            fr += [("pole:max", "eq:mid", 1), ("eq:mid", "nh:mid", "sh:mid", 0), ("nh2:min", "nh:mid", 1), ("nh:max", "sh:min", 1)]
        for x, free in enumerate(fr):
            free, nh = free[:-1], free[-1]
            jbs = [0] if c == "NH18" or nd == 3 else [0, 1, 2][:nd - 2]
            r.append(dict(name="%s_%dx%d_bins%s_%s_nh%d" % (c, J, I, n, "+".join(free), nh), cls=c, J=J, I=I, n=n, free=free, nh=nh, jb=jbs[x % len(jbs)], K=4, what="value", eager=True))
            if c == "NHN22" and (x in (0, 2) or tier == "thorough"):
                for k in (1, 3):
                    r.append(dict(name="%s_%dx%d_vorticity%d_%s" % (c, J, I, k, "+".join(free)), cls=c, J=J, I=I, n=n, free=free, nh=nh, jb=jbs[x % len(jbs)], K=4, what="vorticity", level=k, eager=True))
        if J < 9 or tier == "thorough":
            r.append(dict(name="%s_%dx%d_bins%s_outlier" % (c, J, I, n), cls=c, J=J, I=I, n=n, free=("sh:out", "nh:low"), nh=0, jb=0, K=4, what="value", eager=True))
        r.append(dict(name="%s_%dx%d_bins%s_shifted" % (c, J, I, n), cls=c, J=J, I=I, n=n, free=("nh:mid", "sh:mid"), nh=0, jb=0, K=4, what="shift", eager=True))
    return r


RANGE = {"mid": (-1.2, 1.2), "max": (2.6, 2.7), "min": (-2.7, -2.6), "out": (0.2, 0.3), "low": (3.9, 4.1)}


def cells(free, J, I):
    pos = {"eq": (J // 2, 0), "nh": (J - 2, 1), "sh": (1, 2), "pole": (J - 1, 1), "nh2": (J // 2 + 1, 2)}
    return [pos[f.split(":")[0]] + RANGE[f.split(":")[1]] for f in free]


def field(h, c, name):
    J, I, K = c["J"], c["I"], c["K"]
    a = h.generic(name, (I, J, K), -1, 1) + 1.5 * np.sin(np.linspace(-math.pi / 2, math.pi / 2, J))[None, :, None]
    if any(":out" in f for f in c["free"]):
        a = 4.0 + 0.05 * a
    o = a.astype(object)
    if (name == "av") == (c["what"] == "vorticity"):
        for k in [c.get("level", 1)] if name == "av" else [K - 2]:
            for j, i, lo, hi in cells(c["free"], J, I):
                o[i, j, k] = h.num("%s[%d,%d,%d]" % (name, i, j, k), lo, hi)
    return o


def rows_shifted(o, by):
    r = o.copy()
    for j in range(o.shape[1]):
        r[:, j] = np.roll(r[:, j], by[j % len(by)], axis=0)
    return r


def analyse(h, c, pv, av):
    extra = dict(raise_error_for_nonconvergence=False) if c["cls"] == "NH18" else {}
    if c["n"]:
        extra["npart"] = c["n"]
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c["K"], nh=c["nh"], jb=c["jb"], sym="", **extra)
    if c["cls"] == "NH18":
        o.maxit = 1
    jd, K = d["nd"] - d["jb"], d["K"]
    caught = []

    def first(*a, **k):
        r = real(*a, **k)
        caught.append(r[4])
        return r

    real = h.pkg.oopinterface.compute_qref_and_fawa_first
    sub = dict(compute_qgpv=lambda *a, **k: (h.mk(pv), h.mk(av)))
    sub["compute_qgpv_direct_inv"] = sub["compute_qgpv"]
    if c["cls"] == "NHN22":
        n = jd - 2
        sub.update(compute_qref_and_fawa_first=first, matrix_b4_inversion=lambda *a, **k: (np.eye(n), np.zeros((n, n)), np.zeros((n, n)), np.zeros(n)),
                   matrix_after_inversion=lambda *a, **k: None,
                   upward_sweep=lambda *a, **k: (np.zeros((jd, K)), k["qref_over_cor"].copy(), np.zeros((jd, K))))
    with qg.replaced(h, **sub):
        o.interpolate_fields(return_named_tuple=False)
        o.compute_reference_states(return_named_tuple=False)
    return o, d, caught


def run(h, c):
    qg.stub_ranges()
    J, I, K = c["J"], c["I"], c["K"]
    pv, av = field(h, c, "pv"), field(h, c, "av")
    o, d, ck = analyse(h, c, pv, av)
    nd, a = d["nd"], qg.PAR["planet_radius"]
    Q = np.asarray(o.qref, dtype=object)
    lo = nd - 1 if c["nh"] else 0
    h.eq("rows", Q.shape[1], nd if c["nh"] else J)
    if c["what"] == "shift":
        o2, _, ck2 = analyse(h, c, rows_shifted(pv, [1, 0, 2, 2]), rows_shifted(av, [0, 2, 1]))
        h.eq("unchanged when rows are shifted", o2.qref, Q)
        for x, y in zip(ck, ck2):
            h.eq("circulation unchanged when rows are shifted", y[:, 1:], np.asarray(x)[:, 1:])
        return
    n = c["n"] or J
    for k in range(1, K - 1):
        for e, s in (("n", 1), ("s", -1)):
            if e == "s" and c["nh"]:
                continue
            x = {(i, j): (pv[i, j, k] if s > 0 else -pv[i, J - 1 - j, k]) for i in range(I) for j in range(J)}
            q, _ = spec(h, x, J, I, n, nd, a)
            at = [Q[k, nd - 1 + s * m - lo] * float(s) for m in range(nd)]
            for m in range(1, nd):
                h.eq("%s reference PV[%d,%d]" % (e, m, k), at[m], near(at[m], q, m))
                h.le("%s never decreasing[%d,%d]" % (e, m, k), at[m - 1] if m > 1 else at[m], at[m])
            h.eq("%s equator[%d]" % (e, k), at[0], 0.0, tol=1e-9)
            for y in x.values():
                h.le("%s at the pole the maximum[%d]" % (e, k), y, at[nd - 1])
            b = at[1]
            for y in x.values():
                b = y if bool(y < b) else b
            h.le("%s not below the minimum[%d]" % (e, k), b, at[1])
    for e, s, r in zip("ns", (1, -1), ck):
        r = np.asarray(r, dtype=object)
        for k in range(1, K):
            x = {(i, j): (av[i, j, k] if s > 0 else -av[i, J - 1 - j, k]) for i in range(I) for j in range(J)}
            _, cc = spec(h, x, J, I, n, nd, a)
            for m in range(nd - 1):
                h.eq("%s circulation[%d,%d]" % (e, m, k), r[m, k], near(r[m, k], cc, m))


def spec(h, *a):
    """specified values; on concrete floats with both ways to round the bin of the minimum"""
    s = [qg.contours(h, *a)] + ([] if h.sym else [qg.contours(h, *a, tie=1)])
    return [x[0] for x in s], [x[1] for x in s]


def near(code, cands, m):
    return cands[0][m] if len(cands) == 1 else min((c[m] for c in cands), key=lambda v: abs(v - code))
