"""basis.lwa executed on symbolic field, reference profile, length elements and force; every element
compared with the exceedance integral written from its definition."""
import numpy as np
from fv.sym import ite

BOUNDS = "grids up to 6x4 (thorough 8x5) and of 31x12 (thorough 73x24) points; fields, profile and force in [-2,2], dmu in [0.1,2]; all real values in those boxes"
OUTSIDE = "larger grids; NaN/inf fields; rounding (real arithmetic, tolerance 1e-8 relative)"


def configs(tier):
    g = [(2, 1), (3, 2), (5, 3), (6, 4), (31, 12)] + ([(7, 4), (8, 5), (9, 3), (73, 24)] if tier == "thorough" else [])
    r = []
    for nlat, nlon in g:
        for part in (False, True):
            for nc in (False, True):
                r.append(dict(name="lwa_%dx%d_part%d_nc%d" % (nlat, nlon, part, nc), nlat=nlat, nlon=nlon, part=part, nc=nc))
    for n in (("q",), ("q", "Q"), ("nc",), ("dmu", "Q")):
        for part in (False, True):
            r.append(dict(name="lwa_integers_%s_part%d" % ("".join(n), part), nlat=4, nlon=3, part=part, nc=True, ints=n))
    return r


def spec(q, ref, dmu, nc=None):
    nlat, nlon = q.shape
    north = np.zeros((nlat, nlon), dtype=object)
    south = np.zeros((nlat, nlon), dtype=object)
    force = np.zeros((nlat, nlon), dtype=object)
    for j in range(nlat - 1):
        for i in range(nlon):
            for k in range(nlat):
                e = q[k, i] - ref[j]
                if k <= j:
                    w = ite(e > 0, 1.0, 0.0)
                    south[j, i] = south[j, i] + w * e * dmu[k]
                else:
                    w = ite(e < 0, -1.0, 0.0)
                    north[j, i] = north[j, i] + w * e * dmu[k]
                if nc is not None:
                    force[j, i] = force[j, i] + w * nc[k, i] * dmu[k]
    return north, south, force


def run(h, c):
    nlat, nlon = c["nlat"], c["nlon"]
    q = h.arr("q", (nlat, nlon), -2, 2)
    ref = h.arr("Q", (nlat,), -2, 2)
    dmu = h.arr("dmu", (nlat,), 0.1, 2)
    nc = h.arr("nc", (nlat, nlon), -2, 2) if c["nc"] else None
    keep = [np.array(x) for x in (q, ref, dmu)]
    o = [h.generic(n, s, 0.3, 1.9) for n, s in (("oq", (nlat, nlon)), ("oQ", (nlat,)), ("od", (nlat,)), ("on", (nlat, nlon)))]
    h.pkg.basis.lwa(nlon, nlat, o[0], o[1], o[2], return_partitioned_lwa=c["part"], ncforce=o[3])   # other data first
    res, sig = h.pkg.basis.lwa(nlon, nlat, q, ref, dmu, return_partitioned_lwa=c["part"], ncforce=nc)
    n, s, f = spec(q, ref, dmu, nc)
    if c["part"]:
        h.eq("anticyclonic", res[0], n)
        h.eq("cyclonic", res[1], s)
    else:
        h.eq("lwa", res, n + s)
    if c["nc"]:
        h.eq("bigsigma", sig, f)
    else:
        h.true("no force, no integral", sig is None)
    for a, b, nm in zip((q, ref, dmu), keep, ("vort", "qref", "dmu")):
        h.eq("input unchanged " + nm, a, b)
